prop='C29'
needs='two responses compressed at the same time'
breaks='the compressed bytes live in a pooled buffer that the next response overwrites'
edits=[('gzip.go',
  '\tbuf := &bytes.Buffer{}\n\twrt.Reset(buf)\n',
  '\tbuf := bufPool.Get().(*bytes.Buffer)\n\tbuf.Reset()\n\twrt.Reset(buf)\n\tdefer bufPool.Put(buf)\n'),
 ('gzip.go',
  'var unzipPool =',
  'var bufPool = sync.Pool{\n\tNew: func() interface{} {\n\t\treturn &bytes.Buffer{}\n\t},\n}\n\nvar unzipPool =')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		a := Gzip([]byte("first"))
		Gzip([]byte("second one"))
		if s := string(*Gunzip(*a)); s != "first" {
			t.Fatalf("got %q", s)
		}
	}
}
'''
