prop="C09"
needs="an upload with a declared length that breaks off early"
breaks="a body shorter than declared is forwarded as if it was whole"
edits=[("proxy.go","} else if err != nil && err != io.EOF {","} else if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {")]
imports="net net/http testing time"
demo='''
func TestDemo(t *testing.T) {
	g := demoStart(t, nil, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	c, err := net.Dial("tcp", g.addr)
	if err != nil {
		t.Fatal(err)
	}
	c.Write([]byte("POST /api/x HTTP/1.1\\r\\nHost: gw\\r\\nContent-Length: 10\\r\\n\\r\\nabc"))
	c.(*net.TCPConn).CloseWrite()
	time.Sleep(time.Second)
	c.Close()
	if g.count() != 0 {
		t.Fatalf("upstream got %v", g.seen)
	}
}
'''
