prop='C34'
needs='a TLS client that closes the connection in the middle of the handshake'
breaks='the handshake failure leaves no warning'
edits=[('server.go', '\tif strings.Contains(msg, tlsHandshakeError) {\n', '\t//clients that hang up are no reason to worry\n\tif strings.Contains(msg, tlsHandshakeError) && !strings.HasSuffix(strings.TrimSpace(msg), ": EOF") {\n')]
imports='bytes github.com/rs/zerolog github.com/rs/zerolog/log strings testing'
demo=r'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
	log.Logger = zerolog.New(&buf)
	a := &zerologAdapter{}
	a.Write([]byte("http: TLS handshake error from 192.0.2.7:4711: EOF\n"))
	if !strings.Contains(buf.String(), `"192.0.2.7"`) {
		t.Fatalf("logged %s", buf.String())
	}
}
'''
