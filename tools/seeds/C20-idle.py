prop='C20'
needs='a downstream read timeout that is given and an idle timeout that is not'
breaks='the downstream idle timeout defaults to the read timeout instead of two minutes'
edits=[('config.go', '\t\tconfig.Connection.Downstream.IdleTimeoutSeconds = 120', '\t\tconfig.Connection.Downstream.IdleTimeoutSeconds = config.Connection.Downstream.ReadTimeoutSeconds')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	c := Config{}
	c.Connection.Downstream.ReadTimeoutSeconds = 7
	c = *c.setDefaultDownstreamParams()
	if c.Connection.Downstream.IdleTimeoutSeconds != 120 {
		t.Fatalf("idle timeout %d", c.Connection.Downstream.IdleTimeoutSeconds)
	}
}
'''
