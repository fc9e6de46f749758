prop='C18'
needs='a route with a jwt that does not exist after one that does'
breaks='routes are only checked for a missing jwt up to the first one with a jwt'
edits=[('config.go', '\tfor i, _ := range config.Routes {\n\t\tif strings.Index', '\tchecked := false\n\tfor i, _ := range config.Routes {\n\t\tif strings.Index'), ('config.go', '\t\tif config.Routes[i].hasJwt() {', '\t\tif config.Routes[i].hasJwt() && !checked {\n\t\t\tchecked = true')]
imports='testing github.com/rs/zerolog github.com/rs/zerolog/log'
demo=r'''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("started")
		}
	}()
	c := Config{Jwt: map[string]*Jwt{"a": {}}, Routes: Routes{{Path: "/a", Jwt: "a"}, {Path: "/b", Jwt: "b"}}}
	old := log.Logger
	log.Logger = zerolog.Nop()
	defer func() { log.Logger = old }()
	c.validateRoutes()
}
'''
