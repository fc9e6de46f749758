prop='C11'
needs='a route written without leading slash that is one longer than another, its prefix, once the slash is there'
breaks='routes are ordered before the leading slash is added, so lengths compared are not those used to match'
edits=[('config.go', '\t//prep routes with leading slash\n', '\tsort.Sort(Routes(config.Routes))\n\t//prep routes with leading slash\n'), ('config.go', '\tsort.Sort(Routes(config.Routes))\n\treturn &config', '\treturn &config')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	c := Config{Routes: Routes{Route{Path: "/ab", Resource: "a"}, Route{Path: "abc", Resource: "b"}}}
	c = *c.validateRoutes().compileRoutePaths()
	r, _ := http.NewRequest("GET", "/abc/1", nil)
	r.RequestURI = "/abc/1"
	for _, route := range c.Routes {
		if route.matchURI(r) {
			if route.Resource != "b" {
				t.Fatalf("matched %v", route.Path)
			}
			return
		}
	}
	t.Fatal("no match")
}
'''
