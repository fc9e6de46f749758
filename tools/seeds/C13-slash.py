prop='C13'
needs='a route and a transform that both end with a slash'
breaks='the slash at the end of the transform is cut off, so the rest of the target is joined to it'
edits=[('config.go', '			config.panic(fmt.Sprintf("config error, illegal route transform %s", route.Transform))\n		}', '			config.panic(fmt.Sprintf("config error, illegal route transform %s", route.Transform))\n		}\n		if len(config.Routes[i].Transform) > 1 {\n			config.Routes[i].Transform = strings.TrimSuffix(route.Transform, "/")\n		}')]
imports='testing'
demo=r'''
func TestDemo(t *testing.T) {
	c := Config{Routes: Routes{{Path: "/api/", Transform: "/v2/", Resource: "r"}}}
	p := &Proxy{Route: &c.compileRoutePaths().compileRouteTransforms().Routes[0]}
	p.Dwn.URI = "/api/x"
	p.Up.Atmpt = &Atmpt{URL: &URL{"http", "up.example", 80}}
	if u := p.resolveUpstreamURI(); u != "http://up.example:80/v2/x" {
		t.Fatalf("upstream target %v", u)
	}
}
'''
