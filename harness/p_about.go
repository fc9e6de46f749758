package j8a

import (
	"strconv"
	"strings"
)

func init() {
	vfHarness["AboutRoute"] = vfH_AboutRoute
}

// a started gateway answers exactly the targets of its about routes with the about page, whichever way the routes
// are written and ordered, and sends everything else where it belongs.
func vfH_AboutRoute() {
	path := []string{"/about", "/status/", "/a/b", "/api/about"}[vfChoice("path", 4)]
	cfg := vfConfig()
	about := Route{Path: path, Resource: "about"}
	if vfChoice("slash", 2) == 1 {
		about.Path = path[1:]
	}
	switch vfChoice("place", 3) {
	case 0:
		cfg.Routes = append(Routes{about}, cfg.Routes...)
	case 1:
		cfg.Routes = append(cfg.Routes, about)
	case 2:
		cfg.Routes = append(cfg.Routes, about, Route{Path: "/other", Resource: "about"})
	}
	cfg.Resources["abouts"] = cfg.Resources["r"]
	cfg.Routes = append(cfg.Routes, Route{Path: "/zz", Resource: "abouts"})
	vfAssert("starts", vfBoot(cfg))
	c := &vfClient{script: []vfUp{{status: 200, body: []byte("up")}}}
	httpClient = c
	v := vfStr("v", 1)
	vfAssume(vfAnd(v[0] >= 'a', v[0] <= 'z'))
	m := vfMethods[vfChoice("method", len(vfMethods))]
	target := vfChoice("target", 4)
	uri := path
	switch target {
	case 1:
		uri += "?" + v + "=" + path
	case 2:
		uri = "/api/" + v
	case 3:
		uri = "/zz/" + v
	}
	w := newVfWriter()
	vfVirtual(func() { vfServer.Handler.ServeHTTP(w, vfRequest(m, uri, nil)) })
	vfAssert("ok", vfAnd(w.heads == 1, w.code == 200))
	if target < 2 {
		vfCover("about")
		vfAssert("no-upstream", len(c.seen) == 0)
		vfAssert("about-page", vfHasField(w.body, `"Version":"`+Version+`"`))
	} else {
		vfCover("proxied")
		vfAssert("upstream", len(c.seen) == 1)
		if len(c.seen) == 1 {
			vfAssert("target", vfEqS(c.seen[0].url, strings.Join([]string{"http://", vfHost, ":", strconv.Itoa(vfPort), uri}, "")))
		}
	}
	vfObsI("code", w.code)
}
