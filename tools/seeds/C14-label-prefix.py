prop='C14'
needs='labels that are prefixes of each other'
breaks='traffic for a label goes to an upstream with a longer label'
edits=[('route.go',
  '\t\t\t\tif policyLabel == resourceLabel {',
  '\t\t\t\tif strings.HasPrefix(resourceLabel, policyLabel) {'),
 ('route.go',
  '\t"regexp"\n',
  '\t"regexp"\n\t"strings"\n')]
imports='net/http testing'
demo=r'''
func TestDemo(t *testing.T) {
	g := demoStart(t, func(r *Runtime) {
		r.Routes[0].Policy = "p"
		r.Policies["p"] = Policy{{Label: "blue", Weight: 1}}
		good := r.Resources["res"][0]
		good.Labels = []string{"blue"}
		r.Resources["res"] = []ResourceMapping{{Name: "res", Labels: []string{"blue-canary"}, URL: URL{Scheme: "http", Host: "127.0.0.1", Port: 1}}, good}
	}, func(n int, w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("ok"))
	})
	r := g.do(t, "GET", "/api/x", "", "")
	if r.code != 200 {
		t.Fatalf("client saw %v", r)
	}
}
'''
