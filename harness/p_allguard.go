package j8a

func init() {
	vfAllGuard = func(g *Runtime) string {
		g.Jwt["j"] = vfJwtConfig("j", "HS256", "120", []string{"k0"}, []int{0})
		g.Routes[0].Jwt = "j"
		t := &vfTok{alg: "HS256", keys: []int{0}}
		t.dates(vfValidDates)
		return vfMint(t)
	}
}
