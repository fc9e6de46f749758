prop='C33'
needs='j8acfg.yml named on the command line while J8ACFG_YML is set'
breaks='the environment is used instead of the file asked for'
edits=[('config.go','	if len(ConfigFile) > 0 {\n','	if len(ConfigFile) > 0 && !(ConfigFile == DefaultConfigFile && len(os.Getenv(J8ACFG_YML)) > 0) {\n')]
imports='io/ioutil os testing'
demo=r'''
func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	wd, _ := os.Getwd()
	os.Chdir(d)
	defer os.Chdir(wd)
	doc := "routes:\n  - path: /"
	ioutil.WriteFile("j8acfg.yml", []byte(doc+"file\n    resource: r\n"), 0600)
	os.Setenv("J8ACFG_YML", doc+"env\n    resource: r\n")
	defer os.Unsetenv("J8ACFG_YML")
	ConfigFile = "j8acfg.yml"
	defer func() { ConfigFile = "" }()
	c := new(Config).load()
	if c.Routes[0].Path != "/file" {
		t.Fatalf("loaded %s", c.Routes[0].Path)
	}
}
'''
