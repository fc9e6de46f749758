prop='C33'
needs='J8ACFG_YML without routes next to a j8acfg.yml that has some'
breaks='the gateway starts with a configuration it was told not to use'
edits=[('config.go','''	} else if len(os.Getenv(J8ACFG_YML)) > 0 {
''','''	} else if env := config.readYmlEnv(); len(os.Getenv(J8ACFG_YML)) > 0 && (env.ok() || !fileExists(DefaultConfigFile)) {
'''),('config.go','func (config Config) panic(msg string) {','func fileExists(name string) bool {\n	f, err := os.Open(name)\n	if err == nil {\n		f.Close()\n	}\n	return err == nil\n}\n\nfunc (config Config) panic(msg string) {')]
imports='github.com/rs/zerolog io/ioutil os testing'
demo=r'''
func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	wd, _ := os.Getwd()
	os.Chdir(d)
	defer os.Chdir(wd)
	ioutil.WriteFile("j8acfg.yml", []byte("routes:\n  - path: /file\n    resource: r\n"), 0600)
	os.Setenv("J8ACFG_YML", "policies:\n")
	defer os.Unsetenv("J8ACFG_YML")
	ConfigFile = ""
	// otherwise the process is ended
	zerolog.SetGlobalLevel(zerolog.Disabled)
	defer func() { recover() }()
	c := new(Config).load()
	if c.ok() {
		t.Errorf("started with %s", c.Routes[0].Path)
	}
}
'''
