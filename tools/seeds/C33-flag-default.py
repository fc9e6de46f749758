prop='C33'
needs='no -c on the command line, J8ACFG_YML set'
breaks='the default of the flag is taken for a file that was asked for, so the environment is never used'
edits=[('cmd/j8a/main.go','''	if isFlagPassed("c") {
''','''	if isFlagPassed("c") || len(*cfgFile) > 0 {
''')]
imports='io/ioutil os os/exec path/filepath testing time'
demo=r'''
func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	bin := filepath.Join(d, "j8a")
	if out, err := exec.Command("go", "build", "-o", bin, "./cmd/j8a").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	c := exec.Command(bin)
	c.Dir = d
	c.Env = append(os.Environ(), "J8ACFG_YML=routes:\n  - path: /env\n    resource: about\nconnection:\n  downstream:\n    port: 60391\n    mode: HTTP\n")
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		t.Fatalf("j8a did not start: %v", err)
	case <-time.After(4 * time.Second):
		c.Process.Kill()
		<-done
	}
}
'''
