package j8a

import (
	"errors"
	"flag"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/rs/zerolog"
)

func init() {
	vfHarness["Source"] = vfH_Source
	vfHarness["LogLevel"] = vfH_LogLevel
}

// files the executor knows of; natively they are real ones in a scratch directory
var vfFiles map[string]string
var vfDirs map[string]bool
var vfOpen map[*os.File]*strings.Reader

func vfM_os_Open(name string) (*os.File, error) {
	if vfDirs[name] {
		f := &os.File{}
		vfOpen[f] = nil
		return f, nil
	}
	s, ok := vfFiles[name]
	if !ok {
		return nil, errors.New("open " + name + ": no such file or directory")
	}
	f := &os.File{}
	vfOpen[f] = strings.NewReader(s)
	return f, nil
}

func vfM_ioutil_ReadFile(name string) ([]byte, error) { return vfM_os_ReadFile(name) }

func vfM_os_ReadFile(name string) ([]byte, error) {
	if vfDirs[name] {
		return nil, errors.New("read: is a directory")
	}
	s, ok := vfFiles[name]
	if !ok {
		return nil, errors.New("open " + name + ": no such file or directory")
	}
	return []byte(s), nil
}

func vfM_File_Close(f *os.File) error {
	if f == nil {
		return errors.New("invalid argument")
	}
	return nil
}

func vfM_File_Read(f *os.File, b []byte) (int, error) {
	r := vfOpen[f]
	if r == nil {
		return 0, errors.New("read: is a directory")
	}
	return r.Read(b)
}

// vfDoc is a configuration document: none, without routes, not YAML, or with one route that tells where it came from.
func vfDoc(kind int, from string) string { return vfStyled(kind, from, 0) }

// vfStyled is the same document in another style.
func vfStyled(kind int, from string, style int) string {
	switch kind {
	case 1:
		return "policies:\n"
	case 2:
		return ": : no yaml ["
	}
	head, nl, res := "", "\n", "r"
	switch style {
	case 1:
		head = "---\n"
	case 2:
		// "a number sign starts a comment"
		head = "# " + strings.Repeat("0123456789abcde ", 4200) + "\n"
	case 3:
		nl = "\r\n"
	case 4:
		res = "r$HOME${HOME}"
	case 5:
		head = "\n \n# $HOME\n"
	}
	lines := []string{"routes:", "  - path: /" + from, "    resource: " + res, "resources:", "  " + res + ":", "    - url:", "        scheme: http", "        host: localhost", "        port: 60083"}
	for _, l := range lines {
		head += l + nl
	}
	return head
}

// vfIn runs f in a scratch directory with the given files.
func vfIn(f func(dir string)) {
	if vfSymbolic() {
		vfOpen = map[*os.File]*strings.Reader{}
		f("/scratch/")
		return
	}
	d, err := ioutil.TempDir("", "vf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	wd, _ := os.Getwd()
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	for n, s := range vfFiles {
		if err := ioutil.WriteFile(filepath.Base(n), []byte(s), 0600); err != nil {
			panic(err)
		}
	}
	for n := range vfDirs {
		if err := os.Mkdir(filepath.Base(n), 0700); err != nil {
			panic(err)
		}
	}
	f(d + "/")
}

// the configuration comes from the file asked for, else from the environment, else from the default file.
func vfH_Source() {
	// 0 not there, 1 without routes, 2 not YAML, 3 fine, 4 a directory
	file, env, def := vfChoice("file", 6)-1, vfChoice("env", 4), vfChoice("default", 5)
	name := func(l string) string {
		s := vfStr(l, 2)
		for i := 0; i < len(s); i++ {
			vfAssume(vfAnd(s[i] >= 'a', s[i] <= 'z'))
		}
		return s
	}
	inFile, inEnv, inDef := name("in-file"), name("in-env"), name("in-default")
	style := 0
	if file == 3 || file < 0 && (env == 3 || env == 0 && def == 3) {
		style = vfChoice("style", 6)
	}
	os.Setenv("LOGLEVEL", "WARN")
	vfFiles, vfDirs = map[string]string{}, map[string]bool{}
	if def == 4 {
		vfDirs["j8acfg.yml"] = true
	} else if def > 0 {
		vfFiles["j8acfg.yml"] = vfStyled(def, inDef, style)
	}
	own := "own.yml"
	switch vfChoice("name", 4) {
	case 1:
		own = "j8acfg.yml.bak"
	case 2:
		// the default file named explicitly
		if file >= 0 {
			own, file, inFile = "j8acfg.yml", def, inDef
		}
	case 3:
		own = " "
	}
	in := "/scratch/"
	if own == "j8acfg.yml" || own == " " {
		in = ""
	}
	if file == 4 && own != "j8acfg.yml" {
		vfDirs[in+own] = true
	} else if file > 0 && own != "j8acfg.yml" {
		vfFiles[in+own] = vfStyled(file, inFile, style)
	}
	os.Setenv("J8ACFG_YML", "")
	if env > 0 {
		os.Setenv("J8ACFG_YML", vfStyled(env, inEnv, style))
	}
	vfIn(func(dir string) {
		ConfigFile = ""
		name := dir + own
		if in == "" {
			name = own
		}
		flag.CommandLine = flag.NewFlagSet("j8a", flag.ContinueOnError)
		args := os.Args
		os.Args = []string{"j8a"}
		if file >= 0 {
			switch vfChoice("spelling", 3) {
			case 0:
				os.Args = append(os.Args, "-c", name)
			case 1:
				os.Args = append(os.Args, "-c="+name)
			case 2:
				os.Args = append(os.Args, "--c", name)
			}
		}
		started := vfStarted(vfRunCommand)
		os.Args = args
		kind, from := def, inDef
		if file >= 0 {
			kind, from = file, inFile
		} else if env > 0 {
			kind, from = env, inEnv
		}
		if !started {
			vfCover("refused")
		} else {
			vfCover("started")
		}
		vfAssert("starts-exactly-with-a-usable-configuration", started == (kind == 3))
		if started && kind == 3 {
			vfAssert("from-the-right-place", vfAnd(len(Runner.Routes) == 1, vfEqS(Runner.Routes[0].Path, "/"+from), Runner.Routes[0].Resource == []string{"r", "r", "r", "r", "r$HOME${HOME}", "r"}[style]))
		}
	})
	ConfigFile = ""
	os.Setenv("J8ACFG_YML", "")
}

// LOGLEVEL picks the level in any letter case, info if it does not name one.
func vfH_LogLevel() {
	s := vfStr("level", vfChoice("len", 9))
	for i := 0; i < len(s); i++ {
		vfAssume(vfAnd(s[i] > 32, s[i] < 127))
	}
	os.Setenv("LOGLEVEL", s)
	zerolog.SetGlobalLevel(zerolog.ErrorLevel)
	vfFiles = map[string]string{}
	os.Setenv("J8ACFG_YML", vfDoc(3, "env"))
	ConfigFile = ""
	vfAssert("starts", vfStart())
	os.Setenv("LOGLEVEL", "WARN")
	os.Setenv("J8ACFG_YML", "")
	up := make([]byte, len(s))
	for i := range up {
		up[i] = byte(vfIteI(vfAnd(s[i] >= 'a', s[i] <= 'z'), int(s[i])-32, int(s[i])))
	}
	u := string(up)
	for i, n := range []string{"TRACE", "DEBUG", "INFO", "WARN"} {
		vfAssert("level-as-asked-for", vfImplies(vfEqS(u, n), int(vfLevel) == i-1))
	}
	named := vfOr(vfEqS(u, "TRACE"), vfEqS(u, "DEBUG"), vfEqS(u, "WARN"))
	vfAssert("info-otherwise", vfOr(named, vfLevel == zerolog.InfoLevel))
	vfCover("chosen")
}
