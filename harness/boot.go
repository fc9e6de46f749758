package j8a

import (
	"encoding/json"
	"errors"
	"net/http"
	"os"
	"strings"
	"sync"

	"github.com/rs/zerolog"
	"github.com/shirou/gopsutil/process"
)

// Booting the real server from a configuration. Natively the configuration goes through the YAML loader (JSON
// is YAML) and listening is intercepted by the replay build; the executor hands the structure over directly.

var vfBootCfg *Config
var vfServer *http.Server
var vfServerTLS bool

// vfLogBoot is set if what is logged while starting matters.
var vfLogBoot bool

// vfLevel is the log level the server chose.
var vfLevel zerolog.Level

type vfListening struct{}

// a document is either "boot", which stands for vfBootCfg, or one of vfDoc
func vfM_YAMLToJSON(y []byte) ([]byte, error) {
	if strings.HasPrefix(string(y), ":") {
		return nil, errors.New("yaml: did not find expected node content")
	}
	return append([]byte("{json} "), y...), nil
}

func vfM_yaml_Unmarshal(y []byte, o interface{}) error {
	j, err := vfM_YAMLToJSON(y)
	if err != nil {
		return err
	}
	return vfUnmarshal(j, o)
}

// vfUnmarshal is json.Unmarshal for what the executor does not decode itself.
func vfUnmarshal(b []byte, o interface{}) error {
	c := o.(*Config)
	s := string(b)
	if !strings.HasPrefix(s, "{json} ") {
		return errors.New("invalid character")
	}
	if s == "{json} boot" {
		*c = *vfBootCfg
		return nil
	}
	if i := strings.Index(s, "path: "); i >= 0 {
		s = strings.Replace(s[i+6:], "\r", "", -1)
		res := s[strings.Index(s, "resource: ")+10:]
		res = res[:strings.Index(res, "\n")]
		c.Routes = Routes{{Path: s[:strings.Index(s, "\n")], Resource: res}}
		c.Resources = map[string][]ResourceMapping{res: {{URL: URL{Scheme: "http", Host: "localhost", Port: 60083}}}}
	}
	return nil
}

func vfOnListen(s *http.Server, tls bool) error {
	vfServer = s
	vfServerTLS = tls
	panic(vfListening{})
}

func vfM_ListenAndServe(s *http.Server) error { return vfOnListen(s, false) }

func vfM_ListenAndServeTLS(s *http.Server, c, k string) error { return vfOnListen(s, true) }

// vfBoot starts the server; it reports whether it got as far as listening.
func vfBoot(cfg *Config) bool {
	ConfigFile = ""
	os.Setenv("LOGLEVEL", "WARN")
	if vfLogBoot {
		os.Setenv("LOGLEVEL", "TRACE")
	}
	if vfSymbolic() {
		vfBootCfg = cfg
		os.Setenv("J8ACFG_YML", "boot")
	} else {
		b, err := json.Marshal(cfg)
		if err != nil {
			panic(err)
		}
		os.Setenv("J8ACFG_YML", string(b))
	}
	return vfStart()
}

// vfStart starts the server with the environment as it is.
func vfStart() bool {
	return vfStarted(func() {
		Boot.Add(1)
		BootStrap()
	})
}

func vfStarted(start func()) bool {
	vfServer = nil
	Runner = &Runtime{}
	Boot = sync.WaitGroup{}
	vfExits = 0
	vfCatch(start)
	vfAssert("no-crash-at-startup", !vfCrashed)
	vfLevel = zerolog.GlobalLevel()
	if !vfSymbolic() && !vfLogBoot {
		zerolog.SetGlobalLevel(zerolog.Disabled)
	}
	ID = "vfid"
	return vfServer != nil
}

// vfConfig is a minimal valid configuration.
func vfConfig() *Config {
	return &Config{
		Routes:    Routes{{Path: "/api", Resource: "r"}},
		Resources: map[string][]ResourceMapping{"r": {{URL: URL{Scheme: "http", Host: vfHost, Port: vfPort}}}},
		Connection: Connection{
			Downstream: Downstream{ReadTimeoutSeconds: 3600, RoundTripTimeoutSeconds: 3600, IdleTimeoutSeconds: 3600, MaxBodyBytes: 64, Mode: HTTP, Port: 8080},
			Upstream:   Upstream{ReadTimeoutSeconds: 3600, SocketTimeoutSeconds: 3, IdleTimeoutSeconds: 3, PoolSize: 8, MaxAttempts: 1},
		},
	}
}

type vfExited struct{}

var vfExits int

// vfOnExit stands in for ending the process.
func vfM_osExit(code int) { vfOnExit(code) }

func vfOnExit(code int) {
	vfExits++
	panic(vfExited{})
}

func vfM_process_NewProcess(pid int32) (*process.Process, error) {
	return &process.Process{Pid: pid}, nil
}

// process sampling has its own property
func vfM_logProcStats(proc *process.Process) {}
