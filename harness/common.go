package j8a

// Verification harness support. Under the symbolic executor the vf* functions below are replaced by the
// engine (see engine/vfapi.go); natively they read the solver's assignment and record what happened.

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

var vfHarness = map[string]func(){}

type vfCase struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vals    map[string]string `json:"vals"`
}

type vfObs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type vfResult struct {
	ID     int      `json:"id"`
	Obs    []vfObs  `json:"obs"`
	Fail   []string `json:"fail"`
	Panic  string   `json:"panic"`
	Skip   bool     `json:"skip"`
	Covers []string `json:"covers"`
}

type vfSkipT struct{}

var vfCur *vfCase
var vfRes *vfResult
var vfSeen map[string]int
var vfMu sync.Mutex
var vfLogs map[string]int

func vfVal(label string) uint64 {
	n := vfSeen[label]
	vfSeen[label] = n + 1
	name := label
	if n > 0 {
		name = label + "#" + strconv.Itoa(n)
	}
	u, _ := strconv.ParseUint(vfCur.Vals[name], 10, 64)
	return u
}

// vfMined is a header made of constants found in the code under test, see vfExtra.
var vfMined vfMinedT

// vfFaultPick is the kind of errors attempts fail with.
var vfFaultPick vfFaultT

type vfFaultT struct {
	on, picked bool
	dial, read error
}

type vfMinedT struct {
	picked    bool
	where     int
	name, val string
	variant   int
	padded    bool
}

// vfSymbolic tells whether the harness runs under the symbolic executor.
func vfSymbolic() bool { return false }

// vfTier is 0 for quick and 1 for thorough.
func vfTier() int { return vfCur.Tier }

func vfBool(label string) bool     { return vfVal(label) == 1 }
func vfByte(label string) byte     { return byte(vfVal(label)) }
func vfInt64(label string) int64   { return int64(vfVal(label)) }
func vfUint64(label string) uint64 { return vfVal(label) }
func vfFloat(label string) float64 { return math.Float64frombits(vfVal(label)) }

// vfInt is an integer in [lo, hi].
func vfInt(label string, lo, hi int) int { return int(vfVal(label)) }

// vfChoice forks over 0..n-1.
func vfChoice(label string, n int) int { return int(vfVal(label)) }

// vfTicks is any number of ticks of about half a second.
func vfTicks(label string, max int) time.Duration { return time.Duration(vfInt(label, 0, max)) << 29 }

// vfStr is a string of n arbitrary bytes.
func vfStr(label string, n int) string { return string(vfBytes(label, n)) }

func vfBytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vfVal(label + "." + strconv.Itoa(i)))
	}
	return b
}

func vfAssume(b bool) {
	if !b {
		panic(vfSkipT{})
	}
}

func vfAssert(label string, b bool) {
	if !b {
		vfMu.Lock()
		vfRes.Fail = append(vfRes.Fail, label)
		vfMu.Unlock()
	}
}

func vfCover(label string) {
	vfMu.Lock()
	vfRes.Covers = append(vfRes.Covers, label)
	vfMu.Unlock()
}

func vfObsS(label string, v string) { vfObsAdd(label, fmt.Sprintf("%q", v)) }
func vfObsI(label string, v int)    { vfObsAdd(label, fmt.Sprint(v)) }
func vfObsB(label string, v bool)   { vfObsAdd(label, fmt.Sprint(v)) }
func vfObsAdd(label, v string) {
	vfMu.Lock()
	vfRes.Obs = append(vfRes.Obs, vfObs{label, v})
	vfMu.Unlock()
}

// non-forking boolean connectives
func vfAnd(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func vfOr(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func vfNot(a bool) bool        { return !a }
func vfImplies(a, b bool) bool { return !a || b }

// vfEqS compares strings without forking.
func vfEqS(a, b string) bool { return a == b }

// vfIteI selects without forking.
func vfIteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// vfLogCount is the number of log events emitted at a level so far.
func vfLogCount(level string) int {
	vfMu.Lock()
	defer vfMu.Unlock()
	return vfLogs[level]
}

// vfLogCapture makes log events observable (they are discarded otherwise).
func vfLogCapture() {
	vfMu.Lock()
	vfLogs = map[string]int{}
	vfEvents, vfLines = nil, nil
	vfMu.Unlock()
	zerolog.SetGlobalLevel(zerolog.TraceLevel)
	log.Logger = zerolog.New(vfLogSink{})
}

type vfLogSink struct{}

func (vfLogSink) Write(p []byte) (int, error) {
	// goroutines left over from earlier runs log too
	st := make([]byte, 1<<16)
	own := strings.Contains(string(st[:runtime.Stack(st, false)]), ".vfH_")
	vfMu.Lock()
	defer vfMu.Unlock()
	vfLines = append(vfLines, string(p))
	if !own {
		return len(p), nil
	}
	ev := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(string(p)))
	d.UseNumber()
	if d.Decode(&ev) == nil {
		vfEvents = append(vfEvents, ev)
		if l, ok := ev["level"].(string); ok {
			vfLogs[l]++
		}
	}
	return len(p), nil
}

// the events logged since vfLogCapture
var vfEvents []map[string]interface{}
var vfLines []string

func vfLogLen() int { return len(vfEvents) }

func vfLogLevel(i int) string { return vfLogS(i, "level") }

func vfLogHas(i int, key string) bool {
	_, ok := vfEvents[i][key]
	return ok
}

// vfLogS is a text in an event, vfLogI a number.
func vfLogS(i int, key string) string {
	s, _ := vfEvents[i][key].(string)
	return s
}

func vfLogI(i int, key string) int {
	if n, ok := vfEvents[i][key].(json.Number); ok {
		v, _ := n.Int64()
		return int(v)
	}
	return -1
}

// vfLogLeaks tells whether a text was logged anywhere.
func vfLogLeaks(s string) bool {
	for _, l := range vfLines {
		if strings.Contains(l, s) {
			return true
		}
	}
	return false
}

// vfRandSym makes math/rand results symbolic.
func vfRandSym() {
	vfDices, vfFixed, vfRadix = nil, nil, nil
	if vfRandHook != nil {
		vfRandHook(vfDraw)
	}
}

// vfRandFix makes the following math/rand results go through the given digits, and zeros from then on. A draw has
// vfRandRadix(i) equally likely digits.
func vfRandFix(digits []int) {
	vfRandSym()
	vfFixed = append([]int{}, digits...)
	if vfFixed == nil {
		vfFixed = []int{}
	}
}

func vfRandRadixN() int     { return len(vfRadix) }
func vfRandRadix(i int) int { return vfRadix[i] }

// a draw of a fraction in units of 2^-53 (n is 0), or of an integer below n.
func vfDraw(n int64) uint64 {
	vfMu.Lock()
	defer vfMu.Unlock()
	if vfFixed != nil {
		d := 0
		if len(vfRadix) < len(vfFixed) {
			d = vfFixed[len(vfRadix)]
		}
		if n == 0 {
			vfRadix = append(vfRadix, 10)
			return uint64(2*d+1) * (1 << 53) / 20
		}
		if n <= 20 {
			vfRadix = append(vfRadix, int(n))
			return uint64(d)
		}
		vfRadix = append(vfRadix, 10)
		return uint64(2*d+1) * uint64(n) / 20
	}
	if n == 0 {
		k := vfVal("rand.f")
		vfDices = append(vfDices, k)
		return k
	}
	k := vfVal("rand.n")
	vfDices = append(vfDices, k*(vfUnit/uint64(n)))
	return k
}

const vfUnit = 1 << 53

var vfDices []uint64
var vfFixed, vfRadix []int

// vfDiceN is the number of random numbers drawn so far, vfDice the i-th as a fraction in units of 2^-53.
func vfDiceN() int { return len(vfDices) }
func vfDice(i int) uint64 {
	if i >= len(vfDices) {
		return 0
	}
	return vfDices[i]
}

var vfRandHook func(func(int64) uint64)

// vfSetField sets an unexported field in a model of a dependency (executor only).
func vfSetField(ptr interface{}, field string, v interface{}) {}

// vfSched lets the engine explore every goroutine interleaving at blocking points.
func vfSched() {}

// vfDelays lets the executor hold up any k statements of the gateway (see engine/points.go) for 1..max ticks each.
// If k is negative it holds up one that names a package variable and, before that goes on, another one for longer.
func vfDelays(k, max int) {
	vfMu.Lock()
	vfPoints = map[string]int{}
	vfMu.Unlock()
}

var vfPoints map[string]int

func vfPoint(id string) {
	vfMu.Lock()
	if vfPoints == nil {
		vfMu.Unlock()
		return
	}
	id = "pt." + id
	vfPoints[id]++
	n, _ := strconv.ParseUint(vfCur.Vals[id+"."+strconv.Itoa(vfPoints[id])], 10, 64)
	vfMu.Unlock()
	if n > 0 {
		time.Sleep(time.Duration(n) << 29)
	}
}

// vfLeft is the number of goroutines in the bubble besides the one that runs the harness.
func vfLeft() int {
	st := make([]byte, 1<<20)
	n := 0
	own := ""
	for _, l := range strings.Split(string(st[:runtime.Stack(st, true)]), "\n") {
		i := strings.Index(l, "synctest bubble")
		if !strings.HasPrefix(l, "goroutine ") || i < 0 || strings.Contains(l, "synctest.Run") {
			continue
		}
		if b := strings.TrimRight(l[i:], ":]"); own == "" {
			own = b // the first one is this one
		} else if b != own {
			continue
		}
		n++
	}
	return n - 1
}

// vfCrashed tells whether the last panic caught was a run time error.
var vfCrashed bool

// vfCatch runs f and reports whether it panicked.
func vfCatch(f func()) (panicked bool) {
	panicked = true
	vfCrashed = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vfSkipT); ok {
					panic(r)
				}
				if _, ok := r.(runtime.Error); ok {
					vfCrashed = true
				}
			}
		}()
		f()
		panicked = false
	}()
	return panicked
}

// VfCommand is the main function of the command, in replay programs that need it.
var VfCommand func()

func vfRunCommand() { VfCommand() }

// VfMain replays solver assignments natively.
func VfMain() {
	data, err := ioutil.ReadFile(os.Getenv("VF_CASES"))
	if err != nil {
		panic(err)
	}
	var cases []vfCase
	if err := json.Unmarshal(data, &cases); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Getenv("VF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	for i := range cases {
		fmt.Fprintf(out, "start %d\n", cases[i].ID)
		r := vfRunCase(&cases[i])
		b, _ := json.Marshal(r)
		fmt.Fprintf(out, "result %s\n", b)
	}
	out.Close()
}

var vfBubble func(f func())

// vfVirtual runs f in virtual time, where waiting takes no time and nothing else passes time.
func vfVirtual(f func()) {
	if vfSymbolic() {
		f()
		return
	}
	if vfBubble == nil {
		panic("no virtual clock")
	}
	ended := false
	var up interface{}
	func() {
		defer func() {
			// goroutines still waiting when f is over do not matter
			if r := recover(); r != nil && !ended {
				up = r
			}
		}()
		vfBubble(func() {
			defer func() {
				ended = true
				up = recover()
			}()
			f()
		})
	}()
	if up != nil {
		panic(up)
	}
}

func vfRunCase(c *vfCase) *vfResult {
	vfCur = c
	vfRes = &vfResult{ID: c.ID}
	vfSeen = map[string]int{}
	vfPoints = nil
	vfMined = vfMinedT{}
	vfFaultPick = vfFaultT{}
	vfLogs = map[string]int{}
	zerolog.SetGlobalLevel(zerolog.Disabled)
	rand.Seed(1)
	h := vfHarness[c.Harness]
	if h == nil {
		vfRes.Panic = "no such harness " + c.Harness
		return vfRes
	}
	run := func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vfSkipT); ok {
					vfRes.Skip = true
					return
				}
				vfRes.Panic = fmt.Sprint(r)
			}
		}()
		h()
	}
	run()
	vfMu.Lock()
	defer vfMu.Unlock()
	res := *vfRes
	return &res
}
