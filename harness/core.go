// Package harness holds the property-based checks of exascience/pargo.
//
// One package is compiled into test binaries with two roles:
//
//   - the campaign role (plain build) draws cases with rapid and sends them,
//     as JSON, to a worker process;
//   - the worker role (plain build or -race build) executes one case at a
//     time against pargo and reports the verdict of the case's oracle.
//
// The split makes process death observable: a deadlock reported by the Go
// runtime, a data race, an unrecovered panic or a "fatal error" kills only the
// worker, becomes a failure of the case being executed, and shrinks like any
// other failure.
package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Campaign is one stream of generated cases for one property.
type Campaign struct {
	Prop string // property id
	Name string // unique
	Exec string // registered executor
	Gen  func(t *rapid.T) any
	Race bool // run in the -race worker
	// Number of cases in the quick and thorough tiers, in units of
	// budget(Prop).
	Quick, Thorough int
}

// Ctx is what an executor gets: case options and the verdict.
type Ctx struct {
	msg    string
	nt     bool
	labels map[string]bool
	Repeat int // how often the case is being repeated (0 first)
}

// Failf records a violation of the property; the first one counts.
func (c *Ctx) Failf(format string, args ...interface{}) {
	if c.msg == "" {
		c.msg = fmt.Sprintf(format, args...)
	}
}

// Failed tells if a violation was recorded.
func (c *Ctx) Failed() bool { return c.msg != "" }

// NonTrivial marks the case as non-trivial if b holds.
func (c *Ctx) NonTrivial(b bool) {
	if b {
		c.nt = true
	}
}

// Label classifies the case.
func (c *Ctx) Label(format string, args ...interface{}) {
	if c.labels == nil {
		c.labels = map[string]bool{}
	}
	c.labels[fmt.Sprintf(format, args...)] = true
}

// Request is what a worker receives.
type Request struct {
	Exec   string          `json:"exec"`
	Repeat int             `json:"repeat"`
	Case   json.RawMessage `json:"case"`
	// Seconds ends the repetition early if > 0.
	Seconds int `json:"seconds,omitempty"`
}

// Response is what a worker answers.
type Response struct {
	Msg        string   `json:"msg,omitempty"`
	Infra      string   `json:"infra,omitempty"`
	NonTrivial bool     `json:"nt,omitempty"`
	Labels     []string `json:"labels,omitempty"`
	At         int      `json:"at,omitempty"`
}

var (
	campaigns []*Campaign
	executors = map[string]func(c *Ctx, raw json.RawMessage){}
)

func register(c *Campaign) {
	q, t := budget(c.Prop)
	c.Quick, c.Thorough = c.Quick*q, c.Thorough*t
	for _, d := range campaigns {
		if d.Prop == c.Prop && d.Name == c.Name {
			panic("two campaigns of " + c.Prop + " are called " + c.Name)
		}
	}
	campaigns = append(campaigns, c)
}

// budget sizes the tiers: about 15 to 30 s of 8 cores for the quick one, some
// minutes for the thorough one.
func budget(prop string) (quick, thorough int) {
	switch prop[0] {
	case 'S': // large inputs
		return 2, 5
	case 'L':
		return 12, 15
	}
	return 6, 6
}

// executor registers a typed executor under a name.
func executor[T any](name string, f func(c *Ctx, cs *T)) {
	if executors[name] != nil {
		panic("duplicate executor " + name)
	}
	executors[name] = func(c *Ctx, raw json.RawMessage) {
		var cs T
		if err := json.Unmarshal(raw, &cs); err != nil {
			panic(fmt.Sprintf("HARNESS: bad case: %v", err))
		}
		f(c, &cs)
	}
}

// workerMain serves requests on fd 3, answering on fd 4, until EOF.
func workerMain() {
	in, out := os.NewFile(3, "req"), os.NewFile(4, "resp")
	dec, enc := json.NewDecoder(in), json.NewEncoder(out)
	debug.SetMaxStack(128 << 20) // runaway recursion crashes early
	installHook()
	baseline()
	for {
		var rq Request
		if dec.Decode(&rq) != nil {
			os.Exit(0)
		}
		ex := executors[rq.Exec]
		if ex == nil {
			enc.Encode(Response{Infra: "unknown executor " + rq.Exec})
			continue
		}
		if rq.Repeat < 1 {
			rq.Repeat = 1
		}
		var rs Response
		labels := map[string]bool{}
		start := time.Now()
		for i := 0; i < rq.Repeat && rs.Msg == ""; i++ {
			if i > 0 && rq.Seconds > 0 && time.Since(start) > time.Duration(rq.Seconds)*time.Second {
				break
			}
			c := &Ctx{Repeat: i}
			ex(c, rq.Case)
			if c.msg == "" {
				drain(c)
			}
			rs.Msg, rs.At = c.msg, i
			rs.NonTrivial = rs.NonTrivial || c.nt
			for l := range c.labels {
				labels[l] = true
			}
		}
		for l := range labels {
			rs.Labels = append(rs.Labels, l)
		}
		if enc.Encode(rs) != nil {
			os.Exit(0)
		}
	}
}

// ---------------------------------------------------------------------------
// Goroutine accounting

var baseGoroutines int

func baseline() { baseGoroutines = countGoroutines() }

var countBuf = make([]byte, 1<<16)

// countGoroutines counts in a stopped world; runtime.NumGoroutine is not exact
// while goroutines come and go.
func countGoroutines() int {
	n := runtime.Stack(countBuf, true)
	return strings.Count(string(countBuf[:n]), "\n\ngoroutine ") + 1
}

var blockedStates = map[string]bool{
	"chan receive": true, "chan send": true, "select": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true, "select (no cases)": true,
	"sync.Cond.Wait": true, "sync.Mutex.Lock": true,
	"sync.RWMutex.RLock": true, "sync.RWMutex.Lock": true, "sync.WaitGroup.Wait": true,
}

// goState is one goroutine of a stack dump.
type goState struct {
	state string
	stack string
}

// parseStacks splits a goroutine dump.
func parseStacks(dump string) (gs []goState) {
	for _, blk := range strings.Split(dump, "\n\n") {
		blk = strings.TrimSpace(blk)
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		head, _, _ := strings.Cut(blk, "\n")
		i, j := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if i < 0 || j < i {
			continue
		}
		st, _, _ := strings.Cut(head[i+1:j], ",")
		gs = append(gs, goState{strings.TrimSpace(st), blk})
	}
	return
}

// drain waits until every goroutine the case started has ended. A goroutine
// that can never end is recognised exactly: in one stop-the-world stack dump,
// every goroutine other than this one is blocked on a synchronisation
// operation, so nothing can wake any of them.
func drain(c *Ctx) {
	if s := leaked(); s != "" {
		c.Failf("goroutines left blocked for ever after the case:\n%s", s)
	}
}

func leaked() string {
	for n := 0; ; n++ {
		if runtime.NumGoroutine() <= baseGoroutines && countGoroutines() <= baseGoroutines {
			return ""
		}
		runtime.Gosched()
		if n < 300 || n%100 != 0 {
			continue
		}
		// All goroutines have to be in the dump: a missing one could be the one
		// that is going to wake up the others.
		size := 1 << 22
		buf := make([]byte, size)
		k := runtime.Stack(buf, true)
		for k == size {
			size *= 2
			buf = make([]byte, size)
			k = runtime.Stack(buf, true)
		}
		buf = buf[:k]
		gs := parseStacks(string(buf))
		var stuck []string
		live := false
		for i, g := range gs {
			if i == 0 { // this goroutine
				continue
			}
			if !blockedStates[g.state] {
				live = true
				break
			}
			stuck = append(stuck, g.stack)
		}
		if live {
			continue
		}
		if len(stuck) == 0 {
			continue
		}
		if len(stuck) > 3 {
			stuck = stuck[:3]
		}
		return strings.Join(stuck, "\n\n")
	}
}
