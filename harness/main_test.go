package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Roles (environment variable PV_ROLE):
//
//	worker    execute cases (started by the other roles)
//	campaign  run one shard of one campaign (PV_CAMPAIGN, PV_CASES, PV_SEED)
//	replay    run one saved case (PV_REPLAY) PV_REPEAT times
//	list      print the campaigns as JSON
func TestMain(m *testing.M) {
	switch os.Getenv("PV_ROLE") {
	case "worker":
		workerMain()
	case "list":
		type item struct {
			Prop, Name      string
			Race            bool
			Quick, Thorough int
		}
		var items []item
		for _, c := range campaigns {
			items = append(items, item{c.Prop, c.Name, c.Race, c.Quick, c.Thorough})
		}
		json.NewEncoder(os.Stdout).Encode(items)
		os.Exit(0)
	case "replay":
		replayMain()
	}
	os.Exit(m.Run())
}

// ---------------------------------------------------------------------------
// Worker process

type worker struct {
	cmd    *exec.Cmd
	enc    *json.Encoder
	resp   chan Response
	in     *os.File
	stderr *tailBuffer
	waited chan error
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<22 { // keep the head, which names the cause, and the tail
		t.b = append(t.b[:1<<20:1<<20], t.b[len(t.b)-(1<<20):]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func startWorker(race bool) (*worker, error) {
	bin := os.Getenv("PV_PLAIN")
	if race {
		bin = os.Getenv("PV_RACE")
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "PV_ROLE=worker", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all", "GOMAXPROCS=1")
	cmd.ExtraFiles = []*os.File{rr, sw}
	cmd.Stdout = io.Discard
	w := &worker{cmd: cmd, in: rw, stderr: &tailBuffer{}, resp: make(chan Response), waited: make(chan error, 1)}
	cmd.Stderr = w.stderr
	cmd.Dir = os.TempDir()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	rr.Close()
	sw.Close()
	w.enc = json.NewEncoder(rw)
	go func() {
		dec := json.NewDecoder(sr)
		for {
			var r Response
			if dec.Decode(&r) != nil {
				break
			}
			w.resp <- r
		}
		close(w.resp)
		sr.Close()
	}()
	go func() { w.waited <- cmd.Wait() }()
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	for range w.resp {
	}
}

// cpuSeconds is the processor time the worker has used.
func (w *worker) cpuSeconds() float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// rss is the worker's resident memory in bytes.
func (w *worker) rss() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", w.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize()
}

const (
	stallWall  = 20 * time.Second // first look at a silent worker
	cpuLimit   = 20.0             // processor seconds for one request (they take milliseconds): no termination
	memLimit   = 1500 << 20       // bytes for one worker (they take up to 100 MB): no termination
	shrinkTime = 25 * time.Second // for a failing case
	wallLimit  = 6 * time.Minute  // gives up with an error
)

// call executes one request. dead=true means that the worker has ended.
func (w *worker) call(rq Request) (rs Response, dead bool) {
	cpu0 := w.cpuSeconds()
	if err := w.enc.Encode(rq); err != nil {
		return w.obituary("")
	}
	start := time.Now()
	for {
		timer := time.NewTimer(200 * time.Millisecond)
		select {
		case r, ok := <-w.resp:
			timer.Stop()
			if ok {
				return r, false
			}
			return w.obituary("")
		case <-timer.C:
		}
		if m := w.rss(); m > memLimit {
			w.stop()
			return Response{Msg: fmt.Sprintf("the case does not terminate: %d MB of memory used", m>>20)}, true
		}
		used := w.cpuSeconds() - cpu0
		if used > cpuLimit*float64(max(1, min(rq.Repeat, 5))) {
			return w.dump(fmt.Sprintf("the case does not terminate: %.0f processor seconds used", used))
		}
		if time.Since(start) < stallWall {
			continue
		}
		// A silent worker that uses no processor time may be deadlocked; a
		// stack dump decides.
		time.Sleep(3 * time.Second)
		if w.cpuSeconds()-cpu0-used < 0.05 {
			select {
			case r, ok := <-w.resp:
				if ok {
					return r, false
				}
				return w.obituary("")
			default:
			}
			return w.dump("")
		}
		if time.Since(start) > wallLimit {
			w.stop()
			return Response{Infra: "no answer from the worker"}, true
		}
	}
}

// dump ends the worker with a goroutine dump and judges it.
func (w *worker) dump(verdict string) (Response, bool) {
	w.cmd.Process.Signal(syscall.SIGQUIT)
	return w.obituary("QUIT:" + verdict)
}

// obituary decides why the worker died.
func (w *worker) obituary(why string) (Response, bool) {
	var rs Response
	select {
	case <-w.waited:
	case <-time.After(60 * time.Second):
		w.cmd.Process.Kill()
		<-w.waited
		rs.Infra = "worker does not end"
	}
	go func() {
		for range w.resp {
		}
	}()
	w.in.Close()
	text := w.stderr.String()
	st := w.cmd.ProcessState
	if rs.Infra != "" {
		return rs, true
	}
	switch {
	case strings.HasPrefix(why, "QUIT:") && len(why) > 5:
		rs.Msg = why[5:] + "\n" + clip(text, 4000)
	case why == "QUIT:":
		gs := parseStacks(text)
		stuck := len(gs) > 0
		for _, g := range gs {
			if !blockedStates[g.state] && !(g.state == "force gc (idle)" || strings.HasPrefix(g.state, "GC ") || g.state == "finalizer wait" || g.state == "cleanup wait" || strings.HasPrefix(g.stack, "goroutine 0 ")) {
				stuck = false
			}
		}
		if stuck {
			rs.Msg = "deadlock: every goroutine is blocked for ever\n" + clip(text, 4000)
		} else {
			rs.Infra = "silent worker, not provably deadlocked: " + clip(text, 3000)
		}
	case strings.Contains(text, "HARNESS:"):
		rs.Infra = clip(text, 3000)
	case strings.Contains(text, "WARNING: DATA RACE"):
		i := strings.Index(text, "WARNING: DATA RACE")
		rs.Msg = "data race\n" + clip(text[i:], 3500)
	case strings.Contains(text, "all goroutines are asleep - deadlock!"):
		rs.Msg = "deadlock: all goroutines are asleep\n" + clip(text, 4000)
	case strings.Contains(text, "out of memory"), strings.Contains(text, "cannot allocate memory"),
		strings.Contains(text, "failed to create new OS thread"), strings.Contains(text, "resource temporarily unavailable"):
		rs.Infra = clip(text, 3000)
	case strings.Contains(text, "panic:"), strings.Contains(text, "fatal error:"):
		i := strings.Index(text, "panic:")
		if j := strings.Index(text, "fatal error:"); i < 0 || (j >= 0 && j < i) {
			i = j
		}
		rs.Msg = "the process crashed: " + clip(text[i:], 3500)
	default:
		rs.Infra = fmt.Sprintf("worker died (%v): %s", st, clip(text, 3000))
	}
	return rs, true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n…"
	}
	return s
}

// runner keeps a worker alive between cases.
type runner struct {
	race bool
	w    *worker
}

func (r *runner) run(ex string, repeat, seconds int, cs json.RawMessage) Response {
	for attempt := 0; ; attempt++ {
		if r.w == nil {
			w, err := startWorker(r.race)
			if err != nil {
				return Response{Infra: err.Error()}
			}
			r.w = w
		}
		rs, dead := r.w.call(Request{ex, repeat, cs, seconds})
		if rs.Msg != "" && !dead {
			r.w.stop() // goroutines may be left behind
			dead = true
		}
		if dead {
			r.w = nil
		}
		if rs.Infra != "" && attempt < 2 {
			time.Sleep(2 * time.Second)
			continue
		}
		return rs
	}
}

// ---------------------------------------------------------------------------
// Campaign role

// Failure is a failing case; it is also the format of replay files.
type Failure struct {
	Property string          `json:"property"`
	Campaign string          `json:"campaign"`
	Exec     string          `json:"exec"`
	Race     bool            `json:"race"`
	Repeat   int             `json:"repeat"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
}

// ShardResult is what a campaign shard reports.
type ShardResult struct {
	Campaign    string            `json:"campaign"`
	Evaluations int               `json:"evaluations"`
	Distinct    []string          `json:"distinct"` // hashes of distinct non-trivial cases
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *Failure          `json:"failure,omitempty"`
	Infra       string            `json:"infra,omitempty"`
}

func TestCampaign(t *testing.T) {
	if os.Getenv("PV_ROLE") != "campaign" {
		t.Skip()
	}
	name, prop, outFile := os.Getenv("PV_CAMPAIGN"), os.Getenv("PV_PROP"), os.Getenv("PV_OUT")
	var cp *Campaign
	for _, c := range campaigns {
		if c.Name == name && c.Prop == prop {
			cp = c
		}
	}
	if cp == nil {
		t.Fatalf("no campaign %q", name)
	}
	seed, _ := strconv.ParseUint(os.Getenv("PV_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", os.Getenv("PV_CASES"))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrinkTime.String())
	runtime.GOMAXPROCS(2)

	res := ShardResult{Campaign: name, Labels: map[string]int{}}
	seen := map[string]bool{}
	run := &runner{race: cp.Race}
	var best *Failure
	repeat := 1
	var failedAt time.Time
	t.Run("rapid", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if res.Infra != "" {
				return
			}
			v := cp.Gen(rt)
			raw, err := json.Marshal(v)
			if err != nil {
				res.Infra = "bad case: " + err.Error()
				return
			}
			if best != nil && time.Since(failedAt) > shrinkTime {
				return
			}
			rs := run.run(cp.Exec, repeat, 3, raw)
			if rs.Infra != "" {
				res.Infra = rs.Infra
				return
			}
			if best == nil && rs.Msg == "" {
				res.Evaluations++
				if rs.NonTrivial {
					res.NonTrivial++
					h := sha256.Sum256(raw)
					k := hex.EncodeToString(h[:8])
					if !seen[k] {
						seen[k] = true
						if len(res.Samples) < 3 && len(raw) < 1500 {
							res.Samples = append(res.Samples, raw)
						}
					}
				}
				for _, l := range rs.Labels {
					res.Labels[l]++
				}
			}
			if rs.Msg != "" {
				if best == nil {
					failedAt = time.Now()
				}
				if best == nil || len(raw) < len(best.Case) {
					best = &Failure{cp.Prop, cp.Name, cp.Exec, cp.Race, 1, raw, rs.Msg}
				}
				repeat = 3
				if cp.Race {
					repeat = 30
				}
				rt.Fatalf("violation: %s", firstLine(rs.Msg))
			}
		})
	})
	if run.w != nil {
		run.w.stop()
	}
	if best != nil {
		best.Repeat = 20
		if cp.Race {
			best.Repeat = 500
		}
		res.Failure = best
		res.Infra = ""
	}
	for k := range seen {
		res.Distinct = append(res.Distinct, k)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

// ---------------------------------------------------------------------------
// Replay role

// replayMain runs the saved cases named by PV_REPLAY (a file or a directory)
// and prints one JSON result per file. PV_SCALE multiplies the repeat counts
// of race cases (percent).
func replayMain() {
	path := os.Getenv("PV_REPLAY")
	files := []string{path}
	if st, err := os.Stat(path); err == nil && st.IsDir() {
		files, _ = filepath.Glob(filepath.Join(path, "*.json"))
	}
	type result struct {
		File, Property, Msg, Infra string
	}
	enc := json.NewEncoder(os.Stdout)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			enc.Encode(result{File: f, Infra: err.Error()})
			continue
		}
		var fl Failure
		if err := json.NewDecoder(bytes.NewReader(b)).Decode(&fl); err != nil {
			enc.Encode(result{File: f, Infra: err.Error()})
			continue
		}
		run := &runner{race: fl.Race}
		n := max(1, fl.Repeat)
		if s, _ := strconv.Atoi(os.Getenv("PV_REPEAT")); s > 0 {
			n = s
		}
		rs := run.run(fl.Exec, n, 0, fl.Case)
		if run.w != nil {
			run.w.stop()
		}
		enc.Encode(result{f, fl.Property, rs.Msg, rs.Infra})
	}
	os.Exit(0)
}
