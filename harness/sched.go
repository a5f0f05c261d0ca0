package harness

import (
	"runtime"
	"sort"
	"sync"
)

// Sched owns the schedule of user callbacks: every callback that calls Point
// parks until the controller picks it. The controller runs in the worker's
// main goroutine and blocks when nothing is parked, so that a deadlock of the
// code under test is reported by the Go runtime itself ("all goroutines are
// asleep") without any time-out.
type Sched struct {
	mu         sync.Mutex
	waiting    []*gate
	notify     chan struct{}
	open       bool
	done       bool
	plan       Plan
	step       int
	arrived    int
	MaxWaiting int // most callbacks parked at once
}

type gate struct {
	key, seq int
	ch       chan struct{}
}

// Plan is the generated part of a schedule.
type Plan struct {
	Choices []int `json:"choices,omitempty"` // used first, modulo the number of parked callbacks
	Tail    int   `json:"tail,omitempty"`    // policy afterwards: 0 FIFO, 1 LIFO, 2 smallest key last, 3 largest key last, 4 pseudo-random
	Settle  int   `json:"settle,omitempty"`  // scheduler yields before each pick (more: more callbacks parked)
	First   int   `json:"first,omitempty"`   // scheduler yields before the first pick
	Procs   int   `json:"procs,omitempty"`   // GOMAXPROCS
	Seed    int64 `json:"seed,omitempty"`
}

func newSched(p Plan) *Sched {
	return &Sched{notify: make(chan struct{}, 1), plan: p}
}

// Point parks the calling goroutine until the controller releases it.
func (s *Sched) Point(key int) {
	s.mu.Lock()
	if s.open {
		s.mu.Unlock()
		return
	}
	s.arrived++
	g := &gate{key: key, seq: s.arrived, ch: make(chan struct{})}
	s.waiting = append(s.waiting, g)
	s.mu.Unlock()
	select {
	case s.notify <- struct{}{}:
	default:
	}
	<-g.ch
}

// Open lets everything pass from now on.
func (s *Sched) Open() {
	s.mu.Lock()
	s.open = true
	for _, g := range s.waiting {
		close(g.ch)
	}
	s.waiting = nil
	s.mu.Unlock()
}

func (s *Sched) pick() *gate {
	n := len(s.waiting)
	sort.Slice(s.waiting, func(i, j int) bool { return s.waiting[i].seq < s.waiting[j].seq })
	var i int
	if s.step < len(s.plan.Choices) {
		i = s.plan.Choices[s.step]
		if i < 0 {
			i = -i
		}
		i %= n
	} else {
		switch s.plan.Tail {
		case 1:
			i = n - 1
		case 2:
			for j, g := range s.waiting {
				if g.key > s.waiting[i].key {
					i = j
				}
			}
		case 3:
			for j, g := range s.waiting {
				if g.key < s.waiting[i].key {
					i = j
				}
			}
		case 4:
			i = int(mix(uint64(s.plan.Seed)^uint64(s.step)<<20) % uint64(n))
		}
	}
	s.step++
	g := s.waiting[i]
	s.waiting = append(s.waiting[:i], s.waiting[i+1:]...)
	return g
}

// Run executes body in its own goroutine and schedules its callbacks until
// body returns. A panic of body is returned.
func (s *Sched) Run(body func()) (panicked interface{}, didPanic bool) {
	setProcs(s.plan.Procs)
	setHook(false)
	done := make(chan struct{})
	go func() {
		defer close(done)
		didPanic = true
		defer func() {
			if didPanic {
				panicked = recover()
			}
		}()
		body()
		didPanic = false
	}()
	for {
		select {
		case <-done:
			s.Open()
			return
		default:
		}
		for i := 0; i <= s.plan.Settle; i++ {
			runtime.Gosched()
		}
		if s.step == 0 {
			for i := 0; i < s.plan.First; i++ {
				runtime.Gosched()
			}
		}
		s.mu.Lock()
		n := len(s.waiting)
		if n > s.MaxWaiting {
			s.MaxWaiting = n
		}
		if n == 0 {
			s.mu.Unlock()
			select {
			case <-done:
				s.Open()
				return
			case <-s.notify:
			}
			continue
		}
		g := s.pick()
		s.mu.Unlock()
		close(g.ch)
	}
}

var curProcs int

func setProcs(n int) {
	if n <= 0 {
		n = 1
	}
	if n != curProcs {
		runtime.GOMAXPROCS(n)
		curProcs = n
	}
}

// plainRun executes body in its own goroutine without scheduling it, catching
// panics.
func plainRun(procs int, body func()) (panicked interface{}, didPanic bool) {
	setProcs(procs)
	setHook(true)
	defer setHook(false)
	done := make(chan struct{})
	go func() {
		defer close(done)
		didPanic = true
		defer func() {
			if didPanic {
				panicked = recover()
			}
		}()
		body()
		didPanic = false
	}()
	<-done
	return
}

// perturb delays the calling goroutine without synchronising with any other.
func perturb(k int) {
	switch k & 7 {
	case 1:
		runtime.Gosched()
	case 2:
		spin(200)
	case 3:
		spin(5000)
	case 4:
		for i := 0; i < 5; i++ {
			runtime.Gosched()
		}
	case 5:
		spin(1000)
		runtime.Gosched()
	case 6:
		spin(30000)
	}
}

//go:noinline
func spin(n int) uint64 {
	x := uint64(n)
	for i := 0; i < n; i++ {
		x = x*6364136223846793005 + 1442695040888963407
	}
	return x
}

// mix is a 64-bit hash used to derive values from a case's integers.
func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}
