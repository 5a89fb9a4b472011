package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"github.com/singchia/geminio/server"
	"math/rand"
	"os"
	"sort"
	"strings"

	"simrt/sim"
	"simrt/snet"
)

// Op is one workload step of one actor; Fault is one injected fault.
type Op struct {
	A int    `json:"a"`
	K string `json:"k"`
	X int    `json:"x,omitempty"`
	Y int    `json:"y,omitempty"`
	Z int    `json:"z,omitempty"`
	W int    `json:"w,omitempty"`
}

type Fault struct {
	K  string `json:"k"`
	At int64  `json:"at"`
	X  int    `json:"x,omitempty"`
	Y  int    `json:"y,omitempty"`
	D  int64  `json:"d,omitempty"`
}

// Plan is everything a run depends on besides the code: configuration,
// workload, faults and (for replay) the schedule tape.
type Plan struct {
	Scenario string         `json:"scenario"`
	Profile  string         `json:"profile"`
	Seed     int64          `json:"seed"`
	Sim      sim.Config     `json:"sim"`
	Net      snet.Params    `json:"net"`
	Opt      map[string]int `json:"opt"`
	Ops      []Op           `json:"ops"`
	Faults   []Fault        `json:"faults"`
	Tape     [][2]int64     `json:"tape,omitempty"`
	UseTape  bool           `json:"usetape,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

func (p *Plan) o(k string) int { return p.Opt[k] }

// Violation of a property seen in a run.
type Violation struct {
	Prop  string `json:"prop"`  // "*" counts against whichever property is checked
	Class string `json:"class"` // stable key of what failed
	Msg   string `json:"msg"`
	// other properties whose statement covers it as well
	Also []string `json:"also,omitempty"`
}

// Outcome of one simulated run.
type Outcome struct {
	Viol     []Violation
	Hash     uint64
	Steps    uint64
	Switches uint64
	SimNs    int64
	Faults   map[string]int
	Probes   map[string]int
	Ops      int
	Aborted  string
	Tape     []sim.Dec
	Trace    []string
	Events   []string
}

// Scenario drives the system through its public API.
type Scenario struct {
	Name string
	Gen  func(g *Gen) *Plan
	Run  func(e *Env)
	// Post runs after the simulation stopped (leak checks and the like).
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Env is what a scenario sees of its run.
type Env struct {
	P       *Plan
	out     *Outcome
	actors  []*actor
	ended   bool
	waiters []*sim.Task
	eseq    int
	Crashed map[int]bool
	cleanup []func()
	noCrash bool           // crashes are expected by the scenario itself
	onEnd   func(a *actor) // sees every operation that returned
	also    []string       // properties that cover what is being reported, too
	shOpts  *server.EndOptions
	shDlg   map[int]*dlg
}

type actor struct {
	e      *Env
	name   string
	t      *sim.Task
	done   bool
	op     string
	opAt   int64
	prop   string
	also   []string
	daemon bool
}

func (e *Env) Violate(prop, class, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	for _, v := range e.out.Viol {
		if v.Prop == prop && v.Class == class {
			return
		}
	}
	e.out.Viol = append(e.out.Viol, Violation{prop, class, m, append(covered(e.P.Scenario, prop, class), e.also...)})
	sim.Tracef("VIOLATION %s %s %s", prop, class, m)
	sim.Mix(prop + class)
}

func (e *Env) Probe(k string) { e.out.Probes[k]++ }

// Ev records a harness-visible event (part of the run hash).
func (e *Env) Ev(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	sim.Mix(s)
	e.eseq++
	if sim.Tracing() {
		sim.Tracef("EVENT %s", s)
	}
}

// Go starts an actor on a node.
func (e *Env) Go(name string, node int, fn func(a *actor)) *actor {
	a := &actor{e: e, name: name}
	e.actors = append(e.actors, a)
	a.t = sim.GoActor(name, node, func() {
		fn(a)
		a.done = true
		a.op = ""
		for _, w := range e.waiters {
			sim.Wake(w)
		}
	})
	return a
}

// Begin marks the start of a blocking operation whose completion is owed.
func (a *actor) Begin(prop, f string, v ...any) {
	a.prop = prop
	a.op = fmt.Sprintf(f, v...)
	a.opAt = sim.Now()
	if sim.Tracing() {
		sim.Tracef("BEGIN %s: %s", a.name, a.op)
	}
}

// End marks its completion.
func (a *actor) End() {
	if sim.Tracing() {
		sim.Tracef("END   %s: %s", a.name, a.op)
	}
	if a.e.onEnd != nil && a.op != "" {
		a.e.onEnd(a)
	}
	a.op = ""
}

// kind is the name of the operation in progress.
func (a *actor) kind() string {
	if i := strings.IndexByte(a.op, '('); i > 0 {
		return a.op[:i]
	}
	return a.op
}

// WaitAll waits until all given actors (default: all) are done or the virtual
// deadline passes; it returns those not done.
func (e *Env) WaitAll(ns int64, as ...*actor) []*actor {
	if as == nil {
		as = e.actors
	}
	dl := sim.Now() + ns
	t := sim.Cur()
	fired := false
	tm := sim.After(ns, func() { fired = true; sim.Wake(t) })
	defer tm.Stop()
	for {
		var left []*actor
		for _, a := range as {
			if !a.done && !a.daemon && !sim.NodeDead(a.t.Node) {
				left = append(left, a)
			}
		}
		if len(left) == 0 || fired || sim.Now() >= dl {
			return left
		}
		e.waiters = append(e.waiters, t)
		sim.Park("harness wait")
		for i, w := range e.waiters {
			if w == t {
				e.waiters = append(e.waiters[:i:i], e.waiters[i+1:]...)
				break
			}
		}
	}
}

// Until polls a condition every step of d until it holds or ns pass.
func (e *Env) Until(ns, d int64, f func() bool) bool {
	dl := sim.Now() + ns
	for !f() {
		if sim.Now() >= dl {
			return false
		}
		sim.Sleep(d)
	}
	return true
}

// Stuck reports the actors that did not finish as liveness violations.
func (e *Env) Stuck(left []*actor, defProp string) {
	for _, a := range left {
		p := a.prop
		if p == "" || a.op == "" {
			p = defProp
		}
		op := a.op
		if op == "" {
			op = "(between operations)"
		}
		kind := op
		if i := strings.IndexByte(kind, '('); i > 0 {
			kind = kind[:i]
		}
		e.also = a.also
		e.Violate(p, "hang:"+kind, "%s has not returned %.3fs after it was called (%s blocked in %q at %s)", op, float64(sim.Now()-a.opAt)/1e9, a.name, a.t.What(), a.t.Site())
		e.also = nil
	}
}

// execute runs a plan once.
func execute(p *Plan, rec, trace bool) *Outcome {
	sc := scenarios[p.Scenario]
	out := &Outcome{Probes: map[string]int{}}
	e := &Env{P: p, out: out, Crashed: map[int]bool{}, shDlg: map[int]*dlg{}}
	var tape []sim.Dec
	for _, d := range p.Tape {
		tape = append(tape, sim.Dec{I: uint64(d[0]), V: int(d[1])})
	}
	resetGlobals()
	c := p.Sim
	c.Seed = p.Seed
	r := sim.Run(c, tape, p.UseTape, rec, trace, func() {
		snet.W.P = p.Net
		sc.Run(e)
	}, func(r *sim.Result) {
		if trace {
			out.Trace = append([]string(nil), sim.Trace()...)
			for _, t := range r.Live {
				out.Trace = append(out.Trace, fmt.Sprintf("live task %s node %d: %s at %s (spawned at %s)", t.Name, t.Node, t.What(), t.Site(), t.SpawnSite()))
			}
		}
		switch {
		case r.Crash != nil:
			if !e.noCrash {
				m := r.Crash.Msg
				out.Viol = append(out.Viol, Violation{"*", "panic:" + crashKey(r.Crash), fmt.Sprintf("process crash: %s\n%s", m, r.Crash.Stack), nil})
			}
		case r.OverStep:
			out.Viol = append(out.Viol, Violation{"*", "livelock", fmt.Sprintf("no completion within %d scheduling steps (virtual time %.3fs)", r.Steps, float64(r.Now)/1e9), nil})
		case r.Quiesced:
			out.Viol = append(out.Viol, Violation{"*", "deadlock", "nothing can run and no timer is pending, but the workload has not finished", nil})
		case r.OverTime:
			out.Aborted = "overtime"
		}
	})
	out.Hash, out.Steps, out.Switches, out.SimNs = r.Hash, r.Steps, r.Switches, r.Now
	out.Faults = r.Faults
	out.Tape = r.Tape
	return out
}

func crashKey(c *sim.Crash) string {
	m := c.Msg
	for _, k := range []string{"nil pointer", "send on closed", "close of closed", "close of nil", "index out of range", "slice bounds", "interface conversion", "concurrent map", "unlock of unlocked", "makeslice", "negative WaitGroup", "nil map", "divide by zero", "Unlock of unlocked"} {
		if strings.Contains(m, k) {
			m = k
			break
		}
	}
	if len(m) > 40 {
		m = m[:40]
	}
	top := c.Top()
	if i := strings.LastIndex(top, "/"); i >= 0 {
		top = top[i+1:]
	}
	return m + "@" + top
}

// Gen generates plans.
type Gen struct {
	R       *rand.Rand
	Profile string
	Seed    int64
}

func (g *Gen) n(lo, hi int) int  { return lo + g.R.Intn(hi-lo+1) }
func (g *Gen) p(x float64) bool  { return g.R.Float64() < x }
func (g *Gen) pick(v ...int) int { return v[g.R.Intn(len(v))] }
func (g *Gen) dur(lo, hi float64) int64 { // log-uniform seconds
	x := g.R.Float64()
	return int64(lo * pow(hi/lo, x) * 1e9)
}

func pow(b, x float64) float64 {
	// b^x without importing math twice
	return mathPow(b, x)
}

// base fills scheduler and network parameters, swarm style.
func (g *Gen) base(sc string) *Plan {
	r := g.R
	p := &Plan{Scenario: sc, Profile: g.Profile, Seed: g.Seed, Opt: map[string]int{}}
	s := &p.Sim
	switch x := r.Intn(10); {
	case x < 4:
		s.Strategy = 0
	case x < 7:
		s.Strategy = 1
		s.Switch = []float64{0.02, 0.1, 0.3}[r.Intn(3)]
	default:
		s.Strategy = 2
		s.Switch = []float64{0.0005, 0.003, 0.02}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		s.YieldP = []float64{0.002, 0.01, 0.05}[r.Intn(3)]
	}
	if r.Intn(2) == 0 {
		s.MapP = []float64{0.05, 0.3, 0.6}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		s.StallP = []float64{0.0005, 0.002, 0.01}[r.Intn(3)]
		s.StallMax = []int64{1e6, 20e6, 200e6}[r.Intn(3)]
	}
	s.StallSum = 3 * 1e9
	s.StepCost = []int64{0, 0, 100, 1000}[r.Intn(4)]
	s.TimerWorkers = 1 + r.Intn(3)
	if r.Intn(12) == 0 {
		// the timing wheel of the go-timer dependency itself. Its worker pool
		// can shrink to zero workers when a worker is stalled for longer than
		// its 200 ms control interval and then never fires again (a fault of
		// the dependency): no stalls in these runs.
		s.RealTimer, s.StallP = true, 0
	}
	s.MaxTime = int64(3600e9)
	n := &p.Net
	n.Latency = []int64{0, 1e5, 1e6, 10e6, 50e6}[r.Intn(5)]
	if r.Intn(2) == 0 {
		n.Jitter = n.Latency + 1e5
	}
	if r.Intn(5) == 0 {
		n.TailP, n.TailNs = 0.02, 200e6
	}
	n.Window = []int{0, 65536, 4096, 300}[r.Intn(4)]
	if r.Intn(2) == 0 {
		n.SegP = []float64{0.1, 0.5}[r.Intn(2)]
	}
	n.MSS = []int{0, 1448, 64, 7}[r.Intn(4)]
	n.RstClose = r.Intn(2) == 0
	n.RstDrops = r.Intn(2) == 0
	return p
}

// subSeed derives a seed from a path of values.
func subSeed(base int64, s string, n int64) int64 {
	h := sha256.New()
	var b [16]byte
	binary.BigEndian.PutUint64(b[:8], uint64(base))
	binary.BigEndian.PutUint64(b[8:], uint64(n))
	h.Write(b[:])
	h.Write([]byte(s))
	v := int64(binary.BigEndian.Uint64(h.Sum(nil)[:8]) >> 1)
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(3)
}
