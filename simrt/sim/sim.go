// Package sim is a deterministic simulator for instrumented Go code: every
// goroutine is a coroutine, exactly one runs at a time, and every scheduling
// decision, delay and fault is drawn from one seeded source (or replayed from
// a recorded tape). Time is virtual.
package sim

import (
	"fmt"
	"iter"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Base is the wall-clock instant at which every simulation starts.
var Base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

type killT struct{}

type taskState uint8

const (
	tsReady taskState = iota
	tsRunning
	tsBlocked
	tsDone
)

// Task is one simulated goroutine.
type Task struct {
	ID    int
	Name  string
	Node  int
	fn    func()
	w     *worker
	state taskState
	gen   uint64 // bumped on every wake; stale waiters are recognised by it
	prio  int64
	site  int
	what  string // what it blocks on
	dying bool
	nkill int
	run   int // consecutive picks
	Spawn int // site of the go statement
	harn  bool
	actor bool
	since int64
}

type worker struct {
	next  func() (struct{}, bool)
	yield func(struct{}) bool
	t     *Task
}

func newWorker() *worker {
	w := &worker{}
	w.next, _ = iter.Pull(func(yield func(struct{}) bool) {
		w.yield = yield
		for {
			runTask(w.t)
			w.t = nil
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return w
}

func runTask(t *Task) {
	defer func() {
		t.state = tsDone
		if r := recover(); r != nil {
			if _, ok := r.(killT); ok || dead {
				return
			}
			st := string(debug.Stack())
			if crash == nil {
				crash = &Crash{Task: t.Name, Node: t.Node, Msg: fmt.Sprint(r), Stack: trimStack(st)}
			}
		}
	}()
	t.fn()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime/debug") || strings.HasPrefix(l, "simrt/sim.runTask") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "simrt/sim.newWorker") || strings.HasPrefix(l, "iter.Pull") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if l == "" {
			continue
		}
		if p := strings.LastIndex(l, "("); p > 0 && strings.HasSuffix(l, ")") {
			l = l[:p]
		}
		pos := ""
		if i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") {
			pos = strings.TrimSpace(lines[i+1])
			if k := strings.Index(pos, " +0x"); k > 0 {
				pos = pos[:k]
			}
		}
		out = append(out, l+" "+pos)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Crash describes an unrecovered panic (or fatal runtime error) of a task.
type Crash struct {
	Task  string
	Node  int
	Msg   string
	Stack string
}

// Top returns the first frame of the crash outside the simulator.
func (c *Crash) Top() string {
	for _, l := range strings.Split(c.Stack, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "simrt/") {
			continue
		}
		return f[0]
	}
	return ""
}

// Strategy selects how the seeded scheduler chooses.
type Config struct {
	Seed         int64   `json:"seed"`
	Strategy     int     `json:"strategy"` // 0 uniform, 1 sticky, 2 priority (PCT-like), 3 fifo
	Switch       float64 `json:"switch"`   // sticky: probability of a switch at a sync operation
	MapP         float64 `json:"mapp"`     // probability of preemption inside a map write
	YieldP       float64 `json:"yield"`    // probability of preemption at a statement
	StallP       float64 `json:"stall"`    // probability per sync operation of stalling the task
	StallMax     int64   `json:"stallmax"` // longest stall
	StallSum     int64   `json:"stallsum"` // stop stalling once this much was injected (0: no limit)
	StepCost     int64   `json:"stepcost"` // virtual ns per scheduling step
	MaxSteps     uint64  `json:"maxsteps"`
	MaxTime      int64   `json:"maxtime"` // virtual ns
	RealTimer    bool    `json:"realtimer,omitempty"`
	TimerWorkers int     `json:"timerworkers,omitempty"`
}

// Dec is one recorded non-default decision.
type Dec struct {
	I uint64
	V int
}

// Result of a run.
type Result struct {
	Crash    *Crash
	Quiesced bool // nothing runnable and no timer left before the main task ended
	OverTime bool
	OverStep bool
	Steps    uint64
	Switches uint64
	Now      int64
	Hash     uint64
	Tape     []Dec
	Stalls   int
	Faults   map[string]int
	Live     []*Task
}

var (
	cfg        Config
	cur        *Task
	ready      []*Task
	tasks      []*Task
	now        int64
	seq        uint64
	timers     timerHeap
	steps      uint64
	switches   uint64
	hash       uint64
	crash      *Crash
	dead       bool
	stopped    bool
	overStep   bool
	rng        *rand.Rand
	idrng      *rand.Rand
	mapctr     uint64
	dctr       uint64
	replay     bool
	record     bool
	tape       []Dec
	tpos       int
	ycount     int64
	yon        bool
	scount     int64
	son        bool
	nstall     int
	stallTotal int64
	freeW      []*worker
	minPrio    int64
	skew       map[int]int64
	deadNode   map[int]bool
	faults     map[string]int
	tracing    bool
	trace      []string
	sites      []string
	Cover      map[uint64]struct{} // context-switch pairs (site,site) seen in this process
	epoch      uint64
)

// AddSites registers the source positions of yield points.
func AddSites(base int, s []string) {
	for len(sites) < base+len(s) {
		sites = append(sites, "")
	}
	copy(sites[base:], s)
}

// Site names a yield point.
func Site(i int) string {
	if i < 0 || i >= len(sites) {
		return "?"
	}
	return sites[i]
}

func (t *Task) Site() string      { return Site(t.site) }
func (t *Task) SpawnSite() string { return Site(t.Spawn) }
func (t *Task) What() string      { return t.what }
func (t *Task) Blocked() bool     { return t.state == tsBlocked }
func (t *Task) Harness() bool     { return t.harn }

// Epoch identifies the current run; per-run caches compare it.
func Epoch() uint64 { return epoch }

// Active reports whether a simulation task is running.
func Active() bool { return cur != nil }

// InSim reports that a run is in progress (task or scheduler context).
func InSim() bool { return inRun }

var inRun bool

// Cfg returns the configuration of the current run.
func Cfg() *Config { return &cfg }

// Rand is the deterministic source behind crypto/rand and math/rand.
func Rand() *rand.Rand {
	if idrng == nil {
		return rand.New(rand.NewSource(1))
	}
	return idrng
}

// Count counts an injected fault or a probe.
func Count(k string) { faults[k]++ }

// Run executes main as task 1 and schedules everything it spawns until main
// returns, something crashes, nothing can run, or a bound is exceeded.
// atEnd runs (outside any task) before the leftovers are torn down.
func Run(c Config, replayTape []Dec, isReplay, rec, doTrace bool, main func(), atEnd func(*Result)) *Result {
	cfg = c
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	epoch++
	cur, ready, tasks, now, seq, steps, switches = nil, ready[:0], nil, 0, 0, 0, 0
	timers = timers[:0]
	hash = 14695981039346656037
	crash, dead, stopped, overStep = nil, false, false, false
	rng = rand.New(newSplit(uint64(c.Seed)*0x9E3779B97F4A7C15 + 1))
	idrng = rand.New(newSplit(uint64(c.Seed)*0xBF58476D1CE4E5B9 + 77))
	mapctr, dctr, tpos, nstall, stallTotal = uint64(c.Seed)*0x94D049BB133111EB+5, 0, 0, 0, 0
	replay, record, tape = isReplay, rec, nil
	if isReplay {
		tape = replayTape
	}
	var outTape []Dec
	recTape = &outTape
	yon = cfg.YieldP > 0
	ycount = geom(cfg.YieldP)
	son = cfg.StallP > 0
	scount = geom(cfg.StallP)
	minPrio = -1
	skew = map[int]int64{}
	deadNode = map[int]bool{}
	faults = map[string]int{}
	tracing, trace = doTrace, nil
	if Cover == nil {
		Cover = map[uint64]struct{}{}
	}
	resetChans()
	resetMaps()
	for _, f := range onReset {
		f()
	}
	inRun = true
	mainT := spawn("main", 0, main, true)
	res := &Result{}
	loop(mainT, res)
	cur = nil
	res.Crash = crash
	res.OverStep = overStep
	res.Steps, res.Switches, res.Now, res.Hash = steps, switches, now, hash
	res.Tape = outTape
	res.Stalls = nstall
	res.Faults = faults
	for _, t := range tasks {
		if t.state != tsDone {
			res.Live = append(res.Live, t)
		}
	}
	if atEnd != nil {
		atEnd(res)
	}
	teardown()
	inRun = false
	return res
}

var recTape *[]Dec
var onReset []func()

// OnReset registers a function run at the start of every simulation.
func OnReset(f func()) { onReset = append(onReset, f) }

func geom(p float64) int64 {
	if p <= 0 {
		return 1 << 60
	}
	n := int64(rng.ExpFloat64()/p) + 1
	if n > 1<<40 {
		n = 1 << 40
	}
	return n
}

func loop(mainT *Task, res *Result) {
	for {
		if crash != nil || stopped {
			return
		}
		if mainT.state == tsDone {
			return
		}
		if next != nil {
			t := next
			next = nil
			resume(t)
			continue
		}
		if len(timers) > 0 && timers[0].when <= now {
			fireDue()
		}
		if len(ready) == 0 {
			if len(timers) == 0 {
				res.Quiesced = true
				return
			}
			if timers[0].when > now {
				now = timers[0].when
			}
			if cfg.MaxTime > 0 && now > cfg.MaxTime {
				res.OverTime = true
				return
			}
			fireDue()
			continue
		}
		if cfg.MaxTime > 0 && now > cfg.MaxTime {
			res.OverTime = true
			return
		}
		t := pick(nil)
		resume(t)
	}
}

func resume(t *Task) {
	if t.w == nil {
		if n := len(freeW); n > 0 {
			t.w = freeW[n-1]
			freeW = freeW[:n-1]
		} else {
			t.w = newWorker()
		}
		t.w.t = t
	}
	t.state = tsRunning
	cur = t
	switches++
	mix(uint64(t.ID))
	mix(uint64(now))
	w := t.w
	w.next()
	cur = nil
	if t.state == tsDone {
		t.w = nil
		freeW = append(freeW, w)
	}
}

func mix(v uint64) {
	hash ^= v
	hash *= 1099511628211
}

// Mix folds a harness-visible event into the run hash.
func Mix(s string) {
	for i := 0; i < len(s); i++ {
		hash ^= uint64(s[i])
		hash *= 1099511628211
	}
}

// pick chooses the next task. With cont != nil, cont is also runnable
// (option 0).
func pick(cont *Task) *Task {
	n := len(ready)
	off := 0
	if cont != nil {
		off = 1
	}
	v := 0
	if n+off > 1 {
		v = decide(func() int { return schedule(cont) }, n+off)
	} else {
		dctr++
	}
	if cont != nil && v == 0 {
		cont.run++
		return cont
	}
	i := v - off
	t := ready[i]
	copy(ready[i:], ready[i+1:])
	ready[n-1] = nil
	ready = ready[:n-1]
	t.run = 0
	if cont != nil {
		Cover[uint64(cont.site)<<32|uint64(t.site)] = struct{}{}
	}
	return t
}

func schedule(cont *Task) int {
	n := len(ready)
	off := 0
	if cont != nil {
		off = 1
	}
	switch cfg.Strategy {
	case 1:
		if cont != nil && cont.run < 4000 && rng.Float64() >= cfg.Switch {
			return 0
		}
		return rng.Intn(n + off)
	case 2:
		best, bi := int64(-1<<62), 0
		if cont != nil {
			if rng.Float64() < cfg.Switch || cont.run > 4000 {
				minPrio--
				cont.prio = minPrio
				cont.run = 0
			}
			best = cont.prio
		}
		for i, t := range ready {
			if t.prio > best {
				best, bi = t.prio, i+off
			}
		}
		return bi
	case 3:
		if cont != nil && cont.run < 4000 {
			return 0
		}
		if cont != nil {
			return 1
		}
		return 0
	}
	return rng.Intn(n + off)
}

// decide makes (or replays) decision number dctr among n options.
func decide(f func() int, n int) int {
	i := dctr
	dctr++
	if replay {
		for tpos < len(tape) && tape[tpos].I < i {
			tpos++
		}
		if tpos < len(tape) && tape[tpos].I == i {
			v := tape[tpos].V
			tpos++
			if n > 0 {
				v %= n
			}
			return v
		}
		return 0
	}
	v := f()
	if record && v != 0 {
		*recTape = append(*recTape, Dec{i, v})
	}
	return v
}

// Choose draws a value in [0,n); 0 is the benign default.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return decide(func() int { return rng.Intn(n) }, n)
}

// Chance draws a biased coin; false is the benign default.
func Chance(p float64) bool {
	if p <= 0 {
		return false
	}
	return decide(func() int {
		if rng.Float64() < p {
			return 1
		}
		return 0
	}, 2) == 1
}

func spawn(name string, node int, fn func(), harn bool) *Task {
	t := &Task{ID: len(tasks) + 1, Name: name, Node: node, fn: fn, harn: harn, since: now}
	if cfg.Strategy == 2 {
		t.prio = int64(rng.Intn(1 << 30))
	}
	if cur != nil {
		t.Spawn = cur.site
	}
	tasks = append(tasks, t)
	ready = append(ready, t)
	return t
}

// Go starts fn as a new task (the rewritten go statement).
func Go(fn func()) {
	if !inRun {
		panic("sim: go statement outside a simulation (package init?)")
	}
	if dead {
		return
	}
	if cur == nil {
		t := spawn("timer", 0, fn, false)
		_ = t
		return
	}
	node := cur.Node
	t := spawn("", node, fn, false)
	t.Name = fmt.Sprintf("g%d", t.ID)
	Yield("go")
}

// GoNamed starts a harness task.
func GoNamed(name string, node int, fn func()) *Task {
	return spawn(name, node, fn, true)
}

// GoNode starts a library task on a node from scheduler context.
func GoNode(name string, node int, fn func()) *Task {
	if deadNode[node] || dead {
		return nil
	}
	return spawn(name, node, fn, false)
}

// CurNode is the node of the running task.
func CurNode() int {
	if cur == nil {
		return 0
	}
	return cur.Node
}

// SetNode moves the running task to a node.
func SetNode(n int) { cur.Node = n }

// Cur returns the running task.
func Cur() *Task { return cur }

// Yield is a scheduling point at a synchronisation operation.
func Yield(op string) {
	t := cur
	if t == nil {
		return
	}
	if dead || t.dying {
		dyingOp(t)
		return
	}
	bump()
	if son {
		scount--
		i := dctr
		if replay {
			if d := decide(nil, 0); d > 0 {
				stall(stallDur(d))
				return
			}
		} else {
			dctr++
			if scount <= 0 {
				scount = geom(cfg.StallP)
				v := 1 + rng.Intn(12)
				if record {
					*recTape = append(*recTape, Dec{i, v})
				}
				stall(stallDur(v))
				return
			}
		}
	}
	if len(ready) == 0 {
		dctr++
		return
	}
	n := pick(t)
	if n == t {
		return
	}
	t.state = tsReady
	t.what = op
	ready = append(ready, t)
	switchTo(t, n)
}

func stallDur(v int) int64 {
	// 1..12 -> 50us .. StallMax, geometric
	d := int64(50_000)
	for i := 1; i < v; i++ {
		d = d * 5 / 2
	}
	if cfg.StallMax > 0 && d > cfg.StallMax {
		d = cfg.StallMax
	}
	return d
}

func stall(d int64) {
	t := cur
	if t.harn || (cfg.StallSum > 0 && stallTotal+d > cfg.StallSum) {
		return
	}
	nstall++
	stallTotal += d
	faults["task-stall"]++
	g := t.gen
	After(d, func() {
		if t.gen == g && t.state == tsBlocked {
			Wake(t)
		}
	})
	park("stalled")
}

// StallTotal is the sum of all stalls injected so far.
func StallTotal() int64 { return stallTotal }

func bump() {
	steps++
	now += cfg.StepCost
	if steps > cfg.MaxSteps && !overStep {
		overStep = true
		stopped = true
		park("overstep")
	}
	if cfg.StepCost > 0 && len(timers) > 0 && timers[0].when <= now {
		c := cur
		cur = nil
		fireDue()
		cur = c
	}
}

func dyingOp(t *Task) {
	if !t.dying {
		t.dying = true
		panic(killT{})
	}
	t.nkill++
	if t.nkill > 100000 {
		// runs on after being killed: abandon it
		t.w.yield(struct{}{})
		for {
			t.w.yield(struct{}{})
		}
	}
}

// switchTo gives control to n; t has been made ready/blocked by the caller.
func switchTo(t, n *Task) {
	next = n
	t.w.yield(struct{}{})
	afterSwitch(t)
}

// next, when set, is the task chosen by the task that just yielded.
var next *Task

func afterSwitch(t *Task) {
	if dead || t.dying {
		dyingOp(t)
	}
}

// park blocks the running task until Wake.
func park(what string) {
	t := cur
	if t == nil {
		panic("sim: blocking operation outside a task: " + what)
	}
	if dead || t.dying {
		if !t.dying {
			t.dying = true
		}
		panic(killT{})
	}
	t.state = tsBlocked
	t.what = what
	t.since = now
	mix(uint64(len(what)))
	if tracing {
		Tracef("task %s blocks: %s at %s", t.Name, what, Site(t.site))
	}
	t.w.yield(struct{}{})
	afterSwitch(t)
}

// Park blocks the running task (used by the stand-ins for sync etc.).
func Park(what string) { park(what) }

// Wake makes a blocked task runnable.
func Wake(t *Task) {
	if t.state != tsBlocked {
		return
	}
	if deadNode[t.Node] && !t.harn {
		return
	}
	t.state = tsReady
	t.gen++
	ready = append(ready, t)
}

// Y is a statement-level scheduling point.
func Y(site int) {
	t := cur
	if t == nil {
		return
	}
	t.site = site
	if dead || t.dying {
		dyingOp(t)
		return
	}
	ysteps++
	if ysteps > 20_000_000 {
		overStep, stopped = true, true
		park("overstep")
	}
	if !yon {
		return
	}
	v := 0
	if replay {
		v = decide(nil, 0)
	} else {
		i := dctr
		dctr++
		ycount--
		if ycount > 0 {
			return
		}
		ycount = geom(cfg.YieldP)
		if len(ready) == 0 {
			return
		}
		v = 1 + rng.Intn(len(ready))
		if record {
			*recTape = append(*recTape, Dec{i, v})
		}
	}
	if v == 0 || len(ready) == 0 {
		return
	}
	bump()
	if len(ready) == 0 {
		return
	}
	i := (v - 1) % len(ready)
	n := ready[i]
	copy(ready[i:], ready[i+1:])
	ready = ready[:len(ready)-1]
	n.run = 0
	Cover[uint64(t.site)<<32|uint64(n.site)] = struct{}{}
	t.state = tsReady
	t.what = "preempted"
	ready = append(ready, t)
	switchTo(t, n)
}

var ysteps uint64

// Preempt hands over to a ready task.
func Preempt() {
	t := cur
	if t == nil || len(ready) == 0 || dead {
		return
	}
	bump()
	i := Choose(len(ready))
	if i >= len(ready) {
		return
	}
	n := ready[i]
	copy(ready[i:], ready[i+1:])
	ready = ready[:len(ready)-1]
	n.run = 0
	t.state = tsReady
	t.what = "preempted"
	ready = append(ready, t)
	switchTo(t, n)
}

// Stop ends the run at once.
func Stop() { stopped = true; park("stop") }

func teardown() {
	dead = true
	next = nil
	for i := 0; i < len(tasks); i++ {
		t := tasks[i]
		if t.state == tsDone {
			continue
		}
		if t.w == nil { // never started
			t.state = tsDone
			continue
		}
		cur = t
		w := t.w
		w.next()
		cur = nil
		if t.state == tsDone {
			freeW = append(freeW, w)
		}
	}
	ready = ready[:0]
	timers = timers[:0]
	tasks = nil
	ysteps = 0
}

// KillNode crashes a node: none of its tasks ever runs again.
func KillNode(n int) {
	deadNode[n] = true
	k := ready[:0]
	for _, t := range ready {
		if t.Node == n && !t.harn {
			t.state = tsBlocked
			t.what = "crashed"
			t.gen++
			continue
		}
		k = append(k, t)
	}
	ready = k
	for _, t := range tasks {
		if t.Node == n && !t.harn && t.state == tsBlocked {
			t.gen++
			t.what = "crashed"
		}
	}
}

// NodeDead reports whether a node was crashed.
func NodeDead(n int) bool { return deadNode[n] }

// ------------------------------------------------------------------- time

type Timer struct {
	when int64
	seq  uint64
	fn   func()
	idx  int
}

type timerHeap []*Timer

func (h timerHeap) less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx = i
	h[j].idx = j
}
func (h timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			return
		}
		h.swap(i, p)
		i = p
	}
}
func (h timerHeap) down(i int) {
	n := len(h)
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && h.less(c+1, c) {
			c++
		}
		if !h.less(c, i) {
			return
		}
		h.swap(c, i)
		i = c
	}
}

// After runs fn in scheduler context after d virtual ns.
func After(d int64, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	w := now + d
	if w < now {
		w = 1 << 62
	}
	seq++
	t := &Timer{when: w, seq: seq, fn: fn, idx: len(timers)}
	timers = append(timers, t)
	timers.up(t.idx)
	return t
}

// Stop removes the timer; it reports whether it was pending.
func (t *Timer) Stop() bool {
	if t == nil || t.idx < 0 || t.idx >= len(timers) || timers[t.idx] != t {
		return false
	}
	i := t.idx
	n := len(timers) - 1
	timers.swap(i, n)
	timers[n] = nil
	timers = timers[:n]
	if i < n {
		timers.down(i)
		timers.up(i)
	}
	t.idx = -1
	return true
}

func fireDue() {
	for len(timers) > 0 && timers[0].when <= now {
		t := timers[0]
		n := len(timers) - 1
		timers.swap(0, n)
		timers[n] = nil
		timers = timers[:n]
		timers.down(0)
		t.idx = -1
		mix(uint64(t.when) ^ 0xABCD)
		t.fn()
	}
}

// Now is the virtual time in ns since the start of the run.
func Now() int64 { return now }

// Steps is the number of scheduling steps so far.
func Steps() uint64 { return steps }

// Wall is the wall clock of the running task's node.
func Wall() time.Time {
	w := now
	if cur != nil {
		w += skew[cur.Node]
	}
	return Base.Add(time.Duration(w))
}

// SetSkew sets the wall-clock offset of a node.
func SetSkew(node int, ns int64) { skew[node] = ns }

// Sleep blocks the running task for d virtual ns.
func Sleep(d int64) {
	t := cur
	if t == nil {
		return
	}
	if d <= 0 {
		Yield("sleep0")
		return
	}
	if dead || t.dying {
		panic(killT{})
	}
	bump()
	g := t.gen
	After(d, func() {
		if t.gen == g && t.state == tsBlocked {
			Wake(t)
		}
	})
	park("sleep")
}

// ------------------------------------------------------------------ trace

// Tracing reports whether a trace is being collected.
func Tracing() bool { return tracing }

// Tracef appends to the trace of the run; it never affects the schedule.
func Tracef(f string, a ...any) {
	if !tracing || len(trace) > 20000 {
		return
	}
	n := "sched"
	if cur != nil {
		n = cur.Name
	}
	trace = append(trace, fmt.Sprintf("%12.6fms #%d [%s] ", float64(now)/1e6, steps, n)+fmt.Sprintf(f, a...))
}

// Trace returns the collected trace.
func Trace() []string { return trace }

// ---------------------------------------------------------------- helpers

type split struct{ s uint64 }

func newSplit(s uint64) *split { return &split{s} }
func (s *split) Uint64() uint64 {
	s.s += 0x9E3779B97F4A7C15
	z := s.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (s *split) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *split) Seed(seed int64) { s.s = uint64(seed) }

// NewRand returns a private deterministic generator.
func NewRand(seed int64) *rand.Rand { return rand.New(newSplit(uint64(seed))) }

// LiveTasks lists the library tasks that have not finished, sorted by id.
func LiveTasks() []*Task {
	var r []*Task
	for _, t := range tasks {
		if t.state != tsDone && !t.harn && !t.actor && !deadNode[t.Node] {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Dead reports that the run is over and tasks are being torn down.
func Dead() bool { return dead }

// Exit ends the running task (runtime.Goexit).
func Exit() { panic(killT{}) }

// GoActor starts a workload task: it belongs to its node (dies with it) but is
// not counted as a library goroutine.
func GoActor(name string, node int, fn func()) *Task {
	t := spawn(name, node, fn, false)
	t.actor = true
	return t
}

// Actor reports whether t is a workload task.
func (t *Task) Actor() bool { return t.actor }
