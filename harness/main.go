// Command harness explores seeded simulated executions of the instrumented
// library and checks properties on them.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/jumboframes/armorigo/log"
	"simrt/sim"
)

func main() {
	log.SetLevel(log.LevelFatal)
	if len(os.Args) < 2 {
		die("usage: harness check|worker|replay|minimise|one|hashes ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Float64("secs", 40, "")
	wi := fs.Int("worker", 0, "")
	wn := fs.Int("of", 1, "")
	file := fs.String("file", "", "")
	outf := fs.String("out", "", "")
	n := fs.Int64("n", 0, "")
	cnt := fs.Int64("count", 1, "")
	trace := fs.Bool("trace", false, "")
	scen := fs.String("scenario", "", "")
	all := fs.Bool("all", false, "report violations of every property")
	verif := fs.String("verif", "/verif", "")
	maxRuns := fs.Int64("runs", 0, "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
	case "check":
		check(*prop, *seed, *tier, *secs, *verif)
	case "worker":
		worker(*prop, *seed, *secs, *wi, *wn, *maxRuns)
	case "hashes":
		hashes(*prop, *seed, *n, *cnt)
	case "all":
		// every property's own check, a run each in turn, until one violates
		ps := sortedKeys(checks)
		if *prop != "" {
			ps = strings.Split(*prop, ",")
		}
		for i := *n; i < *n+*cnt; i++ {
			for _, q := range ps {
				o := execute(genPlan(q, *seed, i, *scen), false, false)
				for _, v := range o.Viol {
					if relevant(v, q) {
						fmt.Printf("VIOL %s n=%d %s: %s\n", q, i, v.Class, v.Msg)
						os.Exit(1)
					}
				}
			}
		}
	case "replay":
		os.Exit(doReplay(*file, *trace))
	case "minimise":
		minimise(*file, *outf, *secs)
	case "one":
		for i := *n; i < *n+*cnt; i++ {
			p := genPlan(*prop, *seed, i, *scen)
			t0 := time.Now()
			o := execute(p, false, *trace)
			if *trace {
				b, _ := json.Marshal(p)
				fmt.Println(string(b))
				for _, l := range o.Trace {
					fmt.Println(l)
				}
			}
			var vs []Violation
			for _, v := range o.Viol {
				if *all || relevant(v, *prop) {
					vs = append(vs, v)
				}
			}
			if len(vs) > 0 || *trace || *cnt == 1 {
				fmt.Printf("run %d scenario=%s steps=%d sim=%.3fs wall=%v hash=%x aborted=%s probes=%v faults=%v\n", i, p.Scenario, o.Steps, float64(o.SimNs)/1e9, time.Since(t0).Round(time.Microsecond), o.Hash, o.Aborted, o.Probes, o.Faults)
			}
			for _, v := range vs {
				fmt.Printf("  VIOL %s %s: %s\n", v.Prop, v.Class, v.Msg)
			}
		}
	case "bare":
		capMemory()
		b, err := os.ReadFile(*file)
		if err != nil {
			die("%v", err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil || r.Plan == nil {
			die("bad replay file: %v", err)
		}
		execute(r.Plan, false, false)
	default:
		die("unknown command %s", cmd)
	}
}

// relevant reports whether a violation counts against the checked property.
func relevant(v Violation, prop string) bool {
	if v.Prop == prop || v.Prop == "*" {
		return true
	}
	for _, p := range v.Also {
		if p == prop {
			return true
		}
	}
	return false
}

func genPlan(prop string, base, n int64, only string) *Plan {
	c := checks[prop]
	if c == nil {
		die("unknown property %q", prop)
	}
	s := subSeed(base, prop, n)
	r := rand.New(rand.NewSource(s))
	tot := 0
	for _, m := range c.Mix {
		tot += m.W
	}
	x := r.Intn(tot)
	name := ""
	for _, m := range c.Mix {
		if x < m.W {
			name = m.S
			break
		}
		x -= m.W
	}
	if only != "" {
		name = only
	}
	g := &Gen{R: r, Profile: prop, Seed: s}
	sc := scenarios[name]
	if sc == nil {
		die("no scenario %q", name)
	}
	return sc.Gen(g)
}

// WorkerOut is what a worker reports when it finishes.
type WorkerOut struct {
	Runs     int64
	Steps    uint64
	Switches uint64
	SimNs    int64
	Ops      int64
	Aborted  map[string]int
	Faults   map[string]int
	Probes   map[string]int
	Scen     map[string]int
	Hashes   []uint64
	Cover    int
	CoverSet []uint64
	Others   map[string]int // violations of other properties (reported for information)
	Viol     *Found
	Samples  []string
	Wall     float64
}

type Found struct {
	N    int64
	Plan *Plan
	V    Violation
}

func worker(prop string, seed int64, secs float64, wi, wn int, maxRuns int64) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	t0 := time.Now()
	wo := &WorkerOut{Aborted: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Scen: map[string]int{}, Others: map[string]int{}}
	seen := map[uint64]bool{}
	hb := bufio.NewWriter(os.Stdout)
	capMemory()
	for n := int64(wi); ; n += int64(wn) {
		if time.Since(t0).Seconds() > secs || (maxRuns > 0 && n >= maxRuns) {
			break
		}
		fmt.Fprintf(hb, "N %d\n", n)
		hb.Flush()
		p := genPlan(prop, seed, n, "")
		o := execute(p, false, false)
		wo.Runs++
		wo.Scen[p.Scenario]++
		wo.Steps += o.Steps
		wo.Switches += o.Switches
		wo.SimNs += o.SimNs
		wo.Ops += int64(o.Ops)
		if o.Aborted != "" {
			wo.Aborted[o.Aborted]++
		}
		for k, v := range o.Faults {
			if strings.HasPrefix(k, "probe-") {
				wo.Probes[k] += v
			} else {
				wo.Faults[k] += v
			}
		}
		for k, v := range o.Probes {
			wo.Probes[k] += v
		}
		if o.Ops > 0 && o.Switches > 50 && !seen[o.Hash] {
			seen[o.Hash] = true
			wo.Hashes = append(wo.Hashes, o.Hash)
		}
		if len(wo.Samples) < 1 {
			b, _ := json.Marshal(map[string]any{"n": n, "scenario": p.Scenario, "seed": p.Seed, "ops": len(p.Ops), "faults": p.Faults, "opt": p.Opt, "sim": p.Sim, "net": p.Net, "steps": o.Steps, "simulated_s": float64(o.SimNs) / 1e9, "hash": fmt.Sprintf("%x", o.Hash)})
			wo.Samples = append(wo.Samples, string(b))
		}
		for _, v := range o.Viol {
			if relevant(v, prop) {
				wo.Viol = &Found{n, p, v}
				break
			}
			wo.Others[v.Prop+" "+v.Class]++
		}
		if wo.Viol != nil {
			break
		}
	}
	for c := range sim.Cover {
		wo.CoverSet = append(wo.CoverSet, c)
	}
	wo.Wall = time.Since(t0).Seconds()
	b, _ := json.Marshal(wo)
	hb.WriteString("OUT ")
	hb.Write(b)
	hb.WriteString("\n")
	hb.Flush()
}

func hashes(prop string, seed, n, cnt int64) {
	for i := n; i < n+cnt; i++ {
		o := execute(genPlan(prop, seed, i, ""), false, false)
		fmt.Printf("%d %x %d\n", i, o.Hash, len(o.Viol))
	}
}

// stuckAfter is how long (of real time) one simulated run may take: most take
// milliseconds, so a run this long spins without ever reaching a scheduling point.
const stuckAfter = 90 * time.Second

// capMemory bounds a worker, so that a run that allocates without end dies by itself.
func capMemory() {
	l := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// fatalRun executes a plan in a process of its own and says whether it killed it or never ended.
func fatalRun(self string, p *Plan) (Violation, bool) {
	f, err := os.CreateTemp("", "fatal")
	if err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(&Replay{Plan: p})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	c := exec.Command(self, "bare", "-file", f.Name())
	var eb bytes.Buffer
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	late := false
	t := time.AfterFunc(stuckAfter, func() { late = true; c.Process.Kill() })
	err = c.Wait()
	t.Stop()
	if late {
		return Violation{"*", "spin", fmt.Sprintf("a run spins for more than %v without reaching any scheduling point", stuckAfter), nil}, true
	}
	if err != nil {
		s := eb.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return Violation{"*", "process-death", "a run kills the whole process: " + s, nil}, true
	}
	return Violation{}, false
}

// runWorkers fans the search out over processes.
func runWorkers(prop string, seed int64, secs float64, nw int) []*WorkerOut {
	self, _ := os.Executable()
	outs := make([]*WorkerOut, nw)
	errs := make([]string, nw)
	var wg sync.WaitGroup
	var mu sync.Mutex
	found := false
	var cmds []*exec.Cmd
	for i := 0; i < nw; i++ {
		c := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-worker", fmt.Sprint(i), "-of", fmt.Sprint(nw))
		cmds = append(cmds, c)
		wg.Add(1)
		go func(i int, c *exec.Cmd) {
			defer wg.Done()
			var eb bytes.Buffer
			c.Stderr = &eb
			so, err := c.StdoutPipe()
			if err != nil {
				errs[i] = err.Error()
				return
			}
			if err := c.Start(); err != nil {
				errs[i] = err.Error()
				return
			}
			lastN := int64(-1)
			wd := time.AfterFunc(stuckAfter, func() { errs[i] = "worker made no progress"; c.Process.Kill() })
			defer wd.Stop()
			sc := bufio.NewReaderSize(so, 1<<20)
			for {
				l, err := sc.ReadString('\n')
				wd.Reset(stuckAfter)
				if strings.HasPrefix(l, "N ") {
					fmt.Sscanf(l, "N %d", &lastN)
				}
				if strings.HasPrefix(l, "OUT ") {
					wo := &WorkerOut{}
					if e := json.Unmarshal([]byte(l[4:]), wo); e == nil {
						outs[i] = wo
						if wo.Viol != nil {
							mu.Lock()
							if !found {
								found = true
								// give the others a moment, then stop them
								for j, o := range cmds {
									if j != i && o.Process != nil {
										o := o
										time.AfterFunc(2*time.Second, func() { o.Process.Kill() })
									}
								}
							}
							mu.Unlock()
						}
					}
				}
				if err != nil {
					break
				}
			}
			c.Wait()
			if outs[i] == nil && errs[i] == "" {
				s := eb.String()
				if len(s) > 3000 {
					s = s[:3000]
				}
				errs[i] = "worker died: " + s
			}
			mu.Lock()
			stopped := found
			mu.Unlock()
			if outs[i] == nil && !stopped && lastN >= 0 {
				// one run took the whole process with it: does it do so again on its own?
				p := genPlan(prop, seed, lastN, "")
				if v, ok := fatalRun(self, p); ok {
					mu.Lock()
					found = true
					outs[i] = &WorkerOut{Runs: lastN / int64(nw), Viol: &Found{lastN, p, v}}
					for j, o := range cmds {
						if j != i && o.Process != nil {
							o.Process.Kill()
						}
					}
					mu.Unlock()
				}
			}
		}(i, c)
	}
	wg.Wait()
	if !found {
		dead := 0
		for i, e := range errs {
			if outs[i] == nil {
				fmt.Fprintf(os.Stderr, "worker %d: %s\n", i, e)
				dead++
			}
		}
		if dead > 2 {
			die("%d of %d workers died without a reproducible cause", dead, nw)
		}
	}
	var r []*WorkerOut
	for _, o := range outs {
		if o != nil {
			r = append(r, o)
		}
	}
	return r
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// Replay is the file handed over with a violation.
type Replay struct {
	Property string    `json:"property"`
	V        Violation `json:"violation"`
	Hash     string    `json:"hash"`
	Plan     *Plan     `json:"plan"`
	Original any       `json:"original,omitempty"`
	How      string    `json:"how"`
	Trace    []string  `json:"trace,omitempty"`
}

func check(prop string, seed int64, tier string, secs float64, verif string) {
	t0 := time.Now()
	c := checks[prop]
	if c == nil {
		die("unknown property %s", prop)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	self, _ := os.Executable()
	outs := runWorkers(prop, seed, secs, nw)
	detN := int64(60)
	tot := &WorkerOut{Aborted: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Scen: map[string]int{}, Others: map[string]int{}}
	hs := map[uint64]bool{}
	cov := map[uint64]bool{}
	var cands []*Found
	var found *Found
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	var samples []any
	for _, o := range outs {
		tot.Runs += o.Runs
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.SimNs += o.SimNs
		tot.Ops += o.Ops
		add(tot.Aborted, o.Aborted)
		add(tot.Faults, o.Faults)
		add(tot.Probes, o.Probes)
		add(tot.Scen, o.Scen)
		add(tot.Others, o.Others)
		for _, h := range o.Hashes {
			hs[h] = true
		}
		for _, h := range o.CoverSet {
			cov[h] = true
		}
		for _, s := range o.Samples {
			if len(samples) < 3 {
				var v any
				json.Unmarshal([]byte(s), &v)
				samples = append(samples, v)
			}
		}
		if o.Viol != nil {
			cands = append(cands, o.Viol)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].N < cands[j].N })
	if len(cands) > 0 {
		found = cands[0]
	}
	if found == nil {
		// determinism: the same seeds in two fresh processes, different batches
		hctx, hcancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer hcancel()
		h1, err1 := exec.CommandContext(hctx, self, "hashes", "-prop", prop, "-seed", fmt.Sprint(seed), "-n", "0", "-count", fmt.Sprint(detN)).Output()
		h2a, err2 := exec.CommandContext(hctx, self, "hashes", "-prop", prop, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(detN/2), "-count", fmt.Sprint(detN/2)).Output()
		h2b, err3 := exec.CommandContext(hctx, self, "hashes", "-prop", prop, "-seed", fmt.Sprint(seed), "-n", "0", "-count", fmt.Sprint(detN/2)).Output()
		if err1 != nil || err2 != nil || err3 != nil {
			die("determinism self-test could not run: %v %v %v", err1, err2, err3)
		}
		if string(h1) != string(h2b)+string(h2a) {
			la, lb := strings.Split(string(h1), "\n"), strings.Split(string(h2b)+string(h2a), "\n")
			for i := range la {
				if i < len(lb) && la[i] != lb[i] {
					die("simulation is not deterministic: %s vs %s", la[i], lb[i])
				}
			}
			die("simulation is not deterministic")
		}
	}
	// known findings: fixed replay plans that must be reported as such
	known := loadKnown(verif, prop)
	var kf []string
	for _, k := range known {
		p := &Plan{}
		b, err := os.ReadFile(filepath.Join(verif, k.Plan))
		if err != nil {
			die("known finding %s: %v", k.Plan, err)
		}
		var rp Replay
		if json.Unmarshal(b, &rp) != nil || rp.Plan == nil {
			die("known finding %s: bad plan", k.Plan)
		}
		p = rp.Plan
		o := execute(p, false, false)
		still := false
		for _, v := range o.Viol {
			if v.Class == k.Class {
				still = true
			} else if relevant(v, prop) && found == nil {
				found = &Found{-1, p, v}
			}
		}
		if still {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			kf = append(kf, k.What)
		}
	}
	wall := time.Since(t0).Seconds()
	viols := 0
	var vpath string
	if found != nil {
		viols = 1
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		raw := ""
		// the violation must reproduce in a fresh process before it is believed
		if len(cands) == 0 {
			cands = append(cands, found)
		}
		ok := false
		for _, found = range cands {
			raw = filepath.Join(dir, fmt.Sprintf("%s-%d-raw.json", prop, found.Plan.Seed))
			writeJSON(raw, &Replay{Property: prop, V: found.V, Plan: found.Plan, How: "bash check.sh replay <file>"})
			code, out := runReplay(self, raw)
			if ok = code == 1; ok {
				break
			}
			fmt.Printf("violation of run %d did not reproduce in a fresh process (exit %d): %+v\n%s\n", found.N, code, found.V, out)
			os.Remove(raw)
		}
		if !ok {
			die("no violation reproduced")
		}
		vpath = filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, found.Plan.Seed))
		asIs := func() {
			b, _ := os.ReadFile(raw)
			os.WriteFile(vpath, b, 0o644)
		}
		if isFatal(found.V) {
			asIs()
		} else {
			ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
			mc := exec.CommandContext(ctx, self, "minimise", "-file", raw, "-out", vpath, "-secs", "40")
			mc.Stderr = os.Stderr
			if err := mc.Run(); err != nil {
				asIs()
			} else if code, _ := runReplay(self, vpath); code != 1 {
				asIs()
			}
			cancel()
		}
		os.Remove(raw)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s":     time.Since(t0).Seconds(),
		"violations": viols,
		"coverage": map[string]any{
			"evaluations":               tot.Runs,
			"distinct_nontrivial":       len(hs),
			"rule":                      "one case is one simulated execution of a generated plan (configuration, workload, faults) under a seeded schedule; it is non-trivial when at least one workload operation completed and more than 50 task switches happened; two cases are the same when the hash over (task switched to, virtual time, blocking kind, harness-visible events) is equal",
			"samples":                   samples,
			"runs_per_hour":             int64(float64(tot.Runs) / wall * 3600),
			"simulated_seconds":         float64(tot.SimNs) / 1e9,
			"scheduling_steps":          tot.Steps,
			"task_switches":             tot.Switches,
			"workload_operations":       tot.Ops,
			"preemption_pairs_reached":  len(cov),
			"faults_injected":           tot.Faults,
			"probes":                    tot.Probes,
			"scenarios":                 tot.Scen,
			"runs_stopped_at_a_bound":   tot.Aborted,
			"other_property_violations": tot.Others,
			"determinism_runs_compared": detN * 2,
			"worker_processes":          nw,
			"known_findings":            kf,
			"real_components":           []string{"all of /repo (application, client, conn, multiplexer, packet, pkg, server), instrumented", "armorigo/synchub, instrumented", "yafsm, instrumented"},
			"stub_components":           stubs(),
		},
		"assumptions": append([]string{
			"goroutine scheduling is sequentially consistent and preempts only at instrumented points (synchronisation operations, and statements of /repo in runs with statement preemption); weak-memory effects are not modelled",
			"the simulated transport behaves like TCP: ordered bytes, bounded window, FIN/RST, no silent corruption unless injected",
			"a clean batch is a sample of schedules and fault sequences, not a proof",
		}, c.Assume...),
	}
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	fmt.Printf("%s %s: %d runs, %d distinct schedules, %.0f simulated s, %d preemption pairs, faults %v, %.1fs wall\n", prop, tier, tot.Runs, len(hs), float64(tot.SimNs)/1e9, len(cov), tot.Faults, wall)
	if found != nil {
		fmt.Printf("violated: %s: %s\n", found.V.Class, found.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, vpath)
		os.Exit(1)
	}
}

func stubs() []string {
	return []string{"goroutine scheduler, channels, select, sync, sync/atomic, context, time (simulated)", "net.Conn/net.Listener (simulated TCP)", "crypto/rand, math/rand (seeded)", "go-timer timing wheel: stand-in with the same contract in most runs, the real instrumented one in runs counted by probe-real-timing-wheel"}
}

func runReplay(self, f string) (int, string) {
	c := exec.Command(self, "replay", "-file", f)
	out, err := c.CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), string(out)
	}
	return 3, err.Error()
}

func isFatal(v Violation) bool { return v.Class == "spin" || v.Class == "process-death" }

func doReplay(f string, trace bool) int {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil || r.Plan == nil {
		die("bad replay file: %v", err)
	}
	if isFatal(r.V) && !trace {
		self, _ := os.Executable()
		if v, ok := fatalRun(self, r.Plan); ok && v.Class == r.V.Class {
			fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, f)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	o := execute(r.Plan, false, trace)
	if trace {
		for _, l := range o.Trace {
			fmt.Println(l)
		}
	}
	same := false
	for _, v := range o.Viol {
		fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Msg)
		if v.Class == r.V.Class && v.Prop == r.V.Prop {
			same = true
		}
	}
	if r.Hash != "" && fmt.Sprintf("%x", o.Hash) != r.Hash {
		fmt.Printf("run hash %x differs from the recorded %s (the code has changed?)\n", o.Hash, r.Hash)
	}
	if same {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, f)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

// ------------------------------------------------------------- minimisation

func violates(p *Plan, v Violation) (*Outcome, bool) {
	o := execute(p, p.UseTape == false, false)
	for _, x := range o.Viol {
		if x.Prop == v.Prop && x.Class == v.Class {
			return o, true
		}
	}
	return o, false
}

func minimise(in, out string, secs float64) {
	b, err := os.ReadFile(in)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if json.Unmarshal(b, &r) != nil {
		die("bad file")
	}
	t0 := time.Now()
	over := func() bool { return time.Since(t0).Seconds() > secs*0.75 }
	best := r.Plan
	orig := map[string]any{"ops": len(best.Ops), "faults": len(best.Faults), "seed": best.Seed}
	try := func(q *Plan) bool {
		if over() {
			return false
		}
		for k := int64(0); k < 6 && !over(); k++ {
			c := q.clone()
			if k > 0 {
				c.Seed = subSeed(q.Seed, "min", k)
			}
			if _, ok := violates(c, r.V); ok {
				best = c
				return true
			}
		}
		return false
	}
	// faults, then operations, in halves then singly
	for size := max(1, len(best.Faults)/2); len(best.Faults) > 0; size /= 2 {
		for i := 0; i < len(best.Faults); {
			q := best.clone()
			q.Faults = append(append([]Fault(nil), q.Faults[:i]...), q.Faults[min(len(q.Faults), i+size):]...)
			if !try(q) {
				i += size
			}
		}
		if size == 1 || over() {
			break
		}
	}
	for size := max(1, len(best.Ops)/2); len(best.Ops) > 0; size /= 2 {
		for i := 0; i < len(best.Ops); {
			q := best.clone()
			q.Ops = append(append([]Op(nil), q.Ops[:i]...), q.Ops[min(len(q.Ops), i+size):]...)
			if !try(q) {
				i += size
			}
		}
		if size == 1 || over() {
			break
		}
	}
	for _, f := range []func(*Plan){
		func(p *Plan) { p.Sim.StallP = 0 }, func(p *Plan) { p.Sim.YieldP = 0 }, func(p *Plan) { p.Net.TailP = 0 },
		func(p *Plan) { p.Net.SegP = 0 }, func(p *Plan) { p.Net.Jitter = 0 }, func(p *Plan) { p.Net.MSS = 0 },
		func(p *Plan) { p.Net.Window = 0 }, func(p *Plan) { p.Net.RstClose = false }, func(p *Plan) { p.Sim.StepCost = 0 },
		func(p *Plan) { p.Net.Latency = 1e6 },
	} {
		q := best.clone()
		f(q)
		try(q)
	}
	// the schedule: record it, then drop non-default decisions
	o, ok := violates(best, r.V)
	if !ok {
		die("minimised plan does not fail")
	}
	q := best.clone()
	q.UseTape = true
	for _, d := range o.Tape {
		q.Tape = append(q.Tape, [2]int64{int64(d.I), int64(d.V)})
	}
	full := len(q.Tape)
	if _, ok := violates(q, r.V); ok {
		best = q
		for size := max(1, len(best.Tape)/2); len(best.Tape) > 0; size /= 2 {
			for i := 0; i < len(best.Tape) && time.Since(t0).Seconds() < secs; {
				c := best.clone()
				c.Tape = append(append([][2]int64(nil), c.Tape[:i]...), c.Tape[min(len(c.Tape), i+size):]...)
				if _, ok := violates(c, r.V); ok {
					best = c
				} else {
					i += size
				}
			}
			if size == 1 || time.Since(t0).Seconds() > secs {
				break
			}
		}
	}
	o = execute(best, false, true)
	var v Violation
	for _, x := range o.Viol {
		if x.Prop == r.V.Prop && x.Class == r.V.Class {
			v = x
		}
	}
	orig["decisions"] = full
	tr := o.Trace
	if len(tr) > 400 {
		tr = append(append([]string(nil), tr[:100]...), append([]string{"..."}, tr[len(tr)-300:]...)...)
	}
	writeJSON(out, &Replay{Property: r.Property, V: v, Hash: fmt.Sprintf("%x", o.Hash), Plan: best, Original: orig, How: "bash check.sh replay <file>", Trace: tr})
}

// ----------------------------------------------------------- known findings

type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Plan     string `json:"plan"`
	What     string `json:"what"`
}

func loadKnown(verif, prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known  `json:"findings"`
		Fixed    []string `json:"fixed"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("known-findings.json: %v", err)
	}
	var r []Known
	for _, k := range f.Findings {
		if k.Property == prop {
			r = append(r, k)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Plan < r[j].Plan })
	return r
}
