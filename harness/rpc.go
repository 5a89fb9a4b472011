package main

import (
	"context"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
)

// The rpc scenario: what a call by name reaches. Both sides register,
// overwrite and hijack methods on the ends and on streams while the other side
// calls them, with the options that wait for, check and pre-register methods.
// A small model of every stream side (the versions that were in effect) says
// which answers a call may get.

func init() { register(&Scenario{Name: "rpc", Gen: genRPC, Run: runRPC}) }

var rpMethods = []string{"a", "ab", "bx", "xb", "q", "", "w0", "w1", strings.Repeat("long", 80)}
var rpPatterns = []string{"^a", "b$", ".*", "x", "", "^w", "("}

type rpState struct {
	regs map[string]int
	ann  map[string]int // announced to the peer: 1 maybe, 2 surely
	hij  int
	pat  *regexp.Regexp
	mat  bool
}

// rpSide is one side of one stream: the callee of a model.
type rpSide struct {
	t       *rpcTest
	st      geminio.Stream
	k, side int
	hist    []rpState
	done    int
	regOK   map[string]int
	regAll  map[string]int
	ver     int
}

type rpcTest struct {
	e      *Env
	s      *sess
	sides  [][2]*rpSide
	paused bool
	broken bool
}

func (x *rpSide) name() string { return fmt.Sprintf("stream %d %s", x.k, sideName(x.side)) }

func (x *rpSide) next(f func(n *rpState)) {
	o := x.hist[len(x.hist)-1]
	n := rpState{regs: map[string]int{}, ann: map[string]int{}, hij: o.hij, pat: o.pat, mat: o.mat}
	for k, v := range o.regs {
		n.regs[k] = v
	}
	for k, v := range o.ann {
		n.ann[k] = v
	}
	f(&n)
	x.hist = append(x.hist, n)
}

func newRpSide(t *rpcTest, k, side int) *rpSide {
	return &rpSide{t: t, k: k, side: side, hist: []rpState{{regs: map[string]int{}, ann: map[string]int{}}}, regOK: map[string]int{}, regAll: map[string]int{}}
}

// answer is what a handler of a version answers.
func rpAnswer(kind, m string, v int) string { return fmt.Sprintf("%s/%s/%d", kind, m, v) }

func (x *rpSide) handle(kind, m string, v int, req geminio.Request, rsp geminio.Response) {
	e := x.t.e
	if req.Method() != m {
		e.Violate("C03", "request-method", "the handler of %q got a request that says method %q", m, req.Method())
	}
	if d := e.P.o("slow"); d > 0 && v%3 == 1 {
		sim.Sleep(int64(d) * ms)
	}
	if v%5 == 4 {
		rsp.SetError(errors.New(rpAnswer("E"+kind, m, v)))
		return
	}
	rsp.SetData([]byte(rpAnswer(kind, m, v) + "/" + string(req.Data())))
}

func (x *rpSide) rpc(m string, v int) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) { x.handle("R", m, v, req, rsp) }
}

// outcome of a call in a state, as (data or error text).
func (x *rpSide) outcome(s rpState, m, data string) string {
	kind, v := "R", s.regs[m]
	if s.hij > 0 && (s.pat == nil || s.pat.MatchString(m) == s.mat) {
		kind, v = "H", s.hij
	}
	if v == 0 {
		return "no such rpc: " + m
	}
	if v%5 == 4 {
		return rpAnswer("E"+kind, m, v)
	}
	return rpAnswer(kind, m, v) + "/" + data
}

func runRPC(e *Env) {
	p := e.P
	t := &rpcTest{e: e, broken: p.o("never") == 1}
	t.sides = append(t.sides, [2]*rpSide{newRpSide(t, 0, 0), newRpSide(t, 0, 1)})
	var late []*actor
	waits := [2][]string{}
	locals := [2][]*geminio.MethodRPC{}
	for side := 0; side < 2; side++ {
		x := t.sides[0][side]
		for _, i := range []int{6, 7} {
			m := rpMethods[i]
			b := 1 << (i - 6)
			if p.o(fmt.Sprintf("local%d", side))&b != 0 {
				x.ver++
				v := x.ver
				x.next(func(n *rpState) { n.regs[m], n.ann[m] = v, 2 })
				x.regOK[m]++
				x.regAll[m]++
				locals[side] = append(locals[side], &geminio.MethodRPC{Method: m, RPC: x.rpc(m, v)})
			}
			if p.o(fmt.Sprintf("wait%d", side))&b != 0 {
				waits[side] = append(waits[side], m)
			}
		}
		x.done = len(x.hist) - 1
	}
	never := p.o("never") == 1
	co := connectOpts{sharedTimer: p.o("tmr") == 1}
	set := func(side int) (func(o interface{ SetWaitRemoteRPCs(...string) }), func(o interface {
		SetRegisterLocalRPCs(...*geminio.MethodRPC)
	}), bool) {
		return func(o interface{ SetWaitRemoteRPCs(...string) }) {
				if len(waits[side]) > 0 {
					o.SetWaitRemoteRPCs(waits[side]...)
				}
			}, func(o interface {
				SetRegisterLocalRPCs(...*geminio.MethodRPC)
			}) {
				if len(locals[side]) > 0 {
					o.SetRegisterLocalRPCs(locals[side]...)
				}
			}, p.o(fmt.Sprintf("check%d", side)) == 1
	}
	co.srv = func(o *server.EndOptions) {
		w, l, c := set(0)
		w(o)
		l(o)
		if c {
			o.SetRemoteRPCCheck()
		}
	}
	co.cli = func(o *client.EndOptions) {
		w, l, c := set(1)
		w(o)
		l(o)
		if c {
			o.SetRemoteRPCCheck()
		}
	}
	var s *sess
	gone := int64(0)
	co.onConns = func(x *sess) { s = x; t.s = x }
	co.onEnd = func(side int, end geminio.End, err error) {
		x := t.sides[0][side]
		x.st = end
		e.Ev("%s NewEnd -> %s", sideName(side), errText(err))
		if err != nil {
			if !never {
				e.Violate("C20", "newend-failed", "NewEnd of the %s with methods to wait for or to register failed on a healthy network: %v", sideName(side), err)
			}
			return
		}
		// everything waited for is there
		y := t.sides[0][1-side]
		for _, m := range waits[side] {
			if y.hist[len(y.hist)-1].ann[m] == 0 {
				e.Violate("C20", "wait-early", "NewEnd of the %s returned although the peer did not register %q, which it was told to wait for", sideName(side), m)
				continue
			}
			late = append(late, e.Go(fmt.Sprintf("first-%s-%s", sideName(side), m), node(side, 0), func(a *actor) { t.call(a, x, y, m, "first", 0) }))
		}
		for _, m := range waits[1-side] {
			m := m
			if x.hist[len(x.hist)-1].ann[m] != 0 || never {
				continue
			}
			late = append(late, e.Go(fmt.Sprintf("late-%s-%s", sideName(side), m), node(side, 0), func(a *actor) {
				sim.Sleep(int64(p.o("late")) * ms)
				x.register(a, m, 0)
			}))
		}
	}
	if never {
		e.Go("breaker", 0, func(a *actor) {
			a.daemon = true
			sim.Sleep(int64(p.o("late")+1) * ms)
			for s == nil {
				sim.Sleep(ms)
			}
			side := p.o("nside") // the one that waits for ever
			if p.o("nhow") == 1 && e.Until(20*sec, 5*ms, func() bool { return s.ends[1-side] != nil }) {
				gone = sim.Now()
				e.Go("peer-close", node(1-side, 0), func(a *actor) { s.ends[1-side].Close() })
			} else {
				gone = sim.Now()
				s.c[1].Reset()
			}
		})
	}
	s = e.connect(0, co)
	if never {
		t.broken = true
		side := p.o("nside")
		if s.ends[side] != nil {
			e.Violate("C20", "wait-early", "NewEnd of the %s returned an end although a method it was told to wait for was never registered", sideName(side))
		} else if s.errs[side] == nil {
			e.Violate("C20", "wait-hang", "NewEnd of the %s still waits for a method %.1fs after its connection was lost", sideName(side), float64(sim.Now()-gone)/1e9)
		}
		t.finish()
		return
	}
	if !s.up() {
		if len(e.out.Viol) == 0 {
			e.Violate("C20", "wait-hang", "NewEnd did not return although everything it waits for was registered")
		}
		return
	}
	if len(late) > 0 {
		if left := e.WaitAll(30*sec+e.slack(), late...); len(left) > 0 {
			e.Stuck(left, "C20")
			return
		}
	}
	// more streams
	for k := 1; k < p.o("streams"); k++ {
		var st [2]geminio.Stream
		o := p.o(fmt.Sprintf("opener%d", k))
		ac := e.Go("accept", node(1-o, 0), func(a *actor) { st[1-o], _ = acceptStream(e, s.ends[1-o]) })
		op := e.Go("open", node(o, 0), func(a *actor) { st[o], _ = s.ends[o].OpenStream() })
		if left := e.WaitAll(30*sec+e.slack(), ac, op); len(left) > 0 || st[0] == nil || st[1] == nil {
			e.Violate("C06", "open", "no stream on a healthy connection")
			return
		}
		pr := [2]*rpSide{newRpSide(t, k, 0), newRpSide(t, k, 1)}
		pr[0].st, pr[1].st = st[0], st[1]
		t.sides = append(t.sides, pr)
	}
	// owners are sequential, callers are many
	owners := map[int][]Op{}
	var order []int
	var as []*actor
	for i, o := range p.Ops {
		o := o
		switch o.K {
		case "reg", "hij":
			if owners[o.A] == nil {
				order = append(order, o.A)
			}
			owners[o.A] = append(owners[o.A], o)
		case "call":
			x := t.side(o.A)
			y := t.sides[x.k][1-x.side]
			as = append(as, e.Go(fmt.Sprintf("call%d", i), node(x.side, 0), func(a *actor) {
				sim.Sleep(int64(o.X) * ms / 100)
				for n := 0; n < o.Y; n++ {
					t.call(a, x, y, rpMethods[(o.Z+n*o.W)%len(rpMethods)], fmt.Sprintf("d%d-%d", i, n), o.W)
				}
			}))
		}
	}
	for _, i := range order {
		x, ops := t.side(i), owners[i]
		as = append(as, e.Go(fmt.Sprintf("own%d", i), node(x.side, 0), func(a *actor) {
			for _, o := range ops {
				sim.Sleep(int64(o.X) * ms / 100)
				if o.K == "reg" {
					x.register(a, rpMethods[o.Z%len(rpMethods)], o.Y)
				} else {
					x.hijack(a, o.Z)
				}
				e.out.Ops++
			}
		}))
	}
	for i, f := range p.Faults {
		f := f
		as = append(as, e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) {
			sim.Sleep(f.At)
			sim.Count("net-" + f.K)
			e.Ev("fault %s", f.K)
			switch f.K {
			case "pause":
				s.c[f.X&1].Cut()
				sim.Sleep(f.D)
				s.c[f.X&1].Heal()
			case "reset":
				t.broken = true
				s.c[f.X&1].Reset()
			}
		}))
	}
	if len(as) > 0 {
		if left := e.WaitAll(200*sec+e.slack(), as...); len(left) > 0 {
			e.Stuck(left, "C20")
			return
		}
	}
	t.finish()
}

func (t *rpcTest) side(a int) *rpSide {
	return t.sides[(a/2)%len(t.sides)][a%2]
}

func (x *rpSide) register(a *actor, m string, timeout int) {
	e, t := x.t.e, x.t
	x.ver++
	v := x.ver
	x.regAll[m]++
	x.next(func(n *rpState) {
		n.regs[m] = v
		n.ann[m] = max(n.ann[m], 1)
	})
	ctx, cancel := sctx.Background(), sctx.CancelFunc(func() {})
	if timeout > 0 {
		// it may be given up at any time
		x.next(func(n *rpState) { delete(n.regs, m) })
		ctx, cancel = sctx.WithTimeout(ctx, time.Duration(timeout)*time.Millisecond)
	}
	t0 := sim.Now()
	a.Begin("C20", "Register(%s, %q)", x.name(), m)
	err := x.st.Register(ctx, m, x.rpc(m, v))
	a.End()
	switch {
	case err == nil:
		x.regOK[m]++
		x.next(func(n *rpState) { n.regs[m], n.ann[m] = v, 2 })
	default:
		x.next(func(n *rpState) { delete(n.regs, m) })
		if timeout > 0 && err == context.DeadlineExceeded {
			e.Probe("register-timeout")
		} else if !t.broken {
			e.Violate("C20", "register-error", "Register(%q) on %s failed on a healthy connection: %v", m, x.name(), err)
		}
	}
	x.done = len(x.hist) - 1
	cancel()
	if el := sim.Now() - t0; timeout > 0 && el > int64(timeout)*ms+e.slack() {
		e.Violate("C20", "register-late", "Register with a context of %dms returned after %.3fs", timeout, float64(el)/1e9)
	}
}

func (x *rpSide) hijack(a *actor, z int) {
	e := x.t.e
	x.ver++
	v := x.ver
	var opts []*options.HijackOptions
	var re *regexp.Regexp
	mat := true
	bad := false
	if z%8 != 7 {
		pat := rpPatterns[z%len(rpPatterns)]
		mat = z&16 == 0
		o := options.Hijack()
		o.SetMatch(mat, pat)
		opts = append(opts, o)
		var err error
		re, err = regexp.Compile(pat)
		bad = err != nil
	}
	if !bad {
		x.next(func(n *rpState) { n.hij, n.pat, n.mat = v, re, mat })
	}
	a.Begin("C20", "Hijack(%s)", x.name())
	err := x.st.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
		x.handle("H", method, v, req, rsp)
	}, opts...)
	a.End()
	if (err != nil) != bad {
		e.Violate("C20", "hijack-error", "Hijack with pattern %v returned %v", opts, err)
	}
	x.done = len(x.hist) - 1
}

// call calls a method of y's side from x's side and compares with the model.
func (t *rpcTest) call(a *actor, x, y *rpSide, m, data string, how int) {
	e := t.e
	lo := y.done
	var rsp geminio.Response
	var err error
	t0 := sim.Now()
	req := x.st.NewRequest([]byte(data))
	if how%2 == 0 {
		a.Begin("C20", "Call(%s, %q)", x.name(), m)
		rsp, err = x.st.Call(sctx.Background(), m, req)
		a.End()
	} else {
		var c *geminio.Call
		a.Begin("C20", "CallAsync(%s, %q)", x.name(), m)
		c, err = x.st.CallAsync(sctx.Background(), m, req, nil)
		a.End()
		if err == nil {
			a.Begin("C20", "CallAsync completion(%s, %q)", x.name(), m)
			c, _ = sim.Recv2(c.Done)
			a.End()
			rsp, err = c.Response, c.Error
		}
	}
	hi := len(y.hist) - 1
	e.out.Ops++
	got := errText(err)
	if err == nil {
		got = string(rsp.Data())
	}
	if t.broken && err != nil {
		return
	}
	check := e.P.o(fmt.Sprintf("check%d", x.side)) == 1
	var want []string
	// the hijack and the registration are looked up one after the other, each as
	// it's at some point of the call
	for n := 0; n < (hi-lo+1)*(hi-lo+1); n++ {
		s, h := y.hist[lo+n/(hi-lo+1)], y.hist[lo+n%(hi-lo+1)]
		s.hij, s.pat, s.mat = h.hij, h.pat, h.mat
		w := y.outcome(s, m, data)
		if check && s.ann[m] < 2 {
			if err == application.ErrRemoteRPCUnregistered {
				e.Probe("unregistered-refused")
				return
			}
			want = append(want, "ErrRemoteRPCUnregistered")
		}
		if !check || s.ann[m] > 0 {
			if w == got {
				if strings.HasPrefix(w, "no such") {
					e.Probe("no-such-rpc")
				}
				return
			}
			want = append(want, w)
		}
	}
	class := "wrong-handler"
	switch {
	case err == application.ErrRemoteRPCUnregistered:
		class = "refused"
	case err != nil && strings.HasPrefix(got, "no such"):
		class = "not-found"
	case err != nil && !strings.HasPrefix(got, "E"):
		class = "call-error"
	}
	if len(want) > 4 {
		want = want[:4]
	}
	e.Violate("C20", class, "a call of %q on %s (%.3fs long) was answered %q; what was in effect meanwhile says %q", m, x.name(), float64(sim.Now()-t0)/1e9, got, want)
}

func (t *rpcTest) finish() {
	e, s := t.e, t.s
	var cl []*actor
	for side := 0; side < 2; side++ {
		side := side
		if s.ends[side] == nil {
			continue
		}
		cl = append(cl, e.Go("close-"+sideName(side), node(side, 0), func(a *actor) {
			a.Begin("C11", "End.Close(%s)", sideName(side))
			s.ends[side].Close()
			a.End()
		}))
	}
	if !t.broken {
		// the delegate heard of every registration once
		ok := func(v bool) bool {
			for _, pr := range t.sides {
				for side, x := range pr {
					if x.st == nil {
						continue
					}
					n := map[string]int{}
					for _, ev := range s.dlg[1-side].evs {
						if ev.kind == "registration" && ev.id == x.st.StreamID() {
							n[ev.m]++
							if ev.cid != x.st.ClientID() {
								e.Violate("C20", "registration-clientid", "RemoteRegistration(%q) says client id %d, it's %d", ev.m, ev.cid, x.st.ClientID())
							}
						}
					}
					for _, m := range rpMethods {
						if n[m] < x.regOK[m] || n[m] > x.regAll[m] {
							if v {
								e.Violate("C20", "registration-events", "%q was registered %d times on %s (%d tries), the peer's delegate saw %d RemoteRegistration", m, x.regOK[m], x.name(), x.regAll[m], n[m])
							}
							return false
						}
					}
				}
			}
			return true
		}
		if !ok(false) && !e.Until(2*sec+e.slack(), 10*ms, func() bool { return ok(false) }) {
			ok(true)
		}
	}
	if len(cl) > 0 {
		if left := e.WaitAll(60*sec+e.slack(), cl...); len(left) > 0 {
			e.Stuck(left, "C11")
			return
		}
	}
	var tm []*actor
	for side := 0; side < 2; side++ {
		side := side
		if s.tmr[side] != nil {
			tm = append(tm, e.Go("close-timer", node(side, 0), func(a *actor) {
				sim.Sleep(40 * sec)
				s.tmr[side].Close()
			}))
		}
	}
	if len(tm) > 0 {
		e.WaitAll(60*sec, tm...)
	}
	var alive []*sim.Task
	if !e.Until(60*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks()
		return len(alive) == 0 && s.c[0].Closed() && s.c[1].Closed()
	}) {
		if len(alive) > 0 {
			e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "goroutines survive both ends: %s", taskSummary(alive))
		} else {
			e.Violate("C11", "socket-leak", "a socket is open after both ends are over")
		}
	}
}

func genRPC(g *Gen) *Plan {
	p := g.base("rpc")
	o := p.Opt
	o["tmr"] = g.pick(0, 0, 0, 1)
	for side := 0; side < 2; side++ {
		o[fmt.Sprintf("local%d", side)] = g.pick(0, 0, 1, 2, 3)
		if g.p(0.35) {
			o[fmt.Sprintf("check%d", side)] = 1
		}
	}
	o["late"] = g.pick(0, 0, 1, 20, 1000)
	// what the one side waits for may come late, what the other one waits
	// for has to be there
	if g.p(0.5) {
		side := g.n(0, 1)
		o[fmt.Sprintf("wait%d", side)] = g.n(1, 3)
		if g.p(0.5) {
			o[fmt.Sprintf("wait%d", 1-side)] = g.n(0, 3) & o[fmt.Sprintf("local%d", side)]
		}
		if g.p(0.15) {
			o["never"], o["nside"], o["nhow"] = 1, side, g.n(0, 1)
			o[fmt.Sprintf("local%d", 1-side)] &^= o[fmt.Sprintf("wait%d", side)]
		}
	}
	o["streams"] = g.pick(1, 1, 1, 2, 3)
	for k := 1; k < o["streams"]; k++ {
		o[fmt.Sprintf("opener%d", k)] = g.n(0, 1)
	}
	if g.p(0.4) {
		o["slow"] = g.pick(1, 20, 500, 3000)
	}
	x := func() int { return g.pick(0, 0, 0, 1, 10, 100, 1000) }
	own := g.n(1, 2*o["streams"])
	for i := 0; i < own; i++ {
		a := g.R.Intn(2 * o["streams"])
		few := g.n(1, len(rpMethods))
		for k := 0; k < g.n(1, 12); k++ {
			op := Op{A: a, K: "reg", X: x(), Z: g.R.Intn(few)}
			if g.p(0.25) {
				op.K, op.Z = "hij", g.R.Intn(32)
			} else if g.p(0.15) {
				op.Y = g.pick(1, 10, 1000)
			}
			p.Ops = append(p.Ops, op)
		}
		for k := 0; k < g.n(1, 4); k++ {
			p.Ops = append(p.Ops, Op{A: a ^ 1, K: "call", X: x(), Y: g.n(1, 12), Z: g.R.Intn(len(rpMethods)), W: g.pick(0, 1, 2, 3)})
		}
	}
	if g.p(0.3) {
		for i := 0; i < g.n(1, 2); i++ {
			k := "pause"
			if g.p(0.2) {
				k = "reset"
			}
			p.Faults = append(p.Faults, Fault{K: k, At: g.dur(0.00002, 1), X: g.n(0, 1), D: g.dur(0.001, 3)})
		}
	}
	return p
}
