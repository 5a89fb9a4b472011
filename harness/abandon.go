package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"simrt/sctx"
	"simrt/sim"
)

// The abandon scenario: the application of one side stops consuming one of its
// streams while the peer floods it, until everything on the way is full. Then
// the connection is lost, or one of the ends is closed. Nothing else may wait
// for the stream nobody consumes: whatever is pending on the other streams and
// on the ends is over soon, and what was received before is still delivered in
// order once the application consumes again.

func init() { register(&Scenario{Name: "abandon", Gen: genAbandon, Run: runAbandon}) }

type abandon struct {
	e    *Env
	s    *sess
	st   [][2]geminio.Stream
	v    int // the side that does not consume
	over int64
	lost bool
	pend []*actor
}

func runAbandon(e *Env) {
	p := e.P
	t := &abandon{e: e, v: p.o("v")}
	t.s = e.connect(0, connectOpts{sharedTimer: p.o("tmr") == 1})
	s, v, w := t.s, p.o("v"), 1-p.o("v")
	if !s.up() {
		e.Violate("C13", "setup", "no end on a healthy network: %v %v", s.errs[0], s.errs[1])
		return
	}
	t.st = append(t.st, [2]geminio.Stream{s.ends[0], s.ends[1]})
	for k := 1; k < p.o("streams"); k++ {
		var st [2]geminio.Stream
		o := p.o(fmt.Sprintf("opener%d", k))
		ac := e.Go("accept", node(1-o, 0), func(a *actor) { st[1-o], _ = acceptStream(e, s.ends[1-o]) })
		op := e.Go("open", node(o, 0), func(a *actor) { st[o], _ = s.ends[o].OpenStream() })
		if left := e.WaitAll(30*sec+e.slack(), ac, op); len(left) > 0 || st[0] == nil || st[1] == nil {
			e.Violate("C06", "open", "no stream on a healthy connection")
			return
		}
		t.st = append(t.st, st)
	}
	ab := p.o("ab") // the abandoned one
	// handlers that answer only when their context is over
	in, out := 0, 0
	for k := range t.st {
		for side := 0; side < 2; side++ {
			k, side := k, side
			r := e.Go("register", node(side, 0), func(a *actor) {
				a.Begin("C20", "Register(stream %d %s)", k, sideName(side))
				t.st[k][side].Register(sctx.Background(), "wait", func(ctx sctx.Context, req geminio.Request, rsp geminio.Response) {
					in++
					sim.Recv(ctx.Done())
					out++
				})
				a.End()
			})
			if left := e.WaitAll(30*sec+e.slack(), r); len(left) > 0 {
				e.Stuck(left, "C20")
				return
			}
		}
	}
	// the flood
	n, raw := p.o("n"), p.o("raw")
	sent, wrote := 0, 0 // accepted by the library
	x := t.st[ab][w]
	if raw != 1 {
		t.op("flood", w, func(a *actor) bool {
			a.Begin("C07", "PublishAsync(stream %d %s)", ab, sideName(w))
			b := make([]byte, 8, 8+p.o("size"))
			binary.BigEndian.PutUint64(b, uint64(sent))
			m := x.NewMessage(append(b, make([]byte, p.o("size"))...))
			_, err := x.PublishAsync(sctx.Background(), m, make(chan *geminio.Publish, 1))
			a.End()
			if err == nil {
				sent++
			}
			return err == nil && sent < n
		})
	}
	if raw != 0 {
		t.op("rawflood", w, func(a *actor) bool {
			a.Begin("C07", "Write(stream %d %s)", ab, sideName(w))
			b := make([]byte, 8+p.o("size"))
			binary.BigEndian.PutUint64(b, uint64(wrote))
			_, err := x.Write(b)
			a.End()
			if err == nil {
				wrote++
			}
			return err == nil && wrote < n
		})
	}
	sim.Sleep(int64(p.o("settle")) * ms)
	// what's pending elsewhere
	for i, o := range p.Ops {
		i, o := i, o
		side := o.X & 1
		k := o.Y % len(t.st)
		y := t.st[k][side]
		where := fmt.Sprintf("stream %d %s", k, sideName(side))
		if k == ab && side == v && (o.K == "recv" || o.K == "read" || o.K == "lim" && o.A/4%6 == 5) {
			continue // it would be consuming
		}
		once := true
		t.op(fmt.Sprintf("op%d", i), side, func(a *actor) bool {
			sim.Sleep(int64(o.Z) * ms)
			switch o.K {
			case "recv":
				a.Begin("C07", "Receive(%s)", where)
				_, err := y.Receive(sctx.Background())
				a.End()
				once = err != nil
			case "read":
				a.Begin("C07", "Read(%s)", where)
				_, err := y.Read(make([]byte, 64))
				a.End()
				once = err != nil
			case "accept":
				a.Begin("C07", "AcceptStream(%s)", sideName(side))
				_, err := acceptStream(e, s.ends[side])
				a.End()
				once = err != nil
			case "open":
				a.Begin("C07", "OpenStream(%s)", sideName(side))
				s.ends[side].OpenStream()
				a.End()
			case "call":
				a.Begin("C07", "Call(%s)", where)
				_, err := y.Call(sctx.Background(), "wait", y.NewRequest(nil))
				a.End()
				if err == nil && t.over == 0 {
					e.Violate("C03", "call-early", "a call returned although its handler is still running")
				}
			case "acall":
				a.Begin("C07", "CallAsync(%s)", where)
				c, err := y.CallAsync(sctx.Background(), "wait", y.NewRequest(nil), nil)
				a.End()
				if err == nil {
					a.Begin("C07", "CallAsync completion(%s)", where)
					sim.Recv(c.Done)
					a.End()
				}
			case "pub":
				a.Begin("C07", "Publish(%s)", where)
				y.Publish(sctx.Background(), y.NewMessage([]byte("pending.")))
				a.End()
			case "apub":
				a.Begin("C07", "PublishAsync(%s)", where)
				c, err := y.PublishAsync(sctx.Background(), y.NewMessage([]byte("pending.")), nil)
				a.End()
				if err == nil {
					a.Begin("C07", "PublishAsync completion(%s)", where)
					sim.Recv(c.Done)
					a.End()
				}
			case "lim":
				t.limited(a, y, o, where)
			case "reg":
				a.Begin("C07", "Register(%s)", where)
				y.Register(sctx.Background(), "other", func(ctx sctx.Context, req geminio.Request, rsp geminio.Response) {})
				a.End()
			case "close":
				a.Begin("C07", "Stream.Close(%s)", where)
				if k != 0 {
					y.Close()
				}
				a.End()
			}
			return !once && t.over == 0
		})
	}
	// the side that does not consume goes on sending, it's how a lost
	// connection is noticed when nothing can be read any more
	py := 0
	t.op("ping", v, func(a *actor) bool {
		sim.Sleep(500 * ms)
		y := t.st[py][v]
		a.Begin("C07", "Publish(ping %s)", sideName(v))
		opt := options.Publish()
		opt.SetTimeout(2 * time.Second)
		m := y.NewMessage([]byte("ping...."))
		if y.Publish(sctx.Background(), m, opt) == io.EOF {
			py++ // this one is over
		}
		a.End()
		return py < len(t.st)
	})
	sim.Sleep(int64(p.o("at")) * ms)
	var cl []*actor
	closer := func(side int) {
		cl = append(cl, e.Go("close-"+sideName(side), node(side, 0), func(a *actor) {
			a.Begin("C11", "End.Close(%s)", sideName(side))
			s.ends[side].Close()
			a.End()
		}))
	}
	full := s.c[v].Unread()
	if full > 0 {
		e.Probe("abandon-socket-full")
	}
	for _, a := range t.pend {
		if strings.HasSuffix(a.name, "flood") && a.op != "" && sim.Now()-a.opAt > 100*ms {
			e.Probe("abandon-jam")
		}
	}
	k := p.Faults[0].K
	sim.Count("net-" + k)
	e.Ev("break %s", k)
	t.over = sim.Now()
	switch k {
	case "reset":
		s.c[0].Reset()
	case "timeout":
		s.c[v].Timeout()
	case "failw":
		s.c[v].FailWrites(io.ErrClosedPipe)
	case "kill":
		sim.KillNode(node(w, 0))
		t.lost = true
	case "close-peer":
		closer(w)
	case "close-own":
		closer(v)
	case "close-both", "dark":
		if k == "dark" {
			s.c[0].Cut()
			s.c[1].Cut()
		}
		closer(v)
		closer(w)
	}
	// the longest: the peer's Close waits 30s for a dismiss, then 10s for the
	// close handshake, then the loss is noticed by a ping and each layer may
	// spend 10s to deliver what's left
	all := append(append([]*actor(nil), t.pend...), cl...)
	if left := e.WaitAll(120*sec+e.slack(), all...); len(left) > 0 {
		e.Stuck(left, "C07")
		return
	}
	if !e.Until(10*sec+e.slack(), 50*ms, func() bool { return in == out || t.lost }) {
		e.Violate("C08", "handler-left", "%d of %d handlers still wait for their context %.1fs after the connection was lost", in-out, in, float64(sim.Now()-t.over)/1e9)
	}
	// the application consumes again: what's there is in order, and it ends
	z := t.st[ab][v]
	var co []*actor
	own := k == "close-own" || k == "close-both" || k == "dark"
	if raw != 1 {
		co = append(co, e.Go("consume", node(v, 0), func(a *actor) {
			for i := 0; ; i++ {
				a.Begin("C07", "Receive(abandoned stream %d)", ab)
				m, err := z.Receive(sctx.Background())
				a.End()
				if err != nil {
					e.Probe("abandon-consumed")
					return
				}
				for len(m.Data()) == 8 && string(m.Data()) == "pending." {
					i--
					break
				}
				if d := m.Data(); string(d) != "pending." && (len(d) != 8+p.o("size") || binary.BigEndian.Uint64(d) != uint64(i)) {
					e.Violate("C02", "abandon-order", "message %d of the stream that was not consumed is %.20q", i, d)
					return
				}
			}
		}))
	}
	if raw != 0 {
		co = append(co, e.Go("consume-raw", node(v, 0), func(a *actor) {
			for i := 0; ; i++ {
				d := make([]byte, 8+p.o("size"))
				for n := 0; n < len(d); {
					a.Begin("C07", "Read(abandoned stream %d)", ab)
					m, err := z.Read(d[n:])
					a.End()
					n += m
					if err != nil {
						if n != 0 && !own {
							e.Violate("C05", "abandon-torn", "the stream ends within a block of a Write")
						}
						return
					}
				}
				if binary.BigEndian.Uint64(d) != uint64(i) {
					e.Violate("C05", "abandon-bytes", "block %d of the stream that was not consumed says %d", i, binary.BigEndian.Uint64(d))
					return
				}
			}
		}))
	}
	if left := e.WaitAll(60*sec+e.slack(), co...); len(left) > 0 {
		e.Stuck(left, "C07")
		return
	}
	cl = nil
	for side := 0; side < 2; side++ {
		if !(side == w && t.lost) {
			closer(side)
		}
	}
	if left := e.WaitAll(60*sec+e.slack(), cl...); len(left) > 0 {
		e.Stuck(left, "C11")
		return
	}
	var tm []*actor
	for side := 0; side < 2; side++ {
		side := side
		if s.tmr[side] != nil && !(side == w && t.lost) {
			tm = append(tm, e.Go("close-timer", node(side, 0), func(a *actor) {
				sim.Sleep(40 * sec)
				s.tmr[side].Close()
			}))
		}
	}
	if len(tm) > 0 {
		e.WaitAll(60*sec, tm...)
	}
	var alive []*sim.Task
	if !e.Until(60*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks(node(v, 0))
		if !t.lost {
			alive = libTasks()
		}
		return len(alive) == 0
	}) {
		e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "goroutines survive both ends: %s", taskSummary(alive))
		return
	}
	for side := 0; side < 2; side++ {
		if !s.c[side].Closed() && !(side == w && t.lost) {
			e.Violate("C11", "socket-leak", "the %s socket is still open after both ends were closed", sideName(side))
		}
		if side == w && t.lost {
			continue
		}
		on, off := map[uint64]int{}, map[uint64]int{}
		for _, ev := range s.dlg[side].evs {
			switch ev.kind {
			case "dgonline":
				on[ev.id]++
			case "dgoffline":
				off[ev.id]++
			}
		}
		for id, n := range on {
			if n != 1 || off[id] != 1 {
				e.Violate("C12", "dg-offline-count", "the %s delegate saw %d DialogueOnline and %d DialogueOffline of %d (all is closed)", sideName(side), n, off[id], id)
			}
		}
		if n, m := s.dlg[side].count("online"), s.dlg[side].count("offline"); m != 1 || side == 0 && n != 1 {
			e.Violate("C12", "offline-count", "the %s delegate saw %d ConnOnline and %d ConnOffline of one connection that is over", sideName(side), n, m)
		}
	}
}

// op runs an operation that has to be over once the connection is, f returns
// whether to go on.
func (t *abandon) op(name string, side int, f func(a *actor) bool) {
	t.pend = append(t.pend, t.e.Go(name, node(side, 0), func(a *actor) {
		for f(a) {
			t.e.out.Ops++
		}
	}))
}

// limited runs one operation that has a limit: however full everything is, it
// is over when the limit is.
func (t *abandon) limited(a *actor, y geminio.Stream, o Op, where string) {
	d := time.Duration(o.W) * time.Millisecond
	ctx, cancel := sctx.Context(sctx.Background()), sctx.CancelFunc(func() {})
	po, co := options.Publish(), options.Call()
	m, rq := y.NewMessage([]byte("pending.")), y.NewRequest(nil)
	how := o.A % 4
	switch how {
	case 0:
		ctx, cancel = sctx.WithTimeout(ctx, d)
	case 1:
		po.SetTimeout(d)
		co.SetTimeout(d)
	case 2:
		m.SetTimeout(d)
		rq.SetTimeout(d)
	case 3:
		ctx, cancel = sctx.WithCancel(ctx)
		t.e.Go("cancel", node(o.X&1, 0), func(*actor) { sim.Sleep(int64(d)); cancel() })
	}
	what := []string{"Publish", "PublishAsync", "Publish at most once", "Call", "CallAsync", "Receive"}[o.A/4%6]
	start, el := sim.Now(), int64(0)
	a.Begin("C08", "%s(%s, limit %dms, mode %d)", what, where, o.W, how)
	var err error
	gone := false // no waiting for a completion
	switch what {
	case "Publish":
		err = y.Publish(ctx, m, po)
	case "PublishAsync":
		var c *geminio.Publish
		if c, err = y.PublishAsync(ctx, m, nil, po); err == nil {
			el = sim.Now() - start
			err = sim.Recv(c.Done).Error
		}
	case "Publish at most once":
		no := options.NewMessage()
		no.SetCnss(options.CnssAtMostOnce)
		m = y.NewMessage([]byte("pending."), no)
		if how == 2 {
			m.SetTimeout(d)
		}
		if o.A/24 == 0 {
			err = y.Publish(ctx, m, po)
		} else {
			_, err = y.PublishAsync(ctx, m, nil, po)
		}
	case "Call":
		_, err = y.Call(ctx, "wait", rq, co)
	case "CallAsync":
		var c *geminio.Call
		if c, err = y.CallAsync(ctx, "wait", rq, nil, co); err == nil {
			el = sim.Now() - start
			err = sim.Recv(c.Done).Error
		}
	case "Receive":
		if how == 1 || how == 2 {
			gone = true // has no such limit
			break
		}
		_, err = y.Receive(ctx)
	}
	a.End()
	cancel()
	if gone || err == nil {
		return
	}
	t.e.Probe("limit-in-jam")
	el = max(el, sim.Now()-start)
	if el > int64(d)+t.e.slack() {
		t.e.Violate("C08", "late-in-jam", "%s on a %s with a limit of %v (mode %d) was over after %.1fs (%v)", what, where, d, how, float64(el)/1e9, err)
	}
}

func genAbandon(g *Gen) *Plan {
	p := g.base("abandon")
	o := p.Opt
	o["tmr"] = g.pick(0, 0, 0, 1)
	o["v"] = g.n(0, 1)
	o["streams"] = g.pick(1, 2, 2, 3, 4)
	for k := 1; k < o["streams"]; k++ {
		o[fmt.Sprintf("opener%d", k)] = g.n(0, 1)
	}
	o["ab"] = g.n(0, o["streams"]-1)
	o["raw"] = g.pick(0, 0, 1, 1, 2)
	o["n"] = g.pick(1, 30, 60, 90, 110, 120, 130, 140, 160, 180, 200, 240, 300, 500)
	o["size"] = g.pick(0, 0, 1, 20, 200)
	o["settle"] = g.pick(0, 10, 1000, 5000)
	o["at"] = g.pick(0, 1, 100, 2000)
	ks := []string{"recv", "read", "accept", "open", "call", "acall", "pub", "apub", "reg", "close", "lim", "lim", "lim"}
	if g.Profile == "C08" {
		ks = []string{"lim", "lim", "lim", "lim", "call", "close"}
		o["n"] = g.pick(120, 500, 1000, 1500, 1500)
		o["settle"] = g.pick(10, 1000, 1000, 5000)
		o["at"] = g.pick(100, 2000, 5000, 20000)
	}
	for i := 0; i < g.n(1, 8); i++ {
		p.Ops = append(p.Ops, Op{A: g.n(0, 47), K: ks[g.R.Intn(len(ks))], X: g.pick(0, 1, 1-o["v"]), Y: g.pick(0, 1, 2, 3, o["ab"], o["ab"], o["ab"]), Z: g.pick(0, 0, 1, 100), W: g.pick(1, 50, 300, 2000, 15000)})
	}
	bs := []string{"reset", "timeout", "failw", "kill", "close-peer", "close-own", "close-both", "dark"}
	p.Faults = []Fault{{K: bs[g.R.Intn(len(bs))]}}
	return p
}
