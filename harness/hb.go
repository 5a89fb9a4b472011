package main

import (
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
	"simrt/snet"
)

// The hb scenario: connections that live for minutes, idle, paused by
// partitions, clogged by applications that stop consuming, and finally lost
// without a word; and peers that speak the protocol directly and choose every
// heartbeat interval and rhythm.

func init() { register(&Scenario{Name: "hb", Gen: genHB, Run: runHB}) }

type hbTest struct {
	e   *Env
	pf  packet.PacketFactory
	exp []*actor
}

type hbConn struct {
	t      *hbTest
	i      int
	s      *sess
	gate   [2]bool // the receiver of the side does not consume
	recvd  [2]int
	sent   [2]int
	eof    [2]bool
	eofAt  [2]int64
	closed bool
	dead   bool
	rx     [2]*actor
	loose  int64 // how long the connection was paused or clogged
	clogAt int64 // until when it was clogged last
}

var hbSecs = []int{5, 20, 80, 320}

func runHB(e *Env) {
	p := e.P
	t := &hbTest{e: e, pf: packet.NewPacketFactory(id.NewIDCounter(id.Odd))}
	t.pf.NewHeartbeatPacket() // as in hs
	by := map[int][]Op{}
	var order []int
	for _, o := range p.Ops {
		if _, ok := by[o.A]; !ok {
			order = append(order, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	var as []*actor
	for _, i := range order {
		i, ops := i, by[i]
		a := e.Go(fmt.Sprintf("drive%d", i), 0, func(a *actor) {
			if ops[0].K == "raw" {
				t.raw(a, i, ops[0], ops[1:])
			} else {
				t.lib(a, i, ops)
			}
		})
		as = append(as, a)
	}
	if len(as) == 0 {
		return
	}
	if left := e.WaitAll(9000*sec, as...); len(left) > 0 {
		e.Stuck(left, "C14")
	}
}

// ---------------------------------------------------------------- library

func (c *hbConn) receiver(a *actor, side int) {
	e := c.t.e
	for {
		if c.gate[side] {
			sim.Sleep(50 * ms)
			continue
		}
		a.Begin("C14", "Receive(%d %s)", c.i, sideName(side))
		m, err := c.s.ends[side].Receive(sctx.Background())
		a.End()
		if err != nil {
			c.eof[side], c.eofAt[side] = true, sim.Now()
			if err != io.EOF {
				e.Violate("C07", "receive-error", "Receive returned %v, want io.EOF", err)
			}
			if !c.closed && !c.dead {
				e.Violate("C14", "lost", "connection %d was closed at %.1fs (noticed by the %s) although client and server are alive and the network delivered everything in time (paused or clogged for %.1fs in all)", c.i, float64(sim.Now())/1e9, sideName(side), float64(c.loose)/1e9)
			}
			return
		}
		c.recvd[side]++
		m.Done()
	}
}

// ping is a round trip in both directions.
func (c *hbConn) ping(a *actor) {
	e := c.t.e
	var l []*actor
	for side := 0; side < 2; side++ {
		side := side
		l = append(l, e.Go(fmt.Sprintf("ping%d-%s", c.i, sideName(side)), node(side, c.i), func(a *actor) {
			end := c.s.ends[side]
			c.sent[side]++
			a.Begin("C14", "Publish(ping %d %s)", c.i, sideName(side))
			err := end.Publish(sctx.Background(), end.NewMessage([]byte("ping")))
			a.End()
			if err != nil && !c.dead {
				e.Violate("C14", "unusable", "Publish by the %s on idle connection %d failed at %.1fs: %v", sideName(side), c.i, float64(sim.Now())/1e9, err)
			}
		}))
	}
	if left := e.WaitAll(30*sec+e.slack(), l...); len(left) > 0 && !c.dead {
		e.Stuck(left, "C14")
		c.dead = true
	}
	e.out.Ops++
}

// clog lets one side (or both) flood the other, which does not consume.
func (c *hbConn) clog(o Op) {
	e := c.t.e
	var l []*actor
	t0 := sim.Now()
	for side := 0; side < 2; side++ {
		if o.Y != 2 && o.Y != side {
			continue
		}
		side := side
		c.gate[1-side] = true
		l = append(l, e.Go(fmt.Sprintf("flood%d-%s", c.i, sideName(side)), node(side, c.i), func(a *actor) {
			end := c.s.ends[side]
			var ps []*geminio.Publish
			for k := 0; k < o.Z; k++ {
				t1 := sim.Now()
				a.Begin("C14", "PublishAsync(%d %s, %d)", c.i, sideName(side), k)
				pub, err := end.PublishAsync(sctx.Background(), end.NewMessage(fill(uint64(k), max(o.W, 1))), nil)
				a.End()
				if err != nil {
					if !c.dead {
						e.Violate("C14", "unusable", "PublishAsync by the %s on clogged connection %d failed at %.1fs: %v", sideName(side), c.i, float64(sim.Now())/1e9, err)
					}
					return
				}
				if sim.Now()-t1 > 40*sec {
					e.Probe("clogged-40s")
				}
				c.sent[side]++
				ps = append(ps, pub)
			}
			for k, pub := range ps {
				a.Begin("C14", "PublishAsync completion(%d %s, %d)", c.i, sideName(side), k)
				pub, _ = sim.Recv2(pub.Done)
				a.End()
				if pub.Error != nil && !c.dead {
					e.Violate("C14", "clog-lost", "a message published by the %s on clogged connection %d failed: %v", sideName(side), c.i, pub.Error)
				}
			}
		}))
		// whatever else, timeouts hold
		if o.X > 30000 {
			l = append(l, e.Go(fmt.Sprintf("timed%d-%s", c.i, sideName(side)), node(side, c.i), func(a *actor) {
				end := c.s.ends[side]
				for k := 0; k < 3; k++ {
					sim.Sleep(9 * sec)
					po := options.Publish()
					po.SetTimeout(2 * time.Second)
					t1 := sim.Now()
					a.Begin("C14", "Publish(2s timeout, %d %s)", c.i, sideName(side))
					err := end.Publish(sctx.Background(), end.NewMessage([]byte("timed")), po)
					a.End()
					if el := sim.Now() - t1; el > 2*sec+e.slack() {
						e.Violate("C14", "timeout-late", "a Publish with a timeout of 2s returned %v after %.1fs on clogged connection %d", err, float64(el)/1e9, c.i)
					}
				}
			}))
		}
	}
	sim.Sleep(int64(o.X) * ms)
	c.gate[0], c.gate[1] = false, false
	if left := e.WaitAll(120*sec+e.slack(), l...); len(left) > 0 && !c.dead {
		e.Stuck(left, "C14")
		c.dead = true
	}
	c.loose += sim.Now() - t0
	c.clogAt = sim.Now()
}

func (t *hbTest) lib(a *actor, i int, ops []Op) {
	e, p := t.e, t.e.P
	c := &hbConn{t: t, i: i}
	co := connectOpts{sharedTimer: p.o("tmr") == 1, bufR: p.o("buf"), bufW: p.o("buf")}
	co.srv = func(o *server.EndOptions) {}
	co.cli = func(o *client.EndOptions) {}
	s := e.connect(i, co)
	c.s = s
	if !s.up() {
		e.Violate("C13", "handshake-failed", "no connection on a healthy network: %v %v", s.errs[0], s.errs[1])
		return
	}
	t0 := sim.Now()
	for side := 0; side < 2; side++ {
		side := side
		c.rx[side] = e.Go(fmt.Sprintf("recv%d-%s", i, sideName(side)), node(side, i), func(a *actor) { c.receiver(a, side) })
	}
	lost := ""
	for _, o := range ops {
		if c.dead || c.eof[0] || c.eof[1] {
			break
		}
		switch o.K {
		case "idle":
			sim.Sleep(int64(o.X) * ms)
		case "ping":
			c.ping(a)
		case "pause":
			// a partition that heals before anyone may lose patience
			sim.Count("net-pause")
			d := min(int64(o.X)*ms, 17*sec-e.slack())
			if d <= 0 {
				continue
			}
			e.Ev("fault pause %d", i)
			for side := 0; side < 2; side++ {
				if o.Y == side || o.Y == 2 {
					s.c[side].Cut()
				}
			}
			sim.Sleep(d)
			s.c[0].Heal()
			s.c[1].Heal()
			c.loose += d
			// and does not come back too soon
			sim.Sleep(45 * sec)
		case "clog":
			sim.Count("app-stops-consuming")
			c.clog(o)
		case "vanish", "freeze":
			lost = o.K
		}
		if lost != "" {
			if c.dead || c.eof[0] || c.eof[1] {
				break
			}
			c.gate = [2]bool{o.Y&1 == 1, o.Y&2 == 2}
			t.lose(a, c, o)
			break
		}
	}
	if lost == "" && !c.dead && !c.eof[0] && !c.eof[1] {
		c.ping(a)
		if c.recvd[0] < c.sent[1] || c.recvd[1] < c.sent[0] {
			e.Violate("C14", "msg-lost", "connection %d: the server received %d of %d messages, the client %d of %d", i, c.recvd[0], c.sent[1], c.recvd[1], c.sent[0])
		}
	}
	t.beats(c, t0)
	c.closed = true
	var cl []*actor
	for side := 0; side < 2; side++ {
		side := side
		if lost == "vanish" && side == 1 {
			continue
		}
		cl = append(cl, e.Go(fmt.Sprintf("close%d-%s", i, sideName(side)), node(side, i), func(a *actor) {
			a.Begin("C11", "End.Close(%d %s)", i, sideName(side))
			s.ends[side].Close()
			a.End()
			if s.tmr[side] != nil {
				s.tmr[side].Close()
			}
		}))
		cl = append(cl, c.rx[side])
	}
	if left := e.WaitAll(60*sec+e.slack(), cl...); len(left) > 0 {
		e.Stuck(left, "C11")
		return
	}
	nodes := []int{cliNode(i)}
	if lost == "vanish" {
		return
	}
	var alive []*sim.Task
	if !e.Until(60*sec+e.slack(), 500*ms, func() bool {
		alive = libTasks(nodes...)
		return len(alive) == 0 && s.c[0].Closed() && s.c[1].Closed()
	}) {
		e.Violate("C11", "leak", "connection %d: sockets closed %v %v; goroutines left: %s", i, s.c[0].Closed(), s.c[1].Closed(), taskSummary(alive))
	}
}

// beats checks the rhythm of the client's heartbeats.
func (t *hbTest) beats(c *hbConn, t0 int64) {
	e := t.e
	last, n := t0, 0
	for _, ev := range append(c.s.dlg[0].evs, dlgEv{kind: "end", at: min(sim.Now(), c.lastAlive())}) {
		if ev.kind != "heartbeat" && ev.kind != "end" {
			continue
		}
		n++
		if gap := ev.at - last; gap > 20*sec+e.slack()+c.loose {
			e.Violate("C14", "beat-missing", "connection %d: the server saw no heartbeat for %.1fs (paused or clogged for %.1fs)", c.i, float64(gap)/1e9, float64(c.loose)/1e9)
		}
		last = ev.at
	}
	if n > 2 {
		e.Probe("beats")
	}
}

func (c *hbConn) lastAlive() int64 {
	r := sim.Now()
	for s := 0; s < 2; s++ {
		if c.eof[s] {
			r = min(r, c.eofAt[s])
		}
	}
	return r
}

// lose breaks the connection without a word and expects the server to notice.
func (t *hbTest) lose(a *actor, c *hbConn, o Op) {
	e, s := t.e, c.s
	sim.Count("net-" + o.K)
	e.Ev("fault %s %d", o.K, c.i)
	at := sim.Now()
	c.dead = true
	c.loose += 1 << 60
	if o.K == "vanish" {
		sim.KillNode(cliNode(c.i))
	}
	s.c[0].Cut()
	s.c[1].Cut()
	d := int64(o.X) * ms
	heal := at + d
	// the server lets go in time
	bound := 40*sec + 10*sec + e.slack()
	if c.gate[0] || c.clogAt != 0 && at < c.clogAt+21*sec+e.slack() {
		// heartbeats may be late because of the application: patience is doubled
		bound += 40 * sec
	}
	if c.gate[0] {
		// an application that does not consume holds the connection until it does
		sim.Sleep(5 * sec)
		c.gate[0] = false
	}
	late := false
	ok := e.Until(bound, 200*ms, func() bool {
		if o.K == "freeze" && sim.Now() >= heal && s.c[0].IsCut() {
			late = true
			s.c[0].Heal()
			s.c[1].Heal()
		}
		return late || c.eof[0] && s.c[0].Closed() && s.dlg[0].count("offline") == 1
	})
	if late {
		c.gate = [2]bool{}
		// healed while the server may or may not have lost patience: either is
		// fine, but both sides must agree in the end
		sim.Sleep(60*sec + e.slack())
		if c.eof[0] != c.eof[1] {
			e.Violate("C14", "half-open", "connection %d, frozen for %.1fs: server lost it: %v, client lost it: %v", c.i, float64(d)/1e9, c.eof[0], c.eof[1])
		}
		return
	}
	if !ok && c.eof[0] && s.c[0].Closed() {
		e.Violate("C12", "offline-count", "connection %d was given up after its client fell silent; %.1fs later the server delegate saw %d ConnOffline", c.i, float64(sim.Now()-at)/1e9, s.dlg[0].count("offline"))
	}
	if !ok {
		e.Violate("C14", "undetected", "the client of connection %d fell silent at %.1fs; %.1fs later: server's Receive ended %v, its socket closed %v, ConnOffline %d times", c.i, float64(at)/1e9, float64(sim.Now()-at)/1e9, c.eof[0], s.c[0].Closed(), s.dlg[0].count("offline"))
		return
	}
	e.Probe("loss-detected")
	if n := s.ends[0].ListStreams(); len(n) > 1 {
		e.Violate("C14", "streams-left", "%d streams are listed on an end whose connection is lost", len(n))
	}
	if o.K == "freeze" {
		if w := heal - sim.Now(); w > 0 {
			sim.Sleep(w)
		}
		s.c[0].Heal()
		s.c[1].Heal()
		if !e.Until(15*sec+e.slack(), 100*ms, func() bool { return c.eof[1] || c.gate[1] }) {
			e.Violate("C14", "half-open", "the server gave up connection %d and the network healed, but the client did not notice", c.i)
		}
		c.gate[1] = false
	}
}

// ------------------------------------------------------------- raw peers

// raw is a client that speaks the protocol itself.
func (t *hbTest) raw(a *actor, i int, o Op, ops []Op) {
	e := t.e
	H := hbSecs[o.X%4]
	cc, sc := snet.W.Pair(cliNode(i), srvNode, fmt.Sprintf("raw%d", i))
	d := newDlg(e, 0, i)
	var end geminio.End
	sa := e.Go(fmt.Sprintf("srv%d", i), srvNode, func(a *actor) {
		so := server.NewEndOptions()
		so.SetDelegate(d)
		if o.Z > 0 {
			so.SetBufferSize(e.P.o("buf"), e.P.o("buf"))
		}
		var err error
		a.Begin("C13", "server.NewEndWithConn(raw %d)", i)
		end, err = server.NewEndWithConn(sc, so)
		a.End()
		if err != nil {
			e.Violate("C13", "handshake-failed", "the server refused a proper handshake announcing a heartbeat of %ds: %v", H, err)
		}
	})
	var beats []uint64
	acks := map[uint64]int64{}
	extra := 0
	said := int64(0)
	off := false
	lag := int64(0) // reads nothing until then
	rd := e.Go(fmt.Sprintf("raw%d-reader", i), cliNode(i), func(a *actor) {
		for {
			if d := lag - sim.Now(); d > 0 {
				sim.Sleep(d)
			}
			pkt, err := packet.DecodeFromReader(cc)
			if err != nil {
				return
			}
			switch pkt.Type() {
			case packet.TypeHeartbeatAckPacket:
				if _, ok := acks[pkt.ID()]; ok {
					extra++
				}
				acks[pkt.ID()] = sim.Now()
			case packet.TypeDisConnPacket:
				if said == 0 {
					said = sim.Now()
				}
			}
		}
	})
	b, err := packet.Encode(t.pf.NewConnPacket(0, true, packet.Heartbeat(H), []byte(fmt.Sprintf("raw-%d", i))))
	if err != nil {
		die("encode: %v", err)
	}
	last := sim.Now()
	cc.Write(b)
	if left := e.WaitAll(30*sec+e.slack(), sa); len(left) > 0 {
		e.Stuck(left, "C13")
		return
	}
	if end == nil {
		return
	}
	rx := e.Go(fmt.Sprintf("srv%d-recv", i), srvNode, func(a *actor) {
		a.Begin("C14", "Receive(raw %d)", i)
		_, err := end.Receive(sctx.Background())
		a.End()
		if err == nil {
			e.Violate("C14", "invented", "a message was received that nobody sent")
		}
		off = true
	})
	alive := func() bool { return !off && d.count("offline") == 0 && said == 0 && !sc.Closed() }
	check := func(when string) bool {
		if alive() {
			return true
		}
		if sim.Now() < last+int64(2*H)*sec-50*ms {
			e.Violate("C14", "lost", "connection raw%d was given up %.1fs after its last heartbeat (%s), heartbeat interval %ds", i, float64(sim.Now()-last)/1e9, when, H)
		}
		return false
	}
	gone := false
	fl := []*actor{}
	if o.Z > 0 {
		// the server has more to say than its peer reads for a while
		lag = sim.Now() + int64(o.W)*ms
		fl = append(fl, e.Go(fmt.Sprintf("srv%d-flood", i), srvNode, func(a *actor) {
			for k := 0; k < o.Z; k++ {
				a.Begin("C07", "Publish(raw %d)", i)
				no := options.NewMessage()
				no.SetCnss(options.CnssAtMostOnce)
				err := end.Publish(sctx.Background(), end.NewMessage([]byte("flood"), no))
				a.End()
				if err != nil {
					return
				}
			}
		}))
	}
	for _, x := range ops {
		if x.K != "beat" {
			continue
		}
		gap := int64(H) * sec * int64(x.X) / 1000
		gap = min(gap, int64(2*H)*sec-e.slack())
		for w := sim.Now() + gap; sim.Now() < w; {
			sim.Sleep(min(w-sim.Now(), int64(H)*sec/4))
			if !check("in time") {
				gone = true
				break
			}
		}
		if gone {
			break
		}
		pkt := t.pf.NewHeartbeatPacket()
		b, _ := packet.Encode(pkt)
		if x.Y > 0 && x.Y < len(b) {
			// in pieces
			cc.Write(b[:x.Y])
			sim.Sleep(100 * ms)
			b = b[x.Y:]
		}
		cc.Write(b)
		beats = append(beats, pkt.ID())
		last = sim.Now()
		e.out.Ops++
	}
	lat, all := e.slack(), true
	if !gone && o.Z > 0 {
		left := last + int64(2*H)*sec - lat - 200*ms - sim.Now()
		need := max(lag-sim.Now(), 0) + int64(20+o.Z/5)*sec
		all = e.Until(max(min(left, need), ms), 50*ms, func() bool { return len(acks) == len(beats) || !check("reading late") }) || left >= need
		gone = !alive()
		if all && len(acks) == len(beats) && len(beats) > 0 {
			e.Probe("raw-late-reader")
		}
	} else if !gone {
		for w := sim.Now() + lat; sim.Now() < w; {
			sim.Sleep(min(w-sim.Now(), sec))
			gone = gone || !check("waiting for acks")
		}
	}
	if !gone && all {
		for _, id := range beats {
			if _, ok := acks[id]; !ok {
				e.Violate("C14", "beat-unacked", "heartbeat %d of connection raw%d was not acknowledged", id, i)
			}
		}
		if len(acks) != len(beats) || extra > 0 {
			e.Violate("C14", "beat-acks", "%d heartbeats, %d acknowledgements", len(beats), len(acks)+extra)
		}
		if n := d.count("heartbeat"); n != len(beats) {
			e.Violate("C14", "beat-delegate", "%d heartbeats were sent, the delegate saw %d", len(beats), n)
		}
		e.Probe("raw-beats")
	}
	// the end
	switch o.Y {
	case 0: // silent
		for alive() && sim.Now() < last+int64(2*H)*sec-50*ms {
			sim.Sleep(min(max(last+int64(2*H)*sec-50*ms-sim.Now(), ms), int64(H)*sec/4))
			check("silent")
		}
		bound := last + int64(2*H+10)*sec + e.slack()
		if !e.Until(max(bound-sim.Now(), 0), 100*ms, func() bool { return off && sc.Closed() && d.count("offline") == 1 }) {
			if off && sc.Closed() {
				e.Violate("C12", "offline-count", "client raw%d was given up after it fell silent; %.1fs later the server delegate saw %d ConnOffline", i, float64(sim.Now()-last)/1e9, d.count("offline"))
			}
			e.Violate("C14", "undetected", "client raw%d fell silent at %.1fs (heartbeat interval %ds); %.1fs later: Receive ended %v, socket closed %v, ConnOffline %d times", i, float64(last)/1e9, H, float64(sim.Now()-last)/1e9, off, sc.Closed(), d.count("offline"))
		}
		e.Probe("loss-detected")
	case 1: // closed
		cc.Close()
	case 2: // reset
		cc.Reset()
	}
	if left := e.WaitAll(30*sec+e.slack(), rx); len(left) > 0 {
		e.Stuck(left, "C14")
	}
	cc.Close()
	ca := e.Go(fmt.Sprintf("raw%d-close", i), srvNode, func(a *actor) {
		a.Begin("C11", "End.Close(raw %d)", i)
		end.Close()
		a.End()
	})
	if left := e.WaitAll(60*sec+e.slack(), append(fl, ca, rd)...); len(left) > 0 {
		e.Stuck(left, "C11")
	}
	if on, n := d.count("online"), d.count("offline"); on != 1 || n != 1 {
		e.Violate("C12", "offline-count", "client raw%d is gone and its end closed: the server delegate saw %d ConnOnline and %d ConnOffline", i, on, n)
	}
}

func genHB(g *Gen) *Plan {
	p := g.base("hb")
	r := g.R
	o := p.Opt
	p.Sim.MaxTime = int64(10000e9)
	p.Net.TailP = 0
	if p.Net.MSS == 7 {
		p.Net.MSS = 300
	}
	if p.Net.Window == 0 {
		p.Net.Window = g.pick(300, 4096, 65536)
	}
	o["tmr"] = r.Intn(2)
	o["shopt"] = r.Intn(2)
	o["buf"] = g.pick(1, 2, 8)
	short := p.Sim.RealTimer
	n := g.n(1, 3)
	if short {
		n = 1
	}
	for i := 0; i < n; i++ {
		if g.p(0.4) {
			h := r.Intn(4)
			if short {
				h = r.Intn(2)
			}
			op := Op{A: i, K: "raw", X: h, Y: g.pick(0, 0, 0, 1, 2)}
			if g.p(0.3) {
				op.Z, op.W = g.pick(1, 30, 60, 90), g.pick(100, 1000, 5000, 15000, 30000)
			}
			p.Ops = append(p.Ops, op)
			for k := 0; k < g.n(0, 6); k++ {
				p.Ops = append(p.Ops, Op{A: i, K: "beat", X: g.pick(1, 100, 500, 1000, 1500, 1990, 1990), Y: g.pick(0, 0, 1, 5, 13)})
			}
			continue
		}
		k := g.n(1, 4)
		if short {
			k = g.n(1, 2)
		}
		p.Ops = append(p.Ops, Op{A: i, K: "ping"})
		for j := 0; j < k; j++ {
			switch x := r.Intn(10); {
			case x < 3:
				p.Ops = append(p.Ops, Op{A: i, K: "idle", X: int(g.dur(1, 300) / ms)})
			case x < 4:
				p.Ops = append(p.Ops, Op{A: i, K: "ping"})
			case x < 6:
				p.Ops = append(p.Ops, Op{A: i, K: "pause", X: g.pick(1000, 8000, 15000, 17000), Y: r.Intn(3)})
			default:
				p.Ops = append(p.Ops, Op{A: i, K: "clog", X: g.pick(1000, 25000, 50000, 70000, 130000), Y: r.Intn(3), Z: g.n(20, 260), W: g.pick(1, 30, 300)})
			}
		}
		switch r.Intn(4) {
		case 0:
			p.Ops = append(p.Ops, Op{A: i, K: "vanish", Y: r.Intn(4)})
		case 1:
			p.Ops = append(p.Ops, Op{A: i, K: "freeze", X: g.pick(20000, 45000, 100000, 200000), Y: r.Intn(4)})
		}
	}
	return p
}
