package main

import (
	"encoding/binary"
	"fmt"
	"io"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"simrt/sctx"
	"simrt/sim"
)

// The bye scenario: one side writes, publishes and acknowledges, and closes its
// streams or its end right after the last of these returned, on a connection
// that is healthy apart from a pause it recovers from. Everything that was
// accepted before is still delivered to the peer, which consumes: all bytes, all
// messages, all acknowledgements; then the peer's consumers see the end.

func init() { register(&Scenario{Name: "bye", Gen: genBye, Run: runBye}) }

type byeStream struct {
	st     [2]geminio.Stream
	k      int
	wrote  int64
	writes int
	sent   []uint64 // messages the closing side got accepted
	// the peer's view
	read int64
	got  []uint64
	// acknowledgements
	acked map[uint64]bool
	pubs  int
	pubE  map[uint64]error
	left  int // publishes of the peer not returned yet
}

func runBye(e *Env) {
	p := e.P
	s := e.connect(0, connectOpts{sharedTimer: p.o("tmr") == 1, bufR: p.o("buf"), bufW: p.o("buf")})
	if !s.up() {
		e.Violate("C13", "setup", "no end on a healthy network: %v %v", s.errs[0], s.errs[1])
		return
	}
	c := p.o("c")
	w := 1 - c
	bs := []*byeStream{{st: [2]geminio.Stream{s.ends[0], s.ends[1]}}}
	for k := 1; k < p.o("streams"); k++ {
		var st [2]geminio.Stream
		o := p.o(fmt.Sprintf("opener%d", k))
		ac := e.Go("accept", node(1-o, 0), func(a *actor) { st[1-o], _ = acceptStream(e, s.ends[1-o]) })
		op := e.Go("open", node(o, 0), func(a *actor) { st[o], _ = s.ends[o].OpenStream() })
		if left := e.WaitAll(30*sec+e.slack(), ac, op); len(left) > 0 || st[0] == nil || st[1] == nil {
			e.Violate("C06", "open", "no stream on a healthy connection")
			return
		}
		bs = append(bs, &byeStream{st: st, k: k})
	}
	by := map[int][]Op{}
	for _, o := range p.Ops {
		k := o.A % len(bs)
		by[k] = append(by[k], o)
		if o.K == "done" {
			bs[k].pubs += max(1, o.W)
		}
	}
	var peers, pubs []*actor
	closedAt := int64(0)
	for _, b := range bs {
		b := b
		b.acked, b.pubE = map[uint64]bool{}, map[uint64]error{}
		y := b.st[w]
		where := fmt.Sprintf("stream %d %s", b.k, sideName(w))
		// what the peer consumes
		peers = append(peers, e.Go("peer-recv", node(w, 0), func(a *actor) {
			for {
				a.Begin("C11", "Receive(%s)", where)
				m, err := y.Receive(sctx.Background())
				a.End()
				if err != nil {
					if err != io.EOF {
						e.Violate("C11", "bye-receive-error", "Receive on %s returned %v after the peer's Close, not io.EOF", where, err)
					}
					return
				}
				e.out.Ops++
				if len(m.Data()) < 8 {
					e.Violate("C02", "msg-invented", "a message of %d bytes on %s", len(m.Data()), where)
					continue
				}
				b.got = append(b.got, binary.BigEndian.Uint64(m.Data()))
				m.Done()
			}
		}))
		peers = append(peers, e.Go("peer-read", node(w, 0), func(a *actor) {
			for {
				d := make([]byte, max(1, p.o("rb")))
				a.Begin("C11", "Read(%s)", where)
				n, err := y.Read(d)
				a.End()
				if n > 0 && string(d[:n]) != string(rawBytes(uint64(700+b.k), b.read, n)) {
					e.Violate("C05", "raw-corrupt", "%s: bytes %d..%d read are not what the peer wrote", where, b.read, b.read+int64(n))
					return
				}
				b.read += int64(n)
				e.out.Ops++
				if err != nil {
					if err != io.EOF {
						e.Violate("C11", "bye-read-error", "Read on %s returned %v after the peer's Close, not io.EOF", where, err)
					}
					return
				}
				if n == 0 {
					e.Violate("C05", "read-nothing", "Read on %s returned neither bytes nor an error", where)
				}
			}
		}))
		// what the peer publishes, to be acknowledged
		for i := 0; i < b.pubs; i++ {
			i := i
			pubs = append(pubs, e.Go("peer-pub", node(w, 0), func(a *actor) {
				if p.o("spread") > 0 {
					sim.Sleep(int64(i*p.o("spread")) * ms)
				}
				m := y.NewMessage(binary.BigEndian.AppendUint64(nil, uint64(i)))
				a.Begin("C11", "Publish(%s %d)", where, i)
				b.pubE[uint64(i)] = y.Publish(sctx.Background(), m)
				a.End()
				e.out.Ops++
			}))
		}
		for i := 0; i < p.o("noise"); i++ {
			peers = append(peers, e.Go("peer-noise", node(w, 0), func(a *actor) {
				for n := 0; n < 200; n++ {
					a.Begin("C11", "Write(noise %s)", where)
					_, err := y.Write(make([]byte, 20))
					a.End()
					if err != nil {
						return
					}
					sim.Sleep(20 * ms)
				}
			}))
		}
	}
	for i, f := range p.Faults {
		f := f
		e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) {
			sim.Sleep(f.At)
			sim.Count("net-pause")
			x := s.c[f.X&1]
			x.Cut()
			if f.Y == 1 {
				x.Peer().Cut()
			}
			sim.Sleep(f.D)
			x.Heal()
			x.Peer().Heal()
		}).daemon = true
	}
	// the side that closes
	var act []*actor
	var drain []*actor
	for _, b := range bs {
		b := b
		x := b.st[c]
		where := fmt.Sprintf("stream %d %s", b.k, sideName(c))
		if p.o("noise") > 0 {
			drain = append(drain, e.Go("drain", node(c, 0), func(a *actor) {
				for {
					if _, err := x.Read(make([]byte, 64)); err != nil {
						return
					}
				}
			}))
		}
		run := func(a *actor, o Op) {
			for j := 0; j < max(1, o.W); j++ {
				switch o.K {
				case "wr":
					n := o.X
					a.Begin("C05", "Write(%s %d)", where, n)
					m, err := x.Write(rawBytes(uint64(700+b.k), b.wrote, n))
					a.End()
					if err != nil || m != n {
						e.Violate("C05", "write-error", "Write on %s of %d bytes returned %d, %v on a healthy stream", where, n, m, err)
						return
					}
					b.wrote += int64(n)
					b.writes++
				case "amo", "apub":
					id := uint64(len(b.sent)) + 1
					d := append(binary.BigEndian.AppendUint64(nil, id), make([]byte, o.X)...)
					var err error
					a.Begin("C02", "Publish(%s %s)", o.K, where)
					if o.K == "amo" {
						no := options.NewMessage()
						no.SetCnss(options.CnssAtMostOnce)
						err = x.Publish(sctx.Background(), x.NewMessage(d, no))
					} else {
						_, err = x.PublishAsync(sctx.Background(), x.NewMessage(d), make(chan *geminio.Publish, 1))
					}
					a.End()
					if err != nil {
						e.Violate("C01", "pub-spurious-error", "a publish on %s failed on a healthy stream: %v", where, err)
						return
					}
					b.sent = append(b.sent, id)
				case "done":
					a.Begin("C02", "Receive(%s)", where)
					m, err := x.Receive(sctx.Background())
					a.End()
					if err != nil || len(m.Data()) != 8 {
						e.Violate("C02", "receive-error", "Receive on %s: %v on a healthy stream", where, err)
						return
					}
					m.Done()
					b.acked[binary.BigEndian.Uint64(m.Data())] = true
				case "sleep":
					sim.Sleep(int64(o.X) * ms)
				}
				e.out.Ops++
			}
		}
		act = append(act, e.Go("closing", node(c, 0), func(a *actor) {
			for _, o := range by[b.k] {
				run(a, o)
			}
			if p.o("how") != 0 && b.k != 0 {
				a.Begin("C11", "Stream.Close(%s)", where)
				x.Close()
				a.End()
			}
		}))
	}
	if left := e.WaitAll(100*sec+e.slack(), act...); len(left) > 0 {
		e.Stuck(left, "C11")
		return
	}
	if p.o("how") == 1 {
		sim.Sleep(int64(p.o("gap")) * ms)
	}
	closedAt = sim.Now()
	cl := e.Go("close-"+sideName(c), node(c, 0), func(a *actor) {
		a.Begin("C11", "End.Close(%s)", sideName(c))
		s.ends[c].Close()
		a.End()
	})
	all := append(append(append([]*actor{cl}, pubs...), peers...), drain...)
	if left := e.WaitAll(60*sec+e.slack(), all...); len(left) > 0 {
		e.Stuck(left, "C11")
		return
	}
	for _, b := range bs {
		if b.read != b.wrote {
			e.Violate("C11", "bye-raw-lost", "stream %d: %d of the %d bytes written before the Close were read (closed at %.3fs)", b.k, b.read, b.wrote, float64(closedAt)/1e9)
		}
		if fmt.Sprint(b.got) != fmt.Sprint(b.sent) {
			e.Violate("C11", "bye-msg-lost", "stream %d: %d messages were accepted before the Close, received: %v", b.k, len(b.sent), b.got)
		}
		for id := uint64(0); id < uint64(b.pubs); id++ {
			// a stream that is over does not wait for its consumer: what is
			// queued behind data nobody consumed yet is given up
			behind := p.o("buf") != 0 || len(b.sent)+b.writes > 8
			if err, ok := b.pubE[id]; b.acked[id] && !behind && (!ok || err != nil) {
				e.Violate("C11", "bye-ack-lost", "stream %d: message %d was received and Done was called before the Close, but Publish returned %v", b.k, id, err)
			} else if !b.acked[id] && ok && err == nil {
				e.Violate("C01", "pub-nil-unacked", "stream %d: Publish of message %d returned nil although nobody called Done", b.k, id)
			}
		}
	}
	pc := e.Go("close-"+sideName(w), node(w, 0), func(a *actor) {
		a.Begin("C11", "End.Close(%s)", sideName(w))
		s.ends[w].Close()
		a.End()
	})
	if left := e.WaitAll(60*sec+e.slack(), pc); len(left) > 0 {
		e.Stuck(left, "C11")
		return
	}
	for side := 0; side < 2; side++ {
		if s.tmr[side] != nil {
			tm := e.Go("close-timer", node(side, 0), func(a *actor) {
				sim.Sleep(40 * sec)
				s.tmr[side].Close()
			})
			e.WaitAll(60*sec, tm)
		}
	}
	var alive []*sim.Task
	if !e.Until(60*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks(srvNode, cliNode(0))
		return len(alive) == 0 && s.c[0].Closed() && s.c[1].Closed()
	}) {
		if len(alive) > 0 {
			e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "library goroutines are left after both ends were closed: %s", taskSummary(alive))
		} else {
			e.Violate("C11", "socket-leak", "a socket is still open after both ends were closed")
		}
	}
}

func genBye(g *Gen) *Plan {
	p := g.base("bye")
	o := p.Opt
	p.Net.TailP = 0
	p.Net.Latency = min(p.Net.Latency, 10*ms)
	p.Net.Jitter = min(p.Net.Jitter, 10*ms)
	if p.Net.Window == 300 {
		p.Net.Window = 4096
	}
	o["tmr"] = g.pick(0, 0, 0, 1)
	o["c"] = g.n(0, 1)
	o["streams"] = g.pick(1, 2, 2, 3, 4, 6)
	o["how"] = g.pick(0, 0, 0, 1, 2, 2)
	o["gap"] = g.pick(0, 1, 100, 2000)
	o["rb"] = g.pick(1, 16, 64, 1024)
	o["spread"] = g.pick(0, 0, 1, 20)
	o["noise"] = g.pick(0, 0, 0, 1)
	if g.p(0.2) {
		o["buf"] = g.pick(1, 2, 8)
	}
	for k := 0; k < o["streams"]; k++ {
		o[fmt.Sprintf("opener%d", k)] = g.n(0, 1)
		ks := []string{"wr", "amo", "apub", "done", "sleep"}
		acks := g.p(0.4)
		if acks {
			ks = append(ks, "done", "done", "done")
		}
		for i, n := 0, g.n(0, 4); i < n; i++ {
			op := Op{A: k, K: ks[g.R.Intn(len(ks))], X: g.pick(0, 1, 10, 60, 200), W: g.pick(1, 1, 2, 5, 20)}
			if op.K == "sleep" {
				op.X, op.W = g.pick(1, 10, 100, 1000), 1
			}
			if acks && op.K != "done" {
				op.W = 1
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if g.p(0.5) {
		p.Faults = append(p.Faults, Fault{K: "pause", At: g.dur(0.001, 2), X: g.n(0, 1), Y: g.n(0, 1), D: g.dur(0.01, 3)})
	}
	return p
}
