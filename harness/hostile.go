package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/metrics"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"simrt/sctx"
	"simrt/sim"
	"simrt/snet"
)

// The hostile scenario: two genuine ends talk through a man in the middle that
// drops, duplicates, swaps, alters, truncates and invents packets, so that each
// end faces a peer that sends anything at any moment. Nothing may crash or hang
// for good, everything is released after a close, and a second, well-behaved
// connection of the same server process is not affected.

func init() { register(&Scenario{Name: "hostile", Gen: genHostile, Run: runHostile}) }

const proxyNode = 50

var pktTypes = []byte{0x01, 0x02, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82}

type hostile struct {
	e       *Env
	s       *sess
	px      [2]*snet.SimConn // proxy's socket towards the server (0) and the client (1)
	muts    [2]map[int][]Fault
	ids     [2][]uint64 // packet ids seen from the server (0) and from the client (1)
	sessIDs []uint64
	streams [2][]geminio.Stream
	ops     []*actor
	imp     []*actor
	mutated bool
	closing bool
}

func (h *hostile) pump(a *actor, from int) {
	// from: side whose packets are read here
	src, dst := h.px[from], h.px[1-from]
	var held []byte
	for n := 1; ; n++ {
		hdr := make([]byte, 14)
		if _, err := io.ReadFull(src, hdr); err != nil {
			break
		}
		l := int(binary.BigEndian.Uint32(hdr[10:]))
		body := make([]byte, l)
		if _, err := io.ReadFull(src, body); err != nil {
			break
		}
		h.seen(from, hdr, body)
		frames := [][]byte{append(hdr, body...)}
		stop := false
		for _, m := range h.muts[from][n] {
			h.mutated = true
			sim.Count("hostile-" + m.K)
			f := frames[len(frames)-1]
			switch m.K {
			case "drop":
				frames = frames[:len(frames)-1]
			case "dup":
				frames = append(frames, append([]byte(nil), f...))
			case "swap":
				held = f
				frames = frames[:len(frames)-1]
			case "type":
				f[1] = pktTypes[m.Y%len(pktTypes)]
			case "id":
				binary.BigEndian.PutUint64(f[2:], h.anID(m.D))
			case "sess":
				if len(f) >= 24 {
					o := 14
					if f[1] == 0x31 || f[1] == 0x32 {
						o = 16
						if f[1] == 0x32 && m.Y%2 == 1 && len(f) >= 32 {
							o = 24
						}
					}
					binary.BigEndian.PutUint64(f[o:], h.aSess(m.D))
				}
			case "trunc":
				k := 14 + m.Y%(len(f)-13)
				f = f[:k]
				binary.BigEndian.PutUint32(f[10:], uint32(k-14))
				frames[len(frames)-1] = f
			case "flip":
				f[m.Y%len(f)] ^= byte(1 << (m.D % 8))
			case "len":
				binary.BigEndian.PutUint32(f[10:], uint32(m.D))
			case "inject":
				frames = append(frames, h.invent(m))
			case "delay":
				sim.Sleep(m.D)
			case "hang":
				// goes silent for good
				stop = true
			case "cut":
				src.Close()
				dst.Close()
			}
			if len(frames) == 0 {
				break
			}
		}
		if stop {
			break
		}
		for _, f := range frames {
			if _, err := dst.Write(f); err != nil {
				return
			}
		}
		if held != nil && len(h.muts[from][n]) == 0 {
			if _, err := dst.Write(held); err != nil {
				return
			}
			held = nil
		}
	}
	if h.e.P.o("fwdclose") == 1 {
		dst.Close()
	}
}

func (h *hostile) seen(from int, hdr, body []byte) {
	h.ids[from] = append(h.ids[from], binary.BigEndian.Uint64(hdr[2:]))
	if len(body) >= 8 && hdr[1] >= 0x41 {
		h.sessIDs = append(h.sessIDs, binary.BigEndian.Uint64(body))
	}
	if len(body) >= 10 && hdr[1] == 0x31 {
		h.sessIDs = append(h.sessIDs, binary.BigEndian.Uint64(body[2:]))
	}
}

func (h *hostile) anID(d int64) uint64 {
	a := h.ids[d&1]
	d >>= 1
	if len(a) == 0 || d%8 == 7 {
		return uint64(d % 5)
	}
	// the latest ones are the most likely to be pending
	return a[len(a)-1-int(d)%min(len(a), 6)]
}

func (h *hostile) aSess(d int64) uint64 {
	if len(h.sessIDs) == 0 || d%4 == 3 {
		return uint64(d % 7)
	}
	return h.sessIDs[len(h.sessIDs)-1-int(d/4)%min(len(h.sessIDs), 8)]
}

// invent builds a packet nobody sent.
func (h *hostile) invent(m Fault) []byte {
	ty := pktTypes[m.Y%len(pktTypes)]
	js := []string{"{}", "null", `{"error":"forged"}`, `{"value":"AAAA","key":"bTA="}`, `{"timeout":1,"deadline":"2001-01-01T00:00:00Z"}`, "[]", "", `{"meta":"eA==","peer":"p"}`}[(m.Y/32)%8]
	u := func(x uint64) []byte { return binary.BigEndian.AppendUint64(nil, x) }
	var body []byte
	switch ty {
	case 0x01:
		body = append([]byte{byte(m.D), 0}, u(h.anID(m.D))...)
		body = append(body, js...)
	case 0x02:
		body = append([]byte{byte(m.D % 3)}, u(uint64(m.D%9))...)
		body = append(body, js...)
	case 0x12:
		body = append([]byte{0}, js...)
	case 0x11, 0x21, 0x22:
	case 0x31:
		body = append([]byte{0, byte(m.D&1) << 4}, u(h.aSess(m.D))...)
		body = append(body, js...)
	case 0x32:
		body = append([]byte{0, 0}, u(h.aSess(m.D))...)
		body = append(body, u(h.aSess(m.D/3))...)
		body = append(body, js...)
	case 0x73:
		body = append(u(h.aSess(m.D)), 0, 1)
	case 0x61, 0x81:
		body = append(u(h.aSess(m.D)), []byte("m0")...)
	default:
		body = append(u(h.aSess(m.D)), js...)
	}
	hdr := make([]byte, 14)
	hdr[0] = 1
	hdr[1] = ty
	binary.BigEndian.PutUint64(hdr[2:], h.anID(m.D/2))
	binary.BigEndian.PutUint32(hdr[10:], uint32(len(body)))
	return append(hdr, body...)
}

func runHostile(e *Env) {
	p := e.P
	alloc := allocated()
	defer func() {
		if n := allocated() - alloc; n > 1<<30 {
			e.Violate("C18", "allocation", "%d MB were allocated for what a peer only announced", n>>20)
		}
	}()
	h := &hostile{e: e, muts: [2]map[int][]Fault{{}, {}}}
	for _, f := range p.Faults {
		h.muts[f.X&1][int(f.At)] = append(h.muts[f.X&1][int(f.At)], f)
	}
	// the bystander
	var by *sess
	if p.o("bystander") == 1 {
		by = e.connect(1, connectOpts{})
		if !by.up() {
			e.Violate("C18", "bystander-handshake", "the well-behaved client could not connect: %v / %v", by.errs[0], by.errs[1])
			return
		}
	}
	co := connectOpts{sharedTimer: p.o("tmr") == 1, bound: 90 * sec}
	co.pair = func() (*snet.SimConn, *snet.SimConn) {
		c, pc := snet.W.Pair(cliNode(0), proxyNode, "hostile-c")
		s, ps := snet.W.Pair(srvNode, proxyNode, "hostile-s")
		h.px = [2]*snet.SimConn{ps, pc}
		return c, s
	}
	// the pumps start once the sockets exist
	var pumps []*actor
	for from := 0; from < 2; from++ {
		from := from
		a := e.Go(fmt.Sprintf("pump%d", from), proxyNode, func(a *actor) {
			e.Until(sec, 0, func() bool { return h.px[from] != nil })
			h.pump(a, from)
		})
		a.daemon = true
		pumps = append(pumps, a)
	}
	h.s = e.connect(0, co)
	byeDone := false
	if by != nil {
		h.ops = append(h.ops, e.Go("bystander", cliNode(1), func(a *actor) { h.bystander(a, by); byeDone = true }))
	}
	for sd := 0; sd < 2; sd++ {
		if h.s.ends[sd] == nil {
			if !h.mutated {
				e.Violate("C18", "handshake", "%s handshake failed without interference: %v", sideName(sd), h.s.errs[sd])
			}
			continue
		}
		h.startSide(sd)
	}
	lim := 30 * sec
	if p.o("long") == 1 {
		lim = 70 * sec
	}
	e.WaitAll(lim+e.slack(), h.ops...)
	// the end
	h.closing = true
	var cl []*actor
	order := []int{p.o("closer") & 1, 1 - p.o("closer")&1}
	for i, sd := range order {
		if h.s.ends[sd] == nil {
			continue
		}
		sd, i := sd, i
		cl = append(cl, e.Go("closer-"+sideName(sd), node(sd, 0), func(a *actor) {
			if i == 1 {
				sim.Sleep(int64(p.o("closegap")) * ms)
			}
			a.Begin("C18", "End.Close(%s)", sideName(sd))
			h.s.ends[sd].Close()
			a.End()
		}))
	}
	if len(cl) > 0 {
		if left := e.WaitAll(100*sec+e.slack(), cl...); len(left) > 0 {
			e.Stuck(left, "C18")
			return
		}
	}
	if by != nil && !byeDone {
		e.Until(60*sec+e.slack(), 100*ms, func() bool { return byeDone })
	}
	all := append(append([]*actor{}, h.ops...), h.imp...)
	if len(all) > 0 {
		if left := e.WaitAll(60*sec+e.slack(), all...); len(left) > 0 {
			e.Stuck(left, "C18")
			return
		}
	}
	if by != nil {
		h.byeClose(by)
	}
	for _, c := range h.px {
		c.Close()
	}
	for sd := 0; sd < 2; sd++ {
		if h.s.tmr[sd] != nil {
			h.s.tmr[sd].Close()
		}
	}
	var alive []*sim.Task
	e.Until(120*sec+e.slack(), 500*ms, func() bool {
		alive = libTasks()
		return len(alive) == 0 && h.s.c[0].Closed() && h.s.c[1].Closed()
	})
	for sd := 0; sd < 2; sd++ {
		if !h.s.c[sd].Closed() {
			e.Violate("C18", "socket-leak", "the %s socket is still open after its end was closed", sideName(sd))
		}
	}
	if len(alive) > 0 {
		e.Violate("C18", "goroutine-leak:"+alive[0].SpawnSite(), "library goroutines survive the end of a connection with a hostile peer: %s", taskSummary(alive))
	}
}

func (h *hostile) startSide(sd int) {
	e, p := h.e, h.e.P
	end := h.s.ends[sd]
	h.attach(sd, end)
	h.imp = append(h.imp, e.Go("acceptor-"+sideName(sd), node(sd, 0), func(a *actor) {
		for {
			a.Begin("C18", "AcceptStream(%s)", sideName(sd))
			st, err := end.AcceptStream()
			a.End()
			if err != nil {
				return
			}
			h.attach(sd, st)
		}
	}))
	by := map[int][]Op{}
	var order []int
	for _, o := range p.Ops {
		if o.A%2 != sd {
			continue
		}
		if _, ok := by[o.A]; !ok {
			order = append(order, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	for _, k := range order {
		ops := by[k]
		h.ops = append(h.ops, e.Go(fmt.Sprintf("w%d-%s", k, sideName(sd)), node(sd, 0), func(a *actor) { h.work(a, sd, ops) }))
	}
}

// attach registers, receives and reads on a stream.
func (h *hostile) attach(sd int, st geminio.Stream) {
	e := h.e
	h.streams[sd] = append(h.streams[sd], st)
	id := len(h.streams[sd])
	h.imp = append(h.imp, e.Go(fmt.Sprintf("recv-%s-%d", sideName(sd), id), node(sd, 0), func(a *actor) {
		for {
			a.Begin("C18", "Receive(%s)", sideName(sd))
			m, err := st.Receive(sctx.Background())
			a.End()
			if err != nil {
				return
			}
			if m.ID()%5 == 0 {
				m.Error(fmt.Errorf("no"))
			} else {
				m.Done()
			}
		}
	}), e.Go(fmt.Sprintf("read-%s-%d", sideName(sd), id), node(sd, 0), func(a *actor) {
		b := make([]byte, 64)
		for {
			a.Begin("C18", "Read(%s)", sideName(sd))
			_, err := st.Read(b)
			a.End()
			if err != nil {
				return
			}
		}
	}), e.Go(fmt.Sprintf("reg-%s-%d", sideName(sd), id), node(sd, 0), func(a *actor) {
		a.Begin("C18", "Register(%s)", sideName(sd))
		st.Register(sctx.Background(), "m0", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			if len(req.Data())%3 == 1 {
				sim.Sleep(20 * ms)
			}
			rsp.SetData(req.Data())
		})
		a.End()
	}))
}

func (h *hostile) work(a *actor, sd int, ops []Op) {
	e := h.e
	end := h.s.ends[sd]
	for _, o := range ops {
		if h.closing {
			return
		}
		ss := h.streams[sd]
		st := ss[o.Y%len(ss)]
		e.out.Ops++
		ctx, cancel := context.Context(sctx.Background()), func() {}
		if o.W > 0 {
			ctx, cancel = sctx.WithTimeout(sctx.Background(), time.Duration(o.W)*time.Millisecond)
		}
		a.Begin("C18", "%s(%s)", o.K, sideName(sd))
		switch o.K {
		case "pub":
			st.Publish(ctx, st.NewMessage(fill(uint64(o.X), o.X)))
		case "puba":
			if pb, err := st.PublishAsync(ctx, st.NewMessage(fill(uint64(o.X), o.X)), nil); err == nil && pb != nil {
				sim.Recv(pb.Done)
			}
		case "call":
			st.Call(ctx, "m0", st.NewRequest(fill(uint64(o.X), o.X)))
		case "calla":
			if c, err := st.CallAsync(ctx, "m0", st.NewRequest(fill(uint64(o.X), o.X)), nil); err == nil {
				sim.Recv(c.Done)
			}
		case "raww":
			st.Write(fill(uint64(o.X), o.X))
		case "reg":
			st.Register(ctx, fmt.Sprintf("r%d", o.X), func(context.Context, geminio.Request, geminio.Response) {})
		case "open":
			oo := options.OpenStream()
			oo.SetMeta([]byte("hm"))
			if x, err := end.OpenStream(oo); err == nil {
				a.End()
				h.attach(sd, x)
			}
		case "close":
			if o.Y%len(ss) != 0 {
				st.Close()
			}
		case "sleep":
			sim.Sleep(int64(o.X) * ms)
		}
		a.End()
		cancel()
	}
}

// bystander: strict traffic on the other connection.
func (h *hostile) bystander(a *actor, by *sess) {
	e := h.e
	n := 0
	e.Go("bystander-recv", srvNode, func(a *actor) {
		for {
			m, err := by.ends[0].Receive(sctx.Background())
			if err != nil {
				return
			}
			n++
			m.Done()
		}
	}).daemon = true
	r := e.Go("bystander-reg", srvNode, func(a *actor) {
		by.ends[0].Register(sctx.Background(), "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) })
	})
	if left := e.WaitAll(30*sec+e.slack(), r); len(left) > 0 {
		e.Violate("C18", "bystander-hang", "Register on an unrelated connection hangs")
		return
	}
	for i := 0; i < 6; i++ {
		end := by.ends[1]
		a.Begin("C18", "bystander Publish(%d)", i)
		err := end.Publish(sctx.Background(), end.NewMessage([]byte("hello")))
		a.End()
		if err != nil {
			e.Violate("C18", "bystander-publish", "a publish on an unrelated connection failed: %v", err)
		}
		a.Begin("C18", "bystander Call(%d)", i)
		rsp, err := end.Call(sctx.Background(), "echo", end.NewRequest([]byte("hello")))
		a.End()
		if err != nil || string(rsp.Data()) != "hello" {
			e.Violate("C18", "bystander-call", "a call on an unrelated connection failed: %v", err)
		}
		sim.Sleep(int64(i*i) * 300 * ms)
	}
	if n != 6 {
		e.Violate("C18", "bystander-lost", "6 messages were published on an unrelated connection, %d received", n)
	}
}

func (h *hostile) byeClose(by *sess) {
	e := h.e
	var cl []*actor
	for sd := 0; sd < 2; sd++ {
		sd := sd
		cl = append(cl, e.Go("bystander-close", node(sd, 1), func(a *actor) {
			a.Begin("C18", "bystander Close")
			by.ends[sd].Close()
			a.End()
		}))
	}
	e.Stuck(e.WaitAll(60*sec+e.slack(), cl...), "C18")
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func genHostile(g *Gen) *Plan {
	p := g.base("hostile")
	r := g.R
	o := p.Opt
	o["tmr"] = r.Intn(2)
	o["bystander"] = g.pick(0, 0, 1)
	o["closer"] = r.Intn(2)
	o["closegap"] = g.pick(0, 0, 5, 500, 15000)
	o["fwdclose"] = r.Intn(2)
	o["long"] = g.pick(0, 0, 0, 1)
	if p.Net.MSS == 7 {
		p.Net.MSS = 0
	}
	if p.Net.Window > 0 && p.Net.Window < 4096 {
		p.Net.Window = 4096
	}
	kinds := []string{"pub", "pub", "puba", "call", "call", "calla", "raww", "raww", "open", "open", "close", "reg", "sleep"}
	nact := g.n(1, 5)
	for i := 0; i < g.n(4, 40); i++ {
		op := Op{A: r.Intn(2) + 2*r.Intn(nact), K: kinds[r.Intn(len(kinds))], X: g.pick(0, 1, 20, 200), Y: r.Intn(4)}
		if op.K == "raww" {
			op.X++
		}
		if g.p(0.3) {
			op.W = g.pick(1, 20, 200)
		}
		p.Ops = append(p.Ops, op)
	}
	first := g.pick(1, 2, 2, 3)
	mk := []string{"drop", "dup", "swap", "type", "type", "id", "sess", "trunc", "flip", "inject", "inject", "inject", "inject", "delay", "len", "hang", "cut"}
	for i := 0; i < g.pick(1, 2, 4, 8, 15); i++ {
		f := Fault{K: mk[r.Intn(len(mk))], X: r.Intn(2), Y: r.Intn(1 << 12), D: int64(r.Intn(1 << 16))}
		f.At = int64(first) + int64(pow(60, r.Float64())) - 1
		switch f.K {
		case "delay":
			f.D = g.dur(0.001, 25)
		case "len":
			f.D = int64(g.pick(0, 1, 7, 9, 100, 70000, 1<<31, 1<<32-1))
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}
