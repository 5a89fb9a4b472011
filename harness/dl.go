package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"simrt/sctx"
	"simrt/sim"
)

// The dl scenario: read and write deadlines of the raw byte streams, set before
// and while Reads and Writes are blocked, refreshed, moved, cleared, by several
// goroutines, with readers too slow for the writers. Every Read and Write is
// compared with the history of the deadlines, every byte with the ledger of
// successful Writes.

func init() { register(&Scenario{Name: "dl", Gen: genDL, Run: runDL}) }

type dlSet struct {
	from, to int64 // call and return of the setter; to = 0 while it runs
	sf, st   int   // the same as positions in the history of the run
	d        int64 // the deadline in virtual time, 0 = none
}

type dlSide struct {
	st   geminio.Stream
	name string
	node int
	hist [2][]*dlSet // 0 read, 1 write
	// what this side wrote successfully
	wrote   int64
	pending []byte // content of an uncertain write
	key     uint64
	read    int64 // how much of the peer's was read
	busy    bool
	wdone   bool
	// with several writers: the 8-byte records in flight or written
	recs map[uint64]bool
	part []byte
}

type dlTest struct {
	e     *Env
	s     *sess
	sides [][2]*dlSide
	final bool
	hurry bool
	hits  int
	seq   int
	nrec  uint64
}

func (t *dlTest) tick() int { t.seq++; return t.seq }

func (t *dlTest) slack() int64 { return 200*ms + sim.StallTotal() }

// set performs a deadline setter and records it.
func (t *dlTest) set(a *actor, x *dlSide, kind int, off int64) {
	tm := time.Time{}
	h := &dlSet{from: sim.Now(), sf: t.tick()}
	if off != 0 {
		h.d = max(sim.Now()+off, 1)
		tm = t.e.wall().Add(time.Duration(off))
	}
	for k := 0; k < 2; k++ {
		if kind == 2 || kind == k {
			x.hist[k] = append(x.hist[k], h)
		}
	}
	a.Begin("C09", "SetDeadline(%s %d %v)", x.name, kind, time.Duration(off))
	var err error
	switch kind {
	case 0:
		err = x.st.SetReadDeadline(tm)
	case 1:
		err = x.st.SetWriteDeadline(tm)
	default:
		err = x.st.SetDeadline(tm)
	}
	a.End()
	h.to, h.st = sim.Now(), t.tick()
	if err != nil {
		t.e.Violate("C09", "set-error", "setting a deadline on %s failed: %v", x.name, err)
	}
	t.e.out.Ops++
}

// judge compares an operation with the deadlines.
func (t *dlTest) judge(x *dlSide, k int, op string, from int64, sf int, err error) {
	now := sim.Now()
	hit := err != nil && errors.Is(err, os.ErrDeadlineExceeded)
	if hit {
		t.hits++
		t.e.Probe("deadline-hit")
		var ne net.Error
		if !errors.As(err, &ne) || !ne.Timeout() {
			t.e.Violate("C09", "not-timeout", "the error of a %s whose deadline passed does not report Timeout", op)
		}
		// some deadline that may have been in effect had passed
		ok := false
		for i, h := range x.hist[k] {
			if h.d == 0 || h.d > now+ms {
				continue
			}
			superseded := false
			for _, n := range x.hist[k][i+1:] {
				if h.st != 0 && n.sf > h.st && n.st != 0 && n.st < sf {
					superseded = true
				}
			}
			ok = ok || !superseded
		}
		if !ok {
			t.e.Violate("C09", "early:"+op, "%s on %s reported an exceeded deadline at %.3fs although none in effect had passed (%s)", op, x.name, float64(now)/1e9, t.history(x, k))
		}
		return
	}
	// the last deadline, if it is unambiguous
	n := len(x.hist[k])
	if n == 0 {
		return
	}
	h := x.hist[k][n-1]
	if h.d == 0 || h.st == 0 {
		return
	}
	for _, o := range x.hist[k][:n-1] {
		if o.st == 0 || o.st > h.sf {
			return
		}
	}
	due := max(from, h.to, h.d)
	if now > due+t.slack() {
		t.e.Violate("C09", "late:"+op, "%s on %s started at %.3fs returned only at %.3fs; its deadline was %.3fs (set at %.3fs)", op, x.name, float64(from)/1e9, float64(now)/1e9, float64(h.d)/1e9, float64(h.from)/1e9)
	}
}

func (t *dlTest) history(x *dlSide, k int) string {
	s := ""
	for _, h := range x.hist[k] {
		s += fmt.Sprintf("[set %.3f..%.3f: %.3f] ", float64(h.from)/1e9, float64(h.to)/1e9, float64(h.d)/1e9)
	}
	return s
}

func runDL(e *Env) {
	p := e.P
	t := &dlTest{e: e}
	s := e.connect(0, connectOpts{sharedTimer: p.o("tmr") == 1, bufR: p.o("buf"), bufW: p.o("buf")})
	t.s = s
	if !s.up() {
		e.Violate("C13", "handshake-failed", "no connection on a healthy network: %v %v", s.errs[0], s.errs[1])
		return
	}
	links := [][2]geminio.Stream{s.ends2()}
	if p.o("stream") == 1 {
		var l [2]geminio.Stream
		ac := e.Go("accept", srvNode, func(a *actor) { l[0], _ = acceptStream(e, s.ends[0]) })
		op := e.Go("open", cliNode(0), func(a *actor) {
			o := options.OpenStream()
			o.SetMeta([]byte("dl"))
			l[1], _ = s.ends[1].OpenStream(o)
		})
		if left := e.WaitAll(60*sec+e.slack(), ac, op); len(left) > 0 || l[0] == nil || l[1] == nil {
			e.Violate("C06", "open", "a stream could not be opened on a healthy connection")
			return
		}
		links = append(links, l)
	}
	for i, l := range links {
		var d [2]*dlSide
		for sd := 0; sd < 2; sd++ {
			d[sd] = &dlSide{st: l[sd], name: fmt.Sprintf("L%d %s", i, sideName(sd)), node: node(sd, 0), key: uint64(900 + 2*i + sd)}
		}
		t.sides = append(t.sides, d)
	}
	by := map[int][]Op{}
	var order []int
	for _, o := range p.Ops {
		if o.A/8 >= len(links) {
			continue
		}
		if _, ok := by[o.A]; !ok {
			order = append(order, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	var ws, rs []*actor
	hasReader := map[int]bool{}
	for _, k := range order {
		li, sd, role := k/8, k/4%2, k%4
		x := t.sides[li][sd]
		ops := by[k]
		if role == 0 {
			hasReader[k] = true
		}
		f := func(a *actor) { t.work(a, x, t.sides[li][1-sd], role, ops) }
		a := e.Go(fmt.Sprintf("%s-%s", x.name, []string{"reader", "writer", "setter", "setter2"}[role]), x.node, f)
		if role == 0 {
			rs = append(rs, a)
		} else {
			ws = append(ws, a)
		}
		if role == 1 {
			for i := 1; i < p.o("multi"); i++ {
				ws = append(ws, e.Go(fmt.Sprintf("%s-writer%d", x.name, i), x.node, f))
			}
		}
	}
	for li := range links {
		for sd := 0; sd < 2; sd++ {
			if !hasReader[li*8+sd*4] {
				x, y := t.sides[li][sd], t.sides[li][1-sd]
				rs = append(rs, e.Go(x.name+"-reader", x.node, func(a *actor) { t.work(a, x, y, 0, nil) }))
			}
		}
	}
	if len(ws) > 0 {
		// readers that take a byte now and then can keep the writers of much
		// waiting for long: after a while they hurry
		if left := e.WaitAll(600*sec, ws...); len(left) > 0 {
			t.hurry = true
			if left = e.WaitAll(600*sec+e.slack(), left...); len(left) > 0 {
				e.Stuck(left, "C09")
				return
			}
		}
	}
	// clear everything; the connection must be fully usable again
	t.final = true
	fa := e.Go("final", srvNode, func(a *actor) {
		for _, l := range t.sides {
			for sd := 0; sd < 2; sd++ {
				t.set(a, l[sd], 2, 0)
				l[sd].wdone = true
				t.write(a, l[sd], 5)
			}
		}
	})
	if left := e.WaitAll(600*sec+e.slack(), append(rs, fa)...); len(left) > 0 {
		e.Stuck(left, "C09")
		return
	}
	for _, l := range t.sides {
		for sd := 0; sd < 2; sd++ {
			if l[sd].wrote != l[1-sd].read {
				e.Violate("C09", "raw-lost", "%s wrote %d bytes, the peer read %d", l[sd].name, l[sd].wrote, l[1-sd].read)
			}
		}
	}
	// deadlines of closed streams do no harm
	var cl []*actor
	for sd := 0; sd < 2; sd++ {
		sd := sd
		cl = append(cl, e.Go("closer-"+sideName(sd), node(sd, 0), func(a *actor) {
			s.ends[sd].SetDeadline(e.wall().Add(300 * time.Millisecond))
			a.Begin("C11", "End.Close(%s)", sideName(sd))
			s.ends[sd].Close()
			a.End()
			s.ends[sd].SetDeadline(e.wall().Add(300 * time.Millisecond))
			s.ends[sd].SetDeadline(e.wall().Add(-300 * time.Millisecond))
			a.Begin("C09", "Read after Close(%s)", sideName(sd))
			_, err := s.ends[sd].Read(make([]byte, 1))
			a.End()
			if err == nil {
				e.Violate("C07", "after-close:Read", "Read after Close succeeded")
			}
		}))
	}
	e.Stuck(e.WaitAll(60*sec+e.slack(), cl...), "C11")
	sim.Sleep(sec)
}

func (t *dlTest) write(a *actor, x *dlSide, n int) error {
	e := t.e
	b := rawBytes(x.key, x.wrote, n)
	rec := uint64(0)
	if e.P.o("multi") > 0 {
		t.nrec++
		rec = t.nrec<<16 | 0xA55A
		n, b = 8, binary.BigEndian.AppendUint64(nil, rec)
		if x.recs == nil {
			x.recs = map[uint64]bool{}
		}
		x.recs[rec] = true
	}
	from, sf := sim.Now(), t.tick()
	// what a blocked Write delivers may be read before it returns
	x.pending = b
	x.wrote += int64(n)
	a.Begin("C09", "Write(%s %d)", x.name, n)
	m, err := x.st.Write(b)
	a.End()
	e.out.Ops++
	if err != nil {
		if m != 0 {
			e.Violate("C09", "write-partial", "a failed Write on %s says %d of %d bytes were written", x.name, m, n)
		}
		if !errors.Is(err, os.ErrDeadlineExceeded) {
			e.Violate("C09", "write-error", "Write on %s failed on a healthy stream: %v", x.name, err)
		}
		x.wrote -= int64(n)
		if rec != 0 && !x.recs[rec] {
			e.Violate("C09", "raw-failed-delivered", "what a Write on %s could not write before its deadline was read by the peer", x.name)
		}
		delete(x.recs, rec)
	} else if m != n {
		e.Violate("C09", "write-short", "Write on %s of %d bytes returned %d", x.name, n, m)
	}
	x.pending = nil
	t.judge(x, 1, "Write", from, sf, err)
	return err
}

func (t *dlTest) work(a *actor, x, y *dlSide, role int, ops []Op) {
	e := t.e
	switch role {
	case 0:
		i := 0
		for {
			o := Op{X: 64}
			if len(ops) > 0 {
				o = ops[i%len(ops)]
			}
			if t.final || t.hurry {
				o = Op{X: 256, W: 1}
			}
			if i < len(ops) && o.Y > 0 {
				t.set(a, x, 0, int64(o.Y)*ms)
			}
			i++
			b := make([]byte, max(1, o.X))
			from, sf := sim.Now(), t.tick()
			a.Begin("C09", "Read(%s)", x.name)
			n, err := x.st.Read(b)
			a.End()
			t.judge(x, 0, "Read", from, sf, err)
			if n > 0 {
				if x.read+int64(n) > y.wrote {
					e.Violate("C09", "raw-invented", "%s read %d bytes, its peer wrote %d", x.name, x.read+int64(n), y.wrote)
				}
				if e.P.o("multi") > 0 {
					y.part = append(y.part, b[:n]...)
					for ; len(y.part) >= 8; y.part = y.part[8:] {
						rec := binary.BigEndian.Uint64(y.part)
						if !y.recs[rec] {
							e.Violate("C09", "raw-corrupt", "%s read something (%x) no Write of its peer wrote, or that was read before", x.name, y.part[:8])
							return
						}
						y.recs[rec] = false
					}
				} else if string(b[:n]) != string(rawBytes(y.key, x.read, n)) {
					e.Violate("C09", "raw-corrupt", "%s: bytes %d..%d read after exceeded deadlines are not what the peer wrote", x.name, x.read, x.read+int64(n))
					return
				}
				x.read += int64(n)
			}
			if err == nil && n == 0 {
				e.Violate("C09", "read-nothing", "Read on %s returned neither bytes nor an error", x.name)
			}
			if err == io.EOF {
				e.Violate("C09", "read-eof", "Read on %s returned EOF on a healthy stream", x.name)
				return
			}
			if t.final && y.wdone && x.read >= y.wrote {
				return
			}
			if err != nil {
				// do not spin on an exceeded deadline
				sim.Sleep(10 * ms)
				if o.W == 1 && !t.final {
					t.set(a, x, 0, 0)
				}
			} else if o.Z > 0 && !t.final {
				sim.Sleep(int64(o.Z) * ms)
			}
		}
	case 1:
		for _, o := range ops {
			switch o.K {
			case "wr":
				if o.Y > 0 {
					t.set(a, x, 1, int64(o.Y)*ms)
				}
				for k := 0; k < max(1, o.W); k++ {
					if err := t.write(a, x, max(1, o.X)); err != nil {
						sim.Sleep(int64(1+o.Z) * ms)
						if k%2 == 0 {
							t.set(a, x, 1, 0)
						}
					}
				}
			case "sleep":
				sim.Sleep(int64(o.X) * ms)
			case "pub":
				// other operations do not care
				a.Begin("C09", "Publish(%s)", x.name)
				no := options.NewMessage()
				no.SetCnss(options.CnssAtMostOnce)
				err := x.st.Publish(sctx.Background(), x.st.NewMessage([]byte("x"), no))
				a.End()
				if err != nil {
					e.Violate("C09", "publish", "a Publish on %s failed, deadlines are for Read and Write: %v", x.name, err)
				}
			}
		}
	default:
		for _, o := range ops {
			sim.Sleep(int64(o.X) * ms)
			off := int64(o.Z) * ms
			if o.W == 1 {
				off = 0
			}
			t.set(a, x, o.Y%3, off)
		}
		// leave nothing behind that a blocked Write would never get over
		t.set(a, x, 2, 0)
	}
}

func genDL(g *Gen) *Plan {
	p := g.base("dl")
	r := g.R
	o := p.Opt
	o["tmr"] = r.Intn(2)
	o["stream"] = r.Intn(2)
	if g.p(0.6) {
		o["buf"] = g.pick(1, 2, 8)
	}
	if g.p(0.35) {
		o["multi"] = g.pick(1, 2, 3, 5)
	}
	if p.Net.Window == 0 {
		p.Net.Window = 65536
	}
	p.Net.TailP = 0
	off := func() int {
		return g.pick(-1000, -1, 1, 5, 20, 100, 100, 500, 3000, 100000)
	}
	for li := 0; li <= o["stream"]; li++ {
		for sd := 0; sd < 2; sd++ {
			base := li*8 + sd*4
			// the reader
			for i := 0; i < g.pick(0, 3, 6, 12); i++ {
				op := Op{A: base, K: "rd", X: g.pick(1, 3, 40, 200), Z: g.pick(0, 0, 5, 100, 600), W: r.Intn(2)}
				if g.p(0.5) {
					op.Y = g.pick(1, 10, 100, 400)
				}
				p.Ops = append(p.Ops, op)
			}
			if g.p(0.7) {
				for i := 0; i < g.n(1, 8); i++ {
					op := Op{A: base + 1, K: "wr", X: g.pick(1, 10, 60), W: g.pick(1, 1, 5, 60), Z: g.pick(0, 10, 200)}
					if g.p(0.4) {
						op.Y = g.pick(1, 10, 100, 400)
					}
					p.Ops = append(p.Ops, op)
					if g.p(0.5) {
						p.Ops = append(p.Ops, Op{A: base + 1, K: "sleep", X: g.pick(1, 30, 300, 1000)})
					}
					if g.p(0.1) {
						p.Ops = append(p.Ops, Op{A: base + 1, K: "pub"})
					}
				}
			}
			for role := 2; role < 4; role++ {
				if g.p(0.4) {
					for i := 0; i < g.n(1, 15); i++ {
						p.Ops = append(p.Ops, Op{A: base + role, K: "set", X: g.pick(0, 1, 10, 100, 500), Y: r.Intn(3), Z: off(), W: g.pick(0, 0, 0, 1)})
					}
				}
			}
		}
	}
	return p
}
