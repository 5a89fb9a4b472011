package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
)

// The life scenario: streams that come and go. Several sessions on one server;
// both ends open streams with all kinds of metas, data flows both ways from
// the first moment on, either side or both close at any time, connections fail
// or are closed in the middle. It checks the pairing of opened and accepted
// streams, what survives a close, what the delegates are told, and that nothing
// stays behind.

func init() { register(&Scenario{Name: "life", Gen: genLife, Run: runLife}) }

// script bits of a stream (Op.W)
const (
	lPub0   = 1 // opener publishes
	lPub1   = 2 // acceptor publishes
	lRaw0   = 4
	lRaw1   = 8
	lClose0 = 16 // opener closes
	lClose1 = 32 // acceptor closes
	lNoWait = 64 // closes right away
	lMany   = 128
	lTwice  = 256 // closes from two goroutines
)

// lstream is one stream, keyed by its id within the session.
type lstream struct {
	ss       *lsess
	id       uint64
	n        int
	op       *Op // of the opener, once it returned
	opener   int
	s        [2]geminio.Stream // by role: 0 opener, 1 acceptor
	closing  [2]bool
	ended    [2]bool // the receiver of the role saw the end
	pubOK    [2]int
	recvd    [2]int
	wrote    [2]int64
	read     [2]int64
	rdEOF    [2]bool
	writing  [2]bool
	closedFn int
	accFn    bool
}

type lsess struct {
	lf      *life
	s       *sess
	idx     int
	streams map[uint64]*lstream
	order   []uint64
	broken  bool
	ending  bool
	opens   int
	oks     int
	metas   map[string]int
	// a pause longer than OpenStream waits: who gave up, by meta
	lpause bool
	gaveUp map[string]bool
}

type life struct {
	e    *Env
	ss   []*lsess
	imp  []*actor
	exp  []*actor
	ops  map[string]*Op // by meta tag
	nOps int
}

func lmeta(i int, o *Op) string {
	if o.X < 0 {
		return ""
	}
	return fmt.Sprintf("s%d|%s", i, strings.Repeat("z", o.X))
}

func lpeer(i int, o *Op) string {
	if o.Y == 0 {
		return ""
	}
	return fmt.Sprintf("p%d%s", i, strings.Repeat("q", o.Y))
}

func runLife(e *Env) {
	p := e.P
	lf := &life{e: e}
	for i := 0; i <= p.o("sess"); i++ {
		ss := &lsess{lf: lf, idx: i, streams: map[uint64]*lstream{}, metas: map[string]int{}, gaveUp: map[string]bool{}}
		lf.ss = append(lf.ss, ss)
		co := connectOpts{sharedTimer: p.o("tmr") == 1}
		co.srv = func(o *server.EndOptions) {
			if p.o("accfn") == 1 {
				o.SetAcceptStreamFunc(func(st geminio.Stream) {
					ss := lf.of(ss, st)
					if x := ss.accepted(0, st); x != nil {
						x.accFn = true
					}
				})
			}
			if p.o("clsfn") == 1 {
				o.SetClosedStreamFunc(func(st geminio.Stream) {
					ss := lf.of(ss, st)
					if x := ss.streams[st.StreamID()]; x != nil {
						x.closedFn++
						if x.closedFn > 1 {
							e.Violate("C12", "closedfn-twice", "the closed-stream function ran %d times for stream %d", x.closedFn, x.id)
						}
						if x.open() {
							e.Violate("C06", "closed-early", "stream %d was reported closed although nobody closed it", x.id)
						}
					}
				})
			}
		}
		co.cli = func(o *client.EndOptions) {}
		s := e.connect(i, co)
		ss.s = s
		if !s.up() {
			for side := 0; side < 2; side++ {
				if s.errs[side] != nil {
					e.Violate("C13", "handshake-failed", "%s end could not be created on a healthy network: %v", sideName(side), s.errs[side])
				}
			}
			return
		}
		for side := 0; side < 2; side++ {
			side := side
			if side == 0 && p.o("accfn") == 1 {
				continue
			}
			for k := 0; k <= p.o("accs"); k++ {
				lf.imp = append(lf.imp, e.Go(fmt.Sprintf("acceptor%d-%d-%s", i, k, sideName(side)), node(side, i), func(a *actor) {
					if d := p.o("acclag"); d > 0 {
						sim.Sleep(int64(d) * ms)
					}
					for {
						a.Begin("C07", "AcceptStream(%s%d)", sideName(side), i)
						st, err := acceptStream(e, s.ends[side])
						a.End()
						if err != nil {
							if ss.healthy() {
								e.Violate("C06", "accept-error", "AcceptStream on the %s side failed on a healthy connection: %v", sideName(side), err)
							} else if err != io.EOF {
								e.Violate("C07", "accept-not-eof", "AcceptStream on the %s side returned %v at the end of the connection, want io.EOF", sideName(side), err)
							}
							return
						}
						ss.accepted(side, st)
					}
				}))
			}
		}
		// the default streams carry a message each way at the end, so they
		// must stay usable whatever happens to the others
	}
	by := map[int][]int{}
	var order []int
	for i, o := range p.Ops {
		if _, ok := by[o.A]; !ok {
			order = append(order, o.A)
		}
		by[o.A] = append(by[o.A], i)
	}
	for _, a := range order {
		a := a
		ss := lf.ss[(a/16)%len(lf.ss)]
		side := a & 1
		lf.exp = append(lf.exp, e.Go(fmt.Sprintf("opener%d", a), node(side, ss.idx), func(ac *actor) {
			for _, i := range by[a] {
				if d := p.Ops[i].Z % 1000; d > 0 {
					sim.Sleep(int64(d) * ms / 10)
				}
				ss.open(ac, side, i)
			}
		}))
	}
	for i, f := range p.Faults {
		f := f
		lf.exp = append(lf.exp, e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) { lf.fault(a, f) }))
	}
	left := e.WaitAll(300*sec+e.slack(), lf.exp...)
	for _, a := range left {
		a.prop = lf.blame(a.prop)
	}
	e.Stuck(left, "C07")
	if len(left) > 0 {
		return
	}
	lf.settle()
	lf.finish()
}

// of is the session a stream given to a callback belongs to: the sessions may
// share their options.
func (lf *life) of(ss *lsess, st geminio.Stream) *lsess {
	if lf.e.P.o("shopt") == 1 {
		return lf.ss[int(st.ClientID())-1000]
	}
	return ss
}

func (lf *life) blame(p string) string {
	for _, ss := range lf.ss {
		if ss.broken {
			return "C07"
		}
	}
	return p
}

func (ss *lsess) healthy() bool { return !ss.broken && !ss.ending }

func (x *lstream) open() bool {
	if x.s[0] == nil && x.ss.lpause {
		// its opener may have given up
		return false
	}
	return x.ss.healthy() && !x.closing[0] && !x.closing[1]
}

func (ss *lsess) get(id uint64, opener int) *lstream {
	x := ss.streams[id]
	if x == nil {
		x = &lstream{ss: ss, id: id, opener: opener, n: len(ss.order)}
		ss.streams[id] = x
		ss.order = append(ss.order, id)
	}
	if x.opener != opener {
		ss.lf.e.Violate("C19", "streamid-reused", "stream id %d of session %d is used by a stream of each side", id, ss.idx)
	}
	return x
}

func (ss *lsess) open(a *actor, side, i int) {
	e := ss.lf.e
	o := &e.P.Ops[i]
	oo := options.OpenStream()
	meta, peer := lmeta(i, o), lpeer(i, o)
	if o.X >= 0 {
		oo.SetMeta([]byte(meta))
	}
	if o.Y > 0 {
		oo.SetPeer(peer)
	}
	ss.opens++
	ss.metas[meta]++
	up, from := ss.healthy(), sim.Now()
	a.Begin("C06", "OpenStream(%s%d op %d)", sideName(side), ss.idx, i)
	st, err := ss.s.ends[side].OpenStream(oo)
	a.End()
	e.out.Ops++
	if err != nil {
		if ss.lpause && sim.Now() >= from+29*sec {
			e.Probe("open-gave-up")
			ss.gaveUp[meta] = true
		} else if up && ss.healthy() {
			e.Violate("C06", "open-error", "OpenStream on a healthy connection failed: %v", err)
		}
		return
	}
	ss.oks++
	x := ss.get(st.StreamID(), side)
	if x.s[0] != nil {
		e.Violate("C19", "streamid-reused", "two streams opened by the %s side of session %d have id %d", sideName(side), ss.idx, x.id)
		return
	}
	x.op = o
	x.s[0] = st
	e.Ev("open %d/%d", ss.idx, x.id)
	ss.check(x, 0, st, meta, peer)
	if x.s[1] != nil {
		ss.check(x, 1, x.s[1], meta, peer)
	}
	ss.run(x, 0)
}

func (ss *lsess) accepted(side int, st geminio.Stream) *lstream {
	e := ss.lf.e
	x := ss.get(st.StreamID(), 1-side)
	if x.s[1] != nil {
		e.Violate("C06", "accept-twice", "stream %d of session %d was accepted twice", x.id, ss.idx)
		return nil
	}
	x.s[1] = st
	e.Ev("accept %d/%d", ss.idx, x.id)
	if n, ok := ss.metas[string(st.Meta())]; !ok || n == 0 {
		e.Violate("C06", "accept-unknown", "session %d accepted a stream with meta %q (id %d), which nobody asked for", ss.idx, st.Meta(), x.id)
	}
	ss.metas[string(st.Meta())]--
	if x.s[0] != nil {
		for i := range e.P.Ops {
			if &e.P.Ops[i] == x.op {
				ss.check(x, 1, st, lmeta(i, x.op), lpeer(i, x.op))
			}
		}
	}
	ss.run(x, 1)
	return x
}

func (ss *lsess) check(x *lstream, role int, st geminio.Stream, meta, peer string) {
	e := ss.lf.e
	who := [2]string{"opener", "acceptor"}[role]
	if string(st.Meta()) != meta {
		e.Violate("C06", "stream-meta", "stream %d has meta %q at its %s, opened with %q", x.id, st.Meta(), who, meta)
	}
	if st.Peer() != peer {
		e.Violate("C06", "stream-peer", "stream %d has peer %q at its %s, opened with %q", x.id, st.Peer(), who, peer)
	}
	if want := [2]geminio.Side{geminio.InitiatorSide, geminio.RecipientSide}[role]; st.Side() != want {
		e.Violate("C06", "stream-side", "stream %d says side %v at its %s, want %v", x.id, st.Side(), who, want)
	}
	for sd := 0; sd < 2; sd++ {
		if st.ClientID() != ss.s.ends[sd].ClientID() {
			e.Violate("C06", "stream-client", "stream %d has client id %d at its %s, the %s end has %d", x.id, st.ClientID(), who, sideName(sd), ss.s.ends[sd].ClientID())
		}
	}
	if x.id == 0 || x.id == 1 {
		e.Violate("C19", "streamid-reserved", "a stream was opened with the reserved id %d", x.id)
	}
}

// key identifies what a role of a stream sends.
func (x *lstream) key(role int) uint64 {
	return uint64(x.ss.idx)<<40 | uint64(x.n)<<4 | uint64(role) + 1
}

// script is what both roles do; the acceptor may not know its op yet, so it is
// derived from the stream id as far as the acceptor is concerned.
func (x *lstream) script(role int) (w, n, life int) {
	if role == 0 {
		return x.op.W, 1 + x.op.Z%700, x.op.Z
	}
	h := uint64(x.n+1)*0x9E3779B97F4A7C15 + uint64(x.ss.lf.e.P.Seed)
	h ^= h >> 13
	return int(h>>3) & 511, 1 + int(h>>20)%700, int(h>>30) % 20000
}

func (ss *lsess) run(x *lstream, role int) {
	lf, e := ss.lf, ss.lf.e
	st := x.s[role]
	nd := node(x.opener, ss.idx)
	if role == 1 {
		nd = node(1-x.opener, ss.idx)
	}
	name := fmt.Sprintf("%d/%d/%d", ss.idx, x.id, role)
	lf.imp = append(lf.imp, e.Go("recv-"+name, nd, func(a *actor) { x.receiver(a, role) }))
	if e.P.o("noraw") == 0 {
		lf.imp = append(lf.imp, e.Go("read-"+name, nd, func(a *actor) { x.reader(a, role) }))
	}
	w, n, lifeT := x.script(role)
	lf.exp = append(lf.exp, e.Go("act-"+name, nd, func(a *actor) {
		k := 1
		if w&lMany != 0 {
			k = 4
		}
		if w&(lPub0<<role) != 0 {
			for j := 0; j < k; j++ {
				up := x.open()
				a.Begin("C01", "Publish(stream %s)", name)
				err := st.Publish(sctx.Background(), st.NewMessage(payload(x.key(role)<<8|uint64(j), n)))
				a.End()
				e.out.Ops++
				if err == nil {
					x.pubOK[role]++
					if x.recvd[1-role] < x.pubOK[role] {
						e.Violate("C01", "pub-nil-unacked", "publish %d on stream %s returned nil, its counterpart received %d messages", x.pubOK[role], name, x.recvd[1-role])
					}
				} else if up && x.open() {
					e.Violate("C01", "pub-spurious-error", "publish on the healthy stream %s failed: %v", name, err)
				}
			}
		}
		if w&(lRaw0<<role) != 0 && e.P.o("noraw") == 0 {
			for j := 0; j < k; j++ {
				b := fill(x.key(role), int(x.wrote[role])+n)[x.wrote[role]:]
				up := x.open()
				x.writing[role] = true
				a.Begin("C05", "Write(stream %s)", name)
				wn, err := st.Write(b)
				a.End()
				e.out.Ops++
				if err == nil {
					x.wrote[role] += int64(n)
					if wn != n {
						e.Violate("C05", "write-count", "Write of %d bytes on stream %s returned %d and no error", n, name, wn)
					}
				} else if up && x.open() {
					e.Violate("C05", "write-error", "Write on the healthy stream %s failed: %v", name, err)
				}
				if err != nil {
					break
				}
				x.writing[role] = false
			}
		}
		if w&(lClose0<<role) == 0 && !(role == 0 && w&lClose1 == 0) {
			return
		}
		if w&lNoWait == 0 {
			sim.Sleep(int64(lifeT) * ms / 10)
		}
		x.closing[role] = true
		e.Ev("close %s", name)
		if w&lTwice != 0 {
			lf.exp = append(lf.exp, e.Go("close2-"+name, nd, func(a *actor) {
				a.Begin("C11", "Stream.Close(%s)", name)
				st.Close()
				a.End()
			}))
		}
		a.Begin("C11", "Stream.Close(%s)", name)
		err := st.Close()
		a.End()
		if err != nil {
			e.Violate("C11", "close-error", "Close of stream %s returned %v", name, err)
		}
	}))
}

func (x *lstream) receiver(a *actor, role int) {
	e := x.ss.lf.e
	st := x.s[role]
	for {
		a.Begin("C07", "Receive(stream %d/%d/%d)", x.ss.idx, x.id, role)
		m, err := st.Receive(sctx.Background())
		a.End()
		if err != nil {
			x.ended[role] = true
			if err != io.EOF {
				e.Violate("C07", "receive-error", "Receive on stream %d returned %v, want io.EOF", x.id, err)
			}
			if x.open() {
				e.Violate("C06", "ended-alone", "Receive on stream %d/%d reports its end although nobody closed it", x.ss.idx, x.id)
			}
			return
		}
		want := x.key(1-role)<<8 | uint64(x.recvd[role])
		id, _ := payloadID(m.Data())
		if id != want {
			switch {
			case id>>8 != want>>8:
				e.Violate("C06", "msg-crossed", "stream %d/%d (role %d) received message %x, which was not sent on it", x.ss.idx, x.id, role, id)
			case id < want:
				e.Violate("C02", "msg-duplicate", "stream %d received message %d again", x.id, id&255)
			default:
				e.Violate("C02", "msg-gap", "stream %d received message %d before %d", x.id, id&255, want&255)
			}
		} else if string(m.Data()) != string(payload(id, len(m.Data())-8)) {
			e.Violate("C02", "msg-corrupt", "message %d of stream %d arrived altered", id&255, x.id)
		}
		if m.StreamID() != x.id || m.ClientID() != st.ClientID() {
			e.Violate("C02", "msg-ids", "a message received on stream %d/%d says %d/%d", st.ClientID(), x.id, m.ClientID(), m.StreamID())
		}
		x.recvd[role]++
		m.Done()
	}
}

func (x *lstream) reader(a *actor, role int) {
	e := x.ss.lf.e
	st := x.s[role]
	buf := make([]byte, 1+x.n*7%300)
	for {
		a.Begin("C07", "Read(stream %d/%d/%d)", x.ss.idx, x.id, role)
		n, err := st.Read(buf)
		a.End()
		if n > 0 {
			w := fill(x.key(1-role), int(x.read[role])+n)[x.read[role]:]
			if string(w) != string(buf[:n]) {
				e.Violate("C05", "raw-altered", "stream %d/%d: the %d bytes read at offset %d are not what was written", x.ss.idx, x.id, n, x.read[role])
			}
			x.read[role] += int64(n)
		}
		if err != nil {
			x.rdEOF[role] = true
			if err != io.EOF {
				e.Violate("C07", "read-error", "Read on stream %d returned %v, want io.EOF", x.id, err)
			}
			if x.open() {
				e.Violate("C06", "ended-alone", "Read on stream %d/%d reports its end although nobody closed it", x.ss.idx, x.id)
			}
			// what was written before a close by the writer alone arrives
			if x.ss.healthy() && !x.closing[role] && x.read[role] < x.wrote[1-role] {
				e.Violate("C05", "raw-cut", "Read on stream %d reported EOF after %d of %d bytes written before the close", x.id, x.read[role], x.wrote[1-role])
			}
			return
		}
	}
}

func (lf *life) fault(a *actor, f Fault) {
	e := lf.e
	sim.Sleep(f.At)
	ss := lf.ss[f.X/2%len(lf.ss)]
	c := ss.s.c[f.X&1]
	if !ss.healthy() && !strings.HasSuffix(f.K, "pause") {
		return
	}
	sim.Count("net-" + f.K)
	e.Ev("fault %s", f.K)
	switch f.K {
	case "lpause":
		ss.lpause = true
		if f.Y == 1 {
			c.Peer().Cut()
		} else {
			c.Cut()
		}
		sim.Sleep(f.D)
		c.Heal()
		c.Peer().Heal()
	case "pause":
		c.Cut()
		sim.Sleep(f.D)
		c.Heal()
	case "reset":
		ss.broken = true
		c.Reset()
	case "failw":
		ss.broken = true
		c.FailWrites(errors.New("injected write error"))
	case "failr":
		ss.broken = true
		c.FailReads(errors.New("injected read error"))
	case "kill":
		ss.broken = true
		sd := f.X & 1
		if sd == 0 && len(lf.ss) > 1 {
			sd = 1
		}
		sim.KillNode(node(sd, ss.idx))
		ss.s.c[sd].ProcessDied()
	case "close", "dark":
		ss.ending = true
		sd := f.X & 1
		if f.K == "dark" {
			// nothing gets through any more, and both applications give up
			ss.broken = true
			c.Cut()
			if f.Y == 1 {
				c.Peer().Cut()
			}
			sim.Sleep(f.D)
			f.Y = 1
		}
		if f.Y == 1 {
			lf.exp = append(lf.exp, e.Go("closer2", node(1-sd, ss.idx), func(a *actor) {
				a.Begin("C11", "End.Close(%s%d)", sideName(1-sd), ss.idx)
				ss.s.ends[1-sd].Close()
				a.End()
			}))
		}
		lf.exp = append(lf.exp, e.Go("closer", node(sd, ss.idx), func(a *actor) {
			a.Begin("C11", "End.Close(%s%d)", sideName(sd), ss.idx)
			ss.s.ends[sd].Close()
			a.End()
		}))
	}
}

// rest waits for all the scripts.
func (lf *life) rest() bool {
	e := lf.e
	// accepted streams and closes start new ones
	for n := -1; n != len(lf.exp); {
		n = len(lf.exp)
		if len(e.WaitAll(200*sec+e.slack(), lf.exp...)) > 0 {
			break
		}
		sim.Sleep(sec + 2*e.slack())
	}
	left := e.WaitAll(sec, lf.exp...)
	for _, a := range left {
		a.prop = lf.blame(a.prop)
	}
	e.Stuck(left, "C07")
	return len(left) == 0
}

// settle waits until closed streams are gone on both sides and checks the rest.
func (lf *life) settle() {
	e := lf.e
	if !lf.rest() {
		return
	}
	for _, ss := range lf.ss {
		if !ss.healthy() {
			continue
		}
		var miss string
		e.Until(60*sec+e.slack(), 50*ms, func() bool {
			miss = ""
			if !ss.healthy() {
				return true
			}
			for _, id := range ss.order {
				x := ss.streams[id]
				if x.s[0] == nil && x.s[1] != nil && ss.gaveUp[string(x.s[1].Meta())] {
					if !x.ended[1] || !x.rdEOF[1] && e.P.o("noraw") == 0 {
						miss = fmt.Sprintf("C06 orphan: the OpenStream for stream %d/%d failed, but the stream its peer accepted does not end", ss.idx, id)
						return false
					}
					if x.accFn && e.P.o("clsfn") == 1 && x.closedFn == 0 {
						miss = fmt.Sprintf("C12 closedfn-missing: stream %d/%d is over but the closed-stream function was not called", ss.idx, id)
						return false
					}
					x.closing[1] = true
					e.Probe("orphan-ended")
				}
				if (x.s[0] == nil || x.s[1] == nil) && !x.closing[1] {
					miss = fmt.Sprintf("C06 unpaired: stream %d/%d was opened: %v, accepted: %v", ss.idx, id, x.s[0] != nil, x.s[1] != nil)
					return false
				}
				cl := x.closing[0] || x.closing[1]
				for r := 0; r < 2; r++ {
					if x.s[r] == nil {
						continue
					}
					if cl && !x.ended[r] {
						miss = fmt.Sprintf("C11 close-unnoticed: stream %d/%d was closed but Receive on it (role %d) does not return", ss.idx, id, r)
						return false
					}
					if cl && !x.rdEOF[r] && e.P.o("noraw") == 0 {
						miss = fmt.Sprintf("C11 close-unnoticed: stream %d/%d was closed but Read on it (role %d) does not return", ss.idx, id, r)
						return false
					}
					if !cl && x.read[1-r] < x.wrote[r] {
						miss = fmt.Sprintf("C05 raw-lost: %d bytes were written on stream %d/%d, only %d arrived", x.wrote[r], ss.idx, id, x.read[1-r])
						return false
					}
				}
				if cl && x.accFn && e.P.o("clsfn") == 1 && x.closedFn == 0 {
					miss = fmt.Sprintf("C12 closedfn-missing: stream %d/%d is closed but the closed-stream function was not called", ss.idx, id)
					return false
				}
			}
			// both ends list exactly the streams that are open
			for sd := 0; sd < 2; sd++ {
				seen := map[uint64]int{}
				for _, st := range ss.s.ends[sd].ListStreams() {
					seen[st.StreamID()]++
				}
				for id, n := range seen {
					if n > 1 {
						miss = fmt.Sprintf("C06 list-twice: the %s end %d lists stream %d %d times", sideName(sd), ss.idx, id, n)
						return false
					}
				}
				for _, id := range ss.order {
					x := ss.streams[id]
					cl := x.closing[0] || x.closing[1]
					if cl && seen[id] > 0 {
						miss = fmt.Sprintf("C06 list-closed: the %s end %d still lists the closed stream %d", sideName(sd), ss.idx, id)
						return false
					}
					if !cl && seen[id] == 0 {
						miss = fmt.Sprintf("C06 list-missing: the %s end %d does not list the open stream %d", sideName(sd), ss.idx, id)
						return false
					}
				}
			}
			return true
		})
		if miss != "" && ss.healthy() {
			p, m, _ := strings.Cut(miss, " ")
			c, m, _ := strings.Cut(m, ": ")
			e.Violate(p, c, "%s", m)
		}
		// what was accepted only now has its script, too
		if !lf.rest() {
			return
		}
		if ss.healthy() {
			lf.after(ss)
		}
	}
}

// after uses what is still open once more.
func (lf *life) after(ss *lsess) {
	e := lf.e
	var as []*actor
	for sd := 0; sd < 2; sd++ {
		sd := sd
		if e.P.o("defuse") == 0 {
			break
		}
		id := uint64(0xdef0000 + sd)
		as = append(as, e.Go("default-recv", node(sd, ss.idx), func(a *actor) {
			a.Begin("C06", "Receive(default stream of %s%d)", sideName(sd), ss.idx)
			m, err := ss.s.ends[sd].Receive(sctx.Background())
			a.End()
			if err != nil {
				if ss.healthy() {
					e.Violate("C06", "default-broken", "Receive on the default stream failed after other streams were closed: %v", err)
				}
				return
			}
			if string(m.Data()) != string(payload(uint64(0xdef0000+1-sd), 9)) {
				e.Violate("C06", "msg-crossed", "the default stream of %s%d received %x", sideName(sd), ss.idx, m.Data())
			}
			m.Done()
		}))
		as = append(as, e.Go("default-pub", node(sd, ss.idx), func(a *actor) {
			a.Begin("C06", "Publish(default stream of %s%d)", sideName(sd), ss.idx)
			err := ss.s.ends[sd].Publish(sctx.Background(), ss.s.ends[sd].NewMessage(payload(id, 9)))
			a.End()
			if err != nil && ss.healthy() {
				e.Violate("C06", "default-broken", "Publish on the default stream failed after other streams were closed: %v", err)
			}
		}))
	}
	for _, id := range ss.order {
		x := ss.streams[id]
		if x.closing[0] || x.closing[1] || x.s[0] == nil || x.s[1] == nil {
			continue
		}
		for r := 0; r < 2; r++ {
			r := r
			nd := node(x.opener, ss.idx)
			if r == 1 {
				nd = node(1-x.opener, ss.idx)
			}
			as = append(as, e.Go("again", nd, func(a *actor) {
				a.Begin("C06", "Publish(stream %d/%d/%d again)", ss.idx, x.id, r)
				m := x.s[r].NewMessage(payload(x.key(r)<<8|uint64(x.pubOK[r]), 11))
				err := x.s[r].Publish(sctx.Background(), m)
				a.End()
				if err != nil && x.open() {
					e.Violate("C06", "stream-broken", "Publish on the open stream %d/%d failed after other streams were closed: %v", ss.idx, x.id, err)
				}
			}))
		}
	}
	if len(as) > 0 {
		e.Stuck(e.WaitAll(60*sec+e.slack(), as...), "C06")
	}
}

// finish closes the ends and checks what is left.
func (lf *life) finish() {
	e, p := lf.e, lf.e.P
	if len(e.out.Viol) > 0 {
		return
	}
	var cl []*actor
	for _, ss := range lf.ss {
		ss := ss
		ss.ending = true
		for sd := 0; sd < 2; sd++ {
			sd := sd
			if sim.NodeDead(node(sd, ss.idx)) {
				continue
			}
			cl = append(cl, e.Go("closer-"+sideName(sd), node(sd, ss.idx), func(a *actor) {
				if sd == p.o("closer")&1 {
					sim.Sleep(int64(p.o("closegap")) * ms)
				}
				a.Begin("C11", "End.Close(%s%d)", sideName(sd), ss.idx)
				ss.s.ends[sd].Close()
				a.End()
			}))
		}
	}
	left := e.WaitAll(100*sec+e.slack(), cl...)
	e.Stuck(left, "C11")
	if len(left) > 0 {
		return
	}
	left = e.WaitAll(60*sec+e.slack(), lf.imp...)
	e.Stuck(left, "C07")
	if len(left) > 0 {
		return
	}
	for _, ss := range lf.ss {
		for sd := 0; sd < 2; sd++ {
			if ss.s.tmr[sd] != nil {
				ss.s.tmr[sd].Close()
			}
		}
	}
	var alive []*sim.Task
	sock := func() string {
		for _, ss := range lf.ss {
			for sd := 0; sd < 2; sd++ {
				if !sim.NodeDead(node(sd, ss.idx)) && !ss.s.c[sd].Closed() {
					return fmt.Sprintf("%s%d", sideName(sd), ss.idx)
				}
			}
		}
		return ""
	}
	e.Until(100*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks()
		return len(alive) == 0 && sock() == ""
	})
	if s := sock(); s != "" {
		e.Violate("C11", "socket-leak", "the socket of %s is still open after both ends were closed", s)
	}
	if len(alive) > 0 {
		e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "library goroutines survive all connections: %s", taskSummary(alive))
		return
	}
	lf.delegates()
}

// delegates checks the online and offline events of streams and connections.
func (lf *life) delegates() {
	e := lf.e
	for _, ss := range lf.ss {
		for sd := 0; sd < 2; sd++ {
			if sim.NodeDead(node(sd, ss.idx)) {
				continue
			}
			on, off := map[uint64]int{}, map[uint64]int{}
			con, coff := 0, 0
			for _, ev := range ss.s.dlg[sd].evs {
				switch ev.kind {
				case "dgonline":
					on[ev.id]++
					if off[ev.id] > 0 {
						e.Violate("C12", "dg-order", "the %s delegate saw DialogueOffline of %d before DialogueOnline", sideName(sd), ev.id)
					}
				case "dgoffline":
					off[ev.id]++
				case "online":
					con++
				case "offline":
					coff++
				}
				if (ev.kind == "dgonline" || ev.kind == "dgoffline") && ev.cid != ss.s.ends[sd].ClientID() {
					e.Violate("C12", "dg-client", "the %s delegate saw %s of stream %d with client id %d, its end has %d", sideName(sd), ev.kind, ev.id, ev.cid, ss.s.ends[sd].ClientID())
				}
			}
			for id, n := range on {
				if n > 1 {
					e.Violate("C12", "dg-online-twice", "the %s delegate saw DialogueOnline of %d %d times", sideName(sd), id, n)
				}
				if off[id] != 1 {
					e.Violate("C12", "dg-offline-count", "the %s delegate saw DialogueOnline of %d and %d DialogueOffline (all is closed)", sideName(sd), id, off[id])
				}
			}
			for id, n := range off {
				if n > 1 {
					e.Violate("C12", "dg-offline-twice", "the %s delegate saw DialogueOffline of %d %d times", sideName(sd), id, n)
				}
				x := ss.streams[id]
				if x == nil && on[id] == 0 {
					// an opened stream whose OpenStream failed
					continue
				}
				if on[id] == 0 && x.opener != sd {
					e.Violate("C12", "dg-offline-only", "the %s delegate saw DialogueOffline of the accepted stream %d without DialogueOnline", sideName(sd), id)
				}
			}
			for _, id := range ss.order {
				x := ss.streams[id]
				if x.opener != sd && x.s[1] != nil && on[id] == 0 {
					e.Violate("C12", "dg-online-missing", "stream %d was accepted on the %s side without DialogueOnline", id, sideName(sd))
				}
			}
			if sd == 0 && (con != 1 || coff != 1) {
				e.Violate("C12", "offline-count", "the server delegate saw %d ConnOnline and %d ConnOffline of one connection that is over", con, coff)
			}
			if sd == 1 && coff != 1 {
				e.Violate("C12", "client-offline-count", "the client delegate saw %d ConnOffline of one connection that is over", coff)
			}
		}
		if e.P.o("clsfn") == 1 && !sim.NodeDead(srvNode) {
			for _, id := range ss.order {
				if x := ss.streams[id]; x.accFn && x.closedFn != 1 {
					e.Violate("C12", "closedfn-count", "the closed-stream function ran %d times for stream %d, which is over", x.closedFn, id)
				}
			}
		}
	}
}

func genLife(g *Gen) *Plan {
	p := g.base("life")
	o := p.Opt
	if g.p(0.25) {
		o["sess"] = g.n(1, 2)
	}
	o["tmr"] = g.n(0, 1)
	o["shopt"] = g.pick(0, 0, 1)
	if g.p(0.25) {
		o["acclag"] = g.pick(1, 50, 1000, 8000)
	}
	o["accfn"] = g.pick(0, 0, 1)
	o["clsfn"] = g.pick(0, 1)
	if g.p(0.3) {
		o["accs"] = g.n(1, 2)
	}
	if g.p(0.4) {
		o["noraw"] = 1
	}
	o["defuse"] = g.n(0, 1)
	o["closer"] = g.n(0, 1)
	o["closegap"] = g.pick(0, 0, 1, 100, 5000)
	na := g.n(1, 4)
	long := g.p(0.3)
	for i := 0; i < na; i++ {
		a := g.n(0, 1) | i<<1 | g.n(0, 2)<<4
		for k := g.n(1, 5); k > 0; k-- {
			op := Op{A: a, K: "open", X: g.pick(-1, 0, 1, 5, 30, 500, 5000), Y: g.pick(0, 0, 1, 10, 300), W: g.R.Intn(512)}
			if long {
				op.W &^= lNoWait
				op.Z = int(g.dur(0.0001, 10) * 10 / ms)
			} else {
				op.Z = int(g.dur(0.0001, 0.2) * 10 / ms)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if o["acclag"] > 0 && g.p(0.7) {
		// more streams than may wait to be accepted
		for k := g.n(30, 50); k > 0; k-- {
			p.Ops = append(p.Ops, Op{A: g.n(0, 1) | g.n(4, 7)<<1, K: "open", X: g.pick(-1, 0, 5), W: g.R.Intn(512)})
		}
	}
	if g.p(0.005) {
		// a long history of short streams on one connection
		o["sess"], o["acclag"], o["closegap"] = 0, 0, 0
		p.Ops = p.Ops[:0]
		for k, a := g.n(130, 320), g.n(0, 1); k > 0; k-- {
			p.Ops = append(p.Ops, Op{A: a | g.n(0, 1)<<1, K: "open", X: g.pick(-1, 0, 5), W: g.R.Intn(4) | g.n(1, 2)<<4 | g.n(0, 1)<<6})
		}
	}
	if len(p.Ops) < 25 && g.p(0.06) {
		// streams that arrive after their opener has given up
		for i := range p.Ops {
			p.Ops[i].X = max(0, p.Ops[i].X)
		}
		p.Faults = append(p.Faults, Fault{K: "lpause", At: g.dur(0.00002, 0.5), X: g.R.Intn(6), Y: g.R.Intn(2), D: 29_500*ms + int64(g.n(0, 6500))*ms})
	} else if g.p(0.35) {
		for i := 0; i < g.n(1, 2); i++ {
			k := []string{"reset", "pause", "failw", "failr", "kill", "close", "close", "close"}[g.R.Intn(8)]
			if g.p(0.08) {
				k = "dark"
			}
			p.Faults = append(p.Faults, Fault{K: k, At: g.dur(0.00002, 1), X: g.R.Intn(6), Y: g.R.Intn(2), D: g.dur(0.001, 5)})
		}
	}
	return p
}
