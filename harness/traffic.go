package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"regexp"
	"slices"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
	"simrt/snet"
)

// The traffic scenario: one connection, several streams, concurrent
// publishers, callers, raw writers, receivers and readers on both sides, and
// optionally one failure in the middle. Every application-visible result is
// checked against a ledger of what the other side really did.

func init() { register(&Scenario{Name: "traffic", Gen: genTraffic, Run: runTraffic}) }

// context modes of an operation (Op.W)
const (
	wNone    = 0
	wOptTO   = 1 // timeout through call/publish options
	wReqTO   = 2 // timeout set on the request/message
	wCtxTO   = 3 // context deadline
	wCancel  = 4 // context cancelled
	wBothTO  = 5 // option timeout and a later context deadline
	wCtx1st  = 6 // context deadline and a later option timeout
	wPreDone = 7 // context already cancelled
	wCanTO   = 8 // context cancelled, with a later option timeout
)

// acknowledgement modes of a message / behaviours of an rpc (Op.Y)
const (
	yDone  = 0
	yErr   = 1
	yLate  = 2 // done after a delay, from another goroutine
	yNever = 3 // never acknowledged / waits for its context
	yELate = 4
	yNest  = 5 // rpc: calls back
	yNoRPC = 6 // rpc: method not registered
	yAfter = 7 // acknowledged only after the publisher gave up
)

type tmsg struct {
	id     uint64
	mid    uint64
	l      *link
	from   int
	actor  int
	seq    int // per actor
	op     Op
	topic  string
	custom []byte
	size   int
	cnss0  bool

	sentAt   int64 // Publish was called
	recvd    int
	recvSeq  int
	acked    bool // Done called
	errored  bool // Error called
	ackAt    int64
	result   int // completions seen by the publisher
	late     int64
	resErr   error
	returned bool
}

type tcall struct {
	id       uint64
	rid      uint64
	l        *link
	from     int
	op       Op
	method   string
	custom   []byte
	size     int
	execs    int
	startAt  int64
	ctxDone  int64
	finished bool
	results  int
	late     int64
	calledAt int64
	retAt    int64
	retErr   error
	gaveUp   int64 // when the caller's context was cancelled
	linkDead bool
}

type link struct {
	id      int
	opener  int
	s       [2]geminio.Stream
	reg     [2]bool
	closing bool // a stream close or connection failure has begun
	closeAt int64
	// raw, by writer side
	rawKey  [2]uint64
	rawW    [2]int64 // bytes accepted by Write
	rawTry  [2]int64 // bytes handed to Write
	rawR    [2]int64 // bytes read by the other side
	rawDone [2]bool  // writer finished
	rawEOF  [2]bool
	chunks  [2][][]byte // what concurrent readers got, each piece of its own
	recvN   [2]int      // messages received at side
	lastSeq map[int]int
	ended   [2]bool
}

type traffic struct {
	e       *Env
	s       *sess
	links   []*link
	msgs    map[uint64]*tmsg
	calls   map[uint64]*tcall
	nextID  uint64
	broken  bool
	brokeAt int64
	brokeK  string
	endAt   int64
	pubCh   comps[geminio.Publish]
	callCh  comps[geminio.Call]
	byMeta  map[string]*link
	ids     [2]map[uint64]string // packet ids given out per side
	strIDs  map[uint64]*link
	imp     []*actor // implicit actors: receivers, readers, acceptors
	exp     []*actor // workload actors
	tail    []func()
	cancels []context.CancelFunc
}

// empty says whether message or request id carries nothing but custom data.
func empty(id uint64) bool { return id%9 == 4 }

// body is the data of message or request id.
func body(id uint64, size int) []byte {
	if empty(id) {
		return nil
	}
	return payload(id, size)
}

func (m *tmsg) body() []byte  { return body(m.id, m.size) }
func (c *tcall) body() []byte { return body(c.id, c.size) }

func bodyID(data, custom []byte) (uint64, bool) {
	if len(data) == 0 {
		return payloadID(custom)
	}
	return payloadID(data)
}

// answer is what the handler of a call responds.
func (c *tcall) answer() (data, custom []byte) {
	custom = fill(c.id+9, int(c.id%30))
	switch c.id % 8 {
	case 5:
		return nil, custom
	case 6:
		return payload(c.id^0xabcdef000000, c.size/2), nil
	case 7:
		return nil, nil
	}
	return payload(c.id^0xabcdef000000, c.size/2), custom
}

// methods are the names of the three methods every side registers.
func (t *traffic) methods() []string {
	switch t.e.P.o("mstyle") {
	case 1:
		return []string{"m", "m0", " m0"}
	case 2:
		return []string{"M0", "m0", "m0 "}
	case 3:
		return []string{"métode/übung?x=1&y=<2>", "métode/übung", "メソッド\x00\t\"{}"}
	case 4:
		return []string{strings.Repeat("m", 400), strings.Repeat("m", 399), strings.Repeat("m", 3000)}
	case 5:
		return []string{"*", ".*", "0"}
	}
	return []string{"m0", "m1", "m2"}
}

func (t *traffic) method(i uint64) string { return t.methods()[i%3] }

func (t *traffic) failed(l *link) bool { return t.broken || (l != nil && l.closing) }

func (t *traffic) newID() uint64 { t.nextID++; return t.nextID }

func (t *traffic) noteID(side int, id uint64, what string) {
	if id == 0 {
		t.e.Violate("C19", "id-zero", "%s got packet id 0", what)
	}
	for s := 0; s < 2; s++ {
		if o, ok := t.ids[s][id]; ok {
			t.e.Violate("C19", "id-reused", "packet id %d given to %s (side %s) was already given to %s (side %s)", id, what, sideName(side), o, sideName(s))
		}
	}
	t.ids[side][id] = what
}

func ackDelay(o Op, id uint64) int64 {
	return int64(1+(id*2654435761)%40) * 3 * ms
}

func runTraffic(e *Env) {
	p := e.P
	t := &traffic{e: e, msgs: map[uint64]*tmsg{}, calls: map[uint64]*tcall{}, byMeta: map[string]*link{}, strIDs: map[uint64]*link{}}
	t.ids = [2]map[uint64]string{{}, {}}
	co := connectOpts{sharedTimer: p.o("tmr") == 1, bufR: p.o("bufr"), bufW: p.o("bufw")}
	var acceptFn func(geminio.Stream)
	co.srv = func(o *server.EndOptions) {
		if p.o("accfn") == 1 {
			o.SetAcceptStreamFunc(func(s geminio.Stream) { acceptFn(s) })
		}
		if p.o("rmc")&1 != 0 {
			o.SetRemoteRPCCheck()
		}
		if p.o("clsfn") == 1 {
			o.SetClosedStreamFunc(func(s geminio.Stream) { e.Probe("closed-stream-func") })
		}
	}
	co.cli = func(o *client.EndOptions) {
		if p.o("rmc")&2 != 0 {
			o.SetRemoteRPCCheck()
		}
	}
	acceptFn = func(s geminio.Stream) { t.accepted(0, s) }
	e.onEnd = t.opEnd
	s := e.connect(0, co)
	t.s = s
	if !s.up() {
		for side := 0; side < 2; side++ {
			if s.errs[side] != nil {
				e.Violate("C13", "handshake-failed", "%s end could not be created on a healthy network: %v", sideName(side), s.errs[side])
			}
		}
		return
	}
	if a, b := s.ends[0].ClientID(), s.ends[1].ClientID(); a != b {
		e.Violate("C13", "clientid-disagree", "server end has client id %d, client end %d", a, b)
	}
	// link 0: the ends themselves
	for i := 0; i <= p.o("links"); i++ {
		l := &link{id: i, opener: -1, lastSeq: map[int]int{}}
		for sd := 0; sd < 2; sd++ {
			l.rawKey[sd] = uint64(i)*2 + uint64(sd) + 77
		}
		t.links = append(t.links, l)
		if i == 0 {
			l.s = s.ends2()
			t.strIDs[l.s[0].StreamID()] = l
		} else {
			l.opener = (p.o("openers") >> i) & 1
			t.byMeta[fmt.Sprintf("L%d", i)] = l
		}
	}
	// acceptors
	for side := 0; side < 2; side++ {
		if side == 0 && p.o("accfn") == 1 {
			continue
		}
		side := side
		t.imp = append(t.imp, e.Go("acceptor-"+sideName(side), node(side, 0), func(a *actor) {
			for {
				a.Begin("C07", "AcceptStream(%s)", sideName(side))
				st, err := acceptStream(e, s.ends[side])
				a.End()
				if err != nil {
					if !t.broken && !t.ending() {
						e.Violate("C06", "accept-error", "AcceptStream on the %s side failed on a healthy connection: %v", sideName(side), err)
					}
					return
				}
				t.accepted(side, st)
			}
		}))
	}
	for side := 0; side < 2; side++ {
		t.startSide(t.links[0], side)
	}
	for _, l := range t.links[1:] {
		l := l
		t.exp = append(t.exp, e.Go(fmt.Sprintf("opener-L%d", l.id), node(l.opener, 0), func(a *actor) {
			if d := p.o("opendelay") * l.id; d > 0 {
				sim.Sleep(int64(d) * ms)
			}
			t.open(a, l)
		}))
	}
	// workload
	byActor := map[int][]Op{}
	var order []int
	for _, o := range p.Ops {
		if _, ok := byActor[o.A]; !ok {
			order = append(order, o.A)
		}
		byActor[o.A] = append(byActor[o.A], o)
	}
	for _, ai := range order {
		ai := ai
		li, side := ai/16, (ai/8)%2
		if li >= len(t.links) {
			continue
		}
		l := t.links[li]
		t.exp = append(t.exp, e.Go(fmt.Sprintf("w%d-L%d-%s", ai%8, li, sideName(side)), node(side, 0), func(a *actor) {
			t.work(a, l, side, ai, byActor[ai])
		}))
	}
	// faults
	for i, f := range p.Faults {
		f := f
		t.exp = append(t.exp, e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) {
			sim.Sleep(f.At)
			t.fault(a, f)
		}))
	}
	bound := int64(600) * sec
	for n := -1; n < len(t.exp); {
		// actors start further ones
		n = len(t.exp)
		if left := e.WaitAll(bound+e.slack(), t.exp...); len(left) > 0 {
			t.stuck(left)
			return
		}
	}
	t.settle()
	t.end()
}

// opEnd checks how long an operation took to return once the connection was
// gone. The library's own limits are 10 s for draining to a slow consumer and
// 10 s for waiting for the peer's part of a close; a connection whose writes
// fail is noticed with the next heartbeat (20 s).
func (t *traffic) opEnd(a *actor) {
	k, from, bound := a.kind(), a.opAt, 25*sec
	prop := "C07"
	switch {
	case strings.Contains(k, "after close"), k == "second Close":
		bound = 5 * sec
	case k == "End.Close" || k == "Stream.Close":
		prop, bound = "C11", 35*sec
	case t.broken:
		from = max(from, t.brokeAt)
		switch t.brokeK {
		case "failw":
			bound = 45 * sec
		case "close", "dark":
			bound = 35 * sec
		}
	case t.endAt > 0:
		from, bound = max(from, t.endAt), 35*sec
	default:
		return
	}
	if d := sim.Now() - from; d > bound+t.e.slack()+t.consumerDelay() {
		t.e.also = t.overBy(a)
		defer func() { t.e.also = nil }()
		t.e.Violate(prop, "late:"+k, "%s returned only %.1fs after the connection was over (%s)", a.op, float64(d)/1e9, t.brokeK)
	}
}

// overBy says which further properties cover what an actor does when the
// connection is over.
func (t *traffic) overBy(a *actor) []string {
	r := append([]string(nil), a.also...)
	if t.brokeK == "close" || !t.broken {
		// the counterpart notices
		r = append(r, "C11")
	}
	return r
}

func (t *traffic) ending() bool { return t.links[0].ended[0] || t.links[0].ended[1] }

func (s *sess) ends2() [2]geminio.Stream { return [2]geminio.Stream{s.ends[0], s.ends[1]} }

func (t *traffic) stuck(left []*actor) {
	e := t.e
	if t.broken {
		for _, a := range left {
			a.prop = "C07"
			a.also = t.overBy(a)
		}
	} else if e.P.o("flood") == 1 {
		for _, a := range left {
			a.prop = "C16"
		}
	}
	e.Stuck(left, "C07")
}

func (t *traffic) open(a *actor, l *link) {
	e := t.e
	meta, peer := fmt.Sprintf("L%d", l.id), fmt.Sprintf("peer-%d", l.id)
	if l.id%4 == 3 {
		meta = "L3" + strings.Repeat("x", 300)
		t.byMeta[meta] = l
	}
	a.Begin("C06", "OpenStream(L%d)", l.id)
	o := options.OpenStream()
	o.SetMeta([]byte(meta))
	o.SetPeer(peer)
	st, err := t.s.ends[l.opener].OpenStream(o)
	a.End()
	e.out.Ops++
	if err != nil {
		if !t.broken {
			e.Violate("C06", "open-error", "OpenStream on a healthy connection failed: %v", err)
		}
		return
	}
	e.Ev("open L%d -> %d", l.id, st.StreamID())
	l.s[l.opener] = st
	t.checkStream(l, l.opener, st, meta, peer)
	t.startSide(l, l.opener)
}

func (t *traffic) accepted(side int, st geminio.Stream) {
	e := t.e
	m := string(st.Meta())
	l := t.byMeta[m]
	if l == nil {
		e.Violate("C06", "accept-unknown", "%s accepted a stream (id %d) whose meta %q nobody opened", sideName(side), st.StreamID(), m)
		return
	}
	if side == l.opener {
		e.Violate("C06", "accept-own", "the opener of L%d accepted its own stream", l.id)
		return
	}
	if l.s[side] != nil {
		e.Violate("C06", "accept-twice", "stream L%d was accepted twice", l.id)
		return
	}
	e.Ev("accept L%d -> %d", l.id, st.StreamID())
	l.s[side] = st
	t.checkStream(l, side, st, m, fmt.Sprintf("peer-%d", l.id))
	t.startSide(l, side)
}

func (t *traffic) checkStream(l *link, side int, st geminio.Stream, meta, peer string) {
	e := t.e
	if string(st.Meta()) != meta {
		e.Violate("C06", "stream-meta", "stream L%d on the %s side has meta %q, opened with %q", l.id, sideName(side), st.Meta(), meta)
	}
	if st.Peer() != peer {
		e.Violate("C06", "stream-peer", "stream L%d on the %s side has peer %q, opened with %q", l.id, sideName(side), st.Peer(), peer)
	}
	want := geminio.RecipientSide
	if side == l.opener {
		want = geminio.InitiatorSide
	}
	if st.Side() != want {
		e.Violate("C06", "stream-side", "stream L%d on the %s side says side %v, want %v", l.id, sideName(side), st.Side(), want)
	}
	e.addrs(st, t.s.c[side], fmt.Sprintf("stream L%d", l.id))
	if st.ClientID() != t.s.ends[side].ClientID() {
		e.Violate("C06", "stream-client", "stream L%d has client id %d, its end %d", l.id, st.ClientID(), t.s.ends[side].ClientID())
	}
	if o := t.strIDs[st.StreamID()]; o != nil && o != l {
		e.Violate("C19", "streamid-reused", "streams L%d and L%d share stream id %d", o.id, l.id, st.StreamID())
	}
	t.strIDs[st.StreamID()] = l
	if l.s[0] != nil && l.s[1] != nil && l.s[0].StreamID() != l.s[1].StreamID() {
		e.Violate("C06", "streamid-disagree", "the two sides of L%d disagree on its id: %d and %d", l.id, l.s[0].StreamID(), l.s[1].StreamID())
	}
}

// startSide starts the receivers, the reader and the registrations of one side
// of a link.
func (t *traffic) startSide(l *link, side int) {
	e, p := t.e, t.e.P
	st := l.s[side]
	nrecv := 1
	if p.o("recvs") > 1 {
		nrecv = p.o("recvs")
	}
	for i := 0; i < nrecv; i++ {
		t.imp = append(t.imp, e.Go(fmt.Sprintf("recv%d-L%d-%s", i, l.id, sideName(side)), node(side, 0), func(a *actor) {
			t.receive(a, l, side, nrecv)
		}))
	}
	if p.o("raw") == 1 {
		for i := 0; i < max(1, p.o("readers")); i++ {
			t.imp = append(t.imp, e.Go(fmt.Sprintf("reader%d-L%d-%s", i, l.id, sideName(side)), node(side, 0), func(a *actor) {
				t.read(a, l, side)
			}))
		}
	}
	if p.o("rpc") == 1 {
		t.exp = append(t.exp, e.Go(fmt.Sprintf("reg-L%d-%s", l.id, sideName(side)), node(side, 0), func(a *actor) {
			for k := 0; k < 3; k++ {
				m := t.method(uint64(k))
				a.Begin("C20", "Register(L%d %s %s)", l.id, sideName(side), m)
				err := st.Register(sctx.Background(), m, t.handler(l, side, m))
				a.End()
				if err != nil {
					if !t.failed(l) && !t.ending() {
						e.Violate("C20", "register-error", "Register(%s) on L%d %s failed on a healthy connection: %v", m, l.id, sideName(side), err)
					}
					return
				}
			}
			l.reg[side] = true
		}))
	}
}

// ---------------------------------------------------------------- messages

func (t *traffic) receive(a *actor, l *link, side, nrecv int) {
	e := t.e
	st := l.s[side]
	slow := t.e.P.o("slow")
	stalled := 0
	for {
		a.Begin("C07", "Receive(L%d %s)", l.id, sideName(side))
		var m geminio.Message
		var err error
		if t.e.P.o("recvctx") == 1 {
			ctx, cancel := sctx.WithTimeout(sctx.Background(), 300*time.Millisecond)
			m, err = st.Receive(ctx)
			cancel()
			if err == context.DeadlineExceeded {
				a.End()
				continue
			}
		} else {
			m, err = st.Receive(sctx.Background())
		}
		a.End()
		if err != nil {
			if err != io.EOF {
				e.Violate("C07", "receive-error", "Receive on L%d %s returned %v, want io.EOF", l.id, sideName(side), err)
			}
			if !t.failed(l) && !t.ending() {
				e.Violate("C02", "receive-eof", "Receive on L%d %s returned %v on a healthy stream", l.id, sideName(side), err)
			}
			l.ended[side] = l.ended[side] || l.id != 0
			return
		}
		id, ok := bodyID(m.Data(), m.Custom())
		tm := t.msgs[id]
		if !ok || tm == nil {
			e.Violate("C02", "msg-invented", "L%d %s received a message nobody published: %d bytes, topic %q", l.id, sideName(side), len(m.Data()), m.Topic())
			continue
		}
		e.out.Ops++
		e.Ev("recv %d on L%d %d", id, l.id, side)
		if tm.l != l || tm.from == side {
			e.Violate("C06", "msg-misrouted", "message published on L%d by %s was received on L%d by %s", tm.l.id, sideName(tm.from), l.id, sideName(side))
		}
		tm.recvd++
		if tm.recvd > 1 {
			e.Violate("C02", "msg-duplicate", "message %d was delivered %d times", id, tm.recvd)
		}
		if string(m.Data()) != string(tm.body()) {
			e.Violate("C02", "msg-corrupt", "message %d (%d bytes) arrived altered (%d bytes)", id, len(tm.body()), len(m.Data()))
		}
		if m.Topic() != tm.topic || string(m.Custom()) != string(tm.custom) {
			e.Violate("C02", "msg-attrs", "message %d published with topic %q custom %q arrived with topic %q custom %q", id, tm.topic, tm.custom, m.Topic(), m.Custom())
		}
		if want := tm.limit(); m.Timeout() != want {
			e.Violate("C02", "msg-attrs", "message %d published with timeout %v arrived with timeout %v", id, want, m.Timeout())
		}
		if m.ID() != tm.mid {
			e.Violate("C02", "msg-attrs", "message %d published with id %d arrived with id %d", id, tm.mid, m.ID())
		}
		if m.StreamID() != st.StreamID() || m.ClientID() != st.ClientID() {
			e.Violate("C02", "msg-ids", "message %d received on stream %d/%d says stream %d/%d", id, st.ClientID(), st.StreamID(), m.ClientID(), m.StreamID())
		}
		if nrecv == 1 {
			if last, ok := l.lastSeq[tm.actor]; ok && tm.seq <= last {
				e.Violate("C02", "msg-order", "on L%d message #%d of publisher %d was received after #%d", l.id, tm.seq, tm.actor, last)
			} else if tm.seq != last+1 && tm.recvd == 1 {
				// a gap: every earlier message of this publisher must be accounted for
				t.gap(l, tm, last)
			}
			l.lastSeq[tm.actor] = tm.seq
		}
		l.recvN[side]++
		t.stall(l, side, 0, &stalled)
		if slow > 0 {
			sim.Sleep(int64(slow) * ms)
		}
		t.ack(l, side, tm, m)
	}
}

// gap checks that messages skipped by the receiver were never sent.
func (t *traffic) gap(l *link, tm *tmsg, last int) {
	for _, o := range t.sorted() {
		if o.actor == tm.actor && o.seq > last && o.seq < tm.seq && o.recvd == 0 && o.op.W == wNone && !(o.returned && o.resErr != nil) {
			t.e.Violate("C02", "msg-lost", "on L%d message #%d of publisher %d was skipped: #%d was received after #%d", l.id, o.seq, o.actor, tm.seq, last)
			return
		}
	}
}

func (t *traffic) sorted() []*tmsg {
	var r []*tmsg
	for i := uint64(1); i <= t.nextID; i++ {
		if m := t.msgs[i]; m != nil {
			r = append(r, m)
		}
	}
	return r
}

// refusal is the error with which message or call id is refused; an error
// may well have no text.
func (t *traffic) refusal(id uint64) error {
	if id%7 == 3 {
		return errors.New("")
	}
	if t.e.P.o("long") != 0 && id%7 > 4 {
		return fmt.Errorf("refused-%d \"%s\"\n\té", id, strings.Repeat("why ", []int{60, 64, 300, 17000}[id/7%4]))
	}
	return fmt.Errorf("refused-%d", id)
}

func (t *traffic) ack(l *link, side int, tm *tmsg, m geminio.Message) {
	e := t.e
	do := func(fail bool) {
		tm.ackAt = sim.Now()
		var err error
		if fail {
			tm.errored = true
			err = m.Error(t.refusal(tm.id))
		} else {
			tm.acked = true
			err = m.Done()
		}
		if err != nil && !t.failed(l) && !t.ending() {
			e.Violate("C01", "ack-error", "acknowledging message %d failed on a healthy stream: %v", tm.id, err)
		}
	}
	switch tm.op.Y {
	case yDone:
		do(false)
	case yErr:
		do(true)
	case yLate, yELate, yAfter:
		d := ackDelay(tm.op, tm.id)
		if tm.op.Y == yAfter {
			d = int64(tm.op.Z)*ms + 300*ms + d
		}
		a := e.Go(fmt.Sprintf("acker-%d", tm.id), node(side, 0), func(a *actor) {
			sim.Sleep(d)
			a.Begin("C07", "Message.Done(%d)", tm.id)
			do(tm.op.Y == yELate)
			a.End()
		})
		t.imp = append(t.imp, a)
	}
}

func (t *traffic) opctx(o Op) (context.Context, context.CancelFunc) {
	switch o.W {
	case wCtxTO:
		return sctx.WithTimeout(sctx.Background(), time.Duration(o.Z)*time.Millisecond)
	case wCtx1st:
		return sctx.WithTimeout(sctx.Background(), time.Duration(o.Z)*time.Millisecond)
	case wBothTO:
		return sctx.WithTimeout(sctx.Background(), time.Duration(o.Z*5+5000)*time.Millisecond)
	case wCancel, wCanTO:
		ctx, cancel := sctx.WithCancel(sctx.Background())
		tm := sim.After(int64(o.Z)*ms, func() { cancel() })
		if t.e.P.o("cxl") == 1 {
			// whoever ends the connection may cancel what is pending at the same time
			t.cancels = append(t.cancels, cancel)
		}
		return ctx, func() { tm.Stop(); cancel() }
	case wPreDone:
		ctx, cancel := sctx.WithCancel(sctx.Background())
		cancel()
		return ctx, func() {}
	}
	if y := t.e.P.o("far"); y > 0 {
		// a deadline that never comes is as good as none
		return sctx.WithDeadline(sctx.Background(), time.Date(y, 3, 4, 5, 6, 7, 8, time.FixedZone("far", 5*3600)))
	}
	return sctx.Background(), func() {}
}

func (t *traffic) newMsg(l *link, side, actor, seq int, o Op) (*tmsg, geminio.Message) {
	st := l.s[side]
	id := t.newID()
	tm := &tmsg{id: id, l: l, from: side, actor: actor, seq: seq, op: o, size: o.X}
	no := options.NewMessage()
	if id%3 == 0 {
		tm.topic = fmt.Sprintf("topic-%d", id)
		if t.e.P.o("long") != 0 && id%2 == 0 {
			tm.topic += strings.Repeat("/t", []int{124, 125, 1000, 33000}[id/6%4])
		}
		no.SetTopic(tm.topic)
	}
	if id%4 == 1 {
		tm.custom = fill(id+1, int(id%50))
		no.SetCustom(tm.custom)
	}
	if o.K == "pub0" || o.K == "puba0" {
		tm.cnss0 = true
		no.SetCnss(options.CnssAtMostOnce)
	} else {
		no.SetCnss(options.CnssAtLeastOnce)
	}
	if empty(id) {
		tm.custom = payload(id, o.X)
		no.SetCustom(tm.custom)
	}
	m := st.NewMessage(tm.body(), no)
	tm.mid = m.ID()
	t.noteID(side, m.ID(), fmt.Sprintf("message %d", id))
	t.msgs[id] = tm
	return tm, m
}

func timeoutOf(o Op) int64 {
	switch o.W {
	case wOptTO, wReqTO, wCtxTO, wCancel, wBothTO, wCtx1st, wCanTO:
		return int64(o.Z) * ms
	}
	return -1
}

// limit is the timeout message tm is published with, the context's aside.
func (tm *tmsg) limit() time.Duration {
	switch o := tm.op; o.W {
	case wOptTO, wBothTO, wReqTO:
		return time.Duration(o.Z) * time.Millisecond
	case wCtx1st, wCanTO:
		return time.Duration(o.Z*5+5000) * time.Millisecond
	}
	return 0
}

func (t *traffic) publish(a *actor, l *link, side, ai, seq int, o Op) {
	e := t.e
	st := l.s[side]
	tm, m := t.newMsg(l, side, ai, seq, o)
	ctx, cancel := t.opctx(o)
	defer func() { cancel() }()
	po := options.Publish()
	if o.W == wOptTO || o.W == wBothTO {
		po.SetTimeout(time.Duration(o.Z) * time.Millisecond)
	}
	if o.W == wCtx1st || o.W == wCanTO {
		po.SetTimeout(time.Duration(o.Z*5+5000) * time.Millisecond)
	}
	if o.W == wReqTO {
		m.SetTimeout(time.Duration(o.Z) * time.Millisecond)
	}
	prop := "C01"
	if o.W != wNone {
		prop = "C08"
	}
	tm.sentAt = sim.Now()
	switch o.K {
	case "pub", "pub0":
		a.Begin(prop, "Publish(L%d %s #%d)", l.id, sideName(side), tm.id)
		err := st.Publish(ctx, m, po)
		a.End()
		e.Ev("pub %d -> %s", tm.id, errText(err))
		t.published(tm, err, nil)
	case "puba", "puba0":
		ch := compChan[geminio.Publish](t, l, side, o.A, &t.pubCh)
		a.Begin(prop, "PublishAsync(L%d %s #%d)", l.id, sideName(side), tm.id)
		pb, err := st.PublishAsync(ctx, m, ch, po)
		a.End()
		if err != nil {
			t.published(tm, err, nil)
			return
		}
		if tm.cnss0 {
			t.published(tm, nil, nil)
			return
		}
		if pb == nil {
			e.Violate("C04", "async-nil", "PublishAsync returned neither a handle nor an error")
			return
		}
		ctxDone := cancel
		cancel = func() {}
		t.exp = append(t.exp, e.Go(fmt.Sprintf("collect-%d", tm.id), node(side, 0), func(a *actor) {
			a.also = []string{"C04"}
			tm.late = t.chlate(tm.id)
			sim.Sleep(tm.late)
			a.Begin(prop, "<-Publish.Done(L%d %s #%d)", l.id, sideName(side), tm.id)
			r := sim.Recv(t.pubCh.of(pb, pb.Done))
			a.End()
			ctxDone()
			if r != pb || r.Message != m {
				e.Violate("C04", "async-handle", "the completion of message %d carries another publish", tm.id)
			}
			e.Ev("puba %d -> %s", tm.id, errText(r.Error))
			t.published(tm, r.Error, nil)
			t.tail = append(t.tail, func() {
				if n := t.pubCh.more(pb, pb.Done); n > 0 {
					e.Violate("C04", "async-twice", "the asynchronous publish of message %d completed %d times", tm.id, n+1)
				}
			})
		}))
	}
}

// comps are the completion channels of one kind of asynchronous operation:
// none given, one of its own (buffered or not), or one shared by all the
// operations of a side of a link and drained, possibly slowly, by a dispatcher.
type comps[T any] struct {
	shared map[[2]int]chan *T
	byHnd  map[*T]chan *T
}

func compChan[T any](t *traffic, l *link, side, ai int, c *comps[T]) chan *T {
	e := t.e
	switch e.P.o("chmode") {
	case 1:
		return make(chan *T)
	case 2, 3:
		k := [2]int{l.id, side}
		if c.shared == nil {
			c.shared, c.byHnd = map[[2]int]chan *T{}, map[*T]chan *T{}
		}
		if c.shared[k] == nil {
			ch := make(chan *T, (e.P.o("chmode")-2)*2)
			c.shared[k] = ch
			a := e.Go(fmt.Sprintf("dispatch-L%d-%s", l.id, sideName(side)), node(side, 0), func(a *actor) {
				for {
					h := sim.Recv(ch)
					f := c.fwd(h)
					if sim.Len(f) > 7 {
						e.Violate("C04", "async-twice", "an asynchronous operation on L%d completed many times", l.id)
						return
					}
					sim.SendTo(f).Do(h)
					if d := e.P.o("chslow"); d > 0 {
						sim.Sleep(int64(d) * ms)
					}
				}
			})
			a.daemon = true
		}
		return c.shared[k]
	}
	if ai%2 == 0 {
		return make(chan *T, 4)
	}
	return nil
}

// chlate is how long the completion of operation id is left in (or outside)
// its channel.
func (t *traffic) chlate(id uint64) int64 {
	d := t.e.P.o("chlate")
	if d == 0 || t.e.P.o("chmode") > 1 || id%4 != 1 {
		return 0
	}
	t.e.Probe("completion-left-in-channel")
	return int64(d) * ms
}

func (c *comps[T]) fwd(h *T) chan *T {
	if c.byHnd[h] == nil {
		c.byHnd[h] = make(chan *T, 8)
	}
	return c.byHnd[h]
}

// of is the channel on which the completion of handle h shows up.
func (c *comps[T]) of(h *T, own chan *T) chan *T {
	if c.shared != nil {
		return c.fwd(h)
	}
	return own
}

// more counts completions nobody has taken yet.
func (c *comps[T]) more(h *T, own chan *T) int {
	n := sim.Len(c.of(h, own))
	if c.shared == nil {
		for {
			// an unbuffered channel has its senders waiting
			_, _, ok := sim.TryRecv(own)
			if !ok {
				return n
			}
			n = max(n, 1)
		}
	}
	return n
}

// published checks the result of a publish against what the receiver did.
func (t *traffic) published(tm *tmsg, err error, _ any) {
	e := t.e
	o := tm.op
	e.out.Ops++
	tm.result++
	tm.returned = true
	tm.resErr = err
	if tm.op.K == "puba" {
		// the same outcome as that of a Publish
		e.also = []string{"C04"}
		defer func() { e.also = nil }()
	}
	if tm.cnss0 {
		if err != nil && o.W == wNone && !t.failed(tm.l) && !t.ending() {
			e.Violate("C01", "pub0-error", "at-most-once publish of message %d failed on a healthy stream: %v", tm.id, err)
		}
		return
	}
	el := sim.Now() - tm.sentAt
	to := timeoutOf(o)
	if to >= 0 && el > to+e.slack()+tm.late && !t.failed(tm.l) && !t.ending() {
		e.Violate("C08", "pub-late", "publish of message %d with a limit of %dms (mode %d) returned %q only after %.1fms", tm.id, o.Z, o.W, errText(err), float64(el)/1e6)
	}
	if err == nil {
		if !tm.acked {
			e.Violate("C01", "pub-nil-unacked", "publish of message %d returned nil although the receiver has not called Done (received %d times, Error called: %v)", tm.id, tm.recvd, tm.errored)
		}
		return
	}
	if tm.errored && t.refusal(tm.id).Error() == "" {
		// refused without a text: all the publisher can be told is that
		return
	}
	refused := t.refusal(tm.id).Error()
	if strings.HasPrefix(err.Error(), "refused-") {
		if err.Error() != refused || !tm.errored {
			e.Violate("C01", "pub-wrong-error", "publish of message %d returned %q; the receiver called Error for it: %v", tm.id, err, tm.errored)
		}
		return
	}
	// the error comes from the library
	if t.failed(tm.l) || t.ending() {
		return
	}
	if to < 0 && o.W != wPreDone {
		e.Violate("C01", "pub-spurious-error", "publish of message %d on a healthy stream returned %q (receiver called Done: %v, Error: %v)", tm.id, err, tm.acked, tm.errored)
		return
	}
	if o.W == wPreDone {
		return
	}
	if el < to-20*ms {
		e.Violate("C08", "pub-early-timeout", "publish of message %d with a limit of %dms returned %q after %.1fms", tm.id, o.Z, err, float64(el)/1e6)
	}
	if el > to+e.slack()+tm.late {
		e.Violate("C08", "pub-late-timeout", "publish of message %d with a limit of %dms returned %q only after %.1fms", tm.id, o.Z, err, float64(el)/1e6)
	}
	e.Probe("publish-limit-hit")
}

// --------------------------------------------------------------------- rpc

func (t *traffic) handler(l *link, side int, method string) geminio.RPC {
	e := t.e
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		id, ok := bodyID(req.Data(), req.Custom())
		tc := t.calls[id]
		if !ok || tc == nil {
			e.Violate("C03", "call-invented", "handler %s on L%d %s ran for a request nobody made (%d bytes)", method, l.id, sideName(side), len(req.Data()))
			return
		}
		e.Ev("exec %d %s L%d %d", id, method, l.id, side)
		tc.execs++
		tc.startAt = sim.Now()
		if tc.execs > 1 {
			e.Violate("C03", "call-twice", "call %d was executed %d times", id, tc.execs)
		}
		if tc.l != l || tc.from == side {
			e.Violate("C06", "call-misrouted", "call made on L%d by %s was executed on L%d by %s", tc.l.id, sideName(tc.from), l.id, sideName(side))
		}
		if tc.method != method || req.Method() != method {
			e.Violate("C03", "call-method", "call of %s ran the handler of %s (request says %s)", tc.method, method, req.Method())
		}
		if string(req.Data()) != string(tc.body()) {
			e.Violate("C03", "call-corrupt", "request %d (%d bytes) arrived altered (%d bytes)", id, len(tc.body()), len(req.Data()))
		}
		if string(req.Custom()) != string(tc.custom) {
			e.Violate("C03", "call-custom", "request %d with custom %q arrived with %q", id, tc.custom, req.Custom())
		}
		if req.ID() != tc.rid {
			e.Violate("C03", "call-ids", "request %d with id %d arrived with id %d", id, tc.rid, req.ID())
		}
		if req.StreamID() != l.s[side].StreamID() || req.ClientID() != l.s[side].ClientID() {
			e.Violate("C03", "call-ids", "request %d executed on stream %d/%d says %d/%d", id, l.s[side].ClientID(), l.s[side].StreamID(), req.ClientID(), req.StreamID())
		}
		defer func() {
			// the context of a request whose caller still waits is alive
			if ctx.Err() == nil || t.failed(l) || t.ending() || tc.results > 0 {
				return
			}
			to := timeoutOf(tc.op)
			if tc.op.W == wNone {
				e.Violate("C08", "handler-ctx-early", "the context of request %d is done (%v) %.1fms after the call although its caller set no limit and still waits", id, ctx.Err(), float64(sim.Now()-tc.calledAt)/1e6)
			} else if to >= 0 && sim.Now() < tc.calledAt+to-20*ms {
				e.Violate("C08", "handler-ctx-early", "the context of request %d is done (%v) %.1fms after the call, its caller's limit is %dms", id, ctx.Err(), float64(sim.Now()-tc.calledAt)/1e6, to/ms)
			}
		}()
		switch tc.op.Y {
		case yErr:
			rsp.SetError(t.refusal(id))
			tc.finished = true
			return
		case yLate:
			sim.Sleep(ackDelay(tc.op, id))
		case yAfter:
			sim.Sleep(int64(tc.op.Z)*ms + 300*ms + ackDelay(tc.op, id))
		case yELate:
			sim.Sleep(ackDelay(tc.op, id))
			rsp.SetError(t.refusal(id))
			tc.finished = true
			return
		case yNever:
			// wait for the caller's limit to arrive here
			lim := sim.After(int64(tc.op.Z)*ms+5*sec+e.slack()+t.consumerDelay(), func() { tc.linkDead = true })
			for ctx.Err() == nil && !tc.linkDead && !t.failed(l) {
				sim.Sleep(5 * ms)
			}
			lim.Stop()
			rsp.SetError(t.refusal(id))
			tc.finished = true
			if ctx.Err() != nil {
				tc.ctxDone = sim.Now()
				e.Probe("handler-context-ended")
			} else if tc.linkDead && !t.failed(l) {
				e.Violate("C08", "handler-ctx-alive", "the caller of %d gave up (mode %d, %dms) but the handler's context is still alive %.1fs later", id, tc.op.W, tc.op.Z, float64(sim.Now()-tc.calledAt)/1e9)
			}
			return
		case yNest:
			if st := l.s[side]; tc.op.Z >= 0 {
				t.nested(l, side, st)
			}
		}
		if d, c := tc.answer(); d != nil {
			rsp.SetData(d)
			rsp.SetCustom(c)
		} else {
			rsp.SetCustom(c)
		}
		tc.finished = true
	}
}

// consumerDelay bounds how long slow consumers may hold back what follows on
// the same stream (in-order delivery with back pressure).
func (t *traffic) consumerDelay() int64 {
	d := int64(t.e.P.o("slow"))*int64(len(t.e.P.Ops))*ms + int64(t.e.P.o("stall"))*sec
	if t.e.P.o("rslow") > 0 {
		d += 11 * sec
	}
	return d
}

// stall makes one consumer of one stream pause once.
func (t *traffic) stall(l *link, side, kind int, n *int) {
	p := t.e.P
	if p.o("stall") == 0 || p.o("stallwho") != l.id*4+side*2+kind {
		return
	}
	if *n++; *n == p.o("stallat") {
		sim.Count("app-stalls")
		sim.Sleep(int64(p.o("stall")) * sec)
	}
}

func (t *traffic) nested(l *link, side int, st geminio.Stream) {
	if !l.reg[1-side] {
		return
	}
	tc, req := t.newCall(l, side, Op{K: "call", X: 10, Y: yDone})
	tc.method = t.method(0)
	rsp, err := st.Call(sctx.Background(), tc.method, req)
	t.called(tc, rsp, err)
}

func (t *traffic) newCall(l *link, side int, o Op) (*tcall, geminio.Request) {
	st := l.s[side]
	id := t.newID()
	tc := &tcall{id: id, l: l, from: side, op: o, size: o.X, method: t.method(id)}
	if o.Y == yNoRPC {
		tc.method = fmt.Sprintf("absent%d", id%3)
	}
	no := options.NewRequest()
	if id%3 == 1 {
		tc.custom = fill(id+5, int(id%60))
		no.SetCustom(tc.custom)
	}
	if empty(id) {
		tc.custom = payload(id, o.X)
		no.SetCustom(tc.custom)
	}
	req := st.NewRequest(tc.body(), no)
	tc.rid = req.ID()
	t.noteID(side, req.ID(), fmt.Sprintf("request %d", id))
	t.calls[id] = tc
	tc.calledAt = sim.Now()
	return tc, req
}

func (t *traffic) call(a *actor, l *link, side int, o Op) {
	e := t.e
	st := l.s[side]
	if !e.Until(120*sec+e.slack(), 5*ms, func() bool { return l.reg[1-side] || t.failed(l) }) || t.failed(l) {
		return
	}
	tc, req := t.newCall(l, side, o)
	ctx, cancel := t.opctx(o)
	defer func() { cancel() }()
	co := options.Call()
	if o.W == wOptTO || o.W == wBothTO {
		co.SetTimeout(time.Duration(o.Z) * time.Millisecond)
	}
	if o.W == wCtx1st || o.W == wCanTO {
		co.SetTimeout(time.Duration(o.Z*5+5000) * time.Millisecond)
	}
	if o.W == wReqTO {
		req.SetTimeout(time.Duration(o.Z) * time.Millisecond)
	}
	prop := "C03"
	if o.W != wNone {
		prop = "C08"
	}
	if o.K == "call" {
		a.Begin(prop, "Call(L%d %s %d %s)", l.id, sideName(side), tc.id, tc.method)
		rsp, err := st.Call(ctx, tc.method, req, co)
		a.End()
		t.called(tc, rsp, err)
		return
	}
	ch := compChan[geminio.Call](t, l, side, o.A, &t.callCh)
	a.Begin(prop, "CallAsync(L%d %s %d %s)", l.id, sideName(side), tc.id, tc.method)
	c, err := st.CallAsync(ctx, tc.method, req, ch, co)
	a.End()
	if err != nil {
		t.called(tc, nil, err)
		return
	}
	cc := cancel
	cancel = func() {}
	t.exp = append(t.exp, e.Go(fmt.Sprintf("collect-%d", tc.id), node(side, 0), func(a *actor) {
		a.also = []string{"C04"}
		tc.late = t.chlate(tc.id)
		sim.Sleep(tc.late)
		a.Begin(prop, "<-Call.Done(L%d %s %d)", l.id, sideName(side), tc.id)
		r := sim.Recv(t.callCh.of(c, c.Done))
		a.End()
		cc()
		if r != c || r.Request != req || r.Method != tc.method {
			e.Violate("C04", "async-handle", "the completion of call %d carries another call", tc.id)
		}
		if r.Error == nil && r.Response == nil {
			e.Violate("C04", "async-no-response", "CallAsync %d completed without error but without a response", tc.id)
		} else {
			t.called(tc, r.Response, r.Error)
		}
		t.tail = append(t.tail, func() {
			if n := t.callCh.more(c, c.Done); n > 0 {
				e.Violate("C04", "async-twice", "the asynchronous call %d completed %d times", tc.id, n+1)
			}
		})
	}))
}

func (t *traffic) called(tc *tcall, rsp geminio.Response, err error) {
	e := t.e
	if tc.op.K == "calla" {
		// the same outcome as that of a Call
		e.also = []string{"C04"}
		defer func() { e.also = nil }()
	}
	o := tc.op
	e.out.Ops++
	tc.results++
	tc.retAt, tc.retErr = sim.Now(), err
	e.Ev("call %d -> %s", tc.id, errText(err))
	el := tc.retAt - tc.calledAt
	to := timeoutOf(o)
	if to >= 0 && el > to+e.slack()+tc.late && !t.failed(tc.l) && !t.ending() {
		e.Violate("C08", "call-late", "call %d with a limit of %dms (mode %d) returned %q only after %.1fms", tc.id, o.Z, o.W, errText(err), float64(el)/1e6)
	}
	if err == nil {
		if !tc.finished || tc.execs == 0 || o.Y == yErr || o.Y == yELate || o.Y == yNoRPC {
			e.Violate("C03", "call-nil-unexecuted", "call %d of %s returned success but its handler ran %d times (finished: %v, mode %d)", tc.id, tc.method, tc.execs, tc.finished, o.Y)
			return
		}
		if rsp == nil {
			e.Violate("C03", "call-nil-response", "call %d returned neither response nor error", tc.id)
			return
		}
		data, custom := tc.answer()
		if string(rsp.Data()) != string(data) {
			e.Violate("C03", "response-data", "call %d got a response (%d bytes) its handler did not produce", tc.id, len(rsp.Data()))
		}
		if string(rsp.Custom()) != string(custom) {
			e.Violate("C03", "response-custom", "call %d got response custom %q, its handler set %q", tc.id, rsp.Custom(), custom)
		}
		if rsp.ID() != tc.rid || rsp.Method() != tc.method {
			e.Violate("C03", "response-attrs", "call %d of %s with id %d got a response to %s with id %d", tc.id, tc.method, tc.rid, rsp.Method(), rsp.ID())
		}
		if rsp.StreamID() != tc.l.s[tc.from].StreamID() || rsp.ClientID() != tc.l.s[tc.from].ClientID() || rsp.Error() != nil {
			e.Violate("C03", "response-attrs", "call %d got response with stream %d/%d error %v", tc.id, rsp.ClientID(), rsp.StreamID(), rsp.Error())
		}
		return
	}
	if tc.finished && (o.Y == yErr || o.Y == yELate || o.Y == yNever) && t.refusal(tc.id).Error() == "" {
		return
	}
	if strings.HasPrefix(err.Error(), "refused-") {
		if err.Error() != t.refusal(tc.id).Error() || !tc.finished {
			e.Violate("C03", "call-wrong-error", "call %d returned %q; its handler ran %d times", tc.id, err, tc.execs)
		}
		return
	}
	if t.failed(tc.l) || t.ending() {
		return
	}
	if o.Y == yNoRPC && to < 0 {
		if !strings.Contains(err.Error(), "no such rpc") && !(t.e.P.o("rmc")>>tc.from&1 == 1 && err.Error() == "remote rpc unregistered") {
			e.Violate("C03", "norpc-error", "call of the unregistered method %s returned %q", tc.method, err)
		}
		return
	}
	if to < 0 && o.W != wPreDone {
		e.Violate("C03", "call-spurious-error", "call %d of %s on a healthy stream returned %q (handler runs: %d)", tc.id, tc.method, err, tc.execs)
		return
	}
	if o.W == wPreDone {
		return
	}
	if o.Y == yNoRPC && (strings.Contains(err.Error(), "no such rpc") || t.e.P.o("rmc") > 0) {
		return
	}
	if (o.W == wCtxTO || o.W == wCtx1st) && !errors.Is(err, context.DeadlineExceeded) && !strings.Contains(err.Error(), "timeout") {
		e.Violate("C08", "call-ctx-error", "call %d whose context deadline passed returned %q", tc.id, err)
	}
	if (o.W == wCancel || o.W == wCanTO) && !errors.Is(err, context.Canceled) {
		e.Violate("C08", "call-cancel-error", "call %d whose context was cancelled returned %q", tc.id, err)
	}
	if el < to-20*ms {
		e.Violate("C08", "call-early-timeout", "call %d with a limit of %dms (mode %d) returned %q after %.1fms", tc.id, o.Z, o.W, err, float64(el)/1e6)
	}
	if el > to+e.slack()+tc.late {
		e.Violate("C08", "call-late-timeout", "call %d with a limit of %dms (mode %d) returned %q only after %.1fms", tc.id, o.Z, o.W, err, float64(el)/1e6)
	}
	e.Probe("call-limit-hit")
}

// --------------------------------------------------------------------- raw

// rawByte is byte i of the stream of a writer.
func rawBytes(key uint64, off int64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		x := (uint64(off) + uint64(i) + 1) * 0x9E3779B97F4A7C15 * (key*2 + 1)
		b[i] = byte(x >> 40)
	}
	return b
}

func (t *traffic) read(a *actor, l *link, side int) {
	e := t.e
	st := l.s[side]
	w := 1 - side
	sizes := []int{1, 3, 16, 100, 1000, 5000}
	slow := e.P.o("rslow")
	slept := 0
	k := 0
	stalled := 0
	for {
		n := sizes[(k*7+l.id+side)%len(sizes)]
		if e.P.o("rbuf") > 0 {
			n = e.P.o("rbuf")
		}
		k++
		b := make([]byte, n)
		a.Begin("C07", "Read(L%d %s)", l.id, sideName(side))
		m, err := st.Read(b)
		a.End()
		if m > 0 {
			e.Ev("read %d at %d L%d %d", m, l.rawR[w], l.id, side)
			if e.P.o("readers") > 1 {
				if m > n {
					e.Violate("C05", "raw-corrupt", "Read of %d bytes on L%d %s returned %d", n, l.id, sideName(side), m)
					return
				}
				l.chunks[w] = append(l.chunks[w], b[:m:m])
			} else if m > n || string(b[:m]) != string(rawBytes(l.rawKey[w], l.rawR[w], m)) {
				e.Violate("C05", "raw-corrupt", "L%d %s: bytes %d..%d read are not what the peer wrote", l.id, sideName(side), l.rawR[w], l.rawR[w]+int64(m))
				return
			}
			l.rawR[w] += int64(m)
			if l.rawR[w] > l.rawTry[w] {
				e.Violate("C05", "raw-invented", "L%d %s read %d bytes, the peer wrote %d", l.id, sideName(side), l.rawR[w], l.rawTry[w])
			}
		}
		if err != nil {
			l.rawEOF[w] = true
			if err != io.EOF {
				e.Violate("C05", "read-error", "Read on L%d %s returned %v, want io.EOF at the end", l.id, sideName(side), err)
			}
			if !t.failed(l) && !t.ending() {
				e.Violate("C05", "read-eof", "Read on L%d %s returned %v on a healthy stream", l.id, sideName(side), err)
			}
			return
		}
		t.stall(l, side, 1, &stalled)
		if slow > 0 && k%3 == 0 && slept < 10000 {
			slept += slow
			sim.Sleep(int64(slow) * ms)
		}
	}
}

// pieces checks that what concurrent readers got are the bytes written, cut
// into pieces.
func (t *traffic) pieces(l *link, w int) {
	cs := l.chunks[w]
	if len(cs) == 0 {
		return
	}
	all := rawBytes(l.rawKey[w], 0, int(l.rawTry[w]))
	byKey := map[string][]string{} // pieces by their first bytes, at most 8
	for _, c := range cs {
		k := string(c[:min(8, len(c))])
		byKey[k] = append(byKey[k], string(c))
	}
	steps := 0
	var fit func(off, left int) bool
	fit = func(off, left int) bool {
		if left == 0 {
			return true
		}
		// the longest first: only the short ones are ambiguous
		for k := min(8, len(all)-off); k > 0; k-- {
			key := string(all[off : off+k])
			ps := byKey[key]
			for i, c := range ps {
				if i > 0 && k < 8 {
					break // all the same
				}
				if steps++; steps > 2_000_000 {
					return true
				}
				if off+len(c) > len(all) || string(all[off:off+len(c)]) != c {
					continue
				}
				if i == 0 {
					byKey[key] = ps[1:]
				} else {
					byKey[key] = append(append([]string(nil), ps[:i]...), ps[i+1:]...)
				}
				if fit(off+len(c), left-1) {
					return true
				}
				byKey[key] = ps
			}
		}
		return false
	}
	if !fit(0, len(cs)) {
		t.e.Violate("C05", "raw-pieces", "L%d: the %d pieces concurrent readers got do not make up the %d bytes that %s wrote", l.id, len(cs), l.rawTry[w], sideName(w))
	}
	t.e.Probe("concurrent-readers")
}

func (t *traffic) write(a *actor, l *link, side int, n int) {
	e := t.e
	st := l.s[side]
	b := rawBytes(l.rawKey[side], l.rawTry[side], n)
	l.rawTry[side] += int64(n)
	a.Begin("C05", "Write(L%d %s %d)", l.id, sideName(side), n)
	m, err := st.Write(b)
	a.End()
	e.out.Ops++
	// Write must not keep the caller's buffer
	for i := range b {
		b[i] = 0xEE
	}
	if err != nil {
		if !t.failed(l) && !t.ending() {
			e.Violate("C05", "write-error", "Write on L%d %s failed on a healthy stream: %v", l.id, sideName(side), err)
		}
		return
	}
	if m != n {
		e.Violate("C05", "write-short", "Write on L%d %s of %d bytes returned %d without error", l.id, sideName(side), n, m)
	}
	l.rawW[side] += int64(m)
}

// ---------------------------------------------------------------- workload

func (t *traffic) work(a *actor, l *link, side, ai int, ops []Op) {
	e := t.e
	if !e.Until(300*sec+e.slack(), 2*ms, func() bool { return l.s[side] != nil || t.failed(l) }) {
		e.Violate("C06", "stream-missing", "L%d was not available on the %s side in time", l.id, sideName(side))
		return
	}
	if l.s[side] == nil {
		return
	}
	seq := 0
	for _, o := range ops {
		if t.ending() {
			return
		}
		switch o.K {
		case "pub", "pub0", "puba", "puba0":
			seq++
			t.publish(a, l, side, ai, seq, o)
		case "call", "calla":
			t.call(a, l, side, o)
		case "raww":
			t.write(a, l, side, o.X)
			if t.failed(l) {
				l.rawDone[side] = true
				return
			}
		case "sleep":
			sim.Sleep(int64(o.X) * ms / 10)
		case "reg", "hij", "list", "dl", "foreign":
			t.control(a, l, side, o)
		case "closelink":
			t.closeLink(a, l, side)
			return
		}
	}
	if ai%8 == 7 {
		l.rawDone[side] = true
	}
}

// otherClientM and otherClientR belong to another client.
type otherClientM struct{ geminio.Message }
type otherClientR struct{ geminio.Request }

func (o otherClientM) ClientID() uint64 { return o.Message.ClientID() + 1 }
func (o otherClientR) ClientID() uint64 { return o.Request.ClientID() + 1 }

// control performs operations that must not disturb the traffic: registering
// methods again or additionally, hijacking with the semantics of the registered
// handlers, listing streams, moving deadlines that are far away.
func (t *traffic) control(a *actor, l *link, side int, o Op) {
	e := t.e
	st := l.s[side]
	ok := func() bool { return !t.failed(l) && !t.ending() }
	e.out.Ops++
	if o.Y != 2 && e.P.o("rpc") == 1 {
		e.Until(20*sec, 1*ms, func() bool { return l.reg[side] || !ok() })
	}
	switch o.K {
	case "reg":
		ctx := context.Context(sctx.Background())
		cancel := func() {}
		m := t.method(uint64(o.X))
		switch o.Y {
		case 1:
			m = fmt.Sprintf("extra%d", o.X%5)
		case 2:
			// a registration given up
			m = fmt.Sprintf("gone%d", o.X)
			c, cf := sctx.WithCancel(sctx.Background())
			tm := sim.After(int64(o.X%20)*ms, func() { cf() })
			ctx, cancel = c, func() { tm.Stop(); cf() }
		}
		a.Begin("C20", "Register(L%d %s %s)", l.id, sideName(side), m)
		err := st.Register(ctx, m, t.handler(l, side, m))
		a.End()
		cancel()
		e.Ev("register %s L%d %d -> %s", m, l.id, side, errText(err))
		if err != nil && o.Y != 2 && ok() {
			e.Violate("C20", "register-error", "Register(%s) on L%d %s failed on a healthy connection: %v", m, l.id, sideName(side), err)
		}
	case "hij":
		ho := options.Hijack()
		switch o.Y {
		case 0:
			var q []string
			for _, m := range t.methods() {
				q = append(q, regexp.QuoteMeta(m))
			}
			ho.SetMatch(true, "^("+strings.Join(q, "|")+")$")
		case 1:
			ho.SetMatch(false, "^(absent|gone|extra).*")
		case 2:
			ho.SetMatch(true, "^nothing-like-that$")
		}
		a.Begin("C20", "Hijack(L%d %s)", l.id, sideName(side))
		err := st.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
			if o.Y == 2 || !slices.Contains(t.methods(), method) {
				e.Violate("C20", "hijack-scope", "a hijack limited to other methods ran for %q on L%d %s", method, l.id, sideName(side))
			}
			e.Probe("hijacked")
			t.handler(l, side, method)(ctx, req, rsp)
		}, ho)
		a.End()
		if err != nil && ok() {
			e.Violate("C20", "hijack-error", "Hijack on L%d %s failed: %v", l.id, sideName(side), err)
		}
	case "list":
		end := t.s.ends[side]
		have := map[uint64]bool{}
		for _, x := range t.links {
			if x.s[side] != nil && !x.closing {
				have[x.s[side].StreamID()] = true
			}
		}
		a.Begin("C06", "ListStreams(%s)", sideName(side))
		ls := end.ListStreams()
		a.End()
		seen := map[uint64]bool{}
		for _, x := range ls {
			if seen[x.StreamID()] {
				e.Violate("C06", "list-twice", "ListStreams on the %s side lists stream %d twice", sideName(side), x.StreamID())
			}
			seen[x.StreamID()] = true
		}
		for _, x := range t.links {
			if x.s[side] != nil && have[x.s[side].StreamID()] && !x.closing && ok() && !seen[x.s[side].StreamID()] {
				e.Violate("C06", "list-missing", "ListStreams on the %s side does not list the open stream L%d", sideName(side), x.id)
			}
		}
	case "foreign":
		// what was made for another stream or client is refused
		from, m, rq := "another client", geminio.Message(nil), geminio.Request(nil)
		for _, x := range t.links {
			if x != l && x.s[side] != nil && o.X%2 == 0 {
				from, m, rq = fmt.Sprintf("L%d", x.id), x.s[side].NewMessage([]byte("foreign.")), x.s[side].NewRequest([]byte("foreign."))
			}
		}
		if m == nil {
			m, rq = otherClientM{st.NewMessage([]byte("foreign."))}, otherClientR{st.NewRequest([]byte("foreign."))}
		}
		var err error
		what := []string{"Publish", "PublishAsync", "Call", "CallAsync"}[o.X/2%4]
		a.Begin("C06", "%s of what was made for %s(L%d %s)", what, from, l.id, sideName(side))
		switch what {
		case "Publish":
			err = st.Publish(sctx.Background(), m)
		case "PublishAsync":
			_, err = st.PublishAsync(sctx.Background(), m, nil)
		case "Call":
			_, err = st.Call(sctx.Background(), "m0", rq)
		case "CallAsync":
			_, err = st.CallAsync(sctx.Background(), "m0", rq, nil)
		}
		a.End()
		if err == nil {
			e.Violate("C06", "foreign", "%s on L%d %s took what was made for %s", what, l.id, sideName(side), from)
		}
		e.Probe("foreign-refused")
	case "dl":
		var tm time.Time
		if o.X%3 > 0 {
			tm = e.wall().Add(time.Duration(2000+o.X) * time.Second)
		}
		switch o.Y {
		case 0:
			st.SetDeadline(tm)
		case 1:
			st.SetReadDeadline(tm)
		case 2:
			st.SetWriteDeadline(tm)
		}
	}
}

func (t *traffic) closeLink(a *actor, l *link, side int) {
	e := t.e
	if l.id == 0 || l.s[side] == nil {
		return
	}
	e.Ev("close L%d by %d", l.id, side)
	l.closing = true
	l.closeAt = sim.Now()
	a.Begin("C11", "Stream.Close(L%d %s)", l.id, sideName(side))
	l.s[side].Close()
	a.End()
	e.Probe("stream-closed-under-traffic")
}

// breaks: the connection ends now for everything that is pending and may be
// canceled.
func (t *traffic) breaks() bool { return t.broken && t.e.P.o("cxl") == 1 }

func (t *traffic) cancelAll() {
	cs := t.cancels
	t.cancels = nil
	for _, c := range cs {
		c()
		if d := t.e.P.o("cxgap"); d > 0 {
			sim.Sleep(int64(d) * 1000)
		}
	}
}

func (t *traffic) fault(a *actor, f Fault) {
	e := t.e
	c := t.s.c[f.X&1]
	brk := func() {
		t.broken, t.brokeAt, t.brokeK = true, sim.Now(), f.K
		for _, l := range t.links {
			l.closing = true
		}
		for sd := 0; sd < 2 && t.breaks(); sd++ {
			e.Go("canceler", node(sd, 0), func(a *actor) {
				sim.Sleep(int64(e.P.o("cxlat")) * ms / 10)
				t.cancelAll()
			})
		}
	}
	sim.Count("net-" + f.K)
	e.Ev("fault %s", f.K)
	switch f.K {
	case "reset":
		brk()
		c.Reset()
	case "halfreset":
		brk()
		c.HalfReset()
		sim.Sleep(f.D)
		c.Peer().HalfReset()
	case "failw":
		brk()
		c.FailWrites(errors.New("injected write error"))
	case "failr":
		brk()
		c.FailReads(errors.New("injected read error"))
	case "timeout":
		brk()
		c.Cut()
		sim.Sleep(f.D)
		c.Timeout()
		c.Peer().Timeout()
	case "kill":
		brk()
		sd := f.X & 1
		n := node(sd, 0)
		sim.KillNode(n)
		t.s.c[sd].ProcessDied()
	case "pause":
		// a partition that heals: TCP delivers everything afterwards
		c.Cut()
		if f.Y == 1 {
			c.Peer().Cut()
		}
		sim.Sleep(f.D)
		c.Heal()
		c.Peer().Heal()
	case "dark":
		// the peer falls silent, nothing gets through any more, and both
		// applications give up
		brk()
		c.Cut()
		if f.Y == 1 {
			c.Peer().Cut()
		}
		sim.Sleep(f.D)
		t.exp = append(t.exp, e.Go("closer2", node(1-f.X&1, 0), func(a *actor) {
			a.Begin("C11", "End.Close(%s)", sideName(1-f.X&1))
			t.s.ends[1-f.X&1].Close()
			a.End()
		}))
		a.Begin("C11", "End.Close(%s)", sideName(f.X&1))
		t.s.ends[f.X&1].Close()
		a.End()
	case "close":
		brk()
		a.Begin("C11", "End.Close(%s)", sideName(f.X&1))
		if f.Y == 1 {
			// both sides at once
			t.exp = append(t.exp, e.Go("closer2", node(1-f.X&1, 0), func(a *actor) {
				a.Begin("C11", "End.Close(%s)", sideName(1-f.X&1))
				t.s.ends[1-f.X&1].Close()
				a.End()
			}))
		}
		t.s.ends[f.X&1].Close()
		a.End()
	}
}

// owed: the message must still arrive.
func (t *traffic) owed(m *tmsg) bool {
	return m.recvd == 0 && !m.l.closing && (m.op.W == wNone || m.returned && m.resErr == nil)
}

// settle waits until everything owed on healthy links has arrived.
func (t *traffic) settle() {
	e := t.e
	if t.broken {
		return
	}
	ok := e.Until(120*sec+e.slack(), 20*ms, func() bool {
		for _, m := range t.sorted() {
			if t.owed(m) {
				return false
			}
		}
		for _, l := range t.links {
			for sd := 0; sd < 2; sd++ {
				if !l.closing && e.P.o("raw") == 1 && l.rawR[sd] < l.rawW[sd] {
					return false
				}
			}
		}
		return true
	})
	if t.broken {
		return
	}
	if !ok {
		for _, m := range t.sorted() {
			if t.owed(m) {
				e.Violate("C02", "msg-lost", "message %d (publisher result %s) was never received although the connection stayed healthy", m.id, errText(m.resErr))
				break
			}
		}
		for _, l := range t.links {
			for sd := 0; sd < 2; sd++ {
				if !l.closing && e.P.o("raw") == 1 && l.rawR[sd] < l.rawW[sd] {
					e.Violate("C05", "raw-lost", "L%d: %s wrote %d bytes, the peer could read only %d", l.id, sideName(sd), l.rawW[sd], l.rawR[sd])
				}
			}
		}
	}
	for _, m := range t.sorted() {
		if m.cnss0 || !m.returned || m.l.closing || m.op.W != wNone {
			continue
		}
		if m.resErr != nil && m.acked {
			e.Violate("C01", "pub-acked-error", "message %d was received and acknowledged with Done but publish returned %v", m.id, m.resErr)
		}
	}
}

// end closes the connection and checks that everything comes to rest.
func (t *traffic) end() {
	e, p := t.e, t.e.P
	closer := p.o("closer") & 1
	preBroken := t.broken
	t.links[0].ended[0], t.links[0].ended[1] = true, true
	t.endAt = sim.Now()
	var cl []*actor
	for i, sd := range []int{closer, 1 - closer} {
		if sim.NodeDead(node(sd, 0)) {
			continue
		}
		sd := sd
		d := int64(0)
		if i == 1 {
			d = int64(p.o("closegap")) * ms
		}
		cl = append(cl, e.Go("closer-"+sideName(sd), node(sd, 0), func(a *actor) {
			sim.Sleep(d)
			if i == 1 && p.o("closeone") == 1 {
				// the other side must notice by itself first
				return
			}
			a.Begin("C11", "End.Close(%s)", sideName(sd))
			t.s.ends[sd].Close()
			a.End()
		}))
	}
	e.Stuck(e.WaitAll(100*sec+e.slack(), cl...), "C11")
	left := e.WaitAll(100*sec+e.slack(), t.imp...)
	for _, a := range left {
		if !preBroken {
			a.prop = "C07"
			a.also = append(a.also, "C11")
		}
	}
	e.Stuck(left, "C07")
	if len(left) > 0 {
		return
	}
	for _, l := range t.links {
		for sd := 0; sd < 2; sd++ {
			if !sim.NodeDead(node(1-sd, 0)) {
				t.pieces(l, sd)
			}
		}
	}
	// operations after the end fail promptly instead of panicking or hanging
	if !t.afterEnd() {
		return
	}
	// liveness after the end: goroutines and sockets
	e.Until(60*sec+e.slack(), 500*ms, func() bool {
		return (t.s.c[0].Closed() || sim.NodeDead(srvNode)) && (t.s.c[1].Closed() || sim.NodeDead(cliNode(0)))
	})
	for sd := 0; sd < 2; sd++ {
		if t.s.tmr[sd] != nil {
			t.s.tmr[sd].Close()
		}
	}
	var alive []*sim.Task
	e.Until(120*sec+e.slack(), 500*ms, func() bool {
		alive = libTasks(srvNode, cliNode(0))
		return len(alive) == 0 && (t.s.c[0].Closed() || sim.NodeDead(srvNode)) && (t.s.c[1].Closed() || sim.NodeDead(cliNode(0)))
	})
	for sd := 0; sd < 2; sd++ {
		if !t.s.c[sd].Closed() && !sim.NodeDead(node(sd, 0)) {
			e.Violate("C11", "socket-leak", "the %s socket is still open after both ends were closed", sideName(sd))
		}
	}
	if len(alive) > 0 {
		e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "library goroutines survive the end of the connection: %s", taskSummary(alive))
	}
	for _, f := range t.tail {
		f()
	}
	for sd := 0; sd < 2; sd++ {
		d := t.s.dlg[sd]
		if sim.NodeDead(node(sd, 0)) {
			continue
		}
		if n := d.count("offline"); n != 1 {
			e.Violate("C12", "offline-count", "the %s delegate saw %d ConnOffline for one connection", sideName(sd), n)
		}
	}
}

func (t *traffic) afterEnd() bool {
	e := t.e
	var as []*actor
	// streams accepted at the very end need a moment to notice
	sim.Sleep(2*sec + e.slack())
	for sd := 0; sd < 2; sd++ {
		if sim.NodeDead(node(sd, 0)) {
			continue
		}
		for _, l := range t.links {
			st := l.s[sd]
			if st == nil {
				continue
			}
			l, sd := l, sd
			as = append(as, e.Go(fmt.Sprintf("after-L%d-%s", l.id, sideName(sd)), node(sd, 0), func(a *actor) {
				chk := func(op string, f func() error) {
					a.Begin("C07", "%s after close(L%d %s)", op, l.id, sideName(sd))
					err := f()
					a.End()
					if err == nil {
						e.Violate("C07", "after-close:"+op, "%s on L%d %s succeeded after the connection ended", op, l.id, sideName(sd))
					}
				}
				chk("Publish", func() error { return st.Publish(sctx.Background(), st.NewMessage([]byte("x"))) })
				chk("Call", func() error { _, err := st.Call(sctx.Background(), "m0", st.NewRequest([]byte("x"))); return err })
				chk("Write", func() error { _, err := st.Write([]byte("x")); return err })
				chk("Read", func() error {
					for {
						n, err := st.Read(make([]byte, 4096))
						if err != nil || n == 0 {
							return err
						}
					}
				})
				chk("Receive", func() error {
					for {
						if _, err := st.Receive(sctx.Background()); err != nil {
							return err
						}
					}
				})
				chk("Register", func() error {
					return st.Register(sctx.Background(), "zz", func(context.Context, geminio.Request, geminio.Response) {})
				})
				st.SetDeadline(e.wall().Add(time.Second))
				if l.id == 0 {
					chk("OpenStream", func() error { _, err := t.s.ends[sd].OpenStream(); return err })
					chk("AcceptStream", func() error {
						// those that were opened before may still be handed out
						for {
							if _, err := acceptStream(e, t.s.ends[sd]); err != nil {
								return err
							}
						}
					})
				}
				a.Begin("C11", "second Close(L%d %s)", l.id, sideName(sd))
				st.Close()
				a.End()
			}))
		}
	}
	left := e.WaitAll(60*sec+e.slack(), as...)
	e.Stuck(left, "C07")
	return len(left) == 0
}

func (e *Env) wall() time.Time { return sim.Wall() }

var _ = snet.W

// ---------------------------------------------------------------- generator

func genTraffic(g *Gen) *Plan {
	p := g.base("traffic")
	r := g.R
	o := p.Opt
	o["links"] = g.pick(0, 0, 1, 1, 2, 3)
	o["openers"] = r.Intn(16)
	o["tmr"] = r.Intn(2)
	if g.p(0.25) {
		o["bufr"] = g.pick(1, 4, 128)
		o["bufw"] = g.pick(1, 4, 128)
	}
	if g.p(0.2) {
		o["accfn"] = 1
	}
	if g.p(0.2) {
		o["clsfn"] = 1
	}
	o["recvs"] = g.pick(1, 1, 1, 2)
	if g.p(0.2) {
		o["slow"] = g.pick(1, 5, 20)
	}
	if g.p(0.15) {
		o["recvctx"] = 1
	}
	if g.p(0.05) {
		o["far"] = g.pick(2100, 2300, 9999, 10000, 12026, 292000)
	}
	o["closer"] = r.Intn(2)
	o["closegap"] = g.pick(0, 0, 1, 50, 2000)
	o["closeone"] = r.Intn(2)
	o["opendelay"] = g.pick(0, 0, 3, 40)
	// weights per profile
	wp, wc, wr := 4, 3, 2
	faultP, limitP := 0.3, 0.2
	switch g.Profile {
	case "C01":
		wp, wc, wr = 8, 1, 1
	case "C02":
		wp, wc, wr = 8, 1, 1
	case "C03":
		wp, wc, wr = 1, 8, 1
	case "C04":
		wp, wc, wr = 4, 4, 0
	case "C05":
		wp, wc, wr = 1, 1, 8
	case "C06":
		o["links"] = g.pick(1, 2, 3, 4)
	case "C07":
		faultP = 1
	case "C08":
		limitP = 0.7
		wp, wc, wr = 3, 6, 1
		faultP = 0.05
	case "C10", "C20":
		wp, wc, wr = 2, 6, 1
		if g.Profile == "C10" && g.p(0.4) {
			limitP, faultP = 0.6, 0.6
		}
	case "C11":
		faultP = 0.4
	case "C16":
		faultP, limitP = 0, 0.02
		o["flood"] = 1
		o["slow"] = g.pick(0, 1, 10)
	}
	// how many bytes the network can carry in a few seconds
	n := p.Net
	rtt := 2*(n.Latency+n.Jitter) + 1e6
	win := int64(n.Window)
	if win == 0 {
		win = 1 << 20
	}
	if n.TailP > 0 {
		segs := win / 200
		if n.MSS > 0 {
			segs = win / int64(n.MSS)
		}
		rtt += int64(min(1, n.TailP*float64(segs)) * float64(n.TailNs))
	}
	budget := int(win * 4 * sec / rtt)
	if budget > 150_000 {
		budget = 150_000
	}
	nops := g.n(4, 40)
	if o["flood"] == 1 {
		nops = g.n(60, 220)
	} else if g.p(0.15) {
		nops = g.n(60, 160)
	}
	per := budget / nops
	size := func() int {
		m := per * 2
		x := []int{0, 1, 10, 100, 1000, 5000, 20000}[r.Intn(7)]
		if x > m {
			x = m
		}
		return x
	}
	nact := g.n(1, 4)
	type ak struct{ a, kind int }
	var acts []ak
	nl := o["links"] + 1
	used := map[int]bool{}
	for i := 0; i < nact+r.Intn(3); i++ {
		l, sd := r.Intn(nl), r.Intn(2)
		kind := 0
		switch x := r.Intn(wp + wc + wr); {
		case x < wp:
			kind = 0
		case x < wp+wc:
			kind = 1
		default:
			kind = 2
		}
		k := r.Intn(7)
		if kind == 2 {
			k = 7
		}
		a := l*16 + sd*8 + k
		if used[a] {
			continue
		}
		used[a] = true
		acts = append(acts, ak{a, kind})
	}
	asyncP := g.pick(0, 30, 60)
	if g.Profile == "C04" {
		asyncP = 80
	}
	o["chmode"] = g.pick(0, 0, 0, 1, 2, 3)
	if g.p(0.3) {
		o["chslow"] = g.pick(1, 5)
	}
	if o["chmode"] < 2 && g.p(0.25) {
		o["chlate"] = g.pick(200, 3000, 15000, 40000)
	}
	if g.p(0.4) {
		o["mstyle"] = 1 + r.Intn(5)
		if o["mstyle"] == 4 && per < 2000 {
			// names that the link can carry before the heartbeat is due
			o["mstyle"] = 3
		}
	}
	if g.p(0.15) || (g.Profile == "C10" || g.Profile == "C20") && g.p(0.3) {
		o["rmc"] = 1 + r.Intn(3)
	}
	for i := 0; i < nops; i++ {
		x := acts[r.Intn(len(acts))]
		op := Op{A: x.a, X: size()}
		switch x.kind {
		case 0:
			op.K = "pub"
			if r.Intn(100) < asyncP {
				op.K = "puba"
			}
			if g.p(0.12) {
				op.K += "0"
			}
			op.Y = g.pick(yDone, yDone, yDone, yErr, yLate, yELate)
			if g.p(limitP) {
				op.W = g.pick(wOptTO, wReqTO, wCtxTO, wCancel, wBothTO, wCtx1st, wPreDone, wCanTO)
				op.Z = g.pick(1, 15, 30, 100, 500, 3000)
				op.Y = g.pick(yNever, yAfter, yLate, yDone)
			}
		case 1:
			op.K = "call"
			if r.Intn(100) < asyncP {
				op.K = "calla"
			}
			op.Y = g.pick(yDone, yDone, yDone, yErr, yLate, yELate, yNest, yNoRPC)
			if g.p(limitP) {
				op.W = g.pick(wOptTO, wReqTO, wCtxTO, wCancel, wBothTO, wCtx1st, wPreDone, wCanTO)
				op.Z = g.pick(1, 15, 30, 100, 500, 3000)
				op.Y = g.pick(yNever, yNever, yAfter, yLate, yDone)
			}
		case 2:
			op.K = "raww"
			op.X = max(1, op.X)
		}
		p.Ops = append(p.Ops, op)
		if g.p(0.15) {
			p.Ops = append(p.Ops, Op{A: x.a, K: "sleep", X: g.pick(1, 10, 100, 1000)})
		}
	}
	if per > 500 && g.p(0.12) {
		o["long"] = 1
	}
	if (n.Window == 0 || n.Window == 65536) && n.Latency+n.Jitter <= 3*ms && n.TailP == 0 && n.MSS != 7 && n.MSS != 64 && n.SegP < 0.2 && g.p(0.15) {
		// some that are bigger than any buffer on the way
		for k := g.n(1, 2); k > 0; k-- {
			if op := &p.Ops[r.Intn(len(p.Ops))]; op.K != "sleep" {
				op.X = g.pick(65535, 65536, 65537, 131072, 300000)
			}
		}
	}
	ctlP := 0.3
	if g.Profile == "C10" || g.Profile == "C20" {
		ctlP = 0.9
		p.Sim.MapP = []float64{0.1, 0.4, 0.8}[r.Intn(3)]
		if g.p(0.5) {
			p.Sim.YieldP = []float64{0.005, 0.02, 0.1}[r.Intn(3)]
		}
		o["rpc"] = 1
	}
	if g.p(ctlP) {
		// control operations by their own actors, beside the traffic
		for k := 0; k < g.n(1, 3); k++ {
			x := acts[r.Intn(len(acts))].a
			if g.p(0.5) {
				x ^= 8 // the other side of the link
			}
			x = x &^ 7
			if g.p(0.5) {
				x += 5
			} else {
				x += r.Intn(7)
			}
			nctl := g.n(1, 12)
			if ctlP > 0.5 {
				nctl = g.n(5, 40)
			}
			for i := 0; i < nctl; i++ {
				op := Op{A: x, K: []string{"reg", "reg", "reg", "hij", "list", "dl", "foreign"}[r.Intn(7)], X: r.Intn(50), Y: r.Intn(3)}
				at := r.Intn(len(p.Ops) + 1)
				p.Ops = append(p.Ops[:at], append([]Op{op}, p.Ops[at:]...)...)
				if g.p(0.4) {
					p.Ops = append(p.Ops[:at], append([]Op{{A: x, K: "sleep", X: g.pick(1, 10, 100)}}, p.Ops[at:]...)...)
				}
			}
		}
	}
	for _, op := range p.Ops {
		switch op.K {
		case "call", "calla":
			o["rpc"] = 1
		case "raww":
			o["raw"] = 1
		}
	}
	if o["raw"] == 1 {
		o["rslow"] = g.pick(0, 0, 1, 20)
		o["rbuf"] = g.pick(0, 0, 0, 1, 7, 4096)
		if g.p(0.25) {
			o["readers"] = 2 + r.Intn(2)
		}
	}
	switch {
	case g.Profile == "C16" && g.p(0.4), (g.Profile == "C02" || g.Profile == "C05" || g.Profile == "C04") && g.p(0.08):
		x := acts[r.Intn(len(acts))]
		for _, y := range acts {
			if y.kind == 2 && g.p(0.7) {
				x = y
			}
		}
		// enough to fill every buffer on the way
		for k := g.n(0, 90); k > 0; k-- {
			p.Ops = append(p.Ops, Op{A: x.a, K: [3]string{"puba", "calla", "raww"}[x.kind], X: min(1+size(), 500)})
		}
		o[[3]string{"pubs", "rpc", "raw"}[x.kind]] = 1
		o["stall"] = g.pick(3, 11, 15, 70)
		if nl > 1 {
			// opening streams has a limit of its own
			o["stall"] = min(o["stall"], 15)
		}
		o["stallwho"] = x.a/16*4 + (1-x.a/8%2)*2 + x.kind/2
		o["stallat"] = g.pick(1, 1, 2, 5, 20)
	}
	if nl > 1 && o["stall"] == 0 && g.p(0.2) {
		l, sd := 1+r.Intn(nl-1), r.Intn(2)
		a := l*16 + sd*8 + 6
		p.Ops = append(p.Ops, Op{A: a, K: "sleep", X: int(g.dur(0.001, 2) / 1e5)}, Op{A: a, K: "closelink"})
	}
	if g.p(0.3) {
		o["cxl"], o["cxlat"] = 1, g.pick(0, 0, 0, 1, 3, 10)
		o["cxgap"] = g.pick(0, 5, 50, 500)
	}
	if g.p(faultP) {
		f := Fault{K: []string{"reset", "halfreset", "failw", "failr", "timeout", "kill", "close", "close"}[r.Intn(8)], At: g.dur(0.0005, 3), X: r.Intn(2), Y: r.Intn(2), D: g.dur(0.001, 5)}
		if g.p(0.1) {
			f.K = "dark"
		}
		p.Faults = append(p.Faults, f)
	}
	if g.p(0.25) {
		p.Faults = append(p.Faults, Fault{K: "pause", At: g.dur(0.001, 3), X: r.Intn(2), Y: r.Intn(2), D: g.dur(0.001, 4)})
	}
	return p
}
