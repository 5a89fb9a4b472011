package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
	"simrt/snet"
	timer "simrt/stimer"
)

// The retry scenario: a RetryEnd that lives through the crashes and restarts of
// its server, resets, partitions, refusals and black holes while the
// application goes on calling, publishing, registering and opening streams. It
// checks that undisturbed use never fails, that the end works again in bounded
// time once the faults stop - with everything that was registered -, what the
// delegate is told, and that nothing reconnects after Close.

func init() { register(&Scenario{Name: "retry", Gen: genRetry, Run: runRetry}) }

const rtAddr = "srv:9100"

type rtSrv struct {
	h    *retry
	n    int
	end  geminio.End
	node int
	at   int64
	cid  uint64
	over bool
	echo bool
	want int // next raw chunk
	raw  []byte
	// raw bytes written to and read by the RetryEnd on this connection
	wrote, read int
}

type rtConn struct {
	c  *snet.SimConn
	at int64
}

type retry struct {
	e      *Env
	re     geminio.End
	d      *dlg
	ln     server.Listener
	snode  int
	sdead  bool
	srvs   []*rtSrv
	conns  []rtConn
	dialAt []int64
	// faults
	faults  int // begun
	active  int
	healAt  int64
	modes   map[string]int
	final   bool
	stop    bool
	closed  bool
	closeAt int64
	// registrations by method: last version that was confirmed and begun
	vDone, vStart map[string]int
	vUnsure       map[string]bool
	hDone, hStart int
	pubs          map[uint64]bool // of the client: acknowledged
	got           map[uint64]int
	spubs         map[uint64]bool
	sgot          map[uint64]int
	seq           uint64
	rawSeq        map[int]int
	lastRead      int
	ncid          uint64
	tmr           timer.Timer
}

func (h *retry) calm() bool { return h.faults == 0 || h.final }

func runRetry(e *Env) {
	p := e.P
	h := &retry{e: e, snode: 1, modes: map[string]int{}, vDone: map[string]int{}, vStart: map[string]int{},
		vUnsure: map[string]bool{}, pubs: map[uint64]bool{}, got: map[uint64]int{}, spubs: map[uint64]bool{}, sgot: map[uint64]int{}, rawSeq: map[int]int{}}
	h.startServer()
	if h.ln == nil {
		return
	}
	if !h.connect() {
		h.leaks()
		return
	}
	// workload
	var work []*actor
	by := map[int][]Op{}
	var order []int
	for _, o := range p.Ops {
		if _, ok := by[o.A]; !ok {
			order = append(order, o.A)
		}
		by[o.A] = append(by[o.A], o)
	}
	start := func(readers bool) {
		for _, i := range order {
			for _, o := range by[i] {
				o := o
				if (o.K == "read" || o.K == "recv") != readers {
					continue
				}
				work = append(work, e.Go(fmt.Sprintf("%s%d", o.K, i), cliNode(0), func(a *actor) { h.work(a, i, o) }))
			}
		}
	}
	start(true)
	// the server has to be ready to serve
	if p.o("first") == 0 && !e.Until(30*sec+e.slack(), 5*ms, func() bool { return len(h.srvs) > 0 && h.srvs[0].echo }) {
		if len(h.srvs) == 0 {
			e.Violate("C21", "accept-missing", "the RetryEnd is connected but AcceptEnd did not return its end")
		} else {
			e.Violate("C20", "register-stuck", "the server can't register at its end of the RetryEnd for 30s")
		}
		return
	}
	start(false)
	var flts []*actor
	for i, f := range p.Faults {
		f := f
		flts = append(flts, e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) { h.fault(f) }))
	}
	if at := p.o("closeat"); at > 0 {
		sim.Sleep(int64(at) * ms)
	} else {
		if len(flts) > 0 {
			if left := e.WaitAll(900*sec+e.slack(), flts...); len(left) > 0 {
				e.Stuck(left, "C15")
				return
			}
		} else {
			sim.Sleep(int64(p.o("run")) * ms)
		}
		if !h.recovered() {
			return
		}
	}
	h.close(work)
	if left := e.WaitAll(120*sec+e.slack(), flts...); len(flts) > 0 && len(left) > 0 {
		e.Stuck(left, "C15")
		return
	}
	h.after()
	h.leaks()
}

// ----------------------------------------------------------------- server

func (h *retry) startServer() {
	e := h.e
	sd := newDlg(e, 0, 0)
	sd.getID = func(wanted uint64, meta []byte) (uint64, error) {
		if wanted != 0 {
			return wanted, nil
		}
		h.ncid++
		return 40000 + h.ncid, nil
	}
	sd.onlineC = func(delegate.ConnDescriber) error {
		if h.modes["reject"] > 0 {
			return fmt.Errorf("not now")
		}
		return nil
	}
	h.ln = nil
	h.sdead = false
	n := h.snode
	la := e.Go("listen", n, func(a *actor) {
		so := server.NewEndOptions()
		so.SetDelegate(sd)
		ln, err := server.Listen("tcp", rtAddr, so)
		if err != nil {
			die("listen: %v", err)
		}
		h.ln = ln
	})
	e.WaitAll(sec, la)
	ln := h.ln
	if ln == nil {
		return
	}
	e.Go("acceptor", n, func(a *actor) {
		a.daemon = true
		for {
			end, err := acceptEnd(e, ln)
			if err != nil {
				if errors.Is(err, net.ErrClosed) {
					return
				}
				continue
			}
			s := &rtSrv{h: h, n: len(h.srvs), end: end, node: n, at: sim.Now(), cid: end.ClientID()}
			h.srvs = append(h.srvs, s)
			if string(end.Meta()) != "retry-meta" {
				e.Violate("C13", "retry-meta", "a connection of the RetryEnd has meta %q, want %q", end.Meta(), "retry-meta")
			}
			if w := h.e.P.o("cid"); w > 0 && s.cid != uint64(w) {
				e.Violate("C13", "retry-cid", "connection %d of the RetryEnd has client id %d, it was created with %d", s.n, s.cid, w)
			}
			e.Ev("accepted %d cid %d", s.n, s.cid)
			s.serve()
		}
	})
}

func (s *rtSrv) serve() {
	h, e := s.h, s.h.e
	end := s.end
	bg := func(name string, f func(a *actor)) {
		e.Go(fmt.Sprintf("s%d-%s", s.n, name), s.node, func(a *actor) { a.daemon = true; f(a) })
	}
	bg("reg", func(a *actor) {
		err := end.Register(sctx.Background(), "echo", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
			rsp.SetData(req.Data())
		})
		if err == nil {
			err = end.Register(sctx.Background(), "refuse", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
				rsp.SetError(fmt.Errorf("refused-%d", len(req.Data())))
			})
		}
		if err == nil {
			err = end.Register(sctx.Background(), "never", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
				// it's never in time
				sim.Recv(ctx.Done())
				sim.Sleep(2 * sec)
			})
		}
		s.echo = err == nil
	})
	if d := e.P.o("swrite"); d > 0 {
		bg("rawout", func(a *actor) {
			for k := 0; k < 200 && !s.over; k++ {
				sim.Sleep(int64(d) * ms)
				if !s.write(a, 1+k%3) {
					return
				}
			}
		})
	}
	bg("recv", func(a *actor) {
		for {
			m, err := end.Receive(sctx.Background())
			if err != nil {
				s.over = true
				if h.calm() && !h.closed {
					e.Violate("C15", "server-end-lost", "the server's end %d of the RetryEnd ended (%v) although nothing was disturbed", s.n, err)
				}
				return
			}
			id, _ := payloadID(m.Data())
			if string(m.Data()) != string(payload(id, len(m.Data())-8)) {
				e.Violate("C01", "corrupt", "message %d of the RetryEnd arrived changed", id)
			}
			h.got[id]++
			if h.got[id] > 1 && h.faults == 0 {
				e.Violate("C02", "msg-duplicate", "message %d of the RetryEnd arrived %d times without any disturbance", id, h.got[id])
			}
			if m.ClientID() != s.cid {
				e.Violate("C15", "stale-clientid", "a message received on connection %d (client id %d) says client id %d", s.n, s.cid, m.ClientID())
			}
			if n := len(m.Data()); n%7 == 5 && m.Topic() == "refuse" {
				m.Error(fmt.Errorf("refused-%d", id))
			} else {
				m.Done()
			}
		}
	})
	bg("raw", func(a *actor) {
		b := make([]byte, 64)
		last := map[int]int{}
		for {
			n, err := end.Read(b)
			if err != nil {
				return
			}
			s.raw = append(s.raw, b[:n]...)
			for len(s.raw) >= 8 {
				v := int(binary.BigEndian.Uint64(s.raw))
				s.raw = s.raw[8:]
				w := v >> 32
				v &= 1<<32 - 1
				if v <= last[w] || v > h.rawSeq[w] {
					e.Violate("C05", "retry-raw", "raw chunk %d of writer %d arrived after %d on connection %d (%d written so far)", v, w, last[w], s.n, h.rawSeq[w])
				}
				last[w] = v
			}
		}
	})
	bg("streams", func(a *actor) {
		for {
			st, err := acceptStream(e, end)
			if err != nil {
				return
			}
			bg("stream", func(a *actor) {
				b := make([]byte, 64)
				for {
					n, err := st.Read(b)
					if err != nil {
						break
					}
					if _, err := st.Write(b[:n]); err != nil {
						break
					}
				}
				st.Close()
			})
		}
	})
	if d := e.P.o("scall"); d > 0 {
		bg("call", func(a *actor) {
			for k := 0; k < 200 && !s.over; k++ {
				sim.Sleep(int64(d) * ms)
				s.callBack(a, k%3, false)
			}
		})
	}
	if d := e.P.o("spub"); d > 0 {
		bg("pub", func(a *actor) {
			for k := 0; k < 200 && !s.over; k++ {
				sim.Sleep(int64(d) * ms)
				s.publish(a)
			}
		})
	}
}

// write sends raw bytes that name the connection.
func (s *rtSrv) write(a *actor, n int) bool {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + s.n%250)
	}
	s.wrote += n
	_, err := s.end.Write(b)
	return err == nil
}

// publish sends one message to the RetryEnd's application.
func (s *rtSrv) publish(a *actor) error {
	h := s.h
	h.seq++
	id := h.seq | 1<<40
	h.spubs[id] = false
	po := options.Publish()
	po.SetTimeout(20e9)
	err := s.end.Publish(sctx.Background(), s.end.NewMessage(payload(id, 20)), po)
	if err == nil {
		h.spubs[id] = true
		if h.sgot[id] == 0 {
			h.e.Violate("C01", "pub-nil-unacked", "a publish to the RetryEnd returned nil before its Receive returned the message")
		}
	}
	return err
}

// hijackV marks answers of a hijack.
const hijackV = 1000000

// hijackMode is what version v of the hijack applies to.
func (h *retry) hijackMode(v int) int {
	if x := h.e.P.o("hmodes"); x > 0 {
		return (v*3 + x) % 4
	}
	return 0
}

// hijacks says whether version v of the hijack takes the calls of a method.
func (h *retry) hijacks(v int, meth string) bool {
	switch h.hijackMode(v) {
	case 1:
		return true
	case 3:
		return false
	}
	return meth == "zz"
}

// callBack calls a method of the client and checks which version answers.
func (s *rtSrv) callBack(a *actor, m int, final bool) {
	h, e := s.h, s.h.e
	meth := fmt.Sprintf("m%d", m)
	if m == 2 {
		meth = "zz" // nobody registers it: for the hijack
	}
	done, hdone := h.vDone[meth], h.hDone
	co := options.Call()
	co.SetTimeout(20e9)
	a.Begin("C15", "server's Call(%s, conn %d)", meth, s.n)
	rsp, err := s.end.Call(sctx.Background(), meth, s.end.NewRequest(nil), co)
	a.End()
	e.out.Ops++
	// may the hijack have answered, must it have
	may, must := hdone == 0 || h.vUnsure["zz"], hdone > 0 && !h.vUnsure["zz"]
	for v := max(1, hdone); v <= h.hStart; v++ {
		if h.hijacks(v, meth) {
			may = true
		} else {
			must = false
		}
	}
	if err != nil {
		if final && (done > 0 && m != 2 || must) {
			e.Violate("C15", "registration-lost:"+map[bool]string{true: "hijack", false: "rpc"}[m == 2], "%s was set at the RetryEnd (version %d, hijack %d) but after the reconnect the server's Call(%s) fails: %v", meth, done, hdone, meth, err)
		}
		return
	}
	var v int
	if _, err := fmt.Sscanf(string(rsp.Data()), meth+":%d", &v); err != nil {
		e.Violate("C15", "wrong-response", "Call(%s) to the RetryEnd returned %q", meth, rsp.Data())
		return
	}
	hi, uns := h.vStart[meth], h.vUnsure[meth]
	if v > hijackV {
		v, done, hi, uns = v-hijackV, hdone, h.hStart, h.vUnsure["zz"]
		if !may || v <= hi && !h.hijacks(v, meth) {
			e.Violate("C15", "stale-hijack", "Call(%s) on connection %d was answered by the hijack (version %d), which leaves that method alone (the last set is %d, %d tries)", meth, s.n, v, hdone, hi)
		}
	} else {
		if must && final {
			e.Violate("C15", "registration-lost:hijack", "Call(%s) on connection %d was answered by the registered function although the hijack in effect (version %d) takes that method", meth, s.n, hdone)
		}
		if v == 1 && m == 0 && e.P.o("local") == 1 && !final {
			// a new connection starts with the local RPCs of the options
			return
		}
	}
	if v > hi || v < done && !uns {
		e.Violate("C15", "stale-registration", "Call(%s) on connection %d was answered by version %d; version %d was in effect when it was called, the last is %d", meth, s.n, v, done, hi)
	}
	if final {
		e.Probe("answered-after-reconnect")
	}
}

// ----------------------------------------------------------------- client

func (h *retry) mode(k string) bool { return h.modes[k] > 0 }

// dial is the application's dialer; the faults decide what it meets.
func (h *retry) dial() (net.Conn, error) {
	e := h.e
	now := sim.Now()
	h.dialAt = append(h.dialAt, now)
	if h.closed && now > h.closeAt+sec+e.slack() {
		e.Violate("C15", "dial-after-close", "the RetryEnd dials %.1fs after its Close", float64(now-h.closeAt)/1e9)
	}
	e.Ev("dial")
	if h.mode("slow") {
		sim.Sleep(4 * sec)
	}
	if h.mode("refuse") {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	if h.mode("hole") {
		c, s := snet.W.Pair(cliNode(0), 99, fmt.Sprintf("hole%d", len(h.conns)))
		_ = s
		h.conns = append(h.conns, rtConn{c, now})
		return c, nil
	}
	nc, err := snet.Dial("tcp", rtAddr)
	if err != nil {
		return nil, err
	}
	c := nc.(*snet.SimConn)
	h.conns = append(h.conns, rtConn{c, now})
	if h.mode("rst") {
		d := int64(len(h.conns)*7919%40) * ms / 10
		sim.After(d, func() { c.Reset() })
	}
	if h.mode("eof") {
		d := int64(len(h.conns)*7919%40) * ms / 10
		sim.After(d, func() { c.Peer().ProcessDied() })
	}
	return nc, nil
}

func (h *retry) localRPC(m string, v int) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte(fmt.Sprintf("%s:%d", m, v)))
	}
}

func (h *retry) connect() bool {
	e, p := h.e, h.e.P
	h.d = newDlg(e, 1, 0)
	first := []string{"", "refuse", "hole", "rst", "eof", "reject"}[p.o("first")]
	if first != "" {
		h.modes[first]++
		h.faults++
	}
	var err error
	ca := e.Go("newretryend", cliNode(0), func(a *actor) {
		co := client.NewEndOptions()
		co.SetMeta([]byte("retry-meta"))
		co.SetDelegate(h.d)
		if w := p.o("cid"); w > 0 {
			co.SetClientID(uint64(w))
		}
		if p.o("tmr") == 1 {
			h.tmr = timer.NewTimer()
			co.SetTimer(h.tmr)
		}
		if p.o("local") == 1 {
			h.vStart["m0"], h.vDone["m0"] = 1, 1
			co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "m0", RPC: h.localRPC("m0", 1)})
		}
		a.Begin("C15", "NewRetryEndWithDialer()")
		h.re, err = client.NewRetryEndWithDialer(h.dial, co)
		a.End()
	})
	if left := e.WaitAll(12*sec+e.slack(), ca); len(left) > 0 {
		e.Stuck(left, "C15")
		return false
	}
	e.Ev("NewRetryEnd -> %s", errText(err))
	if first != "" {
		h.modes[first]--
		if h.re != nil && err == nil && (first == "refuse" || first == "hole" || first == "reject") {
			e.Violate("C15", "new-nil-error", "NewRetryEndWithDialer succeeded without a connection (%s)", first)
		}
		if err != nil && h.re != nil {
			e.Violate("C15", "new-both", "NewRetryEndWithDialer returned an end and %v", err)
		}
		return err == nil
	}
	if err != nil {
		e.Violate("C15", "new-failed", "NewRetryEndWithDialer failed on a healthy network: %v", err)
		return false
	}
	if len(h.dialAt) != 1 {
		e.Violate("C15", "dials", "NewRetryEndWithDialer dialed %d times", len(h.dialAt))
	}
	return true
}

// judge looks at the error of an operation of the RetryEnd that began at t0.
func (h *retry) judge(op string, calm bool, err error) bool {
	e := h.e
	e.out.Ops++
	if err == nil {
		return true
	}
	e.Ev("%s -> %v", op, err)
	switch {
	case h.closed:
	case calm && h.calm():
		e.Violate("C15", "undisturbed-failed:"+op, "%s on the RetryEnd failed with %v although its connection was not disturbed", op, err)
	case err == io.EOF:
		e.Violate("C15", "eof-while-open:"+op, "%s on the RetryEnd returned io.EOF, as if it was closed, while it is open and reconnecting", op)
	}
	return false
}

func (h *retry) work(a *actor, i int, o Op) {
	e := h.e
	bg := sctx.Background()
	for k := 0; k < o.Y && !h.stop; k++ {
		if o.X > 0 {
			sim.Sleep(int64(o.X) * ms)
		}
		calm := h.calm() && !h.closed
		if h.closed && !h.stop {
			// once more after Close, then leave
			k = o.Y
		}
		switch o.K {
		case "call":
			h.seq++
			d := payload(h.seq, o.Z)
			a.Begin("C15", "RetryEnd.Call(%d)", k)
			rsp, err := h.re.Call(bg, "echo", h.re.NewRequest(d))
			a.End()
			if err != nil && strings.Contains(err.Error(), "no such rpc") && !calm {
				// the server did not register it yet
				continue
			}
			if h.judge("Call", calm, err) && string(rsp.Data()) != string(d) {
				e.Violate("C15", "wrong-response", "Call of the RetryEnd got another response")
			}
		case "acall":
			h.seq++
			d := payload(h.seq, o.Z)
			a.Begin("C15", "RetryEnd.CallAsync(%d)", k)
			call, err := h.re.CallAsync(bg, "echo", h.re.NewRequest(d), nil)
			a.End()
			if !h.judge("CallAsync", calm, err) {
				continue
			}
			a.Begin("C15", "RetryEnd.CallAsync completion(%d)", k)
			call, _ = sim.Recv2(call.Done)
			a.End()
			if call.Error == nil && string(call.Response.Data()) != string(d) {
				e.Violate("C15", "wrong-response", "CallAsync of the RetryEnd got another response")
			}
			if call.Error != nil && calm && h.calm() && !h.closed {
				e.Violate("C15", "undisturbed-failed:CallAsync", "CallAsync on the RetryEnd completed with %v although its connection was not disturbed", call.Error)
			}
		case "pub":
			h.seq++
			id := h.seq
			a.Begin("C15", "RetryEnd.Publish(%d)", k)
			err := h.re.Publish(bg, h.re.NewMessage(payload(id, o.Z)))
			a.End()
			if h.judge("Publish", calm, err) {
				h.pubs[id] = true
				if h.got[id] == 0 {
					e.Violate("C01", "pub-nil-unacked", "Publish of the RetryEnd returned nil before the server received the message")
				}
			}
		case "apub":
			h.seq++
			id := h.seq
			a.Begin("C15", "RetryEnd.PublishAsync(%d)", k)
			pub, err := h.re.PublishAsync(bg, h.re.NewMessage(payload(id, o.Z)), nil)
			a.End()
			if !h.judge("PublishAsync", calm, err) {
				continue
			}
			a.Begin("C15", "RetryEnd.PublishAsync completion(%d)", k)
			pub, _ = sim.Recv2(pub.Done)
			a.End()
			if pub.Error == nil && h.got[id] == 0 {
				e.Violate("C01", "pub-nil-unacked", "PublishAsync of the RetryEnd completed before the server received the message")
			}
			if pub.Error != nil && calm && h.calm() && !h.closed {
				e.Violate("C15", "undisturbed-failed:PublishAsync", "PublishAsync on the RetryEnd completed with %v although its connection was not disturbed", pub.Error)
			}
		case "recv":
			a.Begin("C15", "RetryEnd.Receive(%d)", k)
			m, err := h.re.Receive(bg)
			a.End()
			k = 0
			if h.judge("Receive", calm, err) {
				h.sgotOne(m)
			} else if h.closed {
				return
			}
		case "reg":
			m := fmt.Sprintf("m%d", o.W%2)
			h.vStart[m]++
			v := h.vStart[m]
			a.Begin("C15", "RetryEnd.Register(%s)", m)
			err := h.re.Register(bg, m, h.localRPC(m, v))
			a.End()
			if h.judge("Register", calm, err) {
				h.vDone[m] = v
				h.vUnsure[m] = false
			} else {
				// either version may be in effect, or none
				h.vDone[m], h.vUnsure[m] = 0, true
			}
		case "hijack":
			h.hStart++
			v := h.hStart
			var hos []*options.HijackOptions
			if h.hijackMode(v) != 1 {
				ho := options.Hijack()
				switch h.hijackMode(v) {
				case 0:
					ho.SetMatch(true, "^zz")
				case 2:
					ho.SetMatch(false, "^m")
				case 3:
					ho.SetMatch(true, "^yy")
				}
				hos = append(hos, ho)
			}
			a.Begin("C15", "RetryEnd.Hijack(%d)", k)
			err := h.re.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
				rsp.SetData([]byte(fmt.Sprintf("%s:%d", method, hijackV+v)))
			}, hos...)
			a.End()
			if h.judge("Hijack", calm, err) {
				h.hDone = v
			} else {
				h.hDone, h.vUnsure["zz"] = 0, true
			}
		case "stream":
			a.Begin("C15", "RetryEnd.OpenStream(%d)", k)
			st, err := h.re.OpenStream()
			a.End()
			if h.judge("OpenStream", calm, err) {
				h.useStream(a, st, calm, o.Z)
			}
		case "accept":
			a.Begin("C15", "RetryEnd.AcceptStream(%d)", k)
			st, err := acceptStream(e, h.re)
			a.End()
			k = 0
			if h.judge("AcceptStream", calm, err) {
				st.Close()
			} else if h.closed {
				return
			}
		case "write":
			h.rawSeq[i]++
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, uint64(i)<<32|uint64(h.rawSeq[i]))
			a.Begin("C15", "RetryEnd.Write(%d)", k)
			_, err := h.re.Write(b)
			a.End()
			h.judge("Write", calm, err)
		case "read":
			b := make([]byte, 1+o.Z%60)
			a.Begin("C15", "RetryEnd.Read(%d)", k)
			n, err := h.re.Read(b)
			a.End()
			k = 0
			for _, c := range b[:n] {
				x := h.lastRead
				for x < len(h.srvs) && byte(1+x%250) != c {
					x++
				}
				if x >= len(h.srvs) || h.srvs[x].read >= h.srvs[x].wrote {
					e.Violate("C05", "retry-read", "the RetryEnd read byte %d, it was on connection %d", c, h.lastRead)
					return
				}
				h.srvs[x].read++
				h.lastRead = x
			}
			if !h.judge("Read", calm, err) && h.closed {
				return
			}
		case "own":
			h.own(a, i, k, o)
		case "info":
			// cheap accessors, at any moment
			h.re.ClientID()
			h.re.StreamID()
			h.re.Meta()
			h.re.ListStreams()
			h.re.LocalAddr()
			h.re.RemoteAddr()
			h.re.Side()
		}
	}
}

// own runs operations that fail for a reason of their own: the RetryEnd hands
// out that error and never takes it for a lost connection.
func (h *retry) own(a *actor, i, k int, o Op) {
	e := h.e
	bg := sctx.Background()
	undisturbed := h.calm() && !h.closed
	what, want, cl := "", "", "own"
	var err error
	t0 := sim.Now()
	switch x := (o.W + k) % 8; x {
	case 0, 1:
		what, want = "Call of a method that fails", fmt.Sprintf("refused-%d", o.Z%50)
		a.Begin("C15", "RetryEnd.%s", what)
		if x == 0 {
			_, err = h.re.Call(bg, "refuse", h.re.NewRequest(make([]byte, o.Z%50)))
		} else {
			var c *geminio.Call
			if c, err = h.re.CallAsync(bg, "refuse", h.re.NewRequest(make([]byte, o.Z%50)), nil); err == nil {
				c, _ = sim.Recv2(c.Done)
				err = c.Error
			}
		}
		a.End()
	case 2:
		what, want = "Call of an unknown method", "no such rpc"
		a.Begin("C15", "RetryEnd.%s", what)
		_, err = h.re.Call(bg, "unknown", h.re.NewRequest(nil))
		a.End()
	case 3:
		co := options.Call()
		co.SetTimeout(time.Duration(10+o.X) * time.Millisecond)
		what, want = "Call with a timeout", "timeout"
		a.Begin("C15", "RetryEnd.%s", what)
		_, err = h.re.Call(bg, "never", h.re.NewRequest(nil), co)
		a.End()
	case 4:
		ctx, cancel := sctx.WithTimeout(bg, time.Duration(10+o.X)*time.Millisecond)
		what, want = "Receive with a deadline", "deadline exceeded"
		a.Begin("C15", "RetryEnd.%s", what)
		var m geminio.Message
		m, err = h.re.Receive(ctx)
		a.End()
		cancel()
		if err == nil {
			h.sgotOne(m)
			return
		}
	case 5, 6:
		h.seq++
		id := h.seq
		no := options.NewMessage()
		no.SetTopic("refuse")
		// the server refuses messages of this length
		what, want = "Publish of a message that is refused", fmt.Sprintf("refused-%d", id)
		m := h.re.NewMessage(payload(id, 7*(o.Z%50)+11), no)
		if len(m.Data())%7 != 5 {
			die("length %d", len(m.Data()))
		}
		a.Begin("C15", "RetryEnd.%s", what)
		if x == 5 {
			err = h.re.Publish(bg, m)
		} else {
			var c *geminio.Publish
			if c, err = h.re.PublishAsync(bg, m, nil); err == nil {
				c, _ = sim.Recv2(c.Done)
				err = c.Error
			}
		}
		a.End()
	case 7:
		ho := options.Hijack()
		ho.SetMatch(true, "(")
		what, want, cl = "Hijack with an invalid pattern", "regexp", "own-hijack"
		a.Begin("C15", "RetryEnd.%s", what)
		err = h.re.Hijack(func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
			e.Violate("C15", "own-hijack", "a refused hijack runs")
		}, ho)
		a.End()
	}
	e.out.Ops++
	e.Ev("own %s -> %v", what, err)
	if undisturbed && h.calm() && !h.closed {
		if err == nil || !strings.Contains(err.Error(), want) {
			e.Violate("C15", cl, "%s of the RetryEnd returned %v after %.3fs, want %q", what, err, float64(sim.Now()-t0)/1e9, want)
		}
		e.Probe("own-error")
	} else if err == nil {
		e.Violate("C15", cl, "%s of the RetryEnd succeeded", what)
	}
}

func (h *retry) sgotOne(m geminio.Message) {
	e := h.e
	id, _ := payloadID(m.Data())
	if _, ok := h.spubs[id]; !ok || string(m.Data()) != string(payload(id, 20)) {
		e.Violate("C01", "corrupt", "the RetryEnd received a message nobody published")
	}
	h.sgot[id]++
	if h.sgot[id] > 1 {
		e.Violate("C02", "msg-duplicate", "the RetryEnd received message %d twice", id)
	}
	m.Done()
}

// useStream does a few round trips on a stream.
func (h *retry) useStream(a *actor, st geminio.Stream, calm bool, n int) {
	e := h.e
	b := make([]byte, 64)
	for k := 0; k <= n%4; k++ {
		d := payload(uint64(k)+77, 12)
		a.Begin("C15", "Stream.Write(of RetryEnd)")
		_, err := st.Write(d)
		a.End()
		if err != nil {
			if calm && h.calm() && !h.closed {
				e.Violate("C15", "undisturbed-failed:stream", "Write on a stream of the RetryEnd failed with %v", err)
			}
			break
		}
		var r []byte
		for len(r) < len(d) {
			a.Begin("C15", "Stream.Read(of RetryEnd)")
			m, rerr := st.Read(b)
			a.End()
			if rerr != nil {
				err = rerr
				break
			}
			r = append(r, b[:m]...)
		}
		if err != nil {
			if calm && h.calm() && !h.closed {
				e.Violate("C15", "undisturbed-failed:stream", "Read on a stream of the RetryEnd failed with %v", err)
			}
			break
		}
		if string(r) != string(d) {
			e.Violate("C05", "retry-stream", "the echo on a stream of the RetryEnd is wrong")
		}
	}
	a.Begin("C11", "Stream.Close(of RetryEnd)")
	st.Close()
	a.End()
}

// ----------------------------------------------------------------- faults

func (h *retry) fault(f Fault) {
	e := h.e
	sim.Sleep(f.At)
	h.faults++
	h.active++
	defer func() {
		h.active--
		h.healAt = sim.Now()
	}()
	sim.Count("retry-" + f.K)
	e.Ev("fault %s", f.K)
	var c *snet.SimConn
	if len(h.conns) > 0 {
		c = h.conns[len(h.conns)-1].c
	}
	switch f.K {
	case "refuse", "hole", "rst", "eof", "reject", "slow":
		h.modes[f.K]++
		if f.X&1 == 1 && c != nil {
			c.Reset()
		}
		sim.Sleep(f.D)
		h.modes[f.K]--
	case "reset":
		c.Reset()
	case "timeout":
		c.Timeout()
	case "failw":
		c.FailWrites(syscall.EPIPE)
		sim.Sleep(f.D)
		c.Reset()
	case "cut":
		c.Cut()
		c.Peer().Cut()
		sim.Sleep(f.D)
		c.Heal()
		c.Peer().Heal()
	case "srvclose":
		if len(h.srvs) == 0 || h.sdead {
			return
		}
		s := h.srvs[len(h.srvs)-1]
		a := e.Go("srvclose", s.node, func(a *actor) {
			a.Begin("C11", "End.Close(server end %d)", s.n)
			s.end.Close()
			a.End()
		})
		e.Stuck(e.WaitAll(60*sec+e.slack(), a), "C11")
	case "crash", "vanish":
		if h.sdead {
			return
		}
		h.sdead = true
		n := h.snode
		sim.KillNode(n)
		e.Crashed[n] = true
		var old []*snet.SimConn
		for _, x := range h.conns {
			if !x.c.Closed() {
				old = append(old, x.c)
			}
		}
		if f.K == "crash" {
			for _, x := range h.conns {
				x.c.Peer().ProcessDied()
			}
		} else {
			for _, x := range old {
				x.Peer().Cut()
			}
		}
		sim.Sleep(f.D)
		h.snode++
		h.startServer()
		if f.K == "vanish" {
			for _, x := range old {
				x.Timeout()
			}
		}
	}
}

// recovered waits for the end to be back after the last fault and checks it.
func (h *retry) recovered() bool {
	e := h.e
	cur := func() *rtSrv {
		if len(h.srvs) == 0 {
			return nil
		}
		s := h.srvs[len(h.srvs)-1]
		if s.over || s.node != h.snode || !s.echo || s.cid != h.re.ClientID() {
			return nil
		}
		return s
	}
	if h.faults > 0 {
		// an attempt under way may still take as long as a handshake and
		// its wait, then one attempt has to do
		if !e.Until(45*sec+e.slack(), 50*ms, func() bool {
			c := cur()
			return c != nil && h.openConns() == 1 && h.reonline(c.cid)
		}) {
			e.Violate("C15", "not-reconnected", "%.0fs after the last fault healed the RetryEnd is not connected (%d dials, %d connections accepted, %d ConnOnline, %d ConnOffline, %d EndReOnline, %d sockets open)", float64(sim.Now()-h.healAt)/1e9, len(h.dialAt), len(h.srvs), h.d.count("online"), h.d.count("offline"), h.d.count("reonline"), h.openConns())
			return false
		}
		// nor may a late consequence of the faults undo it
		sim.Sleep(15 * sec)
		if !e.Until(45*sec+e.slack(), 50*ms, func() bool { return cur() != nil }) {
			e.Violate("C15", "not-reconnected", "the RetryEnd lost its connection for good after the faults")
			return false
		}
	}
	nd, ns := len(h.dialAt), len(h.srvs)
	if h.faults == 0 && nd != 1 {
		e.Violate("C15", "spurious-reconnect", "the RetryEnd dialed %d times although nothing was disturbed", nd)
	}
	h.final = true
	e.Ev("final")
	s := cur()
	var l []*actor
	for m := 0; m < 3; m++ {
		m := m
		l = append(l, e.Go(fmt.Sprintf("final-call%d", m), s.node, func(a *actor) { s.callBack(a, m, true) }))
	}
	for i, k := range []string{"call", "acall", "pub", "apub", "reg", "hijack", "stream", "write"} {
		o := Op{K: k, Y: 1, Z: 30}
		if k == "reg" && h.e.P.o("regs") == 1 || k == "hijack" && h.e.P.o("hijs") == 1 {
			// that's somebody else's
			continue
		}
		l = append(l, e.Go("final-"+k, cliNode(0), func(a *actor) { h.work(a, 900+i, o) }))
	}
	if left := e.WaitAll(30*sec+e.slack(), l...); len(left) > 0 {
		e.Stuck(left, "C15")
		return false
	}
	reader := false
	for _, o := range e.P.Ops {
		reader = reader || o.K == "read"
	}
	if reader {
		ra := e.Go("final-rawout", s.node, func(a *actor) {
			a.Begin("C15", "Write to the RetryEnd")
			ok := s.write(a, 5)
			a.End()
			if !ok {
				e.Violate("C15", "final-write", "writing to the RetryEnd fails although it recovered")
			}
		})
		if left := e.WaitAll(30*sec+e.slack(), ra); len(left) > 0 {
			e.Stuck(left, "C15")
			return false
		}
		if !e.Until(30*sec+e.slack(), 50*ms, func() bool { return s.read == s.wrote || h.closed }) && e.P.o("swrite") == 0 {
			e.Violate("C05", "retry-read-lost", "the RetryEnd's Read returned %d of %d bytes written on its connection", s.read, s.wrote)
		}
	}
	for k := 0; k < 8; k++ {
		k := k
		l = append(l, e.Go(fmt.Sprintf("final-own%d", k), cliNode(0), func(a *actor) { h.own(a, 990, 0, Op{W: k, X: 50, Z: 13}) }))
	}
	if left := e.WaitAll(30*sec+e.slack(), l...); len(left) > 0 {
		e.Stuck(left, "C15")
		return false
	}
	sim.Sleep(10 * sec)
	if len(h.dialAt) != nd || len(h.srvs) != ns {
		e.Violate("C15", "spurious-reconnect", "the RetryEnd dialed %d more times after it had recovered", len(h.dialAt)-nd)
	}
	if n := h.openConns(); n != 1 {
		e.Violate("C15", "connections", "the RetryEnd has %d connections open after it recovered", n)
	}
	if h.re.ClientID() != s.cid {
		e.Violate("C15", "clientid", "the RetryEnd says client id %d, its connection has %d", h.re.ClientID(), s.cid)
	}
	return true
}

// reonline: the application was told about the current end.
func (h *retry) reonline(cid uint64) bool {
	if h.d.count("online") == 1 {
		return true
	}
	for _, ev := range h.d.evs {
		if ev.kind == "reonline" && ev.cid == cid {
			return true
		}
	}
	return false
}

func (h *retry) openConns() int {
	n := 0
	for _, c := range h.conns {
		if !c.c.Closed() {
			n++
		}
	}
	return n
}

func (h *retry) close(work []*actor) {
	e := h.e
	ca := e.Go("close", cliNode(0), func(a *actor) {
		a.Begin("C15", "RetryEnd.Close()")
		h.closed = true
		h.closeAt = sim.Now()
		h.re.Close()
		a.End()
	})
	if left := e.WaitAll(45*sec+e.slack(), ca); len(left) > 0 {
		e.Stuck(left, "C15")
		return
	}
	h.closeAt = sim.Now()
	// whatever was waiting for a reconnect has to give up, one after the
	// other
	if len(work) > 0 {
		if left := e.WaitAll((30+5*int64(len(work)))*sec+e.slack(), work...); len(left) > 0 {
			e.Stuck(left, "C15")
		}
	}
	h.stop = true
	// after Close everything says so at once
	var l []*actor
	h.stop = false
	for i, k := range []string{"call", "acall", "pub", "apub", "recv", "reg", "hijack", "stream", "accept", "write", "info", "read"} {
		o := Op{K: k, Y: 1, Z: 8}
		l = append(l, e.Go("closed-"+k, cliNode(0), func(a *actor) { h.work(a, 950+i, o) }))
	}
	if left := e.WaitAll(10*sec+e.slack(), l...); len(left) > 0 {
		e.Stuck(left, "C15")
	}
	h.stop = true
	nd := len(h.dialAt)
	sim.Sleep(30 * sec)
	if len(h.dialAt) != nd {
		e.Violate("C15", "dial-after-close", "the RetryEnd dialed again after its Close")
	}
}

// after checks the delegate's view once all is over.
func (h *retry) after() {
	e := h.e
	on := map[uint64]int{}
	for _, ev := range h.d.evs {
		switch ev.kind {
		case "reonline":
			on[ev.cid]++
			if h.e.P.o("cid") == 0 && on[ev.cid] > 1 {
				e.Violate("C15", "reonline-twice", "EndReOnline was called %d times for client id %d", on[ev.cid], ev.cid)
			}
		}
	}
	// a connection may break before it is an end: offline only
	e.Until(60*sec+e.slack(), 500*ms, func() bool { return h.d.count("online") <= h.d.count("offline") })
	a, b, c := h.d.count("online"), h.d.count("offline"), h.d.count("reonline")
	if h.e.P.o("cid") == 0 {
		n := map[uint64]int{}
		for _, ev := range h.d.evs {
			switch ev.kind {
			case "online":
				n[ev.cid] += 1
			case "offline":
				n[ev.cid] += 1000
			}
		}
		for id, k := range n {
			if k != 1001 && k != 1000 {
				e.Violate("C15", "online-offline", "the RetryEnd's delegate saw %d ConnOnline and %d ConnOffline of client id %d by the end", k%1000, k/1000, id)
			}
		}
	} else if a > b {
		e.Violate("C15", "online-offline", "the RetryEnd's delegate saw %d ConnOnline and %d ConnOffline by the end", a, b)
	}
	if c > a-1 {
		e.Violate("C15", "reonline-count", "the RetryEnd's delegate saw %d EndReOnline for %d connections", c, a)
	}
	for id, ok := range h.spubs {
		if ok && h.sgot[id] == 0 {
			e.Violate("C01", "pub-nil-unacked", "an acknowledged message never reached the RetryEnd's application")
		}
	}
}

// leaks checks that nothing of the client stays behind.
func (h *retry) leaks() {
	e := h.e
	var alive []*sim.Task
	if h.tmr != nil {
		// the application's own timer
		sim.Sleep(40 * sec)
		e.WaitAll(10*sec, e.Go("close-timer", cliNode(0), func(a *actor) { h.tmr.Close() }))
	}
	if !e.Until(90*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks(cliNode(0))
		return len(alive) == 0 && h.openConns() == 0
	}) {
		if n := h.openConns(); n > 0 {
			e.Violate("C11", "socket-leak", "the RetryEnd is over but %d of its sockets are open", n)
		}
		if len(alive) > 0 {
			e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "goroutines survive the RetryEnd: %s", taskSummary(alive))
		}
	}
}

func genRetry(g *Gen) *Plan {
	p := g.base("retry")
	p.Sim.MaxTime = 3600 * sec * 2
	o := p.Opt
	if p.Net.Window != 0 && p.Net.Window < 4096 {
		p.Net.Window = 4096
	}
	o["tmr"] = g.pick(0, 0, 1)
	o["local"] = g.pick(0, 0, 1)
	if g.p(0.3) {
		o["cid"] = 333
	}
	if g.p(0.15) {
		o["first"] = g.n(1, 5)
	}
	o["hmodes"] = g.n(0, 4)
	if g.p(0.6) {
		o["scall"] = g.pick(1, 20, 300, 2000)
	}
	if g.p(0.5) {
		o["spub"] = g.pick(1, 20, 300, 2000)
	}
	n := g.n(1, 7)
	ks := []string{"call", "call", "acall", "pub", "pub", "apub", "reg", "reg", "hijack", "stream", "accept", "write", "info", "own", "own"}
	used := map[string]bool{}
	add := func(i int, k string) {
		w := 0
		if k == "reg" {
			if used["reg0"] {
				if used["reg1"] {
					return
				}
				w = 1
			}
			used[fmt.Sprintf("reg%d", w)] = true
			o["regs"] = 1
		}
		if k == "hijack" {
			if used[k] {
				return
			}
			used[k] = true
			o["hijs"] = 1
		}
		p.Ops = append(p.Ops, Op{A: i, K: k, X: g.pick(0, 1, 20, 200, 1500), Y: g.pick(1, 3, 10, 40), Z: g.pick(0, 10, 500, 3000), W: w})
		if k == "own" {
			p.Ops[len(p.Ops)-1].W = g.n(0, 7)
		}
	}
	for i := 0; i < n; i++ {
		add(i, ks[g.R.Intn(len(ks))])
	}
	if o["spub"] > 0 {
		p.Ops = append(p.Ops, Op{A: n, K: "recv", Y: 2})
	}
	if g.p(0.4) {
		o["swrite"] = g.pick(0, 1, 20, 300, 2000)
		p.Ops = append(p.Ops, Op{A: n + 1, K: "read", Y: 2, Z: g.pick(0, 3, 50)})
	}
	if g.p(0.85) {
		fs := []string{"reset", "reset", "timeout", "failw", "cut", "srvclose", "crash", "crash", "vanish", "refuse", "hole", "rst", "eof", "reject", "slow"}
		for i := 0; i < g.n(1, 4); i++ {
			f := Fault{K: fs[g.R.Intn(len(fs))], At: g.dur(0.0005, 40), D: g.dur(0.01, 60), X: g.R.Intn(4)}
			p.Faults = append(p.Faults, f)
		}
		if g.p(0.4) {
			// a window of trouble and a loss inside of it
			at := g.dur(0.01, 10)
			p.Faults = append(p.Faults, Fault{K: []string{"refuse", "hole", "rst", "eof", "reject", "slow"}[g.R.Intn(6)], At: at, D: g.dur(1, 40), X: 1})
		}
		if g.p(0.3) {
			// again, about when the first attempt of a reconnect succeeds
			f := p.Faults[g.R.Intn(len(p.Faults))]
			p.Faults = append(p.Faults, Fault{K: g.str("reset", "crash", "eof", "rst", "srvclose"), At: f.At + 3*sec + g.dur(0.00001, 0.3), D: g.dur(0.01, 5)})
		}
	} else {
		o["run"] = g.pick(10, 1000, 30000, 100000)
	}
	if g.p(0.3) {
		o["closeat"] = int(g.dur(0.001, 30) / ms)
		if len(p.Faults) > 0 && g.p(0.5) {
			o["closeat"] = int((p.Faults[0].At + 3*sec + g.dur(0.00001, 0.3)) / ms)
		}
	}
	return p
}

func (g *Gen) str(v ...string) string { return v[g.R.Intn(len(v))] }
