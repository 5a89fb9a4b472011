package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"simrt/sctx"
	"simrt/sim"
	"simrt/snet"
)

// The hs scenario: a listener with several acceptors and many clients that
// connect at the same time, well-behaved and not: silent, half a handshake,
// garbage, rejected by the delegate, reset or stalled in the middle. It checks
// what both sides of a handshake learn about each other, that a bad client
// costs the others nothing, and that every failed attempt ends in bounded time
// with nothing left behind.

func init() { register(&Scenario{Name: "hs", Gen: genHS, Run: runHS}) }

const hsAddr = "srv:9000"

// identity modes (Op.Y of a "good" client)
const (
	idInner    = 0 // the delegate leaves it to the library
	idWanted   = 1 // the client asks for an id and gets it
	idReassign = 2 // the delegate gives another one
	idRefuse   = 3 // GetClientID fails
	idReject   = 4 // ConnOnline fails
)

type hsCli struct {
	i       int
	o       Op
	c       *snet.SimConn
	d       *dlg
	end     geminio.End
	err     error
	startAt int64
	retAt   int64
	meta    string
	srv     geminio.End
	nsrv    int
	faulted bool
	dialed  bool
	closed  bool
	msg     bool
	mode    int
	killed  bool
}

type hs struct {
	e      *Env
	ln     server.Listener
	cs     []*hsCli
	byMeta map[string]*hsCli
	sd     *dlg
	dials  int
	ends   int
	errs   int
	lnShut bool
	lnErrs int
	imp    []*actor
	inner  map[uint64]int
	pf     packet.PacketFactory
}

func hsMeta(i int, pad int) string { return fmt.Sprintf("hs-%d-%s", i, strings.Repeat("m", pad)) }

func (h *hs) want(i int) uint64     { return 5000 + uint64(i) }
func (h *hs) reassign(i int) uint64 { return 7000 + uint64(i) }

// textless says whether client i is refused with an error that has no text.
func (h *hs) textless(i int) bool { return (i+int(h.e.P.Seed))%4 == 1 }

func (h *hs) refusal(i int, f string) error {
	if h.textless(i) {
		return errors.New("")
	}
	return fmt.Errorf(f, i)
}

func runHS(e *Env) {
	p := e.P
	h := &hs{e: e, byMeta: map[string]*hsCli{}, inner: map[uint64]int{}}
	h.pf = packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	h.pf.NewHeartbeatPacket() // the lock of its first use is not to be held by a client that is killed
	for i, o := range p.Ops {
		c := &hsCli{i: i, o: o, meta: hsMeta(i, o.W)}
		if o.K == "good" && p.o("nodel") == 0 {
			c.mode = o.Y
		}
		h.cs = append(h.cs, c)
		h.byMeta[c.meta] = c
	}
	h.sd = newDlg(e, 0, 0)
	h.sd.getID = func(wanted uint64, meta []byte) (uint64, error) {
		c := h.byMeta[string(meta)]
		if c == nil {
			return 0, nil
		}
		exp := uint64(0)
		if c.mode == idWanted || c.mode == idReassign {
			exp = h.want(c.i)
		}
		if wanted != exp {
			e.Violate("C13", "wanted-id", "client %d asked for client id %d, the delegate was asked for %d", c.i, exp, wanted)
		}
		switch c.mode {
		case idWanted:
			return wanted, nil
		case idReassign:
			return h.reassign(c.i), nil
		case idRefuse:
			return 0, h.refusal(c.i, "no id for %d")
		}
		return 0, nil
	}
	h.sd.onlineC = func(d delegate.ConnDescriber) error {
		if c := h.byMeta[string(d.Meta())]; c != nil && c.mode == idReject {
			return h.refusal(c.i, "rejected %d")
		}
		return nil
	}
	so := server.NewEndOptions()
	if p.o("nodel") == 0 {
		so.SetDelegate(h.sd)
	}
	// listen
	la := e.Go("listen", srvNode, func(a *actor) {
		ln, err := server.Listen("tcp", hsAddr, so)
		if err != nil {
			e.Violate("C21", "listen", "Listen failed: %v", err)
			return
		}
		h.ln = ln
	})
	e.WaitAll(sec, la)
	if h.ln == nil {
		return
	}
	var accs []*actor
	for i := 0; i < p.o("accs"); i++ {
		accs = append(accs, e.Go(fmt.Sprintf("acc%d", i), srvNode, h.acceptor))
	}
	var work []*actor
	for _, c := range h.cs {
		c := c
		work = append(work, e.Go(fmt.Sprintf("client%d", c.i), cliNode(c.i), func(a *actor) {
			sim.Sleep(int64(c.o.X) * ms / 10)
			h.client(a, c)
		}))
	}
	for i, f := range p.Faults {
		f := f
		work = append(work, e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) { h.fault(f) }))
	}
	left := e.WaitAll(200*sec+e.slack(), work...)
	e.Stuck(left, "C13")
	if len(left) > 0 {
		return
	}
	// every connection attempt that reached the listener came out of it once
	if !h.lnShut {
		if !e.Until(15*sec+e.slack(), 20*ms, func() bool { return h.ends+h.errs >= h.dials || h.lnShut }) && !h.lnShut {
			e.Violate("C21", "accept-missing", "%d connections were made, but AcceptEnd returned %d ends and %d errors only", h.dials, h.ends, h.errs)
		}
		if h.ends+h.errs > h.dials {
			e.Violate("C21", "accept-extra", "%d connections were made, but AcceptEnd returned %d ends and %d errors", h.dials, h.ends, h.errs)
		}
	}
	h.shut()
	left = e.WaitAll(10*sec+e.slack(), accs...)
	for _, a := range left {
		a.prop = "C21"
	}
	e.Stuck(left, "C21")
	if len(left) > 0 {
		return
	}
	left = e.WaitAll(60*sec+e.slack(), h.imp...)
	e.Stuck(left, "C11")
	if len(left) > 0 {
		return
	}
	// everything is closed now; nothing of a failed or finished connection may
	// stay behind
	var alive []*sim.Task
	open := func() *snet.SimConn {
		for _, c := range h.cs {
			if c.c == nil {
				continue
			}
			if c.o.K == "good" && !c.c.Closed() {
				return c.c
			}
			if !c.c.Peer().Closed() {
				return c.c.Peer()
			}
		}
		return nil
	}
	e.Until(60*sec+e.slack(), 200*ms, func() bool {
		alive = libTasks()
		return len(alive) == 0 && open() == nil
	})
	if c := open(); c != nil {
		e.Violate("C11", "socket-leak", "the socket %s is still open after everything was closed", c.Name)
	}
	if len(alive) > 0 {
		e.Violate("C11", "goroutine-leak:"+alive[0].SpawnSite(), "library goroutines survive all connections: %s", taskSummary(alive))
	}
	if p.o("nodel") == 0 {
		h.delegates()
	}
	h.clientDelegates()
}

// clientDelegates checks what the delegates of the clients were told: one
// ConnOffline for a connection that was established, none for one that never
// was.
func (h *hs) clientDelegates() {
	e := h.e
	for _, c := range h.cs {
		if c.d == nil || c.o.K != "good" || c.killed {
			continue
		}
		n := c.d.count("offline")
		switch {
		case n > 1:
			e.Violate("C12", "client-offline-count", "client %d's delegate saw %d ConnOffline of one connection", c.i, n)
		case c.end != nil && n == 0:
			e.Violate("C12", "client-offline-missing", "client %d was connected and closed, its delegate saw no ConnOffline", c.i)
		case n == 1 && c.end == nil && (c.mode == idRefuse || c.mode == idReject):
			e.Violate("C12", "client-offline-extra", "client %d was refused, its delegate saw a ConnOffline of it", c.i)
		}
		for _, ev := range c.d.evs {
			if c.end != nil && ev.kind == "offline" && ev.cid != c.end.ClientID() {
				e.Violate("C12", "event-clientid", "client %d's delegate saw the ConnOffline of client id %d, its end has %d", c.i, ev.cid, c.end.ClientID())
			}
		}
	}
}

// delegates checks what the server delegate was told about every connection.
func (h *hs) delegates() {
	e := h.e
	for _, c := range h.cs {
		if c.o.K != "good" {
			continue
		}
		n := map[string]int{}
		for _, ev := range h.sd.evs {
			if ev.meta == c.meta {
				n[ev.kind]++
				if ev.kind == "offline" && n["online"] == 0 {
					e.Violate("C12", "offline-first", "the server delegate saw ConnOffline of client %d before ConnOnline", c.i)
				}
				if (ev.kind == "online" || ev.kind == "offline") && c.end != nil && ev.cid != c.end.ClientID() {
					e.Violate("C12", "event-clientid", "the server delegate saw %s of client %d with client id %d, its end has %d", ev.kind, c.i, ev.cid, c.end.ClientID())
				}
			}
		}
		if n["getid"] > 1 || n["online"] > 1 {
			e.Violate("C12", "handshake-callbacks", "client %d: the server delegate saw %d GetClientID and %d ConnOnline", c.i, n["getid"], n["online"])
		}
		on := n["online"]
		if c.mode == idReject {
			on = 0
		}
		if n["offline"] != on {
			e.Violate("C12", "offline-count", "client %d: the server delegate accepted %d ConnOnline and saw %d ConnOffline", c.i, on, n["offline"])
		}
		if c.nsrv > 0 && n["online"] == 0 {
			e.Violate("C12", "online-missing", "client %d was accepted without ConnOnline", c.i)
		}
	}
}

func (h *hs) shut() {
	e := h.e
	if h.lnShut {
		return
	}
	h.lnShut = true
	a := e.Go("lnclose", srvNode, func(a *actor) {
		a.Begin("C21", "Listener.Close(%s)", hsAddr)
		h.ln.Close()
		a.End()
	})
	e.Stuck(e.WaitAll(5*sec+e.slack(), a), "C21")
}

func (h *hs) acceptor(a *actor) {
	e := h.e
	for {
		a.Begin("C21", "AcceptEnd(%s)", hsAddr)
		end, err := acceptEnd(e, h.ln)
		a.End()
		if err != nil {
			if h.lnShut && errors.Is(err, net.ErrClosed) {
				return
			}
			if errors.Is(err, net.ErrClosed) {
				e.Violate("C21", "closed-early", "AcceptEnd returned %v although the listener is open", err)
				return
			}
			e.Ev("accept error %s", err)
			if errors.Is(err, syscall.EMFILE) {
				// the listener's, not one of a connection
				h.lnErrs++
				if n := snet.W.FailedAccepts(hsAddr); h.lnErrs > n {
					e.Violate("C21", "accept-extra", "AcceptEnd returned %q %d times, accept failed %d times", err, h.lnErrs, n)
				}
				continue
			}
			h.errs++
			continue
		}
		if end == nil {
			e.Violate("C21", "accept-nil", "AcceptEnd returned neither an end nor an error")
			return
		}
		h.ends++
		c := h.byMeta[string(end.Meta())]
		e.Ev("accept %s", end.Meta()[:min(len(end.Meta()), 6)])
		if c == nil || c.o.K != "good" && c.o.K != "dup" && c.o.K != "mute" {
			e.Violate("C13", "accept-unknown", "an end with meta %q was accepted; no client connected with it", end.Meta())
			continue
		}
		c.nsrv++
		if c.nsrv > 1 {
			e.Violate("C21", "accept-twice", "client %d was accepted %d times", c.i, c.nsrv)
		}
		c.srv = end
		if c.mode == idRefuse || c.mode == idReject {
			e.Violate("C13", "refused-accepted", "client %d was refused by the delegate but AcceptEnd returned an end for it", c.i)
		}
		switch c.mode {
		case idWanted:
			if end.ClientID() != h.want(c.i) {
				e.Violate("C13", "clientid", "the delegate gave client %d id %d, the server end has %d", c.i, h.want(c.i), end.ClientID())
			}
		case idReassign:
			if end.ClientID() != h.reassign(c.i) {
				e.Violate("C13", "clientid", "the delegate gave client %d id %d, the server end has %d", c.i, h.reassign(c.i), end.ClientID())
			}
		case idInner:
			if end.ClientID() == 0 {
				e.Violate("C13", "clientid-zero", "client %d got client id 0", c.i)
			}
			if o, ok := h.inner[end.ClientID()]; ok {
				e.Violate("C19", "clientid-reused", "clients %d and %d both got client id %d", o, c.i, end.ClientID())
			}
			h.inner[end.ClientID()] = c.i
		}
		if end.Side() != geminio.RecipientSide {
			e.Violate("C13", "side", "the server end says side %v", end.Side())
		}
		h.imp = append(h.imp, e.Go(fmt.Sprintf("serve%d", c.i), srvNode, func(a *actor) { h.serve(a, c, end) }))
	}
}

// serve echoes one message and closes when it is the server's turn.
func (h *hs) serve(a *actor, c *hsCli, end geminio.End) {
	e := h.e
	a.Begin("C07", "Receive(server end of %d)", c.i)
	m, err := end.Receive(sctx.Background())
	a.End()
	if err == nil {
		if string(m.Data()) != "ping-"+c.meta {
			e.Violate("C06", "crossed", "the server end of client %d received %q", c.i, m.Data())
		}
		c.msg = true
		m.Done()
	} else if !c.faulted && !c.closed && c.o.K == "good" {
		e.Violate("C21", "end-unusable", "Receive on the fresh end of client %d returned %v", c.i, err)
	}
	if c.o.Z%2 == 1 {
		sim.Sleep(int64(c.o.Z) * ms / 10)
	} else {
		// wait for the client to go away
		a.Begin("C07", "Receive(server end of %d until close)", c.i)
		_, err := end.Receive(sctx.Background())
		a.End()
		if err == nil {
			e.Violate("C02", "msg-duplicate", "client %d published once but a second message arrived", c.i)
		}
	}
	c.closed = true
	a.Begin("C11", "End.Close(server end of %d)", c.i)
	end.Close()
	a.End()
}

func (h *hs) healthy(c *hsCli) bool {
	// an end that was accepted outlives the listener
	return !c.faulted && (!h.lnShut || c.srv != nil)
}

func (h *hs) client(a *actor, c *hsCli) {
	e := h.e
	o := c.o
	c.startAt = sim.Now()
	if o.K == "null" {
		h.nullServer(a, c)
		return
	}
	if o.K != "good" {
		h.badClient(a, c)
		return
	}
	c.d = newDlg(e, 1, c.i)
	co := client.NewEndOptions()
	co.SetMeta([]byte(c.meta))
	co.SetDelegate(c.d)
	if o.Y == idWanted || o.Y == idReassign {
		co.SetClientID(h.want(c.i))
	}
	var derr error
	dialer := func() (net.Conn, error) {
		nc, err := snet.Dial("tcp", hsAddr)
		if err != nil {
			derr = err
			return nil, err
		}
		c.c = nc.(*snet.SimConn)
		c.dialed = true
		h.dials++
		return nc, nil
	}
	up := h.healthy(c)
	a.Begin("C13", "client.NewEnd(%d)", c.i)
	end, err := client.NewEndWithDialer(dialer, co)
	a.End()
	c.retAt = sim.Now()
	c.end, c.err = end, err
	e.out.Ops++
	e.Ev("client %d -> %s", c.i, errText(err))
	if (end == nil) == (err == nil) {
		if end != nil || err == nil {
			e.Violate("C13", "newend-result", "NewEnd of client %d returned end %v and error %v", c.i, end != nil, err)
			return
		}
	}
	if el := c.retAt - c.startAt; el > 10*sec+e.slack() {
		e.Violate("C13", "newend-late", "NewEnd of client %d returned only after %.1fs", c.i, float64(el)/1e9)
	}
	if derr != nil {
		if up && h.healthy(c) {
			die("dial failed: %v", derr)
		}
		return
	}
	switch {
	case err == nil && (c.mode == idRefuse || c.mode == idReject):
		e.Violate("C13", "refused-connected", "client %d was refused by the server's delegate but NewEnd succeeded", c.i)
	case err != nil && (c.mode == idRefuse || c.mode == idReject):
		w := fmt.Sprintf("no id for %d", c.i)
		if c.mode == idReject {
			w = fmt.Sprintf("rejected %d", c.i)
		}
		if h.healthy(c) && up && err.Error() != w && !h.textless(c.i) {
			e.Violate("C13", "refused-reason", "client %d was refused with %q, NewEnd returned %q", c.i, w, err)
		}
		return
	case err != nil:
		if h.healthy(c) && up {
			e.Violate("C13", "newend-failed", "NewEnd of client %d failed on a healthy network: %v (%.3fs after it started)", c.i, err, float64(c.retAt-c.startAt)/1e9)
		}
		return
	}
	// connected
	if end.Side() != geminio.InitiatorSide || string(end.Meta()) != c.meta {
		e.Violate("C13", "client-attrs", "client %d: side %v meta %q", c.i, end.Side(), end.Meta())
	}
	if h.healthy(c) && up {
		el := sim.Now()
		if !e.Until(5*sec+e.slack(), 5*ms, func() bool { return c.srv != nil || !h.healthy(c) }) {
			e.Violate("C21", "accept-missing", "client %d is connected for %.1fs but AcceptEnd did not return its end", c.i, float64(sim.Now()-el)/1e9)
		}
	}
	if c.srv != nil && c.srv.ClientID() != end.ClientID() {
		e.Violate("C13", "clientid-disagree", "client %d has client id %d, its server end %d", c.i, end.ClientID(), c.srv.ClientID())
	}
	a.Begin("C01", "Publish(client %d)", c.i)
	err = end.Publish(sctx.Background(), end.NewMessage([]byte("ping-"+c.meta)))
	a.End()
	if err != nil && h.healthy(c) && up {
		e.Violate("C21", "end-unusable", "Publish on the fresh end of client %d failed: %v", c.i, err)
	}
	if err == nil && !c.msg {
		e.Violate("C01", "pub-nil-unacked", "client %d: publish returned nil before the server end received the message", c.i)
	}
	if o.Z%2 == 0 {
		sim.Sleep(int64(o.Z) * ms / 10)
	} else {
		a.Begin("C07", "Receive(client %d until close)", c.i)
		_, err := end.Receive(sctx.Background())
		a.End()
		if err != io.EOF {
			e.Violate("C07", "receive-error", "Receive of client %d returned %v, want io.EOF", c.i, err)
		}
	}
	c.closed = true
	a.Begin("C11", "End.Close(client %d)", c.i)
	end.Close()
	a.End()
}

// connBytes is a valid connection request.
func (h *hs) connBytes(c *hsCli) []byte {
	b, err := packet.Encode(h.pf.NewConnPacket(0, true, packet.Heartbeat20, []byte(c.meta)))
	if err != nil {
		die("encode: %v", err)
	}
	return b
}

func (h *hs) badClient(a *actor, c *hsCli) {
	nc, err := snet.Dial("tcp", hsAddr)
	if err != nil {
		return
	}
	h.dials++
	c.c = nc.(*snet.SimConn)
	c.dialed = true
	b := h.connBytes(c)
	switch c.o.K {
	case "silent":
	case "partial":
		nc.Write(b[:1+c.o.Z%(len(b)-1)])
	case "garbage":
		nc.Write(fill(uint64(c.o.Z)+77, 1+c.o.Z%200))
	case "dup":
		nc.Write(append(append([]byte(nil), b...), b...))
	case "mute":
		// connects properly, then never says another word
		nc.Write(b)
	}
	if c.o.Y != 0 {
		// hold the connection until the server lets go of it
		sim.Sleep(int64(c.o.Y) * ms)
	} else {
		buf := make([]byte, 4096)
		a.Begin("C13", "raw read of bad client(%d %s)", c.i, c.o.K)
		for {
			if _, err := nc.Read(buf); err != nil {
				break
			}
		}
		a.End()
	}
	nc.Close()
}

// nullServer connects a client to something that is not a geminio server.
func (h *hs) nullServer(a *actor, c *hsCli) {
	e := h.e
	x, y := snet.W.Pair(cliNode(c.i), 5, fmt.Sprintf("null%d", c.i))
	srv := e.Go(fmt.Sprintf("null%d", c.i), 5, func(*actor) {
		buf := make([]byte, 4096)
		switch c.o.Y {
		case 0: // silent
		case 1: // closes
			y.Read(buf)
			y.Close()
		case 2: // garbage
			y.Read(buf)
			y.Write(fill(uint64(c.o.Z), 1+c.o.Z%200))
		case 3: // an answer to another request
			y.Read(buf)
			b, _ := packet.Encode(h.pf.NewConnAckPacket(999, 4, nil))
			y.Write(b)
		case 4: // half an answer
			y.Read(buf)
			b, _ := packet.Encode(h.pf.NewConnAckPacket(1, 4, nil))
			y.Write(b[:1+c.o.Z%(len(b)-1)])
		case 5: // disconnects politely
			y.Read(buf)
			b, _ := packet.Encode(h.pf.NewDisConnPacket())
			y.Write(b)
		}
	})
	co := client.NewEndOptions()
	co.SetMeta([]byte(c.meta))
	t0 := sim.Now()
	a.Begin("C13", "client.NewEnd(%d, mode %d)", c.i, c.o.Y)
	end, err := client.NewEndWithConn(x, co)
	a.End()
	if err == nil {
		e.Violate("C13", "connected-to-nothing", "NewEnd succeeded although no server ever answered (mode %d, client id %d)", c.o.Y, end.ClientID())
		end.Close()
	}
	if el := sim.Now() - t0; el > 10*sec+e.slack() {
		e.Violate("C13", "newend-late", "NewEnd against a silent peer returned only after %.1fs (mode %d)", float64(el)/1e9, c.o.Y)
	}
	if !e.Until(30*sec+e.slack(), 100*ms, func() bool { return x.Closed() }) {
		e.Violate("C11", "socket-leak", "NewEnd failed (%v) but its socket is still open 30s later", err)
	}
	y.Close()
	e.WaitAll(sec+e.slack(), srv)
}

func (h *hs) fault(f Fault) {
	sim.Sleep(f.At)
	if f.K == "lnclose" {
		h.e.Ev("fault lnclose")
		h.shut()
		return
	}
	if f.K == "emfile" {
		h.e.Ev("fault emfile %d", f.X)
		snet.W.FailAccepts(hsAddr, 1+f.X%4)
		return
	}
	if len(h.cs) == 0 {
		return
	}
	c := h.cs[f.X%len(h.cs)]
	if c.c == nil || c.o.K == "null" {
		return
	}
	sim.Count("net-" + f.K)
	h.e.Ev("fault %s on %d", f.K, c.i)
	switch f.K {
	case "reset":
		c.faulted = true
		c.c.Reset()
	case "pause":
		// a partition that heals
		s := c.c
		if f.Y&1 == 1 {
			s = s.Peer()
		}
		s.Cut()
		sim.Sleep(f.D)
		s.Heal()
	case "failw":
		c.faulted = true
		s := c.c
		if f.Y&1 == 1 {
			s = s.Peer()
		}
		s.FailWrites(errors.New("injected write error"))
	case "kill":
		c.faulted = true
		c.killed = true
		sim.KillNode(cliNode(c.i))
		c.c.ProcessDied()
	}
}

func genHS(g *Gen) *Plan {
	p := g.base("hs")
	o := p.Opt
	o["accs"] = g.n(1, 3)
	if g.p(0.15) {
		o["nodel"] = 1
	}
	n := g.n(1, 8)
	for i := 0; i < n; i++ {
		op := Op{A: i, K: "good", X: g.pick(0, 0, 0, 1, 10, 100, 10000), Z: int(g.dur(0.0005, 5) / 1e5), W: g.pick(0, 0, 3, 200, 3000)}
		switch {
		case g.p(0.62):
			op.Y = g.pick(idInner, idInner, idWanted, idReassign, idRefuse, idReject)
		default:
			op.K = []string{"silent", "partial", "garbage", "dup", "mute", "null", "null"}[g.R.Intn(7)]
			op.Y = g.pick(0, 0, 1, 50, 3000, 15000)
			op.Z = g.R.Intn(10000)
			if op.K == "null" {
				op.Y = g.R.Intn(6)
			}
			if op.K == "mute" || op.K == "dup" {
				op.Y = g.pick(1, 50, 3000)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	if g.p(0.35) {
		for i := 0; i < g.n(1, 3); i++ {
			k := []string{"reset", "pause", "pause", "failw", "kill"}[g.R.Intn(5)]
			p.Faults = append(p.Faults, Fault{K: k, At: g.dur(0.00002, 2), X: g.R.Intn(n), Y: g.R.Intn(2), D: g.dur(0.001, 3)})
		}
	}
	if g.p(0.15) {
		p.Faults = append(p.Faults, Fault{K: "emfile", At: g.dur(0.00002, 2), X: g.R.Intn(4)})
	}
	if g.p(0.15) {
		p.Faults = append(p.Faults, Fault{K: "lnclose", At: g.dur(0.0001, 3)})
	}
	return p
}
