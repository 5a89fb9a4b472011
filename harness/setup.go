package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"simrt/sim"
	"simrt/snet"
	timer "simrt/stimer"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// nodes: the server process is node 1, client processes are 10, 11, ...
const srvNode = 1

func cliNode(i int) int { return 10 + i }

// sess is one connected pair of ends.
type sess struct {
	e    *Env
	idx  int
	c    [2]*snet.SimConn // 0 server side, 1 client side
	ends [2]geminio.End
	errs [2]error
	dlg  [2]*dlg
	tmr  [2]timer.Timer
	meta []byte
}

func node(side, idx int) int {
	if side == 0 {
		return srvNode
	}
	return cliNode(idx)
}

func sideName(s int) string {
	if s == 0 {
		return "server"
	}
	return "client"
}

// slack is what a bounded operation may take beyond its nominal time: timer
// granularity, network latency and the stalls the simulator injected.
func (e *Env) slack() int64 {
	n := e.P.Net
	return 2*sec + 40*(n.Latency+n.Jitter) + 20*n.TailNs + sim.StallTotal()
}

// connectOpts tunes connect.
type connectOpts struct {
	sharedTimer bool
	bufR, bufW  int
	srv         func(o *server.EndOptions)
	cli         func(o *client.EndOptions)
	bound       int64
	pair        func() (*snet.SimConn, *snet.SimConn)
	onConns     func(s *sess)
	onEnd       func(side int, end geminio.End, err error)
}

// connect builds a pair of ends over a fresh simulated connection.
func (e *Env) connect(idx int, o connectOpts) *sess {
	s := &sess{e: e, idx: idx}
	if o.pair != nil {
		s.c[1], s.c[0] = o.pair()
	} else {
		s.c[1], s.c[0] = snet.W.Pair(cliNode(idx), srvNode, fmt.Sprintf("conn%d", idx))
	}
	if o.onConns != nil {
		o.onConns(s)
	}
	s.meta = []byte(fmt.Sprintf("meta-of-client-%d", idx))
	so := server.NewEndOptions()
	co := client.NewEndOptions()
	if e.P.o("shopt") == 1 {
		// one value for all the ends of the server
		if e.shOpts == nil {
			e.shOpts = so
		}
		so = e.shOpts
		o.sharedTimer = false
	}
	co.SetMeta(s.meta)
	if o.bufR != 0 || o.bufW != 0 {
		so.SetBufferSize(o.bufR, o.bufW)
		co.SetBufferSize(o.bufR, o.bufW)
	}
	for side := 0; side < 2; side++ {
		s.dlg[side] = newDlg(e, side, idx)
	}
	if e.P.o("shopt") == 1 {
		e.shDlg[idx] = s.dlg[0]
		so.SetDelegate(&dlgMux{e})
	} else {
		so.SetDelegate(s.dlg[0])
	}
	co.SetDelegate(s.dlg[1])
	if o.srv != nil {
		o.srv(so)
	}
	if o.cli != nil {
		o.cli(co)
	}
	sa := e.Go(fmt.Sprintf("srv%d-setup", idx), srvNode, func(a *actor) {
		if o.sharedTimer {
			s.tmr[0] = timer.NewTimer()
			so.SetTimer(s.tmr[0])
		}
		a.Begin("C13", "server.NewEndWithConn(%d)", idx)
		s.ends[0], s.errs[0] = server.NewEndWithConn(s.c[0], so)
		a.End()
		if o.onEnd != nil {
			o.onEnd(0, s.ends[0], s.errs[0])
		}
	})
	ca := e.Go(fmt.Sprintf("cli%d-setup", idx), cliNode(idx), func(a *actor) {
		if o.sharedTimer {
			s.tmr[1] = timer.NewTimer()
			co.SetTimer(s.tmr[1])
		}
		a.Begin("C13", "client.NewEndWithConn(%d)", idx)
		s.ends[1], s.errs[1] = client.NewEndWithConn(s.c[1], co)
		a.End()
		if o.onEnd != nil {
			o.onEnd(1, s.ends[1], s.errs[1])
		}
	})
	b := o.bound
	if b == 0 {
		b = 60 * sec
	}
	if left := e.WaitAll(b+e.slack(), sa, ca); len(left) > 0 {
		e.Stuck(left, "C13")
	}
	for side := 0; side < 2; side++ {
		if s.ends[side] != nil {
			e.addrs(s.ends[side], s.c[side], "the "+sideName(side)+" end")
			if s.ends[side].Addr().String() != s.c[side].LocalAddr().String() {
				e.Violate("C06", "addrs", "the %s end listens at %v, its connection is at %v", sideName(side), s.ends[side].Addr(), s.c[side].LocalAddr())
			}
		}
	}
	return s
}

// acceptStream accepts in one of the two ways there are.
func acceptStream(e *Env, end geminio.End) (geminio.Stream, error) {
	if e.P.Seed&3 != 0 {
		return end.AcceptStream()
	}
	c, err := end.Accept()
	if err != nil {
		return nil, err
	}
	return c.(geminio.Stream), nil
}

// acceptEnd does, too.
func acceptEnd(e *Env, ln server.Listener) (geminio.End, error) {
	if e.P.Seed&3 != 0 {
		return ln.AcceptEnd()
	}
	c, err := ln.Accept()
	if c == nil {
		return nil, err
	}
	return c.(geminio.End), err
}

// addrs checks that an end or stream tells the addresses of its connection.
func (e *Env) addrs(x geminio.Stream, c net.Conn, what string) {
	if l, r := x.LocalAddr(), x.RemoteAddr(); l == nil || r == nil || l.String() != c.LocalAddr().String() || r.String() != c.RemoteAddr().String() {
		e.Violate("C06", "addrs", "%s says it is at %v, connected to %v; its connection is %v to %v", what, l, r, c.LocalAddr(), c.RemoteAddr())
	}
}

func (s *sess) up() bool { return s.ends[0] != nil && s.ends[1] != nil }

// dlg records every callback a side receives.
type dlgEv struct {
	kind string
	at   int64
	id   uint64
	neg  uint64
	cid  uint64
	meta string
	m    string
}

type dlg struct {
	e    *Env
	side int
	idx  int
	evs  []dlgEv
	// hooks
	getID   func(wanted uint64, meta []byte) (uint64, error)
	onlineE func() error
	onlineC func(delegate.ConnDescriber) error
	onEv    func(ev dlgEv)
}

var _ delegate.ServerDelegate = (*dlg)(nil)
var _ delegate.ClientDelegate = (*dlg)(nil)

func newDlg(e *Env, side, idx int) *dlg { return &dlg{e: e, side: side, idx: idx} }

func (d *dlg) add(ev dlgEv) {
	ev.at = sim.Now()
	d.evs = append(d.evs, ev)
	if sim.Tracing() {
		sim.Tracef("DELEGATE %s%d %s client=%d dialogue=%d method=%s", sideName(d.side), d.idx, ev.kind, ev.cid, ev.id, ev.m)
	}
	if d.onEv != nil {
		d.onEv(ev)
	}
}

func (d *dlg) count(kind string) int {
	n := 0
	for _, ev := range d.evs {
		if ev.kind == kind {
			n++
		}
	}
	return n
}

func (d *dlg) ConnOnline(c delegate.ConnDescriber) error {
	d.add(dlgEv{kind: "online", cid: c.ClientID(), meta: string(c.Meta())})
	if d.onlineC != nil {
		return d.onlineC(c)
	}
	if d.onlineE != nil {
		return d.onlineE()
	}
	return nil
}

func (d *dlg) ConnOffline(c delegate.ConnDescriber) error {
	d.add(dlgEv{kind: "offline", cid: c.ClientID(), meta: string(c.Meta())})
	return nil
}

func (d *dlg) Heartbeat(c delegate.ConnDescriber) error {
	d.add(dlgEv{kind: "heartbeat", cid: c.ClientID()})
	return nil
}

func (d *dlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	d.add(dlgEv{kind: "getid", cid: wanted, meta: string(meta)})
	if d.getID != nil {
		return d.getID(wanted, meta)
	}
	if wanted != 0 {
		return wanted, nil
	}
	return uint64(1000 + d.idx), nil
}

func (d *dlg) DialogueOnline(x delegate.DialogueDescriber) error {
	d.add(dlgEv{kind: "dgonline", id: x.DialogueID(), cid: x.ClientID(), neg: x.NegotiatingID(), meta: string(x.Meta())})
	return nil
}

func (d *dlg) DialogueOffline(x delegate.DialogueDescriber) error {
	d.add(dlgEv{kind: "dgoffline", id: x.DialogueID(), cid: x.ClientID(), neg: x.NegotiatingID(), meta: string(x.Meta())})
	return nil
}

func (d *dlg) RemoteRegistration(method string, cid, sid uint64) {
	d.add(dlgEv{kind: "registration", id: sid, cid: cid, m: method})
}

func (d *dlg) EndReOnline(c delegate.ClientDescriber) {
	d.add(dlgEv{kind: "reonline", cid: c.ClientID()})
}

// dlgMux is one delegate for all the ends of the server: it passes everything
// on to that of the connection.
type dlgMux struct{ e *Env }

func (m *dlgMux) of(cid uint64) *dlg { return m.e.shDlg[int(cid)-1000] }

func (m *dlgMux) ConnOnline(c delegate.ConnDescriber) error { return m.of(c.ClientID()).ConnOnline(c) }
func (m *dlgMux) ConnOffline(c delegate.ConnDescriber) error {
	return m.of(c.ClientID()).ConnOffline(c)
}
func (m *dlgMux) Heartbeat(c delegate.ConnDescriber) error { return m.of(c.ClientID()).Heartbeat(c) }
func (m *dlgMux) DialogueOnline(x delegate.DialogueDescriber) error {
	return m.of(x.ClientID()).DialogueOnline(x)
}
func (m *dlgMux) DialogueOffline(x delegate.DialogueDescriber) error {
	return m.of(x.ClientID()).DialogueOffline(x)
}
func (m *dlgMux) RemoteRegistration(method string, cid, sid uint64) {
	m.of(cid).RemoteRegistration(method, cid, sid)
}
func (m *dlgMux) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	i := 0
	fmt.Sscanf(string(meta), "meta-of-client-%d", &i)
	return m.e.shDlg[i].GetClientID(wanted, meta)
}

// libTasks lists the goroutines of the library that are still alive.
func libTasks(nodes ...int) []*sim.Task {
	var r []*sim.Task
	for _, t := range sim.LiveTasks() {
		if t.Harness() || t.Actor() || t.Name == "timer" {
			continue
		}
		if len(nodes) > 0 {
			ok := false
			for _, n := range nodes {
				ok = ok || t.Node == n
			}
			if !ok {
				continue
			}
		}
		r = append(r, t)
	}
	return r
}

func taskSummary(ts []*sim.Task) string {
	m := map[string]int{}
	for _, t := range ts {
		m[fmt.Sprintf("%s at %s (started at %s)", t.What(), t.Site(), t.SpawnSite())]++
	}
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	r := ""
	for _, s := range k {
		r += fmt.Sprintf("%dx %s; ", m[s], s)
	}
	return r
}

// fill produces n deterministic bytes for key.
func fill(key uint64, n int) []byte {
	b := make([]byte, n)
	x := key*0x9E3779B97F4A7C15 + 0x1234567
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

// payload is an 8-byte id followed by bytes derived from it.
func payload(id uint64, n int) []byte {
	b := make([]byte, 8, 8+n)
	binary.BigEndian.PutUint64(b, id)
	return append(b, fill(id, n)...)
}

func payloadID(b []byte) (uint64, bool) {
	if len(b) < 8 {
		return 0, false
	}
	return binary.BigEndian.Uint64(b), true
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

var _ = context.Background
var _ = errors.Is
var _ = io.EOF
var _ net.Conn
var _ = time.Second
var _ = options.Call
