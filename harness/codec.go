package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"simrt/sim"
	"simrt/snet"
)

// The codec scenario: packets of every type and content go through the
// encoder, a simulated connection that splits, delays and breaks the byte
// stream wherever it likes, and the decoder. What comes out is what went in,
// packet by packet, or an error.

func init() { register(&Scenario{Name: "codec", Gen: genCodec, Run: runCodec}) }

type cdPkt struct {
	pkt packet.Packet
	typ packet.Type
	id  uint64
	chk func(got packet.Packet) string
}

func cdText(k uint64, n int) string {
	r := []rune("abc <>&\"'\\/\u2028é世\x00\x7f\n\t0")
	b := fill(k, n)
	var o []rune
	for _, c := range b {
		o = append(o, r[int(c)%len(r)])
	}
	return string(o)
}

func diff[T comparable](w string, got, want T) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("%s is %.80q, want %.80q", w, fmt.Sprint(got), fmt.Sprint(want))
}

func diffB(w string, got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	return fmt.Sprintf("%s is %d bytes %.40x, want %d bytes %.40x", w, len(got), got, len(want), want)
}

func first(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

func diffT(w string, got, want time.Time) string {
	if got.Equal(want) {
		return ""
	}
	return fmt.Sprintf("%s is %v, want %v", w, got, want)
}

func mkPacket(pf packet.PacketFactory, o Op, i int) (c cdPkt) {
	k := uint64(o.Z)*977 + uint64(i)
	d := fill(k, o.X)
	key := fill(k+1, o.Y%40)
	sid := uint64(o.Z)<<uint(o.W%50) + 1
	pid := uint64(o.W)<<32 + k
	var err error
	et := ""
	if o.Y%3 == 1 {
		et = cdText(k+2, 1+o.Y%200)
		err = errors.New(et)
	}
	var tm time.Time
	switch o.W % 4 {
	case 1:
		tm = time.Unix(int64(o.Z)*200000, int64(o.X)*1001).UTC() // up to the year 8600: JSON ends with 9999
	case 2:
		tm = time.Unix(int64(o.Z), int64(o.Y)).In(time.FixedZone("x", (o.W%27-12)*3600+1800))
	}
	msg := func(g *packet.MessageData, m *packet.MessageData) string {
		if g == nil {
			return "no data"
		}
		return first(diffB("key", g.Key, m.Key), diffB("value", g.Value, m.Value), diff("topic", g.Topic, m.Topic), diffB("custom", g.Custom, m.Custom),
			diff("error", g.Error, m.Error), diff("timeout", g.Timeout, m.Timeout), diffT("deadline", g.Deadline, m.Deadline), diffT("context deadline", g.Context.Deadline, m.Context.Deadline))
	}
	full := func(m *packet.MessageData) *packet.MessageData {
		m.Topic = cdText(k+3, o.Y%30)
		m.Custom = fill(k+4, o.Y%70)
		m.Timeout = time.Duration(o.Z) * time.Microsecond
		m.Deadline = tm
		m.Context.Deadline = tm.Add(time.Duration(o.X))
		if tm.IsZero() {
			m.Context.Deadline = tm
		}
		x := *m
		x.Key = append([]byte(nil), m.Key...)
		return &x
	}
	switch o.K {
	case "conn":
		hb := []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}[o.W%4]
		p := pf.NewConnPacket(sid, o.Y%2 == 0, hb, d)
		p.Retain, p.Clear = o.Y%5 == 0, o.Y%7 == 0
		w := *p
		c.pkt, c.typ = p, packet.TypeConnPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.ConnPacket)
			if !ok || g.ConnData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("client id", g.ClientID, sid), diff("acquire", g.ClientIDAcquire(), o.Y%2 == 0), diff("heartbeat", g.Heartbeat, hb), diffB("meta", g.ConnData.Meta, d), diff("retain", g.Retain, w.Retain), diff("clear", g.Clear, w.Clear))
		}
	case "connack":
		p := pf.NewConnAckPacket(pid, sid, err)
		p.ConnData.Meta = d
		c.pkt, c.typ = p, packet.TypeConnAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.ConnAckPacket)
			if !ok || g.ConnData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("client id", g.ClientID, sid), diff("error", g.ConnData.Error, et), diff("retcode", g.RetCode == packet.RetCodeOK, err == nil), diffB("meta", g.ConnData.Meta, d))
		}
	case "disconn":
		c.pkt, c.typ = pf.NewDisConnPacket(), packet.TypeDisConnPacket
	case "disconnack":
		p := pf.NewDisConnAckPacket(pid, err)
		c.pkt, c.typ = p, packet.TypeDisConnAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.DisConnAckPacket)
			if !ok || g.ConnData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("error", g.ConnData.Error, et), diff("retcode", g.RetCode == packet.RetCodeOK, err == nil))
		}
	case "hb":
		c.pkt, c.typ = pf.NewHeartbeatPacket(), packet.TypeHeartbeatPacket
	case "hback":
		c.pkt, c.typ = pf.NewHeartbeatAckPacket(pid), packet.TypeHeartbeatAckPacket
	case "sess":
		peer := cdText(k+5, o.Y%30)
		c.pkt, c.typ = pf.NewSessionPacket(sid, o.Y%2 == 0, d, peer), packet.TypeSessionPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.SessionPacket)
			if !ok || g.SessionData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("negotiate id", g.NegotiateID(), sid), diff("acquire", g.SessionIDAcquire(), o.Y%2 == 0), diffB("meta", g.SessionData.Meta, d), diff("peer", g.SessionData.Peer, peer))
		}
	case "sessack":
		c.pkt, c.typ = pf.NewSessionAckPacket(pid, sid, sid*3+1, err), packet.TypeSessionAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.SessionAckPacket)
			if !ok || g.SessionData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("negotiate id", g.NegotiateID(), sid), diff("session id", g.SessionID(), sid*3+1), diff("error", g.SessionData.Error, et))
		}
	case "dismiss":
		c.pkt, c.typ = pf.NewDismissPacket(sid), packet.TypeDismissPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.DismissPacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return diff("session id", g.SessionID(), sid)
		}
	case "dismissack":
		c.pkt, c.typ = pf.NewDismissAckPacket(pid, sid, err), packet.TypeDismissAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.DismissAckPacket)
			if !ok || g.SessionData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid), diff("error", g.SessionData.Error, et))
		}
	case "msg":
		p := pf.NewMessagePacketWithSessionID(sid, key, d, nil)
		w := full(p.Data)
		c.pkt, c.typ = p, packet.TypeMessagePacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.MessagePacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("session id", g.SessionID(), sid), msg(g.Data, w))
		}
	case "msgack":
		c.pkt, c.typ = pf.NewMessageAckPacketWithSessionID(sid, pid, err), packet.TypeMessageAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.MessageAckPacket)
			if !ok || g.Data == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid), diff("error", g.Data.Error, et))
		}
	case "stream":
		c.pkt, c.typ = pf.NewStreamPacketWithSessionID(sid, d), packet.TypeStreamPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.StreamPacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("session id", g.SessionID(), sid), diffB("data", g.Data, d))
		}
	case "req":
		p := pf.NewRequestPacketWithIDAndSessionID(pid, sid, key, d)
		w := full(p.Data)
		c.pkt, c.typ = p, packet.TypeRequestPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.RequestPacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid), msg(g.Data, w))
		}
	case "reqcancel":
		c.pkt, c.typ = pf.NewRequestCancelPacketWithIDAndSessionID(pid, sid, packet.RequestCancelTypeCanceled), packet.TypeRequestCancelPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.RequestCancelPacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid))
		}
	case "rsp":
		p := pf.NewResponsePacket(pid, key, d, err)
		w := full(p.Data)
		w.Error = et
		p.SetSessionID(sid)
		c.pkt, c.typ = p, packet.TypeResponsePacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.ResponsePacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid), msg(g.Data, w))
		}
	case "reg":
		c.pkt, c.typ = pf.NewRegisterPacketWithSessionID(sid, d), packet.TypeRegisterPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.RegisterPacket)
			if !ok {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("session id", g.SessionID(), sid), diff("method", g.Method(), string(d)))
		}
	case "regack":
		c.pkt, c.typ = pf.NewRegisterAckPacketWithSessionID(sid, pid, err), packet.TypeRegisterAckPacket
		c.chk = func(x packet.Packet) string {
			g, ok := x.(*packet.RegisterAckPacket)
			if !ok || g.RegisterData == nil {
				return fmt.Sprintf("%T", x)
			}
			return first(diff("id", g.ID(), pid), diff("session id", g.SessionID(), sid), diff("error", g.RegisterData.Error, et))
		}
	}
	c.id = c.pkt.ID()
	return
}

var cdKinds = []string{"conn", "connack", "disconn", "disconnack", "hb", "hback", "sess", "sessack", "dismiss", "dismissack", "msg", "msgack", "stream", "req", "reqcancel", "rsp", "reg", "regack"}

func (c *cdPkt) compare(got packet.Packet) string {
	if got == nil {
		return "nil"
	}
	if s := first(diff("type", got.Type(), c.typ), diff("packet id", got.ID(), c.id)); s != "" {
		return s
	}
	if c.chk != nil {
		return c.chk(got)
	}
	return ""
}

func runCodec(e *Env) {
	p := e.P
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	var l []cdPkt
	for i, o := range p.Ops {
		l = append(l, mkPacket(pf, o, i))
	}
	c, s := snet.W.Pair(cliNode(0), srvNode, "codec")
	sent, total := 0, int64(0)
	broke := false
	var ends []int64
	var werr error
	wr := e.Go("encode", cliNode(0), func(a *actor) {
		for i := range l {
			a.Begin("C17", "EncodeToWriter(%s)", p.Ops[i].K)
			werr = packet.EncodeToWriter(l[i].pkt, c)
			a.End()
			if werr != nil {
				break
			}
			sent++
			total = c.Written()
			ends = append(ends, total)
			e.out.Ops++
		}
		c.Close()
	})
	got := 0
	rd := e.Go("decode", srvNode, func(a *actor) {
		for {
			a.Begin("C17", "DecodeFromReader()")
			pkt, err := packet.DecodeFromReader(s)
			a.End()
			if err != nil {
				if !broke && err != io.EOF {
					e.Violate("C17", "decode-error", "DecodeFromReader fails with %v at packet %d (%s)", err, got, p.Ops[min(got, len(l)-1)].K)
				}
				break
			}
			if got >= len(l) {
				e.Violate("C17", "extra", "a packet was decoded that nobody sent")
				break
			}
			if d := l[got].compare(pkt); d != "" {
				e.Violate("C17", "decoded-differs:"+p.Ops[got].K, "packet %d (%s) was decoded wrong: %s", got, p.Ops[got].K, d)
			}
			got++
			if p.o("slow") > 0 {
				sim.Sleep(int64(p.o("slow")) * ms)
			}
		}
		s.Close()
	})
	for i, f := range p.Faults {
		f := f
		e.Go(fmt.Sprintf("fault%d", i), 0, func(a *actor) {
			a.daemon = true
			sim.Sleep(f.At)
			sim.Count("net-" + f.K)
			switch f.K {
			case "pause":
				c.Cut()
				sim.Sleep(f.D)
				c.Heal()
			case "reset":
				broke = true
				c.Reset()
			case "shortw":
				broke = true
				c.FailWriteAfter(f.X)
			case "close":
				broke = true
				c.Close()
			}
		})
	}
	if left := e.WaitAll(600*sec+e.slack(), wr, rd); len(left) > 0 {
		e.Stuck(left, "C17")
		return
	}
	if !broke {
		if werr != nil {
			e.Violate("C17", "encode-error", "EncodeToWriter of packet %d (%s) fails: %v", sent, p.Ops[sent].K, werr)
		}
		if got != sent {
			e.Violate("C17", "count", "%d packets were sent on a healthy connection, %d were decoded", sent, got)
		}
	} else if got > sent+1 {
		e.Violate("C17", "extra", "%d packets were decoded, %d were sent", got, sent)
	}
	// the buffer variant: whole, with something behind it, and cut short
	for i := range l {
		o := p.Ops[i]
		b, err := packet.Encode(l[i].pkt)
		if err != nil {
			e.Violate("C17", "encode-error", "Encode of packet %d (%s) fails: %v", i, o.K, err)
			continue
		}
		q := append(append([]byte(nil), b...), fill(uint64(i), o.W%20)...)
		pkt, n, err := packet.Decode(q)
		if err != nil {
			e.Violate("C17", "decode-error", "Decode of packet %d (%s) fails: %v", i, o.K, err)
			continue
		}
		if d := l[i].compare(pkt); d != "" {
			e.Violate("C17", "decoded-differs:"+o.K, "packet %d (%s) was decoded wrong from a buffer: %s", i, o.K, d)
		}
		if int(n) != len(b)-14 && int(n) != len(b) {
			e.Violate("C17", "length:"+o.K, "Decode of a %s of %d bytes says %d", o.K, len(b), n)
		}
		cut := o.Z % len(b)
		if pkt, _, err := packet.Decode(b[:cut]); err == nil {
			e.Violate("C17", "truncated:"+o.K, "Decode accepts %d of %d bytes of a %s: %v", cut, len(b), o.K, pkt)
		}
		if _, err := packet.DecodeFromReader(bytes.NewReader(b[:cut])); err == nil {
			e.Violate("C17", "truncated:"+o.K, "DecodeFromReader accepts %d of %d bytes of a %s", cut, len(b), o.K)
		}
	}
}

func genCodec(g *Gen) *Plan {
	p := g.base("codec")
	o := p.Opt
	o["slow"] = g.pick(0, 0, 0, 1)
	for i := 0; i < g.n(1, 30); i++ {
		op := Op{K: cdKinds[g.R.Intn(len(cdKinds))], X: g.pick(0, 0, 1, 2, 7, 100, 1000, 5000), Y: g.R.Intn(1000), Z: g.R.Intn(1 << 20), W: g.R.Intn(1000)}
		if g.p(0.03) {
			op.X = g.pick(65535, 65536, 65537, 200000)
		}
		p.Ops = append(p.Ops, op)
	}
	if p.Net.MSS == 7 {
		for i := range p.Ops {
			p.Ops[i].X = min(p.Ops[i].X, 5000)
		}
	}
	if g.p(0.4) {
		k := g.str("pause", "reset", "shortw", "close")
		p.Faults = append(p.Faults, Fault{K: k, At: g.dur(0.000001, 0.3), X: g.n(1, 20), D: g.dur(0.001, 3)})
	}
	return p
}
