From 504db7c2999264cad56893e13c2b941aff611151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 01/23] fix: conn: don't lose, block or panic when packets,
 close and net conn failures race

The conn layer wrote replies to its own input channel, sent user data before
the conn ack, created the connect sync after the conn packet was sent, used
nil'ed resources after fini, blocked forever on a failed writer, never finished
the close handshake with a dead peer, and reported offline for a client never
onlined.
---
 conn/conn_base.go   | 264 +++++++++++++++++++++++++++++++++++++++-----
 conn/conn_client.go | 119 +++++---------------
 conn/conn_server.go | 114 ++++---------------
 3 files changed, 287 insertions(+), 210 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..0385764 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -35,6 +36,10 @@ const (
 	ET_FINI      = "fini"
 )
 
+// closeTimeout bounds the close handshake, a peer which doesn't answer in time
+// is considered gone.
+const closeTimeout = 10 * time.Second
+
 type connOpts struct {
 	clientID uint64
 	// timer
@@ -69,17 +74,43 @@ type baseConn struct {
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
 
+	// packets already handled but whose next channel was full, only touched
+	// by handlePkt
+	pendingIn, pendingOut []packet.Packet
+
+	// the layer takes no more packets from outside
+	doneCh chan struct{}
+	// the net conn is no longer usable
+	brokenCh   chan struct{}
+	brokenOnce sync.Once
+	// the layer must finish without waiting for anything
+	abortCh   chan struct{}
+	abortOnce sync.Once
+	// writePkt quit
+	writeDoneCh chan struct{}
+
 	// heartbeat
 	hbTick timer.Tick
 
-	connOK  bool
-	connMtx sync.RWMutex
+	connOK   bool
+	connMtx  sync.RWMutex
+	closeTmr *time.Timer
+}
+
+func (bc *baseConn) initIO() {
+	bc.readInCh = make(chan packet.Packet, bc.readInSize)
+	bc.writeOutCh = make(chan packet.Packet, bc.writeOutSize)
+	bc.readOutCh = make(chan packet.Packet, bc.readOutSize)
+	bc.writeInCh = make(chan packet.Packet, bc.writeInSize)
+	bc.doneCh = make(chan struct{})
+	bc.brokenCh = make(chan struct{})
+	bc.abortCh = make(chan struct{})
+	bc.writeDoneCh = make(chan struct{})
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
@@ -95,12 +126,191 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	if !bc.connOK {
 		return io.EOF
 	}
-	bc.writeInCh <- pkt
-	return nil
+	select {
+	case bc.writeInCh <- pkt:
+		return nil
+	case <-bc.doneCh:
+		return io.EOF
+	}
+}
+
+// the net conn is lost, what has been received is still going to be delivered
+func (bc *baseConn) broken() {
+	bc.brokenOnce.Do(func() {
+		close(bc.brokenCh)
+		bc.netconn.Close()
+	})
+}
+
+// finish without waiting for anything
+func (bc *baseConn) abort() {
+	bc.abortOnce.Do(func() {
+		close(bc.abortCh)
+	})
+	bc.broken()
+}
+
+// start the close handshake
+func (bc *baseConn) disconnect() {
+	bc.connMtx.RLock()
+	defer bc.connMtx.RUnlock()
+	if !bc.connOK {
+		return
+	}
+	bc.closeTmr = time.AfterFunc(closeTimeout, bc.abort)
+
+	pkt := bc.pf.NewDisConnPacket()
+	select {
+	case bc.writeInCh <- pkt:
+	case <-bc.doneCh:
+	}
+}
+
+// sendDown passes the packet to the net conn writer in order. If the writer is
+// busy, handlePkt takes nothing more from outside until the packet is passed,
+// but keeps on handling what's received.
+func (bc *baseConn) sendDown(pkt packet.Packet) {
+	if len(bc.pendingOut) == 0 {
+		select {
+		case bc.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.pendingOut = append(bc.pendingOut, pkt)
+}
+
+// sendUp passes the packet to outside in order. If the outside is busy,
+// handlePkt takes nothing more from the net conn until the packet is passed,
+// but keeps on sending.
+func (bc *baseConn) sendUp(pkt packet.Packet) {
+	if len(bc.pendingIn) == 0 {
+		select {
+		case bc.readOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.pendingIn = append(bc.pendingIn, pkt)
+}
+
+// relay handles packets from both directions until the layer is over, true is
+// returned if the close handshake finished.
+func (bc *baseConn) relay(handleIn, handleOut func(packet.Packet) iodefine.IORet) bool {
+	readInCh, brokenCh := bc.readInCh, bc.brokenCh
+	drain := (<-chan time.Time)(nil)
+
+	for {
+		inCh, outCh := readInCh, bc.writeInCh
+		upCh, downCh := chan packet.Packet(nil), chan packet.Packet(nil)
+		up, down := packet.Packet(nil), packet.Packet(nil)
+		if len(bc.pendingIn) != 0 {
+			inCh, upCh, up = nil, bc.readOutCh, bc.pendingIn[0]
+		}
+		if len(bc.pendingOut) != 0 {
+			outCh, downCh, down = nil, bc.writeOutCh, bc.pendingOut[0]
+		}
+		if readInCh == nil && upCh == nil {
+			// the net conn is lost and all received is delivered
+			return false
+		}
+
+		ret := iodefine.IOSuccess
+		select {
+		case pkt, ok := <-inCh:
+			if !ok {
+				readInCh = nil
+				continue
+			}
+			bc.log.Tracef("conn read in packet, clientID: %d, packetID: %d, packetType: %s",
+				bc.clientID, pkt.ID(), pkt.Type().String())
+			ret = handleIn(pkt)
+		case pkt := <-outCh:
+			ret = handleOut(pkt)
+		case upCh <- up:
+			bc.pendingIn = bc.pendingIn[1:]
+		case downCh <- down:
+			bc.pendingOut = bc.pendingOut[1:]
+		case <-brokenCh:
+			brokenCh = nil
+			tmr := time.NewTimer(closeTimeout)
+			defer tmr.Stop()
+			drain = tmr.C
+		case <-drain:
+			return false
+		case <-bc.abortCh:
+			return false
+		}
+		if ret == iodefine.IOErr {
+			bc.log.Errorf("conn handle packet err, clientID: %d", bc.clientID)
+			return false
+		}
+		if ret == iodefine.IOClosed {
+			bc.log.Debugf("conn handle packet done, clientID: %d", bc.clientID)
+			return true
+		}
+	}
+}
+
+// flush makes sure packets handled are written before the net conn is closed
+func (bc *baseConn) flush() {
+	for len(bc.pendingOut) != 0 {
+		select {
+		case bc.writeOutCh <- bc.pendingOut[0]:
+			bc.pendingOut = bc.pendingOut[1:]
+		case <-bc.brokenCh:
+			return
+		}
+	}
+}
+
+// finiIO reclaims the channels and the net conn
+func (bc *baseConn) finiIO(closed bool) {
+	// whoever is writing must give up before the channel's closed
+	close(bc.doneCh)
+	bc.connMtx.Lock()
+	bc.connOK = false
+	close(bc.writeInCh)
+	bc.connMtx.Unlock()
+
+	if closed {
+		bc.flush()
+	}
+	close(bc.writeOutCh)
+	if closed {
+		select {
+		case <-bc.writeDoneCh:
+		case <-bc.brokenCh:
+		}
+	}
+	// collect net.Conn
+	bc.broken()
+	if bc.closeTmr != nil {
+		bc.closeTmr.Stop()
+	}
+	// writeInCh must be cared since buffer might still has data
+	for pkt := range bc.writeInCh {
+		bc.failed(pkt)
+	}
+	// the outside should care about channel status
+	close(bc.readOutCh)
+	// pendingOut must be cared since writePkt might quit first
+	for _, pkt := range bc.pendingOut {
+		bc.failed(pkt)
+	}
+	bc.pendingIn, bc.pendingOut = nil, nil
+}
+
+// only upper layer packet need to be notified
+func (bc *baseConn) failed(pkt packet.Packet) {
+	if bc.failedCh != nil && !packet.ConnLayer(pkt) {
+		bc.failedCh <- pkt
+	}
 }
 
 // common read/write/handle
 func (bc *baseConn) writePkt() {
+	defer close(bc.writeDoneCh)
 	writeOutCh := bc.writeOutCh
 	err := error(nil)
 
@@ -113,25 +323,26 @@ func (bc *baseConn) writePkt() {
 			}
 			bc.log.Tracef("conn write down, clientID: %d, packetID: %d, packetType: %s",
 				bc.clientID, pkt.ID(), pkt.Type().String())
-			record := !packet.ConnLayer(pkt)
-			err = bc.dowritePkt(pkt, record)
+			if err != nil {
+				// the net Conn failed, don't let handlePkt be blocked
+				bc.failed(pkt)
+				continue
+			}
+			err = bc.dowritePkt(pkt)
 			if err != nil {
 				// write to net Conn error, we should close the layer
-				return
+				bc.broken()
 			}
 		}
 	}
 }
 
-func (bc *baseConn) dowritePkt(pkt packet.Packet, record bool) error {
+func (bc *baseConn) dowritePkt(pkt packet.Packet) error {
 	err := packet.EncodeToWriter(pkt, bc.netconn)
 	if err != nil {
 		bc.log.Errorf("conn write down err: %s, clientID: %d, packetID: %d, packetType: %s",
 			err, bc.clientID, pkt.ID(), pkt.Type().String())
-		if record && bc.failedCh != nil {
-			// only upper layer packet need to be notified
-			bc.failedCh <- pkt
-		}
+		bc.failed(pkt)
 	}
 	return err
 }
@@ -152,9 +363,14 @@ func (bc *baseConn) readPkt() {
 		}
 		bc.log.Tracef("read %s , clientID: %d, packetID: %d, packetType: %s",
 			pkt.Type().String(), bc.clientID, pkt.ID(), pkt.Type().String())
-		readInCh <- pkt
+		select {
+		case readInCh <- pkt:
+		case <-bc.doneCh:
+			return
+		}
 	}
 FINI:
+	bc.broken()
 	close(readInCh)
 }
 
@@ -170,10 +386,11 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 		return iodefine.IOErr
 	}
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
-	// send our side close while receiving close packet
-	bc.Close()
-	return iodefine.IOSuccess
+	ret := bc.handleOutDisConnAckPacket(retPkt)
+	// send our side close while receiving close packet, and don't wait since
+	// it's us to handle it
+	go bc.Close()
+	return ret
 }
 
 func (bc *baseConn) handleInDisConnAckPacket(pkt *packet.DisConnAckPacket) iodefine.IORet {
@@ -200,7 +417,7 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	bc.writeOutCh <- pkt
+	bc.sendDown(pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
@@ -213,11 +430,8 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	// make sure this packet is flushed before writeOutCh closed
-	err = bc.dowritePkt(pkt, false)
-	if err != nil {
-		return iodefine.IOErr
-	}
+	// if it's the last packet, it's flushed before the net conn closed
+	bc.sendDown(pkt)
 	bc.log.Debugf("send dis conn ack succeed, clientID: %d, PacketID: %d, packetType: %s",
 		bc.clientID, pkt.ID(), pkt.Type().String())
 	if bc.fsm.State() == CLOSE_HALF {
@@ -227,7 +441,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	bc.sendDown(pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..68e034a 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -126,10 +126,7 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 		}
 	}
 	// io size
-	cc.readInCh = make(chan packet.Packet, cc.readInSize)
-	cc.writeOutCh = make(chan packet.Packet, cc.writeOutSize)
-	cc.readOutCh = make(chan packet.Packet, cc.readOutSize)
-	cc.writeInCh = make(chan packet.Packet, cc.writeInSize)
+	cc.initIO()
 	// timer
 	if !cc.tmrOutside {
 		cc.tmr = timer.NewTimer()
@@ -199,8 +196,13 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// in case of the conn ack is inserted before the sync
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	err := cc.Write(pkt)
+	if err != nil {
+		cc.shub.Cancel(pkt.PacketID, false)
+		return err
+	}
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -214,43 +216,15 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
-	for {
-		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
-			ret := cc.handleIn(pkt)
-			if ret == iodefine.IOErr {
-				cc.log.Errorf("handle in packet err, clientID: %d", cc.clientID)
-				goto FINI
-			}
-			if ret == iodefine.IOClosed {
-				cc.log.Debugf("handle in packet done, clientID: %d", cc.clientID)
-				goto FINI
-			}
-		case pkt := <-writeInCh:
-			ret := cc.handleOut(pkt)
-			if ret == iodefine.IOErr {
-				cc.log.Errorf("handle out packet err, clientID: %d", cc.clientID)
-				goto FINI
-			}
-			if ret == iodefine.IOClosed {
-				cc.log.Debugf("handle out packet done, clientID: %d", cc.clientID)
-				goto FINI
-			}
-		}
-	}
-FINI:
+	closed := cc.relay(cc.handleIn, cc.handleOut)
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	// only onlined Conn need to be notified
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
 	// only handlePkt leads to close other channels
-	cc.fini()
+	cc.fini(closed)
 }
 
 func (cc *ClientConn) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -300,12 +274,11 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 	if pkt.ConnData.Error != "" {
 		cc.shub.Error(pkt.PacketID, errors.New(pkt.ConnData.Error))
 		// close the conn
-		retPkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- retPkt
+		go cc.Close()
 		return iodefine.IOSuccess
 	}
-	cc.shub.Done(pkt.PacketID)
 	cc.onlined = true
+	cc.shub.Done(pkt.PacketID)
 	return iodefine.IOSuccess
 }
 
@@ -315,9 +288,10 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
-		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
+		// we may be closing
+		cc.log.Debugf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
-		return iodefine.IOErr
+		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
 }
@@ -329,7 +303,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	cc.sendUp(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -344,95 +318,54 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	cc.writeOutCh <- pkt
+	cc.sendDown(pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
-	cc.writeOutCh <- pkt
+	cc.sendDown(pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) sendHeartbeat(event *timer.Event) {
-	cc.connMtx.RLock()
-	if !cc.connOK {
-		cc.connMtx.RUnlock()
-		return
-	}
 	pkt := cc.pf.NewHeartbeatPacket()
-	cc.writeInCh <- pkt
-	cc.connMtx.RUnlock()
+	cc.Write(pkt)
 }
 
 func (cc *ClientConn) Close() {
 	cc.closeOnce.Do(func() {
-		cc.connMtx.RLock()
-		defer cc.connMtx.RUnlock()
-		if !cc.connOK {
-			return
-		}
-		if cc.hbTick != nil {
-			cc.hbTick.Cancel()
-			cc.hbTick = nil
-		}
+		cc.hbTick.Cancel()
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
-		pkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- pkt
+		cc.disconnect()
 	})
 }
 
-func (cc *ClientConn) fini() {
+func (cc *ClientConn) fini(closed bool) {
 	remote := "unknown"
 	if cc.netconn != nil {
 		remote = cc.netconn.RemoteAddr().String()
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
-	if cc.hbTick != nil {
-		cc.hbTick.Cancel()
-		cc.hbTick = nil
-	}
+	cc.hbTick.Cancel()
 	// collect shub
 	cc.shub.Close()
-	cc.shub = nil
-	// collect net.Conn
-	cc.netconn.Close()
-	cc.connMtx.Lock()
-	cc.connOK = false
-	close(cc.writeInCh)
-	cc.connMtx.Unlock()
-	for pkt := range cc.writeInCh {
-		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
-			cc.failedCh <- pkt
-		}
-	}
-	// the outside should care about channel status
-	close(cc.readOutCh)
-
-	close(cc.writeOutCh)
-	for pkt := range cc.writeOutCh {
-		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
-			cc.failedCh <- pkt
-		}
-	}
+	// collect net.Conn and channels
+	cc.finiIO(closed)
 	// collect timer
 	if !cc.tmrOutside {
 		cc.tmr.Close()
 	}
-	cc.tmr = nil
 	// collect fsm
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
-	cc.fsm = nil
-	// collect channels
-	cc.readInCh, cc.writeInCh, cc.writeOutCh = nil, nil, nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..4f7415a 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -105,10 +105,7 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 		opt(sc)
 	}
 	// io size
-	sc.readInCh = make(chan packet.Packet, sc.readInSize)
-	sc.writeOutCh = make(chan packet.Packet, sc.writeOutSize)
-	sc.readOutCh = make(chan packet.Packet, sc.readOutSize)
-	sc.writeInCh = make(chan packet.Packet, sc.writeInSize)
+	sc.initIO()
 	// timer
 	if !sc.tmrOutside {
 		sc.tmr = timer.NewTimer()
@@ -204,42 +201,7 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
-	for {
-		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
-			sc.log.Tracef("conn read in packet, clientID: %d, packetID: %d, packetType: %s",
-				sc.clientID, pkt.ID(), pkt.Type().String())
-			ret := sc.handleIn(pkt)
-			if ret == iodefine.IOErr {
-				sc.log.Errorf("conn handle in packet err, clientID: %d", sc.clientID)
-				goto FINI
-			}
-			if ret == iodefine.IOClosed {
-				sc.log.Debugf("conn handle in packet done, clientID: %d", sc.clientID)
-				goto FINI
-			}
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! should never be here.
-				goto FINI
-			}
-			ret := sc.handleOut(pkt)
-			if ret == iodefine.IOErr {
-				sc.log.Errorf("conn handle out packet err, clientID: %d", sc.clientID)
-				goto FINI
-			}
-			if ret == iodefine.IOClosed {
-				sc.log.Debugf("conn handle out packet done, clientID: %d", sc.clientID)
-				goto FINI
-			}
-		}
-	}
-FINI:
+	closed := sc.relay(sc.handleIn, sc.handleOut)
 	sc.log.Debugf("handle pkt done, clientID: %d", sc.clientID)
 	// only onlined Conn need to be notified
 	if sc.dlgt != nil && sc.onlined {
@@ -247,7 +209,7 @@ FINI:
 		sc.dlgt.ConnOffline(sc)
 	}
 	// only handlePkt leads this fini, and reclaims all channels and other resources
-	sc.fini()
+	sc.fini(closed)
 }
 
 func (sc *ServerConn) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -267,8 +229,6 @@ func (sc *ServerConn) handleIn(pkt packet.Packet) iodefine.IORet {
 
 func (sc *ServerConn) handleOut(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
-	case *packet.ConnAckPacket:
-		return sc.handleOutConnAckPacket(realPkt)
 	case *packet.DisConnPacket:
 		return sc.handleOutDisConnPacket(realPkt)
 	case *packet.DisConnAckPacket:
@@ -304,8 +264,7 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			sc.log.Warnf("get ID err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s",
 				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
-			sc.writeInCh <- retPkt
-			return iodefine.IOSuccess
+			return sc.handleOutConnAckPacket(retPkt)
 		}
 	} else {
 		// TODO server must use this clientID, we should check if the clientID legal
@@ -319,18 +278,21 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 
 			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
-			sc.writeInCh <- retPkt
-			return iodefine.IOSuccess
+			return sc.handleOutConnAckPacket(retPkt)
 		}
 	}
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
+	// nothing else must be sent before the conn ack
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
-	sc.writeInCh <- retPkt
+	ret := sc.handleOutConnAckPacket(retPkt)
+	if ret != iodefine.IOSuccess {
+		return ret
+	}
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	// the first packet received.
+	sc.shub.Ack(sc.getSyncID(), nil)
 	return iodefine.IOSuccess
 }
 
@@ -346,7 +308,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
-	sc.writeOutCh <- retPkt
+	sc.sendDown(retPkt)
 	if sc.dlgt != nil {
 		sc.dlgt.Heartbeat(sc)
 	}
@@ -365,7 +327,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	sc.sendUp(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -378,7 +340,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
-		sc.writeOutCh <- pkt
+		sc.sendDown(pkt)
 		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
@@ -388,7 +350,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
-	sc.writeOutCh <- pkt
+	sc.sendDown(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	sc.onlined = true
@@ -397,26 +359,20 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 
 func (sc *ServerConn) Close() {
 	sc.closeOnce.Do(func() {
-		sc.connMtx.RLock()
-		defer sc.connMtx.RUnlock()
-		if !sc.connOK {
-			return
-		}
-
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
-		pkt := sc.pf.NewDisConnPacket()
-		sc.writeInCh <- pkt
+		sc.disconnect()
 	})
 }
 
 func (sc *ServerConn) closeWrapper(_ *yafsm.Event) {
-	sc.Close()
+	// don't wait since it's handlePkt to handle it
+	go sc.Close()
 }
 
 // finish and reclaim resources
-func (sc *ServerConn) fini() {
+func (sc *ServerConn) fini(closed bool) {
 	sc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
@@ -426,47 +382,21 @@ func (sc *ServerConn) fini() {
 	// cancel the heartbeat
 	if sc.hbTick != nil {
 		sc.hbTick.Cancel()
-		sc.hbTick = nil
 	}
 
 	// collect shub
 	sc.shub.Close()
-	sc.shub = nil
-	// collect net.Conn
-	sc.netconn.Close()
-	// lock protect conn status and input resource
-	sc.connMtx.Lock()
-	sc.connOK = false
-	close(sc.writeInCh)
-	sc.connMtx.Unlock()
-	// writeInCh must be cared since buffer might still has data
-	for pkt := range sc.writeInCh {
-		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
-			sc.failedCh <- pkt
-		}
-	}
-	// the outside should care about channel status
-	close(sc.readOutCh)
-	// writeOutCh must be cared since writhPkt might quit first
-	close(sc.writeOutCh)
-	for pkt := range sc.writeOutCh {
-		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
-			sc.failedCh <- pkt
-		}
-	}
+	// collect net.Conn and channels
+	sc.finiIO(closed)
 	// collect timer
 	if !sc.tmrOutside {
 		sc.tmr.Close()
 	}
-	sc.tmr = nil
 	// collect fsm
 	sc.fsm.EmitEvent(ET_FINI)
 	sc.fsm.Close()
-	sc.fsm = nil
 	// collect id
 	sc.clientIDs = nil
-	// collect channels
-	sc.readInCh, sc.writeInCh, sc.writeOutCh = nil, nil, nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
-- 
2.43.0


From 92767c0f892e3cde0042e270ccf3f1caa71e159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 02/23] fix: multiplexer: don't lose packets, block or panic
 when dialogues open, close and fail concurrently

---
 multiplexer/dialogue.go     | 358 +++++++++++++++++++++---------------
 multiplexer/dialogue_hub.go |   7 +-
 multiplexer/dialogue_mgr.go | 163 +++++++++-------
 3 files changed, 312 insertions(+), 216 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..4604673 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -37,6 +38,10 @@ const (
 	ET_FINI        = "fini"
 )
 
+// closeTimeout bounds the delivery of what has been received after the under
+// layer is lost.
+const closeTimeout = 10 * time.Second
+
 type dialogue struct {
 	// options for timer, packet factory, log, delegate and meta
 	*opts
@@ -49,8 +54,8 @@ type dialogue struct {
 	// under layer
 	cn conn.Conn
 
-	onlined   bool
-	closewait synchub.Sync
+	onlined bool
+	side    geminio.Side
 
 	// dialogue id
 	negotiatingID       uint64
@@ -73,6 +78,19 @@ type dialogue struct {
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
 
+	// packets already handled but whose next channel was full, only touched
+	// by handlePkt
+	pendingIn, pendingOut []packet.Packet
+
+	// no more packets from the under layer
+	closeCh chan struct{}
+	// the dialogue takes no more packets
+	doneCh chan struct{}
+	// writePkt quit
+	writeDoneCh chan struct{}
+	// all resources are reclaimed
+	finiCh chan struct{}
+
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
 }
@@ -135,10 +153,17 @@ func OptionDialogueBufferSize(read, write int) DialogueOption {
 	}
 }
 
+func optionDialogueSide(side geminio.Side) DialogueOption {
+	return func(dg *dialogue) {
+		dg.side = side
+	}
+}
+
 func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogue, error) {
 	dg := &dialogue{
 		opts:         baseOpts,
 		meta:         cn.Meta(),
+		side:         cn.Side(),
 		dialogueID:   packet.SessionIDNull,
 		cn:           cn,
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
@@ -161,6 +186,10 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 	dg.writeOutCh = make(chan packet.Packet, dg.writeOutSize)
 	dg.readOutCh = make(chan packet.Packet, dg.readOutSize)
 	dg.writeInCh = make(chan packet.Packet, dg.writeInSize)
+	dg.closeCh = make(chan struct{})
+	dg.doneCh = make(chan struct{})
+	dg.writeDoneCh = make(chan struct{})
+	dg.finiCh = make(chan struct{})
 
 	dg.shub = synchub.NewSyncHub(synchub.OptionTimer(dg.tmr))
 	// packet factory
@@ -194,9 +223,9 @@ func (dg *dialogue) DialogueID() uint64 {
 	return dg.dialogueID
 }
 
-// TODO
+// Side is the initiator if the dialogue is opened by us
 func (dg *dialogue) Side() geminio.Side {
-	return geminio.RecipientSide
+	return dg.side
 }
 
 func (dg *dialogue) Peer() string {
@@ -211,27 +240,26 @@ func (dg *dialogue) Write(pkt packet.Packet) error {
 		return io.EOF
 	}
 	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
-	select {
-	case dg.writeInCh <- pkt:
-		/*
-			// TODO optimize it
-			default:
-				return fmt.Errorf("%s, len: %d", io.ErrShortBuffer, len(dg.writeInCh))
-		*/
-	}
-	return nil
+	return dg.writeIn(pkt)
 }
 
 func (dg *dialogue) WriteWait(pkt packet.Packet) error {
-	dg.mtx.RLock()
-	defer dg.mtx.RUnlock()
+	return dg.Write(pkt)
+}
 
-	if !dg.dialogueOK {
+// writeIn must be called with mtx locked
+func (dg *dialogue) writeIn(pkt packet.Packet) error {
+	select {
+	case dg.writeInCh <- pkt:
+		return nil
+	case <-dg.doneCh:
 		return io.EOF
 	}
-	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
-	dg.writeInCh <- pkt
-	return nil
+}
+
+// Done is closed once the dialogue takes no more packets
+func (dg *dialogue) Done() <-chan struct{} {
+	return dg.doneCh
 }
 
 func (dg *dialogue) Read() (packet.Packet, error) {
@@ -265,7 +293,7 @@ func (dg *dialogue) initFSM() {
 	// receiver
 	dg.fsm.AddEvent(ET_SESSIONRECV, init, sessionrecv)
 	dg.fsm.AddEvent(ET_SESSIONACK, sessionrecv, sessioned)
-	dg.fsm.AddEvent(ET_ERROR, sessionrecv, sessionrecv, dg.closeWrapper)
+	dg.fsm.AddEvent(ET_ERROR, sessionrecv, sessionrecv)
 
 	// both
 	dg.fsm.AddEvent(ET_DISMISSSENT, sessionrecv, dismisssent)
@@ -308,24 +336,23 @@ func (dg *dialogue) open() error {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
-	dg.writeInCh <- pkt
+	err := dg.writeIn(pkt)
 	dg.mtx.RUnlock()
+	if err != nil {
+		return err
+	}
 
 	event := <-sync.C()
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
-			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+			event.Error, dg.cn.ClientID(), dg.negotiatingID)
 	}
 	return event.Error
 }
 
 // we may or not separate the goroutine because the underlay is still a channel
 func (dg *dialogue) writePkt() {
+	defer close(dg.writeDoneCh)
 	writeOutCh := dg.writeOutCh
 	err := error(nil)
 
@@ -343,7 +370,7 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-				return
+				// keep on draining, don't let handlePkt be blocked
 			}
 		}
 	}
@@ -362,55 +389,108 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 	return err
 }
 
-func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
+// sendDown passes the packet to the under layer in order. If the under layer
+// is busy, handlePkt takes nothing more from outside until the packet is
+// passed, but keeps on handling what's received.
+func (dg *dialogue) sendDown(pkt packet.Packet) {
+	if len(dg.pendingOut) == 0 {
+		select {
+		case dg.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	dg.pendingOut = append(dg.pendingOut, pkt)
+}
+
+// sendUp passes the packet to outside in order. If the outside is busy,
+// handlePkt takes nothing more from the under layer until the packet is passed,
+// but keeps on sending.
+func (dg *dialogue) sendUp(pkt packet.Packet) {
+	if len(dg.pendingIn) == 0 {
+		select {
+		case dg.readOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	dg.pendingIn = append(dg.pendingIn, pkt)
+}
+
+// input passes the packet from the under layer to the dialogue
+func (dg *dialogue) input(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.doneCh:
+	case <-dg.closeCh:
+	}
+}
+
+// relay handles packets from both directions until the dialogue is over, true
+// is returned if the dismiss handshake finished.
+func (dg *dialogue) relay() bool {
+	closeCh := dg.closeCh
+	drain := (<-chan time.Time)(nil)
 
 	for {
+		inCh, outCh := dg.readInCh, dg.writeInCh
+		upCh, downCh := chan packet.Packet(nil), chan packet.Packet(nil)
+		up, down := packet.Packet(nil), packet.Packet(nil)
+		if len(dg.pendingIn) != 0 {
+			inCh, upCh, up = nil, dg.readOutCh, dg.pendingIn[0]
+		}
+		if len(dg.pendingOut) != 0 {
+			outCh, downCh, down = nil, dg.writeOutCh, dg.pendingOut[0]
+		}
+		if closeCh == nil && upCh == nil && len(dg.readInCh) == 0 {
+			// the under layer is lost and all received is delivered
+			return false
+		}
+
+		ret := iodefine.IOSuccess
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case pkt := <-inCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-			ret := dg.handleIn(pkt)
-			switch ret {
-			case iodefine.IONewActive, iodefine.IOSuccess:
-				continue
-			case iodefine.IOClosed:
-				goto FINI
-			case iodefine.IOErr:
-				goto FINI
-			}
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
-			}
+			ret = dg.handleIn(pkt)
+		case pkt := <-outCh:
 			dg.log.Tracef("dialogue write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-			ret := dg.handleOut(pkt)
-			switch ret {
-			case iodefine.IONewPassive, iodefine.IOSuccess:
-				continue
-			case iodefine.IOClosed:
-				goto FINI
-			case iodefine.IOErr:
-				goto FINI
-			}
+			ret = dg.handleOut(pkt)
+		case upCh <- up:
+			dg.pendingIn = dg.pendingIn[1:]
+		case downCh <- down:
+			dg.pendingOut = dg.pendingOut[1:]
+		case <-closeCh:
+			closeCh = nil
+			tmr := time.NewTimer(closeTimeout)
+			defer tmr.Stop()
+			drain = tmr.C
+		case <-drain:
+			return false
+		}
+		switch ret {
+		case iodefine.IOClosed:
+			return true
+		case iodefine.IOErr:
+			return false
 		}
 	}
-FINI:
+}
+
+func (dg *dialogue) handlePkt() {
+	closed := dg.relay()
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
 		dg.dlgt.DialogueOffline(dg)
+	} else if dm, ok := dg.dlgt.(*dialogueMgr); ok {
+		dm.delDialogue(dg)
 	}
 	// only handlePkt leads to this fini, and reclaims all channels and other resources
-	dg.fini()
+	dg.fini(closed)
 }
 
 func (dg *dialogue) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -432,8 +512,6 @@ func (dg *dialogue) handleOut(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.SessionPacket:
 		return dg.handleOutSessionPacket(realPkt)
-	case *packet.SessionAckPacket:
-		return dg.handleOutSessionAckPacket(realPkt)
 	case *packet.DismissPacket:
 		return dg.handleOutDismissPacket(realPkt)
 	case *packet.DismissAckPacket:
@@ -465,8 +543,7 @@ func (dg *dialogue) handleInSessionPacket(pkt *packet.SessionPacket) iodefine.IO
 	dg.meta = pkt.SessionData.Meta
 
 	retPkt := dg.pf.NewSessionAckPacket(pkt.PacketID, pkt.NegotiateID(), dialogueID, nil)
-	dg.writeInCh <- retPkt
-	return iodefine.IOSuccess
+	return dg.handleOutSessionAckPacket(retPkt)
 }
 
 func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodefine.IORet {
@@ -479,8 +556,12 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
+	if pkt.SessionData.Error != "" {
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
+	dg.onlined = true
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
@@ -489,7 +570,6 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.log.Infof("read dialogue ack packet and no waiting sync, clientID: %d, dialogueID: %d, packetID: %d",
 			dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	}
-	dg.onlined = true
 	return iodefine.IONewActive
 }
 
@@ -504,10 +584,11 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 	}
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
-	// send out side dismiss while receiving dismiss packet
-	dg.Close()
-	return iodefine.IOSuccess
+	ret := dg.handleOutDismissAckPacket(retPkt)
+	// send out side dismiss while receiving dismiss packet, and don't wait
+	// since it's us to handle it
+	go dg.Close()
+	return ret
 }
 
 func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefine.IORet {
@@ -522,10 +603,6 @@ func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefin
 	if dg.fsm.State() == DISMISS_HALF {
 		return iodefine.IOSuccess
 	}
-	if dg.closewait != nil {
-		// and CloseWait is waiting for the completion.
-		dg.closewait.Done()
-	}
 	return iodefine.IOClosed
 }
 
@@ -541,7 +618,7 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	dg.sendUp(pkt)
 	return iodefine.IOSuccess
 }
 
@@ -553,7 +630,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.sendDown(pkt)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -573,10 +650,10 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 				return iodefine.IOErr
 			}
-			dg.writeOutCh <- pkt
-			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
+			dg.sendDown(pkt)
+			// to tell peer the dialogue handshake is error, and both sides should finish the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
-			return iodefine.IOSuccess
+			return iodefine.IOClosed
 		}
 	}
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
@@ -585,7 +662,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.sendDown(pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
@@ -600,7 +677,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.sendDown(pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -613,25 +690,19 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), dg.fsm.State())
 		return iodefine.IOErr
 	}
-	// make sure this packet is flushed before writeOutCh closed
-	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
-	// because this packet should be after all upper layer packets
-	// at last the close(dg.writeOutCh) makes sure the flush
-	dg.writeOutCh <- pkt
+	// this packet should be after all upper layer packets, and at last the
+	// flush makes sure it's written
+	dg.sendDown(pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
 		return iodefine.IOSuccess
 	}
-	if dg.closewait != nil {
-		// and CloseWait is waiting for the completion.
-		dg.closewait.Done()
-	}
 	return iodefine.IOClosed
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	dg.sendDown(pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -639,10 +710,6 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
@@ -651,101 +718,92 @@ func (dg *dialogue) Close() {
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
-
+		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
+		// we need a tick in case of never receiving the dismiss ack packet
+		sync := dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
-			event := <-dg.closewait.C()
-			if event.Error != nil {
-				dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
-					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
-				if event.Error == synchub.ErrSyncTimeout {
-					// timeout and exit the dialogue
-					dg.closeIO()
-				}
+			event := <-sync.C()
+			dg.log.Debugf("dialogue close wait err: %v, clientID: %d, peerDialogueID: %d, dialogueID: %d",
+				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
+			if event.Error == synchub.ErrSyncTimeout {
+				// timeout and exit the dialogue
+				dg.closeIO()
 			}
 		}()
+		dg.writeIn(pkt)
 	})
 }
 
 func (dg *dialogue) CloseWait() {
 	// send close packet and wait for the end
-	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		dg.mtx.RLock()
-		if !dg.dialogueOK {
-			dg.mtx.RUnlock()
-			return
-		}
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-		dg.log.Debugf("dialogue is closing, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
-
-		dg.writeInCh <- pkt
-		dg.mtx.RUnlock()
-		// the sync shouldn't be locked
-		event := <-dg.closewait.C()
-		if event.Error != nil {
-			dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
-				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
-			if event.Error == synchub.ErrSyncTimeout {
-				// timeout and exit the dialogue
-				dg.closeIO()
-			}
-			return
-		}
-		dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
-		return
-	})
+	dg.Close()
+	<-dg.finiCh
+	dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
+		dg.cn.ClientID(), dg.dialogueID)
 }
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.closeCh)
 	})
 }
 
-func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
-	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
-		dg.cn.ClientID(), dg.dialogueID)
-	dg.Close()
-}
-
 // finish and reclaim resources
-func (dg *dialogue) fini() {
+func (dg *dialogue) fini(closed bool) {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// whoever is writing must give up before the channel's closed
+	close(dg.doneCh)
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
 	dg.dialogueOK = false
 	close(dg.writeInCh)
 	dg.mtx.Unlock()
 
+	// the outside should care about channel status
+	close(dg.readOutCh)
+	if closed {
+		// make sure packets handled are written
+		dg.flush()
+	}
 	// collect shub
 	dg.shub.Close()
-	dg.shub = nil
 
 	for pkt := range dg.writeInCh {
 		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
 			dg.failedCh <- pkt
 		}
 	}
-	// the outside should care about channel status
-	close(dg.readOutCh)
-	// writeOutCh must be cared since writhPkt might quit first
-	close(dg.writeOutCh)
-	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
-	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
+	if !closed {
+		close(dg.writeOutCh)
+	}
+	dg.pendingIn, dg.pendingOut = nil, nil
 
 	// collect fsm
 	dg.fsm.EmitEvent(ET_FINI)
 	dg.fsm.Close()
-	dg.fsm = nil
+	close(dg.finiCh)
 
 	dg.log.Debugf("dialogue finished, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
+}
 
+// flush makes sure packets handled are written to the under layer
+func (dg *dialogue) flush() {
+	for len(dg.pendingOut) != 0 {
+		select {
+		case dg.writeOutCh <- dg.pendingOut[0]:
+			dg.pendingOut = dg.pendingOut[1:]
+		case <-dg.closeCh:
+			close(dg.writeOutCh)
+			return
+		}
+	}
+	close(dg.writeOutCh)
+	select {
+	case <-dg.writeDoneCh:
+	case <-dg.closeCh:
+	}
 }
diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index a764f98..c62cdbc 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -152,6 +152,7 @@ func (dh *dialogueHub) OpenDialogue(clientID uint64, meta []byte) (Dialogue, err
 		dh.mtx.Lock()
 		delete(dh.negotiatingDialogues, key)
 		dh.mtx.Unlock()
+		dg.closeIO()
 		return nil, err
 	}
 
@@ -162,7 +163,7 @@ func (dh *dialogueHub) OpenDialogue(clientID uint64, meta []byte) (Dialogue, err
 
 	if !dh.hubOK {
 		// !hubOK only happends after dialogueMgr fini, so fini the dialogue
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 
@@ -328,12 +329,12 @@ func (dh *dialogueHub) fini() {
 	// collect all dialogues
 	for id, dg := range dh.dialogues {
 		// cause the dialogue io err
-		close(dg.readInCh)
+		dg.closeIO()
 		delete(dh.dialogues, id)
 	}
 	for id, dg := range dh.negotiatingDialogues {
 		// cause the dialogue io err
-		close(dg.readInCh)
+		dg.closeIO()
 		delete(dh.dialogues, id)
 	}
 
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..f9941d5 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,10 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
+	// the manager is finished
+	doneCh chan struct{}
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -142,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		doneCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -193,9 +197,8 @@ ERR:
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
@@ -204,6 +207,9 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	dm.mtx.Unlock()
+
+	// don't call outside or wait with lock
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -212,8 +218,10 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dm.doneCh:
+		}
 	}
 	return nil
 }
@@ -223,29 +231,42 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	dialogueID := dg.DialogueID()
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
-	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
-	_, ok := dm.dialogues[dialogueID]
-	if ok {
-		delete(dm.dialogues, dialogueID)
-		if dm.dlgt != nil {
-			dm.dlgt.DialogueOffline(dg)
-		}
-	} else {
-		dm.log.Warnf("dialogue offline, cliengID: %d, dialogueID: %d not found", clientID, dialogueID)
+	ok := dm.delDialogue(dg.(*dialogue))
+	// whoever is onlined must be offlined, even the manager is finished
+	if dm.dlgt != nil {
+		dm.dlgt.DialogueOffline(dg)
 	}
 	// notify outside that a dialogue is closed
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		case <-dm.doneCh:
+		}
+	}
+	if !ok {
+		dm.log.Debugf("dialogue offline, cliengID: %d, dialogueID: %d not found", clientID, dialogueID)
+		// unsucceed dialogue
+		return ErrDialogueNotFound
+	}
+	return nil
+}
 
+// delDialogue forgets the dialogue
+func (dm *dialogueMgr) delDialogue(dg *dialogue) bool {
+	dm.mtx.Lock()
+	defer dm.mtx.Unlock()
+
+	if dm.negotiatingDialogues[dg.negotiatingID] == dg {
+		delete(dm.negotiatingDialogues, dg.negotiatingID)
+	}
+	if dm.dialogues[dg.dialogueID] == dg {
+		delete(dm.dialogues, dg.dialogueID)
+		return true
 	}
-	// unsucceed dialogue
-	return ErrDialogueNotFound
+	return false
 }
 
 func (dm *dialogueMgr) getID() uint64 {
@@ -272,12 +293,18 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		OptionDialogueLogger(dm.log),
 		OptionDialoguePacketFactory(dm.pf),
 		OptionDialogueMeta(meta),
-		OptionDialoguePeer(peer))
+		OptionDialoguePeer(peer),
+		optionDialogueSide(geminio.InitiatorSide))
 	if err != nil {
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -285,22 +312,18 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 	if err != nil {
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
+		_, negotiating := dm.negotiatingDialogues[negotiatingID]
 		delete(dm.negotiatingDialogues, negotiatingID)
 		dm.mtx.Unlock()
+		if negotiating {
+			dg.closeIO()
+		} else {
+			// the session ack came too late, peer must be dismissed
+			dg.Close()
+		}
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
-	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.fini()
-		return nil, ErrOperationOnClosedMultiplexer
-	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
+	// the dialogue was moved to dialogues while the session ack came
 	return dg, nil
 }
 
@@ -309,11 +332,7 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
-		return nil, io.EOF
-	}
-	return dg, nil
+	return dm.waitDialogue(dm.dialogueAcceptCh)
 }
 
 // ClosedDialogue blocks until success or end
@@ -321,11 +340,21 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
-		return nil, io.EOF
+	return dm.waitDialogue(dm.dialogueClosedCh)
+}
+
+func (dm *dialogueMgr) waitDialogue(ch chan *dialogue) (Dialogue, error) {
+	select {
+	case dg := <-ch:
+		return dg, nil
+	case <-dm.doneCh:
+		select {
+		case dg := <-ch:
+			return dg, nil
+		default:
+			return nil, io.EOF
+		}
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -343,6 +372,8 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	dialogue, ok := dm.dialogues[dialogueID]
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
@@ -366,6 +397,9 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// don't let the under layer be blocked before it's closed
+	for range dm.cn.ChannelRead() {
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
@@ -380,29 +414,37 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			OptionDialogueLogger(dm.log),
 			OptionDialoguePacketFactory(dm.pf),
 			OptionDialogueMeta(realPkt.SessionData.Meta),
-			OptionDialoguePeer(realPkt.SessionData.Peer))
+			OptionDialoguePeer(realPkt.SessionData.Peer),
+			optionDialogueSide(geminio.RecipientSide))
 		if err != nil {
 			dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 			return
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.input(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
-			// TODO we must warn the dialogue initiator
+			dm.mtx.Unlock()
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			if realPkt.SessionData.Error == "" {
+				// warn the dialogue acceptor that the initiator gave up
+				go dm.cn.Write(dm.pf.NewDismissPacket(realPkt.SessionID()))
+			}
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
-		dm.mtx.RUnlock()
+		// data or dismiss may follow the packet, the dialogue must be found.
+		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+		if realPkt.SessionData.Error == "" {
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
+		dm.mtx.Unlock()
+		dg.input(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -418,16 +460,20 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			// maybe the dialogue is in negotiating
 			dg, ok = dm.negotiatingDialogues[dialogueID]
 			if !ok {
+				dm.mtx.RUnlock()
 				dm.log.Errorf("clientID: %d, unable to find dialogueID: %d, packetID: %d, packetType: %s",
 					dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-				dm.mtx.RUnlock()
+				if dismiss, ok := pkt.(*packet.DismissPacket); ok {
+					// we have no such dialogue, let peer finish it
+					go dm.cn.Write(dm.pf.NewDismissAckPacket(dismiss.ID(), dialogueID, nil))
+				}
 				return
 			}
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		dg.input(pkt)
 	}
 }
 
@@ -458,7 +504,7 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
@@ -471,6 +517,7 @@ func (dm *dialogueMgr) fini() {
 
 	// collect conn status
 	dm.mgrOK = false
+	close(dm.doneCh)
 	// collect all dialogues
 	for id, dg := range dm.dialogues {
 		// cause the dialogue io err
@@ -485,20 +532,10 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	dm.dialogueIDs = nil
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
-- 
2.43.0


From fd4b41bcf7428774033e1c9f16e6ee2a06dbcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 03/23] fix: application: don't lose, block or panic when
 streams write, close and fail concurrently, honour options and deadlines

---
 application/end.go     |  53 ++++---
 application/message.go | 131 ++++++++++------
 application/raw.go     | 208 ++++++++++--------------
 application/rpc.go     | 181 +++++++++++++--------
 application/stream.go  | 348 +++++++++++++++++++++++++++--------------
 5 files changed, 534 insertions(+), 387 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..4109cb2 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -157,22 +156,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
-		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
+		// wait first and then check whether remote RPCs have been registered, in
+		// case of being registered between both
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				sync.DoneSub(method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
@@ -195,9 +192,7 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 	if err != nil {
 		return nil, err
 	}
-	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
-	return sm, nil
+	return newStream(end, end.cn, dg, end.opts), nil
 }
 
 func (end *End) delStream(streamID uint64) {
@@ -209,9 +204,7 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 	if err != nil {
 		return nil, err
 	}
-	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
-	return sm, nil
+	return newStream(end, end.cn, dg, end.opts), nil
 }
 
 func (end *End) Accept() (net.Conn, error) {
@@ -233,7 +226,25 @@ func (end *End) Addr() net.Addr {
 
 func (end *End) Close() error {
 	end.onceClose.Do(func() {
+		// everything written before should be delivered
+		wg := sync.WaitGroup{}
+		end.streams.Range(func(_, value interface{}) bool {
+			sm := value.(*stream)
+			sm.close()
+			wg.Add(1)
+			go func() {
+				defer wg.Done()
+				sm.flush()
+			}()
+			return true
+		})
+		wg.Wait()
 		end.multiplexer.Close()
+		// those accepted or opened meanwhile
+		end.streams.Range(func(_, value interface{}) bool {
+			value.(*stream).close()
+			return true
+		})
 		end.cn.Close()
 		if end.tmrOwner == end {
 			end.tmr.Close()
@@ -247,7 +258,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
@@ -255,7 +265,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/message.go b/application/message.go
index 51c95c5..591c4e8 100644
--- a/application/message.go
+++ b/application/message.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jumboframes/armorigo/synchub"
 	"github.com/singchia/geminio"
 	"github.com/singchia/geminio/options"
+	"github.com/singchia/geminio/packet"
 )
 
 // geminio.Messager
@@ -36,17 +37,43 @@ func (sm *stream) NewMessage(data []byte, opts ...*options.NewMessageOptions) ge
 
 func (sm *stream) ackMessage(pktID uint64, err error) error {
 	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
 	if !sm.streamOK {
-		sm.mtx.RUnlock()
 		return io.EOF
 	}
-
-	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	sm.reply(sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err))
 	return nil
 }
 
+// newMessagePacket transfers the message to underlayer packet
+func (sm *stream) newMessagePacket(ctx context.Context, msg geminio.Message) *packet.MessagePacket {
+	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
+	if msg.Timeout() != 0 {
+		pkt.Data.Timeout = msg.Timeout()
+		pkt.Data.Deadline = time.Now().Add(msg.Timeout())
+	}
+	pkt.Data.Topic = msg.Topic()
+	pkt.Data.Custom = msg.Custom()
+
+	deadline, ok := ctx.Deadline()
+	if ok {
+		pkt.Data.Context.Deadline = deadline
+	}
+	return pkt
+}
+
+// publishAtMostOnce must be called with mtx locked
+func (sm *stream) publishAtMostOnce(ctx context.Context, pkt packet.Packet) error {
+	select {
+	case sm.writeInCh <- pkt:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-sm.doneCh:
+		return io.EOF
+	}
+}
+
 // Publish to peer, a sync function
 func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*options.PublishOptions) error {
 	if msg.ClientID() != sm.cn.ClientID() {
@@ -55,34 +82,27 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	if msg.StreamID() != sm.dg.DialogueID() {
 		return ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return io.EOF
-	}
 	// TODO optimize
 	opt := options.MergePublishOptions(opts...)
 	if opt.Timeout != nil {
 		msg.SetTimeout(*opt.Timeout)
 	}
-
-	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
-	if msg.Timeout() != 0 {
-		pkt.Data.Deadline = time.Now().Add(msg.Timeout())
+	if msg.Timeout() < 0 {
+		return synchub.ErrSyncTimeout
 	}
-	pkt.Data.Topic = msg.Topic()
-	pkt.Data.Custom = msg.Custom()
 
-	deadline, ok := ctx.Deadline()
-	if ok {
-		pkt.Data.Context.Deadline = deadline
+	sm.mtx.RLock()
+	if !sm.streamOK || sm.closed() {
+		sm.mtx.RUnlock()
+		return io.EOF
 	}
+	pkt := sm.newMessagePacket(ctx, msg)
 
 	if msg.Cnss() == options.CnssAtMostOnce {
-		// if consistency is set to be AtMostOnce, we don't care about context or timeout
-		sm.writeInCh <- pkt
+		// if consistency is set to be AtMostOnce, we don't wait for the ack
+		err := sm.publishAtMostOnce(ctx, pkt)
 		sm.mtx.RUnlock()
-		return nil
+		return err
 	}
 	var sync synchub.Sync
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx)}
@@ -91,10 +111,19 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
 	sync = sm.shub.New(msg.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+
+	event := (*synchub.Event)(nil)
+	select {
+	case sm.writeInCh <- pkt:
+	case event = <-sync.C():
+		// the message is never sent
+	case <-sm.doneCh:
+	}
 	sm.mtx.RUnlock()
 
-	event := <-sync.C()
+	if event == nil {
+		event = <-sync.C()
+	}
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -114,36 +143,25 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	if msg.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return nil, io.EOF
-	}
-
 	// TODO optimize
 	opt := options.MergePublishOptions(opts...)
 	if opt.Timeout != nil {
 		msg.SetTimeout(*opt.Timeout)
 	}
-
-	now := time.Now()
-	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
-	if msg.Timeout() != 0 {
-		pkt.Data.Deadline = now.Add(msg.Timeout())
+	if msg.Timeout() < 0 {
+		return nil, synchub.ErrSyncTimeout
 	}
-	pkt.Data.Topic = msg.Topic()
-	pkt.Data.Custom = msg.Custom()
 
-	deadline, ok := ctx.Deadline()
-	if ok {
-		pkt.Data.Context.Deadline = deadline
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK || sm.closed() {
+		return nil, io.EOF
 	}
+	pkt := sm.newMessagePacket(ctx, msg)
 
 	if msg.Cnss() == options.CnssAtMostOnce {
-		// if consistency is set to be AtMostOnce, we don't care about context or timeout or async
-		sm.writeInCh <- pkt
-		sm.mtx.RUnlock()
-		return nil, nil
+		// if consistency is set to be AtMostOnce, we don't wait for the ack
+		return nil, sm.publishAtMostOnce(ctx, pkt)
 	}
 	if ch == nil {
 		// we don't want block here
@@ -153,19 +171,25 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Message: msg,
 		Done:    ch,
 	}
+	// closed once the publish is complete
+	done := make(chan struct{})
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			publish.Error = event.Error
-			ch <- publish
-			return
+		} else {
+			sm.log.Tracef("message return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		}
+		close(done)
+		select {
+		case ch <- publish:
+		default:
+			// the callback mustn't be blocked by the receiver
+			go func() { ch <- publish }()
 		}
-		sm.log.Tracef("message return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-		ch <- publish
-		return
 	})}
 	if msg.Timeout() != 0 {
 		// the sync may has timeout
@@ -173,8 +197,11 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// Add a new sync for the async publish
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	select {
+	case sm.writeInCh <- pkt:
+	case <-done:
+	case <-sm.doneCh:
+	}
 	return publish, nil
 }
 
diff --git a/application/raw.go b/application/raw.go
index 55930e9..016daa7 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,94 +1,79 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
 	"time"
 
-	"github.com/jumboframes/armorigo/synchub"
-)
-
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
+	"github.com/singchia/geminio/packet"
 )
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
+	// the order of bytes is kept only if one Read at a time
+	sm.readMtx.Lock()
+	defer sm.readMtx.Unlock()
 
-	sm.cacheMtx.Lock()
-	if sm.cache != nil && len(sm.cache) != 0 {
+	if len(b) == 0 {
+		return 0, nil
+	}
+	if len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
-	if sm.readDeadlineExceeded() {
+	dlCh, e := sm.waitDeadline(&sm.dlRead, sm.dlReadChList)
+	if e == nil {
+		// the deadline exceeded
 		select {
 		case pkt, ok := <-sm.streamCh:
-			if !ok {
-				return 0, io.EOF
-			}
-			sm.cacheMtx.Lock()
-			n := copy(b, pkt.Data)
-			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
-			return n, nil
+			return sm.read(b, pkt, ok)
 		default:
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlReadChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
+	// if we have't used the deadline channel, then release it
+	defer sm.releaseDeadline(sm.dlReadChList, e)
 
 	select {
 	case pkt, ok := <-sm.streamCh:
-		if !ok {
-			sm.dlMtx.Lock()
-			sm.dlReadChList.Remove(e)
-			sm.dlMtx.Unlock()
-			return 0, io.EOF
-		}
-		sm.cacheMtx.Lock()
-		n := copy(b, pkt.Data)
-		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
-
-		// if we have't used the deadline channel, then release it
-		sm.dlMtx.Lock()
-		sm.dlReadChList.Remove(e)
-		sm.dlMtx.Unlock()
-		return n, nil
+		return sm.read(b, pkt, ok)
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
 	}
 }
 
+// read must be called with readMtx locked
+func (sm *stream) read(b []byte, pkt *packet.StreamPacket, ok bool) (int, error) {
+	if !ok {
+		return 0, io.EOF
+	}
+	n := copy(b, pkt.Data)
+	sm.cache = pkt.Data[n:]
+	return n, nil
+}
+
 func (sm *stream) Write(b []byte) (int, error) {
 	sm.mtx.RLock()
 	defer sm.mtx.RUnlock()
 
-	if !sm.streamOK {
+	if !sm.streamOK || sm.closed() {
 		return 0, io.EOF
 	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 
 	newb := make([]byte, len(b))
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	dlCh, e := sm.waitDeadline(&sm.dlWrite, sm.dlWriteChList)
+	if e == nil {
+		// the deadline exceeded
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -96,20 +81,16 @@ func (sm *stream) Write(b []byte) (int, error) {
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlWriteChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
+	// if we have't used the deadline channel, then release it
+	defer sm.releaseDeadline(sm.dlWriteChList, e)
 
 	select {
 	case sm.writeInCh <- pkt:
-		sm.dlMtx.Lock()
-		sm.dlWriteChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return len(b), nil
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
+	case <-sm.doneCh:
+		return 0, io.EOF
 	}
 }
 
@@ -166,34 +147,7 @@ func (sm *stream) SetReadDeadline(t time.Time) error {
 }
 
 func (sm *stream) setReadDeadline(t time.Time) error {
-	if sm.dlReadSync != nil {
-		sm.dlReadSync.Cancel(false)
-		sm.dlReadSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
-	}
-	sm.dlRead = t
+	sm.setDeadline(t, &sm.dlRead, &sm.dlReadTimer, sm.dlReadChList)
 	return nil
 }
 
@@ -209,53 +163,59 @@ func (sm *stream) SetWriteDeadline(t time.Time) error {
 }
 
 func (sm *stream) setWriteDeadline(t time.Time) error {
-	if sm.dlWriteSync != nil {
-		sm.dlWriteSync.Cancel(false)
-		sm.dlWriteSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
-	}
-	sm.dlWrite = t
+	sm.setDeadline(t, &sm.dlWrite, &sm.dlWriteTimer, sm.dlWriteChList)
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+// setDeadline must be called with dlMtx locked
+func (sm *stream) setDeadline(t time.Time, dl *time.Time, dlTimer **time.Timer, chs *list.List) {
+	if *dlTimer != nil {
+		(*dlTimer).Stop()
+		*dlTimer = nil
+	}
+	*dl = t
+	if t.IsZero() {
+		return
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		notifyDeadline(chs)
+		return
+	}
+	tmr := (*time.Timer)(nil)
+	tmr = time.AfterFunc(duration, func() {
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		// the deadline may have been changed
+		if *dlTimer == tmr {
+			notifyDeadline(chs)
+		}
+	})
+	*dlTimer = tmr
+}
 
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
+// notifyDeadline notifies all waiting Read/Write that the deadline exceeds
+func notifyDeadline(chs *list.List) {
+	for e := chs.Front(); e != nil; e = chs.Front() {
+		close(chs.Remove(e).(chan struct{}))
 	}
-	return false
 }
 
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+// waitDeadline returns the channel closed once the deadline exceeds, and the
+// nil element if it already exceeds.
+func (sm *stream) waitDeadline(dl *time.Time, chs *list.List) (chan struct{}, *list.Element) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
 
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+	if !dl.IsZero() && time.Until(*dl) <= 0 {
+		return nil, nil
 	}
-	return false
+	dlCh := make(chan struct{})
+	return dlCh, chs.PushBack(dlCh)
+}
+
+func (sm *stream) releaseDeadline(chs *list.List, e *list.Element) {
+	sm.dlMtx.Lock()
+	chs.Remove(e)
+	sm.dlMtx.Unlock()
 }
diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..874a634 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -42,14 +42,18 @@ func (sm *stream) delLocalRPC(method string) {
 // Register will overwrite the old method if exists.
 func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC) error {
 	sm.mtx.RLock()
-	if !sm.streamOK {
+	if !sm.streamOK || sm.closed() {
 		sm.mtx.RUnlock()
 		return io.EOF
 	}
 	sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
 	sync := sm.shub.New(pkt.ID())
-	sm.writeInCh <- pkt
+	select {
+	case sm.writeInCh <- pkt:
+	case <-ctx.Done():
+	case <-sm.doneCh:
+	}
 	sm.mtx.RUnlock()
 	select {
 	case event := <-sync.C():
@@ -60,12 +64,46 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 			return event.Error
 		}
 	case <-ctx.Done():
+		sync.Cancel(false)
 		sm.delLocalRPC(method)
 		return ctx.Err()
 	}
 	return nil
 }
 
+// newRequestPacket transfers the request to underlayer packet
+func (sm *stream) newRequestPacket(ctx context.Context, method string, req geminio.Request) *packet.RequestPacket {
+	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
+	if req.Timeout() != 0 {
+		// if timeout exists, we should deliver it
+		pkt.Data.Timeout = req.Timeout()
+		pkt.Data.Deadline = time.Now().Add(req.Timeout())
+	}
+	pkt.Data.Custom = req.Custom()
+
+	deadline, ok := ctx.Deadline()
+	if ok {
+		// if deadline exists, we should deliver it
+		pkt.Data.Context.Deadline = deadline
+	}
+	return pkt
+}
+
+// cancelRequest notifies the peer that the request is canceled
+func (sm *stream) cancelRequest(reqID uint64) {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK {
+		return
+	}
+	cancelType := packet.RequestCancelTypeCanceled
+	cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(reqID, sm.dg.DialogueID(), cancelType)
+	select {
+	case sm.writeInCh <- cancelPkt:
+	case <-sm.doneCh:
+	}
+}
+
 func (sm *stream) Call(ctx context.Context, method string, req geminio.Request, opts ...*options.CallOptions) (geminio.Response, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -77,36 +115,22 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	if opt.Timeout != nil {
 		req.SetTimeout(*opt.Timeout)
 	}
+	if req.Timeout() < 0 {
+		return nil, synchub.ErrSyncTimeout
+	}
 
 	sm.mtx.RLock()
-	if !sm.streamOK {
+	if !sm.streamOK || sm.closed() {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
 
-	if sm.opts.remoteMethodCheck {
-		// check remote RPC exists
-		sm.rpcMtx.RLock()
-		_, ok := sm.remoteRPCs[method]
-		if !ok {
-			sm.rpcMtx.RUnlock()
-			return nil, ErrRemoteRPCUnregistered
-		}
-		sm.rpcMtx.RUnlock()
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
 	}
 	// transfer to underlayer packet
-	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
-	if req.Timeout() != 0 {
-		// if timeout exists, we should deliver it
-		pkt.Data.Deadline = time.Now().Add(req.Timeout())
-	}
-	pkt.Data.Custom = req.Custom()
-
-	deadline, ok := ctx.Deadline()
-	if ok {
-		// if deadline exists, we should deliver it
-		pkt.Data.Context.Deadline = deadline
-	}
+	pkt := sm.newRequestPacket(ctx, method, req)
 	var sync synchub.Sync
 	syncOpts := []synchub.SyncOption{}
 	if req.Timeout() != 0 {
@@ -114,39 +138,42 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	sync = sm.shub.New(req.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
 
-	// we don't set ctx to sync, because select perform better
+	event := (*synchub.Event)(nil)
 	select {
+	case sm.writeInCh <- pkt:
 	case <-ctx.Done():
+		// the request is never sent
+		sm.mtx.RUnlock()
 		sync.Cancel(false)
+		return nil, ctx.Err()
+	case event = <-sync.C():
+		// the request is never sent
+	case <-sm.doneCh:
+	}
+	sm.mtx.RUnlock()
 
-		if ctx.Err() == context.DeadlineExceeded {
+	if event == nil {
+		// we don't set ctx to sync, because select perform better
+		select {
+		case <-ctx.Done():
+			sync.Cancel(false)
 			// we don't deliver deadline exceeded since the pkt already has it
+			if ctx.Err() != context.DeadlineExceeded {
+				// notify peer if context Canceled, and we shouldn't wait for it
+				go sm.cancelRequest(pkt.ID())
+			}
 			return nil, ctx.Err()
+		case event = <-sync.C():
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
-		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
-		return nil, ctx.Err()
-
-	case event := <-sync.C():
-		if event.Error != nil {
-			sm.log.Debugf("request return err: %s, clientID: %d, dialogueID: %d, reqID: %d",
-				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
-			return nil, event.Error
-		}
-		rsp := event.Ack.(*response)
-		return rsp, nil
 	}
+	if event.Error != nil {
+		sm.log.Debugf("request return err: %s, clientID: %d, dialogueID: %d, reqID: %d",
+			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
+		return nil, event.Error
+	}
+	rsp := event.Ack.(*response)
+	return rsp, nil
 }
 
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
@@ -156,22 +183,24 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return nil, io.EOF
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
 	}
-	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
-	// deadline and timeout for peer
-	if req.Timeout() != 0 {
-		pkt.Data.Deadline = time.Now().Add(req.Timeout())
+	if req.Timeout() < 0 {
+		return nil, synchub.ErrSyncTimeout
 	}
-	pkt.Data.Custom = req.Custom()
 
-	deadline, ok := ctx.Deadline()
-	if ok {
-		pkt.Data.Context.Deadline = deadline
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK || sm.closed() {
+		return nil, io.EOF
 	}
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		return nil, ErrRemoteRPCUnregistered
+	}
+	// deadline and timeout for peer
+	pkt := sm.newRequestPacket(ctx, method, req)
 	if ch == nil {
 		ch = make(chan *geminio.Call, 1)
 	}
@@ -180,6 +209,8 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Request: req,
 		Done:    ch,
 	}
+	// closed once the call is complete
+	done := make(chan struct{})
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
@@ -187,21 +218,33 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 				call.Error = event.Error
-				ch <- call
-				return
+				if event.Error == context.Canceled {
+					// notify peer if context Canceled, and we shouldn't wait for it
+					go sm.cancelRequest(pkt.ID())
+				}
+			} else {
+				sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+				call.Response = event.Ack.(*response)
+			}
+			close(done)
+			select {
+			case ch <- call:
+			default:
+				// the callback mustn't be blocked by the receiver
+				go func() { ch <- call }()
 			}
-			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ch <- call
-			return
 		})}
 	if req.Timeout() != 0 {
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	// Add a new sync for the async call
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	select {
+	case sm.writeInCh <- pkt:
+	case <-done:
+	case <-sm.doneCh:
+	}
 	return call, nil
 }
 
@@ -221,6 +264,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index 9940afa..8c2de58 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"errors"
 	"fmt"
-	"io"
 	"regexp"
 	"sync"
 	"time"
@@ -28,6 +27,9 @@ var (
 
 const (
 	registrationFormat = "%d-%d-registration"
+
+	// the longest time to wait for the written to be passed to dialogue at close
+	flushTimeout = 10 * time.Second
 )
 
 type patternRPC struct {
@@ -38,6 +40,13 @@ type patternRPC struct {
 
 type methodRPC geminio.HijackRPC
 
+// flushPacket never goes down to the dialogue, done is closed once all packets
+// before it are passed to the dialogue
+type flushPacket struct {
+	packet.Packet
+	done chan struct{}
+}
+
 type stream struct {
 	*gnet.UnimplementedConn
 	// options for End and stream, remember stream dones't own opts
@@ -61,17 +70,27 @@ type stream struct {
 	remoteRPCs map[string]struct{}
 	// hijack
 	hijackRPC *patternRPC
+	// parent of all rpcs' contexts, canceled once the stream is finished
+	rpcCtx    context.Context
+	rpcCancel context.CancelFunc
 
 	// mtx protects follows
-	mtx       sync.RWMutex
-	streamOK  bool
-	closeOnce *gsync.Once
-	finiOnce  *gsync.Once
+	mtx        sync.RWMutex
+	streamOK   bool
+	closeOnce  *gsync.Once
+	finishOnce *gsync.Once
+
+	// closed by Close
+	closeCh chan struct{}
+	// closed once the stream takes no more writes
+	doneCh chan struct{}
+	// closed once the under layer dialogue takes no more writes
+	dgDoneCh <-chan struct{}
 
 	// app layer messages
-	// raw cache
-	cache    []byte
-	cacheMtx sync.Mutex
+	// raw cache, and one Read at a time
+	cache   []byte
+	readMtx sync.Mutex
 
 	messageCh chan *packet.MessagePacket
 	streamCh  chan *packet.StreamPacket
@@ -79,12 +98,18 @@ type stream struct {
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
-	dlReadSync, dlWriteSync     synchub.Sync
+	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+
+	// replies which must not block the reader of the stream or the consumer of
+	// the messages
+	replyMtx sync.Mutex
+	replies  []packet.Packet
+	replyCh  chan struct{}
 }
 
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
@@ -101,14 +126,23 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		remoteRPCs:        make(map[string]struct{}),
 		streamOK:          true,
 		closeOnce:         new(gsync.Once),
-		finiOnce:          new(gsync.Once),
+		finishOnce:        new(gsync.Once),
+		closeCh:           make(chan struct{}),
+		doneCh:            make(chan struct{}),
 		messageCh:         make(chan *packet.MessagePacket, 32),
 		streamCh:          make(chan *packet.StreamPacket, 32),
 		failedCh:          make(chan packet.Packet),
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
+		replyCh:           make(chan struct{}, 1),
 	}
+	sm.rpcCtx, sm.rpcCancel = context.WithCancel(context.Background())
+	if doner, ok := dg.(interface{ Done() <-chan struct{} }); ok {
+		sm.dgDoneCh = doner.Done()
+	}
+	// store it before rolling up, in case of the stream finishing first
+	end.streams.Store(dg.DialogueID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
@@ -148,26 +182,62 @@ func (sm *stream) handlePkt() {
 
 	for {
 		select {
+		case <-sm.replyCh:
+			sm.writeReplies()
 		case pkt, ok := <-writeInCh:
 			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
+				sm.writeReplies()
+				return
 			}
-			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ret := sm.handleOut(pkt)
-			switch ret {
-			case iodefine.IOSuccess:
+			if flush, ok := pkt.(*flushPacket); ok {
+				sm.writeReplies()
+				close(flush.done)
 				continue
-			case iodefine.IODiscard:
-				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
-			case iodefine.IOErr:
-				goto FINI
 			}
+			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			// the writeInCh must be drained until it's closed even if error, otherwise
+			// writers would be blocked
+			sm.handleOut(pkt)
+		}
+	}
+}
+
+// reply sends a packet to the peer and never blocks
+func (sm *stream) reply(pkt packet.Packet) {
+	sm.replyMtx.Lock()
+	sm.replies = append(sm.replies, pkt)
+	sm.replyMtx.Unlock()
+
+	select {
+	case sm.replyCh <- struct{}{}:
+	default:
+	}
+}
+
+func (sm *stream) writeReplies() {
+	sm.replyMtx.Lock()
+	pkts := sm.replies
+	sm.replies = nil
+	sm.replyMtx.Unlock()
+
+	for _, pkt := range pkts {
+		err := sm.dg.WriteWait(pkt)
+		if err != nil {
+			sm.log.Debugf("write reply packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+				err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 		}
 	}
-FINI:
-	sm.finiOnce.Do(sm.fini)
+}
+
+// closed tells whether Close was called
+func (sm *stream) closed() bool {
+	select {
+	case <-sm.closeCh:
+		return true
+	default:
+		return false
+	}
 }
 
 func (sm *stream) readPkt() {
@@ -193,7 +263,7 @@ func (sm *stream) readPkt() {
 		}
 	}
 FINI:
-	sm.finiOnce.Do(sm.fini)
+	sm.fini()
 }
 
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -216,17 +286,17 @@ func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
 		return sm.handleInStreamPacket(realPkt)
 	}
 	// unknown packet
-	return iodefine.IOErr
+	return iodefine.IODiscard
 }
 
 func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.MessagePacket:
 		return sm.handleOutMessagePacket(realPkt)
-	case *packet.MessageAckPacket:
-		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -240,18 +310,23 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORet {
 	sm.log.Tracef("read message packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-	// we don't want block here, and also we don't want discard immediately.
+	// wait for the consumer if the buffer is full, it's the back pressure to the
+	// peer.
 	select {
 	case sm.messageCh <- pkt:
-		/*
-			// TODO optimize it
-				default:
-					pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pkt.ID(), iodefine.ErrIOBufferFull)
-					sm.dg.WriteWait(pkt)
-					return iodefine.IODiscard
-		*/
+		return iodefine.IOSuccess
+	case <-sm.closeCh:
+		return iodefine.IODiscard
+	case <-sm.dgDoneCh:
+	}
+	// the dialogue is over, whoever is writing shouldn't wait for the consumer
+	sm.finish()
+	select {
+	case sm.messageCh <- pkt:
+		return iodefine.IOSuccess
+	case <-sm.closeCh:
+		return iodefine.IODiscard
 	}
-	return iodefine.IOSuccess
 }
 
 func (sm *stream) handleInMessageAckPacket(pkt *packet.MessageAckPacket) iodefine.IORet {
@@ -292,29 +367,32 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
-	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
-		deadline := pkt.Data.Deadline
-		if deadline.IsZero() || (!deadline.IsZero() &&
-			!pkt.Data.Context.Deadline.IsZero() &&
-			pkt.Data.Context.Deadline.Before(deadline)) {
-			deadline = pkt.Data.Context.Deadline
-		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+	ctx, cancel := context.Context(nil), context.CancelFunc(nil)
+	deadline := pkt.Data.Deadline
+	if deadline.IsZero() || (!pkt.Data.Context.Deadline.IsZero() &&
+		pkt.Data.Context.Deadline.Before(deadline)) {
+		deadline = pkt.Data.Context.Deadline
 	}
+	if !deadline.IsZero() {
+		ctx, cancel = context.WithDeadline(sm.rpcCtx, deadline)
+	} else {
+		// the request may be canceled by the peer
+		ctx, cancel = context.WithCancel(sm.rpcCtx)
+	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	hijackRPC := sm.hijackRPC
+	sm.rpcMtx.Unlock()
 	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
@@ -332,22 +410,14 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
-	rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(method), nil, err)
-	err = sm.dg.WriteWait(rspPkt)
-	if err != nil {
-		sm.log.Debugf("write no such rpc response packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
+	sm.reply(sm.pf.NewResponsePacket(pkt.ID(), []byte(method), nil, err))
 	return iodefine.IOSuccess
 }
 
@@ -373,7 +443,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -389,20 +461,15 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	sm.log.Tracef("read register packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
-	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
-	err := sm.dg.Write(retPkt)
-	if err != nil {
-		sm.log.Debugf("write register ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
-
 	// TODO delegate for remote registration
 
 	sm.rpcMtx.Lock()
 	sm.remoteRPCs[method] = struct{}{}
 	sm.rpcMtx.Unlock()
 
+	// ack after the method can be found, since the peer takes it as registered
+	sm.reply(sm.pf.NewRegisterAckPacket(pkt.ID(), nil))
+
 	// to notify the method is registing, in case of we're waiting for the method ready
 	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
 	sm.shub.DoneSub(syncID, method)
@@ -424,22 +491,28 @@ func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodef
 func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet {
 	sm.log.Tracef("read stream packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	// wait for the Read if the buffer is full, a stream can't lose any byte
 	select {
 	case sm.streamCh <- pkt:
-	default:
-		// TODO drop the packet, we don't want block here
+		return iodefine.IOSuccess
+	case <-sm.closeCh:
+		return iodefine.IODiscard
+	case <-sm.dgDoneCh:
+	}
+	// the dialogue is over, whoever is writing shouldn't wait for the Read
+	sm.finish()
+	select {
+	case sm.streamCh <- pkt:
+		return iodefine.IOSuccess
+	case <-sm.closeCh:
 		return iodefine.IODiscard
 	}
-	return iodefine.IOSuccess
 }
 
 // output packet
 func (sm *stream) handleOutMessagePacket(pkt *packet.MessagePacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-		if err == io.ErrShortBuffer {
-			return iodefine.IODiscard
-		}
 		sm.log.Debugf("write message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 		// notify the publish side the err
@@ -449,25 +522,22 @@ func (sm *stream) handleOutMessagePacket(pkt *packet.MessagePacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
-func (sm *stream) handleOutMessageAckPacket(pkt *packet.MessageAckPacket) iodefine.IORet {
-	err := sm.dg.WriteWait(pkt)
+func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
 	if err != nil {
-		sm.log.Debugf("write message ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+		sm.log.Debugf("write request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		sm.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
 	return iodefine.IOSuccess
 }
 
-func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IORet {
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-		if err == io.ErrShortBuffer {
-			return iodefine.IODiscard
-		}
-		sm.log.Debugf("write request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-		sm.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
 	return iodefine.IOSuccess
@@ -476,11 +546,9 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-		if err == io.ErrShortBuffer {
-			return iodefine.IODiscard
-		}
 		sm.log.Debugf("write register packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		sm.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
 	return iodefine.IOSuccess
@@ -491,9 +559,6 @@ func (sm *stream) handleOutStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	err := sm.dg.Write(pkt)
 	if err != nil {
-		if err == io.ErrShortBuffer {
-			return iodefine.IODiscard
-		}
 		sm.log.Debugf("write stream packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 		return iodefine.IOErr
@@ -515,6 +580,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
@@ -535,39 +601,80 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 }
 
 func (sm *stream) Close() error {
-	sm.closeOnce.Do(func() {
-		sm.mtx.RLock()
-		defer sm.mtx.RUnlock()
-		if !sm.streamOK {
-			return
-		}
+	if sm.close() {
+		go func() {
+			// everything written before should be delivered
+			sm.flush()
+			// diglogue Close will leads to fini and then close the readInCh
+			sm.dg.Close()
+		}()
+	}
+	return nil
+}
 
+// close refuses new writes and stops waiting for the consumer
+func (sm *stream) close() bool {
+	first := false
+	sm.closeOnce.Do(func() {
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
-		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		close(sm.closeCh)
+		first = true
 	})
-	return nil
+	return first
 }
 
-// finish and reclaim resources
-func (sm *stream) fini() {
-	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
-		sm.cn.ClientID(), sm.dg.DialogueID())
-
-	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
+// flush waits until all written are passed to the dialogue
+func (sm *stream) flush() {
+	tmr := time.NewTimer(flushTimeout)
+	defer tmr.Stop()
+	pkt := &flushPacket{done: make(chan struct{})}
 
-	sm.streamOK = false
-	close(sm.writeInCh)
+	sm.mtx.RLock()
+	if !sm.streamOK {
+		sm.mtx.RUnlock()
+		return
+	}
+	select {
+	case sm.writeInCh <- pkt:
+	case <-sm.doneCh:
+	case <-tmr.C:
+		sm.mtx.RUnlock()
+		return
+	}
+	sm.mtx.RUnlock()
 
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
+	select {
+	case <-pkt.done:
+	case <-sm.doneCh:
+	case <-tmr.C:
 	}
-	sm.writeInCh = nil
-	sm.shub.Close()
-	sm.shub = nil
+}
+
+// finish makes the stream take no more writes, and wakes everyone waiting for
+// the peer up
+func (sm *stream) finish() {
+	sm.finishOnce.Do(func() {
+		sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
+			sm.cn.ClientID(), sm.dg.DialogueID())
+
+		// whoever is writing must give up before the channel's closed
+		close(sm.doneCh)
+		sm.mtx.Lock()
+		sm.streamOK = false
+		close(sm.writeInCh)
+		sm.mtx.Unlock()
+
+		// collect shub, and all syncs will be close notified
+		sm.shub.Close()
+		// all inflight rpcs will be notified
+		sm.rpcCancel()
+	})
+}
+
+// finish and reclaim resources
+func (sm *stream) fini() {
+	sm.finish()
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
@@ -577,7 +684,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
-- 
2.43.0


From 9f20fa3bc93adce74084f194bd15fc90e6c1d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 04/23] fix: packet: transfer request cancel, check the payload
 length from the peer, encode the 320s heartbeat

---
 packet/decode.go      | 62 +++++++++++++++++++++++++++++++++++++++++--
 packet/packet_conn.go | 12 ++++-----
 packet/packet_data.go | 22 ++++++---------
 packet/packet_sess.go | 12 +++------
 4 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..096896d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -1,6 +1,7 @@
 package packet
 
 import (
+	"bytes"
 	"errors"
 	"io"
 )
@@ -13,6 +14,41 @@ var (
 	ErrIllegalPacket     = errors.New("illegal packet")
 )
 
+const (
+	// a payload larger than this is never allocated before it's received
+	maxPreallocate = 64 * 1024
+)
+
+// legal checks whether the payload length from the peer fits the type
+func (pktHdr *PacketHeader) legal() bool {
+	switch pktHdr.Typ {
+	case TypeDisConnPacket, TypeHeartbeatPacket, TypeHeartbeatAckPacket:
+		// the header only
+		return pktHdr.PacketLen == 0
+	case TypeDisConnAckPacket:
+		return pktHdr.PacketLen >= 1
+	case TypeConnAckPacket:
+		return pktHdr.PacketLen >= 9
+	case TypeConnPacket, TypeSessionPacket, TypeRequestCancelPacket:
+		return pktHdr.PacketLen >= 10
+	case TypeSessionAckPacket:
+		return pktHdr.PacketLen >= 18
+	default:
+		return pktHdr.PacketLen >= 8
+	}
+}
+
+func readFull(reader io.Reader, length int) ([]byte, error) {
+	if length <= maxPreallocate {
+		data := make([]byte, length)
+		_, err := io.ReadFull(reader, data)
+		return data, err
+	}
+	buf := bytes.NewBuffer(make([]byte, 0, maxPreallocate))
+	_, err := io.CopyN(buf, reader, int64(length))
+	return buf.Bytes(), err
+}
+
 func Decode(data []byte) (Packet, uint32, error) {
 	pktHdr := &PacketHeader{}
 	n, err := pktHdr.Decode(data)
@@ -23,6 +59,9 @@ func Decode(data []byte) (Packet, uint32, error) {
 	if uint32(len(data)-14) < pktHdr.PacketLen {
 		return pktHdr, 14, ErrExpectingData
 	}
+	if !pktHdr.legal() {
+		return nil, 14, ErrIllegalPacket
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
@@ -116,13 +155,23 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
@@ -141,6 +190,9 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 	if err != nil {
 		return nil, err
 	}
+	if !pktHdr.legal() {
+		return nil, ErrIllegalPacket
+	}
 	//log.Tracef("DecodeFromReader | incoming underlay %s", pktHdr.Typ.String())
 
 	switch pktHdr.Typ {
@@ -242,6 +294,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	case TypeResponsePacket:
 		pkt := &ResponsePacket{
 			&MessageAckPacket{},
diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..d940b7c 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -79,7 +79,8 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 		pkt[0] |= 0x08
 	}
 	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+		// heartbeat is 5 * 4^n
+		pkt[0] |= byte(math.Round(math.Log(float64(connPkt.Heartbeat)/5)/math.Log(4))) & 0x03 << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
@@ -136,8 +137,7 @@ func (connPkt *ConnPacket) DecodeFromReader(reader io.Reader) error {
 	}
 	connPkt.ClientID = binary.BigEndian.Uint64(clientID)
 	// data
-	data := make([]byte, int(connPkt.PacketLen-10))
-	_, err = io.ReadFull(reader, data)
+	data, err := readFull(reader, int(connPkt.PacketLen-10))
 	if err != nil {
 		return err
 	}
@@ -207,8 +207,7 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 
 func (connAckPkt *ConnAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(connAckPkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
@@ -289,8 +288,7 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 
 func (disConnAckPkt *DisConnAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(disConnAckPkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..eb3c566 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -72,18 +72,17 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
-	data := make([]byte, pkt.PacketLen)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, int(pkt.PacketLen))
 	if err != nil {
 		return err
 	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// cancel type
-	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:pkt.PacketLen]))
+	pkt.cancelType = RequestCancelType(binary.BigEndian.Uint16(data[8:10]))
 	return nil
 }
 
@@ -158,8 +157,7 @@ func (pkt *MessagePacket) DecodeFromReader(reader io.Reader) error {
 	if pkt.PacketLen < 8 {
 		return errors.New("illegal packet")
 	}
-	data := make([]byte, pkt.PacketLen)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, int(pkt.PacketLen))
 	if err != nil {
 		return err
 	}
@@ -233,8 +231,7 @@ func (pkt *MessageAckPacket) DecodeFromReader(reader io.Reader) error {
 	if pkt.PacketLen < 8 {
 		return errors.New("illegal packet")
 	}
-	data := make([]byte, pkt.PacketLen)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, int(pkt.PacketLen))
 	if err != nil {
 		return err
 	}
@@ -304,8 +301,7 @@ func (pkt *StreamPacket) DecodeFromReader(reader io.Reader) error {
 		return errors.New("illegal packet")
 	}
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
@@ -374,8 +370,7 @@ func (pkt *RegisterPacket) DecodeFromReader(reader io.Reader) error {
 		return errors.New("illegal packet")
 	}
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
@@ -449,8 +444,7 @@ func (pkt *RegisterAckPacket) DecodeFromReader(reader io.Reader) error {
 	}
 	length := int(pkt.PacketLen)
 
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 7695a85..3fd8378 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -108,8 +108,7 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *SessionPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
@@ -196,8 +195,7 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *SessionAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
@@ -271,8 +269,7 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *DismissPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		log.Errorf("dismiss packet decode from reader err: %s", err)
 		return err
@@ -345,8 +342,7 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *DismissAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
-	data := make([]byte, length)
-	_, err := io.ReadFull(reader, data)
+	data, err := readFull(reader, length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 562707be2cf36494c6f7ee7a8950df85d561a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 05/23] fix: id: keep the parity of even and odd IDs

---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..26f3fdb 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xFE // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From 67b3105abc1dc6463933bd6379ae5fdec8bfca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 06/23] fix: server: don't let a slow conn block the listener,
 don't use the end before it's ready

---
 server/end.go    | 23 ++++++++++++----
 server/server.go | 71 +++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 76 insertions(+), 18 deletions(-)

diff --git a/server/end.go b/server/end.go
index 36e1357..42e1947 100644
--- a/server/end.go
+++ b/server/end.go
@@ -45,8 +45,10 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		acceptfn func(multiplexer.Dialogue)
 		closedfn func(multiplexer.Dialogue)
 		// application
-		ep     geminio.End
+		ep     *application.End
 		epOpts []application.EndOption
+		// closed once ep is ready, streams may come before that
+		ready = make(chan struct{})
 	)
 	// we share packet factory, log, timer and delegate for follow 3 layers.
 
@@ -68,12 +70,18 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			<-ready
+			if ep != nil {
+				ep.AcceptDialogue(dg)
+			}
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			<-ready
+			if ep != nil {
+				ep.ClosedDialogue(dg)
+			}
 		}
 	}
 	// multiplexer
@@ -94,7 +102,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
-		goto ERR
+		close(ready)
+		goto CLOSE
 	}
 	// application
 	epOpts = []application.EndOption{
@@ -115,11 +124,15 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		epOpts = append(epOpts, application.OptionWithRemoteRPCCheck())
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
+	close(ready)
 	if err != nil {
-		goto ERR
+		goto CLOSE
 	}
 	se.End = ep
 	return se, nil
+CLOSE:
+	// the conn is established, let the peer know it's over
+	cn.Close()
 ERR:
 	if eo.TimerOwner == se {
 		eo.Timer.Close()
diff --git a/server/server.go b/server/server.go
index 49bcf17..bf44c38 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"net"
+	"sync"
 
 	"github.com/singchia/geminio"
 )
@@ -31,6 +32,11 @@ type listener struct {
 	opts []*EndOptions
 	ln   net.Listener
 	ch   chan *ret
+
+	// asks for one more net conn
+	acceptCh  chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 }
 
 func Listen(network, address string, opts ...*EndOptions) (Listener, error) {
@@ -38,23 +44,59 @@ func Listen(network, address string, opts ...*EndOptions) (Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &listener{
-		ln:   ln,
-		opts: opts,
-		ch:   make(chan *ret, 32)}, nil
+	listener := &listener{
+		ln:       ln,
+		opts:     opts,
+		ch:       make(chan *ret),
+		acceptCh: make(chan struct{}),
+		closeCh:  make(chan struct{}),
+	}
+	go listener.accept()
+	return listener, nil
+}
+
+// accept takes net conns as long as someone's waiting for an end
+func (ln *listener) accept() {
+	for {
+		select {
+		case <-ln.acceptCh:
+		case <-ln.closeCh:
+			return
+		}
+		netconn, err := ln.ln.Accept()
+		if err != nil {
+			ln.deliver(&ret{nil, err})
+			continue
+		}
+		// an end may take long to be ready, don't let others wait for it
+		go func() {
+			end, err := NewEndWithConn(netconn, ln.opts...)
+			ln.deliver(&ret{end, err})
+		}()
+	}
+}
+
+func (ln *listener) deliver(ret *ret) {
+	select {
+	case ln.ch <- ret:
+	case <-ln.closeCh:
+		// nobody's going to take it
+		if ret.err == nil {
+			ret.end.Close()
+		}
+	}
 }
 
 func (ln *listener) AcceptEnd() (geminio.End, error) {
-	netconn, err := ln.ln.Accept()
-	if err != nil {
-		return nil, err
+	for {
+		select {
+		case ret := <-ln.ch:
+			return ret.end, ret.err
+		case ln.acceptCh <- struct{}{}:
+		case <-ln.closeCh:
+			return nil, net.ErrClosed
+		}
 	}
-	go func() {
-		end, err := NewEndWithConn(netconn, ln.opts...)
-		ln.ch <- &ret{end, err}
-	}()
-	ret, _ := <-ln.ch
-	return ret.end, ret.err
 }
 
 func (ln *listener) Accept() (net.Conn, error) {
@@ -62,6 +104,9 @@ func (ln *listener) Accept() (net.Conn, error) {
 }
 
 func (ln *listener) Close() error {
+	ln.closeOnce.Do(func() {
+		close(ln.closeCh)
+	})
 	return ln.ln.Close()
 }
 
-- 
2.43.0


From 22557eaa2e104ec3744fe15a04d301ee8f712d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 07/23] fix: client: don't lose reconnect, rpcs, hijack or
 requests when the retry end reconnects

---
 client/end.go       |  10 ++-
 client/end_retry.go | 175 ++++++++++++++++++++++++++++++++------------
 2 files changed, 137 insertions(+), 48 deletions(-)

diff --git a/client/end.go b/client/end.go
index ec8d17e..2896a46 100644
--- a/client/end.go
+++ b/client/end.go
@@ -15,6 +15,8 @@ type Dialer func() (net.Conn, error)
 type clientEnd struct {
 	// we need the opts to hold resources to close
 	opts *EndOptions
+	// the under layer connection of the end
+	cn conn.Conn
 	geminio.End
 }
 
@@ -92,7 +94,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
-		goto ERR
+		goto CLOSE
 	}
 	// application
 	epOpts = []application.EndOption{
@@ -108,11 +110,15 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	if err != nil {
-		goto ERR
+		goto CLOSE
 	}
 	// client
+	ce.cn = cn
 	ce.End = ep
 	return ce, nil
+CLOSE:
+	// the conn is established, let the peer know it's over
+	cn.Close()
 ERR:
 	if eo.TimerOwner == ce {
 		eo.Timer.Close()
diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..e503545 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/singchia/geminio"
 	"github.com/singchia/geminio/delegate"
+	"github.com/singchia/geminio/multiplexer"
 	"github.com/singchia/geminio/options"
 	"github.com/singchia/go-timer/v2"
 )
@@ -58,11 +59,14 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
 	re.opts.Delegate = re
+	// the end may be offline before it's stored, let the reconnect wait
+	re.retry.Lock()
+	defer re.retry.Unlock()
 	end, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
+	atomic.StorePointer(&re.end, unsafe.Pointer(end))
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -84,6 +88,20 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
+	new, err := re.replace(old)
+	if err != nil {
+		return err
+	}
+	// after retry the end succeed, after hijack and register legacy functions,
+	// the brand new end online
+	if new != nil && re.opts.delegate != nil {
+		re.opts.delegate.EndReOnline(new)
+	}
+	return nil
+}
+
+// replace the old end with a new one, nil is returned if it's already replaced
+func (re *RetryEnd) replace(old *clientEnd) (*clientEnd, error) {
 	// the reinit take times
 	re.retry.Lock()
 	defer re.retry.Unlock()
@@ -91,7 +109,7 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	if cur != old {
 		// already reinited
-		return nil
+		return nil, nil
 	}
 	// release the end
 	if old != nil {
@@ -100,45 +118,69 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 
 	time.Sleep(3 * time.Second)
 	if atomic.LoadInt32(re.ok) == 0 {
-		return io.EOF
+		return nil, io.EOF
 	}
 	new, err := re.getEnd()
 	if err != nil {
 		// if we still get end error, deliver the error to user, but it
 		// doesn't mean to close the end
-		return err
+		return nil, err
+	}
+	// hijack and register legacy functions, the new end isn't used until it's
+	// all done
+	err = re.restore(new)
+	if err != nil {
+		new.Close()
+		return nil, err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
-	// TODO optimize rests
-	time.Sleep(1 * time.Second)
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed meanwhile
+		new.Close()
+		return nil, io.EOF
+	}
+	// the hijack may be changed meanwhile
+	return new, re.restoreHijack(new)
+}
 
-	// hijack
-	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
-		if err != nil {
-			return err
-		}
+func (re *RetryEnd) restoreHijack(end *clientEnd) error {
+	re.rpcMtx.RLock()
+	hijackRPC, hijackRPCOpts := re.hijackRPC, re.hijackRPCOpts
+	re.rpcMtx.RUnlock()
+
+	if hijackRPC == nil {
+		return nil
+	}
+	return end.Hijack(hijackRPC, hijackRPCOpts)
+}
+
+func (re *RetryEnd) restore(end *clientEnd) error {
+	err := re.restoreHijack(end)
+	if err != nil {
+		return err
 	}
-	// register legacy functions
 	re.rpcMtx.RLock()
+	rpcs := make(map[string]geminio.RPC, len(re.rpcs))
 	for method, rpc := range re.rpcs {
+		rpcs[method] = rpc
+	}
+	re.rpcMtx.RUnlock()
+
+	for method, rpc := range rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err = end.Register(context.TODO(), method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
 			return err
 		}
 	}
-	re.rpcMtx.RUnlock()
-
-	// after retry the end succeed, after hijack and register legacy functions,
-	// the brand new end online
-	if re.opts.delegate != nil {
-		re.opts.delegate.EndReOnline(new)
-	}
 	return nil
 }
 
+// lost tells whether the end is over and should be retried
+func lost(err error) bool {
+	return err == io.EOF || err == multiplexer.ErrOperationOnClosedMultiplexer
+}
+
 // wrappered delegate
 func (re *RetryEnd) ConnOnline(conn delegate.ConnDescriber) error {
 	delegate := re.opts.delegate
@@ -158,8 +200,15 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 		}
 	}
 	fn := func() {
+		// the end may not be stored yet
+		re.retry.Lock()
+		end := (*clientEnd)(atomic.LoadPointer(&re.end))
+		re.retry.Unlock()
+		if end == nil || interface{}(end.cn) != interface{}(conn) {
+			// it's not the current end that offline
+			return
+		}
 		for atomic.LoadInt32(re.ok) == 1 {
-			end := (*clientEnd)(atomic.LoadPointer(&re.end))
 			err := re.reinit(end)
 			if err != nil {
 				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
@@ -209,7 +258,7 @@ func (re *RetryEnd) OpenStream(opts ...*options.OpenStreamOptions) (geminio.Stre
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	sm, oerr := cur.OpenStream(opts...)
 	if oerr != nil {
-		if oerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(oerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -238,7 +287,7 @@ func (re *RetryEnd) AcceptStream() (geminio.Stream, error) {
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	sm, aerr := cur.AcceptStream()
 	if aerr != nil {
-		if aerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(aerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -285,9 +334,11 @@ func (re *RetryEnd) Call(ctx context.Context, method string, req geminio.Request
 		return nil, io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	// the clientID may be changed since reinit
+	req.SetClientID(cur.ClientID())
 	rsp, cerr := cur.Call(ctx, method, req, opts...)
 	if cerr != nil {
-		if cerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(cerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -315,9 +366,11 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 		return nil, io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	// the clientID may be changed since reinit
+	req.SetClientID(cur.ClientID())
 	call, cerr := cur.CallAsync(ctx, method, req, ch, opts...)
 	if cerr != nil {
-		if cerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(cerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -339,11 +392,31 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
+	if atomic.LoadInt32(re.ok) != 1 {
+		// TODO optimize the error
+		return io.EOF
+	}
+	// memorize the rpc in case of retry, and do it first because the end may be
+	// retried right after the register
+	re.rpcMtx.Lock()
+	old, ok := re.rpcs[method]
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
+
+	err := re.register(ctx, method, rpc)
+	if err != nil {
+		re.rpcMtx.Lock()
+		if ok {
+			re.rpcs[method] = old
+		} else {
+			delete(re.rpcs, method)
+		}
+		re.rpcMtx.Unlock()
+	}
+	return err
 }
 
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
+func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -351,7 +424,7 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	rerr := cur.Register(ctx, method, rpc)
 	if rerr != nil {
-		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(rerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -365,16 +438,10 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
-	}
 	return nil
 }
 
@@ -386,7 +453,7 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	herr := cur.Hijack(rpc, opts...)
 	if herr != nil {
-		if herr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(herr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -404,8 +471,15 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
+	// the end may be retried before it's memorized
+	end := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if end != cur {
+		return end.Hijack(rpc, opts...)
+	}
 	return nil
 }
 
@@ -422,9 +496,11 @@ func (re *RetryEnd) Publish(ctx context.Context, msg geminio.Message,
 		return io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	// the clientID may be changed since reinit
+	msg.SetClientID(cur.ClientID())
 	perr := cur.Publish(ctx, msg, opts...)
 	if perr != nil {
-		if perr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(perr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -451,9 +527,11 @@ func (re *RetryEnd) PublishAsync(ctx context.Context, msg geminio.Message, ch ch
 		return nil, io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	// the clientID may be changed since reinit
+	msg.SetClientID(cur.ClientID())
 	pub, perr := cur.PublishAsync(ctx, msg, ch, opts...)
 	if perr != nil {
-		if perr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(perr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -481,7 +559,7 @@ func (re *RetryEnd) Receive(ctx context.Context) (geminio.Message, error) {
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	msg, rerr := cur.Receive(ctx)
 	if rerr != nil {
-		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(rerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -510,7 +588,7 @@ func (re *RetryEnd) Read(b []byte) (int, error) {
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	n, rerr := cur.Read(b)
 	if rerr != nil {
-		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(rerr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -538,7 +616,7 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	n, werr := cur.Write(b)
 	if werr != nil {
-		if werr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		if lost(werr) && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
@@ -561,12 +639,17 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
-			re.opts.Timer.Close()
+			// the timer may be still used by the reconnect
+			go func() {
+				re.retry.Lock()
+				defer re.retry.Unlock()
+				re.opts.Timer.Close()
+			}()
 		}
 	})
 	return err
-- 
2.43.0


From 5fc563022eb7cc809a13cc04a2902a999f8717af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 08/23] fix: application: complete async publish and call once
 while the stream closes, discard nothing but the rest after close

---
 application/message.go | 6 ++++++
 application/rpc.go     | 6 ++++++
 application/stream.go  | 8 ++++++++
 3 files changed, 20 insertions(+)

diff --git a/application/message.go b/application/message.go
index 591c4e8..7ddb642 100644
--- a/application/message.go
+++ b/application/message.go
@@ -3,6 +3,7 @@ package application
 import (
 	"context"
 	"io"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -173,8 +174,13 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// closed once the publish is complete
 	done := make(chan struct{})
+	once := int32(0)
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+		if !atomic.CompareAndSwapInt32(&once, 0, 1) {
+			// the sync hub closed while the publish completed
+			return
+		}
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
diff --git a/application/rpc.go b/application/rpc.go
index 874a634..91cc57a 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io"
 	"regexp"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -211,9 +212,14 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// closed once the call is complete
 	done := make(chan struct{})
+	once := int32(0)
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
+			if !atomic.CompareAndSwapInt32(&once, 0, 1) {
+				// the sync hub closed while the call completed
+				return
+			}
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
diff --git a/application/stream.go b/application/stream.go
index 8c2de58..341de36 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -312,10 +312,14 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	// wait for the consumer if the buffer is full, it's the back pressure to the
 	// peer.
+	if sm.closed() {
+		return iodefine.IODiscard
+	}
 	select {
 	case sm.messageCh <- pkt:
 		return iodefine.IOSuccess
 	case <-sm.closeCh:
+		// nothing after a discarded one should be delivered
 		return iodefine.IODiscard
 	case <-sm.dgDoneCh:
 	}
@@ -492,10 +496,14 @@ func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 	sm.log.Tracef("read stream packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	// wait for the Read if the buffer is full, a stream can't lose any byte
+	if sm.closed() {
+		return iodefine.IODiscard
+	}
 	select {
 	case sm.streamCh <- pkt:
 		return iodefine.IOSuccess
 	case <-sm.closeCh:
+		// nothing after a discarded one should be delivered
 		return iodefine.IODiscard
 	case <-sm.dgDoneCh:
 	}
-- 
2.43.0


From 4ecd291847965fc9e32b549a13fa96b9673e7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 09/23] fix: application: an ack of another kind mustn't crash
 a pending call

---
 application/rpc.go    | 14 ++++++++++++--
 application/stream.go |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 91cc57a..fe8deda 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -173,7 +173,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
 		return nil, event.Error
 	}
-	rsp := event.Ack.(*response)
+	rsp, ok := event.Ack.(*response)
+	if !ok {
+		// the peer acked with something else
+		return nil, ErrMismatchResponse
+	}
 	return rsp, nil
 }
 
@@ -231,7 +235,13 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			} else {
 				sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-				call.Response = event.Ack.(*response)
+				rsp, ok := event.Ack.(*response)
+				if ok {
+					call.Response = rsp
+				} else {
+					// the peer acked with something else
+					call.Error = ErrMismatchResponse
+				}
 			}
 			close(done)
 			select {
diff --git a/application/stream.go b/application/stream.go
index 341de36..0608ba9 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -22,6 +22,7 @@ import (
 var (
 	ErrMismatchStreamID      = errors.New("mismatch streamID")
 	ErrMismatchClientID      = errors.New("mismatch clientID")
+	ErrMismatchResponse      = errors.New("mismatch response")
 	ErrRemoteRPCUnregistered = errors.New("remote rpc unregistered")
 )
 
-- 
2.43.0


From 40a5caf7340f725df34eef52f520da6a9ac5847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 10/23] fix: multiplexer: a peer mustn't replace an alive
 dialogue

---
 multiplexer/dialogue_mgr.go | 12 +++++++++++-
 multiplexer/multiplexer.go  |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index f9941d5..acf06c2 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -201,6 +201,11 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
+	if _, ok := dm.dialogues[dg.DialogueID()]; ok {
+		// never replace an alive dialogue
+		dm.mtx.Unlock()
+		return ErrDialogueExists
+	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
 	_, ok := dm.negotiatingDialogues[dg.NegotiatingID()]
 	if ok {
@@ -441,7 +446,12 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		// data or dismiss may follow the packet, the dialogue must be found.
 		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
 		if realPkt.SessionData.Error == "" {
-			dm.dialogues[realPkt.SessionID()] = dg
+			if _, ok := dm.dialogues[realPkt.SessionID()]; ok {
+				// never replace an alive dialogue
+				realPkt.SetError(ErrDialogueExists)
+			} else {
+				dm.dialogues[realPkt.SessionID()] = dg
+			}
 		}
 		dm.mtx.Unlock()
 		dg.input(pkt)
diff --git a/multiplexer/multiplexer.go b/multiplexer/multiplexer.go
index 4506ebe..3bfdea6 100644
--- a/multiplexer/multiplexer.go
+++ b/multiplexer/multiplexer.go
@@ -10,6 +10,7 @@ import (
 var (
 	ErrOperationOnClosedMultiplexer = errors.New("operation on closed multiplexer")
 	ErrConnNotFound                 = errors.New("conn not found")
+	ErrDialogueExists               = errors.New("dialogue exists")
 	ErrDialogueNotFound             = errors.New("dialogue not found")
 	ErrAcceptChNotEnabled           = errors.New("accept channel not enabled")
 	ErrClosedChNotEnabled           = errors.New("closed channel not enabled")
-- 
2.43.0


From d7a4372117b93a715104769d85c727579b21d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 11/23] fix: conn: a peer isn't gone while its heartbeats are
 held up by the application

---
 conn/conn_base.go   | 23 +++++++++++++++++++++++
 conn/conn_server.go | 13 +++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 0385764..cc6efc3 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/log"
@@ -40,6 +41,15 @@ const (
 // is considered gone.
 const closeTimeout = 10 * time.Second
 
+// states of holdUp
+const (
+	holdUpNone int32 = iota
+	// the outside held up packets, whatever follows them might be late
+	holdUpLate
+	// the outside is holding up packets
+	holdUpNow
+)
+
 type connOpts struct {
 	clientID uint64
 	// timer
@@ -91,6 +101,8 @@ type baseConn struct {
 
 	// heartbeat
 	hbTick timer.Tick
+	// whether what's received is held up by the outside
+	holdUp int32
 
 	connOK   bool
 	connMtx  sync.RWMutex
@@ -192,6 +204,14 @@ func (bc *baseConn) sendUp(pkt packet.Packet) {
 		}
 	}
 	bc.pendingIn = append(bc.pendingIn, pkt)
+	atomic.StoreInt32(&bc.holdUp, holdUpNow)
+}
+
+// heldUp tells whether the outside has been holding up what's received since
+// the last call, the peer's packets are read late then.
+func (bc *baseConn) heldUp() bool {
+	return atomic.LoadInt32(&bc.holdUp) == holdUpNow ||
+		atomic.CompareAndSwapInt32(&bc.holdUp, holdUpLate, holdUpNone)
 }
 
 // relay handles packets from both directions until the layer is over, true is
@@ -229,6 +249,9 @@ func (bc *baseConn) relay(handleIn, handleOut func(packet.Packet) iodefine.IORet
 			ret = handleOut(pkt)
 		case upCh <- up:
 			bc.pendingIn = bc.pendingIn[1:]
+			if len(bc.pendingIn) == 0 {
+				atomic.StoreInt32(&bc.holdUp, holdUpLate)
+			}
 		case downCh <- down:
 			bc.pendingOut = bc.pendingOut[1:]
 		case <-brokenCh:
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 4f7415a..b4cde0c 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -290,7 +290,7 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
-	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	sc.waitHB()
 	// the first packet received.
 	sc.shub.Ack(sc.getSyncID(), nil)
 	return iodefine.IOSuccess
@@ -305,7 +305,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	}
 	// reset hearbeat
 	sc.hbTick.Cancel()
-	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	sc.waitHB()
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
 	sc.sendDown(retPkt)
@@ -402,7 +402,16 @@ func (sc *ServerConn) fini(closed bool) {
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 }
 
+func (sc *ServerConn) waitHB() {
+	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second,
+		timer.WithHandler(sc.waitHBTimeout), timer.WithCyclically())
+}
+
 func (sc *ServerConn) waitHBTimeout(event *timer.Event) {
+	if event.Error == nil && sc.heldUp() {
+		// it's us who don't read, give the peer another chance
+		return
+	}
 	if event.Error == timer.ErrTimerForceClosed {
 		sc.log.Debugf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
 			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
-- 
2.43.0


From 5139ebb289a0c452013030e2ec8ee07f3bea4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 12/23] fix: conn: heartbeats blocked by back pressure blocked
 the timer and every timeout with it

---
 conn/conn_client.go | 15 +++++++++++++--
 conn/conn_server.go |  7 +++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 68e034a..216677b 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/log"
@@ -25,6 +26,8 @@ type ClientConn struct {
 	finiOnce    *sync.Once
 	closeOnce   *sync.Once
 	offlineOnce *sync.Once
+	// whether a heartbeat is being sent
+	hbSending int32
 }
 
 type ClientConnOption func(*ClientConn) error
@@ -332,8 +335,16 @@ func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iode
 }
 
 func (cc *ClientConn) sendHeartbeat(event *timer.Event) {
-	pkt := cc.pf.NewHeartbeatPacket()
-	cc.Write(pkt)
+	if !atomic.CompareAndSwapInt32(&cc.hbSending, 0, 1) {
+		// the last one is still waiting to be sent
+		return
+	}
+	// the timer mustn't be blocked by the net conn
+	go func() {
+		defer atomic.StoreInt32(&cc.hbSending, 0)
+		pkt := cc.pf.NewHeartbeatPacket()
+		cc.Write(pkt)
+	}()
 }
 
 func (cc *ClientConn) Close() {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index b4cde0c..eefb3d3 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -403,6 +403,8 @@ func (sc *ServerConn) fini(closed bool) {
 }
 
 func (sc *ServerConn) waitHB() {
+	// nothing received so far matters any more
+	sc.heldUp()
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second,
 		timer.WithHandler(sc.waitHBTimeout), timer.WithCyclically())
 }
@@ -419,6 +421,7 @@ func (sc *ServerConn) waitHBTimeout(event *timer.Event) {
 		sc.log.Errorf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
 			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 	}
-	// changed from sc.netconn.Close() to sc.Close()
-	sc.Close()
+	// changed from sc.netconn.Close() to sc.Close(), and the timer mustn't be
+	// blocked by the net conn
+	go sc.Close()
 }
-- 
2.43.0


From f2c1108e5d601ed04bb00f73550b57fd7e5d2a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 13/23] fix: client: losing the connection again while
 reconnecting closed the RetryEnd

---
 client/end_retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/end_retry.go b/client/end_retry.go
index e503545..b8b3e79 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -90,6 +90,10 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 func (re *RetryEnd) reinit(old *clientEnd) error {
 	new, err := re.replace(old)
 	if err != nil {
+		if lost(err) && atomic.LoadInt32(re.ok) == 1 {
+			// lost again while reconnecting, io.EOF means the RetryEnd is closed
+			err = io.ErrUnexpectedEOF
+		}
 		return err
 	}
 	// after retry the end succeed, after hijack and register legacy functions,
-- 
2.43.0


From aa8d4cdb430390dcca3c2c8bb3d5e74bce10ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 14/23] fix: application: a deadline the encoding doesn't know
 broke the connection

---
 application/message.go | 12 +++++++++++-
 application/rpc.go     |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/application/message.go b/application/message.go
index 7ddb642..6713832 100644
--- a/application/message.go
+++ b/application/message.go
@@ -58,11 +58,21 @@ func (sm *stream) newMessagePacket(ctx context.Context, msg geminio.Message) *pa
 
 	deadline, ok := ctx.Deadline()
 	if ok {
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 	return pkt
 }
 
+// wireDeadline returns the deadline as it's delivered to the peer, the encoding
+// only knows years up to 9999, a deadline beyond is as good as none.
+func wireDeadline(deadline time.Time) time.Time {
+	deadline = deadline.UTC()
+	if deadline.Year() > 9999 {
+		return time.Time{}
+	}
+	return deadline
+}
+
 // publishAtMostOnce must be called with mtx locked
 func (sm *stream) publishAtMostOnce(ctx context.Context, pkt packet.Packet) error {
 	select {
diff --git a/application/rpc.go b/application/rpc.go
index fe8deda..708e9b7 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -85,7 +85,7 @@ func (sm *stream) newRequestPacket(ctx context.Context, method string, req gemin
 	deadline, ok := ctx.Deadline()
 	if ok {
 		// if deadline exists, we should deliver it
-		pkt.Data.Context.Deadline = deadline
+		pkt.Data.Context.Deadline = wireDeadline(deadline)
 	}
 	return pkt
 }
-- 
2.43.0


From f22cd3ea4cd2a2b18533c2cc8b3b450e2436198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 15/23] fix: application: the cancel of an asynchronous call
 could overtake the call

---
 application/rpc.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 708e9b7..8cf5eb0 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -216,6 +216,8 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// closed once the call is complete
 	done := make(chan struct{})
+	// whether the request is on its way to the peer
+	sent := make(chan bool, 1)
 	once := int32(0)
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
@@ -229,8 +231,13 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 				call.Error = event.Error
 				if event.Error == context.Canceled {
-					// notify peer if context Canceled, and we shouldn't wait for it
-					go sm.cancelRequest(pkt.ID())
+					// notify peer if context Canceled, and we shouldn't wait for it,
+					// but never before the request itself
+					go func() {
+						if <-sent {
+							sm.cancelRequest(pkt.ID())
+						}
+					}()
 				}
 			} else {
 				sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
@@ -258,8 +265,11 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	sm.shub.New(pkt.ID(), syncOpts...)
 	select {
 	case sm.writeInCh <- pkt:
+		sent <- true
 	case <-done:
+		sent <- false
 	case <-sm.doneCh:
+		sent <- false
 	}
 	return call, nil
 }
-- 
2.43.0


From 7fe84f0d5ad9600710f66b5fc8774f5d5214b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 16/23] fix: multiplexer: a stream nobody consumes kept the
 others from noticing the end

The manager waits for the dialogue a packet is for. When its application
doesn't consume, that's the back pressure; but once the connection is over
it waited for ever, and everything pending on the other streams with it.
---
 conn/conn_base.go           |  5 +++++
 multiplexer/dialogue.go     |  9 --------
 multiplexer/dialogue_mgr.go | 42 ++++++++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index cc6efc3..1741532 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -132,6 +132,11 @@ func (bc *baseConn) ChannelRead() <-chan packet.Packet {
 	return bc.readOutCh
 }
 
+// Done is closed once the conn takes no more packets
+func (bc *baseConn) Done() <-chan struct{} {
+	return bc.doneCh
+}
+
 func (bc *baseConn) Write(pkt packet.Packet) error {
 	bc.connMtx.RLock()
 	defer bc.connMtx.RUnlock()
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 4604673..87f4289 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -417,15 +417,6 @@ func (dg *dialogue) sendUp(pkt packet.Packet) {
 	dg.pendingIn = append(dg.pendingIn, pkt)
 }
 
-// input passes the packet from the under layer to the dialogue
-func (dg *dialogue) input(pkt packet.Packet) {
-	select {
-	case dg.readInCh <- pkt:
-	case <-dg.doneCh:
-	case <-dg.closeCh:
-	}
-}
-
 // relay handles packets from both directions until the dialogue is over, true
 // is returned if the dismiss handshake finished.
 func (dg *dialogue) relay() bool {
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index acf06c2..d1f1028 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/singchia/geminio"
@@ -55,6 +56,11 @@ type dialogueMgr struct {
 	closeOnce sync.Once
 	// the manager is finished
 	doneCh chan struct{}
+	// the under layer is over, and how long what it left is delivered, only
+	// touched by readPkt
+	cnDoneCh  <-chan struct{}
+	drainCh   <-chan time.Time
+	abandoned bool
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -184,6 +190,9 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 	dg.dialogueID = packet.SessionID1
 	dm.defaultDialogue = dg
 	dm.dialogues[packet.SessionID1] = dg
+	if doner, ok := cn.(interface{ Done() <-chan struct{} }); ok {
+		dm.cnDoneCh = doner.Done()
+	}
 	// rolling up
 	go dm.readPkt()
 	return dm, nil
@@ -395,6 +404,9 @@ func (dm *dialogueMgr) readPkt() {
 				goto FINI
 			}
 			dm.handlePkt(pkt)
+			if dm.abandoned {
+				goto FINI
+			}
 		case <-dm.closeCh:
 			goto FINI
 		}
@@ -407,6 +419,30 @@ FINI:
 	}
 }
 
+// input passes the packet to the dialogue. A dialogue nobody reads from holds up
+// all others, but not for ever once the under layer is over.
+func (dm *dialogueMgr) input(dg *dialogue, pkt packet.Packet) {
+	cnDoneCh := dm.cnDoneCh
+	for {
+		select {
+		case dg.readInCh <- pkt:
+			return
+		case <-dg.doneCh:
+			return
+		case <-dg.closeCh:
+			return
+		case <-cnDoneCh:
+			cnDoneCh = nil
+			if dm.drainCh == nil {
+				dm.drainCh = time.After(closeTimeout)
+			}
+		case <-dm.drainCh:
+			dm.abandoned = true
+			return
+		}
+	}
+}
+
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 	switch realPkt := pkt.(type) {
 	case *packet.SessionPacket:
@@ -428,7 +464,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
 		dm.mtx.Unlock()
-		dg.input(pkt)
+		dm.input(dg, pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.Lock()
@@ -454,7 +490,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			}
 		}
 		dm.mtx.Unlock()
-		dg.input(pkt)
+		dm.input(dg, pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -483,7 +519,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
 		dm.mtx.RUnlock()
-		dg.input(pkt)
+		dm.input(dg, pkt)
 	}
 }
 
-- 
2.43.0


From a19549f31d6ffd2ef1c052b5f4c9e26774029ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 17/23] fix: application: an at most once publish ignored its
 timeout

---
 application/message.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/application/message.go b/application/message.go
index 6713832..d5449fb 100644
--- a/application/message.go
+++ b/application/message.go
@@ -74,12 +74,20 @@ func wireDeadline(deadline time.Time) time.Time {
 }
 
 // publishAtMostOnce must be called with mtx locked
-func (sm *stream) publishAtMostOnce(ctx context.Context, pkt packet.Packet) error {
+func (sm *stream) publishAtMostOnce(ctx context.Context, timeout time.Duration, pkt packet.Packet) error {
+	var timeoutCh <-chan time.Time
+	if timeout != 0 {
+		timer := time.NewTimer(timeout)
+		defer timer.Stop()
+		timeoutCh = timer.C
+	}
 	select {
 	case sm.writeInCh <- pkt:
 		return nil
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-timeoutCh:
+		return synchub.ErrSyncTimeout
 	case <-sm.doneCh:
 		return io.EOF
 	}
@@ -111,7 +119,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 
 	if msg.Cnss() == options.CnssAtMostOnce {
 		// if consistency is set to be AtMostOnce, we don't wait for the ack
-		err := sm.publishAtMostOnce(ctx, pkt)
+		err := sm.publishAtMostOnce(ctx, msg.Timeout(), pkt)
 		sm.mtx.RUnlock()
 		return err
 	}
@@ -172,7 +180,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 
 	if msg.Cnss() == options.CnssAtMostOnce {
 		// if consistency is set to be AtMostOnce, we don't wait for the ack
-		return nil, sm.publishAtMostOnce(ctx, pkt)
+		return nil, sm.publishAtMostOnce(ctx, msg.Timeout(), pkt)
 	}
 	if ch == nil {
 		// we don't want block here
-- 
2.43.0


From bd194f3b22ac8edab22e1db15ba53dd536ce8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 18/23] fix: application, client: data nobody could consume yet
 blocked the registrations of a new end

NewEnd waits for the acks of the local RPCs and for the remote RPCs, and the
RetryEnd registers again while it reconnects. Messages and bytes the peer sent
meanwhile filled the buffers of the default stream, and since nobody can consume
them before the end is returned, what NewEnd waited for stayed behind them
forever. Hold them until the end is returned.
---
 application/end.go    |  8 ++++++++
 application/stream.go | 30 ++++++++++++++++++++++++++++++
 client/end_retry.go   | 39 +++++++++++++--------------------------
 3 files changed, 51 insertions(+), 26 deletions(-)

diff --git a/application/end.go b/application/end.go
index 4109cb2..4c738b2 100644
--- a/application/end.go
+++ b/application/end.go
@@ -108,6 +108,8 @@ type End struct {
 	// End holds the default stream
 	*stream
 	onceClose *sync.Once
+	// closed once the End is returned to the user, or will never be
+	readyCh chan struct{}
 }
 
 func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOption) (
@@ -118,7 +120,9 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		cn:          cn,
 		multiplexer: multiplexer,
 		onceClose:   new(sync.Once),
+		readyCh:     make(chan struct{}),
 	}
+	defer close(end.readyCh)
 	for _, opt := range options {
 		opt(end)
 	}
@@ -174,6 +178,10 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	return end, nil
 ERR:
+	if end.stream != nil {
+		// nobody will ever consume it
+		end.stream.close()
+	}
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
diff --git a/application/stream.go b/application/stream.go
index 0608ba9..90b58c6 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -243,14 +243,27 @@ func (sm *stream) closed() bool {
 
 func (sm *stream) readPkt() {
 	readInCh := sm.dg.ReadC()
+	// nobody can consume messages or bytes before the end is returned, and the
+	// end may be waiting for registrations behind them
+	readyCh, held := sm.end.readyCh, []packet.Packet{}
 	for {
 		select {
+		case <-readyCh:
+			readyCh = nil
+			for _, pkt := range held {
+				sm.handleIn(pkt)
+			}
+			held = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
 			}
 			sm.log.Tracef("stream read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			if readyCh != nil && consumed(pkt) {
+				held = append(held, pkt)
+				continue
+			}
 			ret := sm.handleIn(pkt)
 			switch ret {
 			case iodefine.IOSuccess:
@@ -264,9 +277,26 @@ func (sm *stream) readPkt() {
 		}
 	}
 FINI:
+	if len(held) != 0 {
+		// the end must not wait for the registrations any more
+		sm.finish()
+		<-readyCh
+		for _, pkt := range held {
+			sm.handleIn(pkt)
+		}
+	}
 	sm.fini()
 }
 
+// consumed tells whether the packet waits for the user to receive or read it
+func consumed(pkt packet.Packet) bool {
+	switch pkt.(type) {
+	case *packet.MessagePacket, *packet.StreamPacket:
+		return true
+	}
+	return false
+}
+
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.MessagePacket:
diff --git a/client/end_retry.go b/client/end_retry.go
index b8b3e79..32326d3 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -77,7 +77,16 @@ ERR:
 }
 
 func (re *RetryEnd) getEnd() (*clientEnd, error) {
-	end, err := NewEndWithDialer(re.dialer, re.opts)
+	eo := *re.opts
+	// register legacy functions too
+	re.rpcMtx.RLock()
+	eo.LocalMethods = append([]*geminio.MethodRPC{}, eo.LocalMethods...)
+	for method, rpc := range re.rpcs {
+		eo.LocalMethods = append(eo.LocalMethods, &geminio.MethodRPC{Method: method, RPC: rpc})
+	}
+	re.rpcMtx.RUnlock()
+
+	end, err := NewEndWithDialer(re.dialer, &eo)
 	if err != nil {
 		return nil, err
 	}
@@ -130,9 +139,9 @@ func (re *RetryEnd) replace(old *clientEnd) (*clientEnd, error) {
 		// doesn't mean to close the end
 		return nil, err
 	}
-	// hijack and register legacy functions, the new end isn't used until it's
-	// all done
-	err = re.restore(new)
+	// legacy functions are registered, the new end isn't used until the hijack
+	// is done
+	err = re.restoreHijack(new)
 	if err != nil {
 		new.Close()
 		return nil, err
@@ -158,28 +167,6 @@ func (re *RetryEnd) restoreHijack(end *clientEnd) error {
 	return end.Hijack(hijackRPC, hijackRPCOpts)
 }
 
-func (re *RetryEnd) restore(end *clientEnd) error {
-	err := re.restoreHijack(end)
-	if err != nil {
-		return err
-	}
-	re.rpcMtx.RLock()
-	rpcs := make(map[string]geminio.RPC, len(re.rpcs))
-	for method, rpc := range re.rpcs {
-		rpcs[method] = rpc
-	}
-	re.rpcMtx.RUnlock()
-
-	for method, rpc := range rpcs {
-		// TODO inconsistency for the context
-		err = end.Register(context.TODO(), method, rpc)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 // lost tells whether the end is over and should be retried
 func lost(err error) bool {
 	return err == io.EOF || err == multiplexer.ErrOperationOnClosedMultiplexer
-- 
2.43.0


From 50d267bc3ebdd1a925ab5c40bd884dc08547ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 19/23] fix: application: a canceled Register or Call could
 block the end of the stream

The sync hub may notify a sync twice if it's closed right when the sync
completes. A Register or Call that returned because of its context consumed
none of them, and the second one blocked the reader of the stream forever, so
Receive, Read and others never noticed that the connection was lost.
---
 application/rpc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 8cf5eb0..3214447 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -49,7 +49,8 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 	}
 	sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
-	sync := sm.shub.New(pkt.ID())
+	// the sync hub closing may notify twice, and nobody's there once canceled
+	sync := sm.shub.New(pkt.ID(), synchub.WithEventChan(make(chan *synchub.Event, 2)))
 	select {
 	case sm.writeInCh <- pkt:
 	case <-ctx.Done():
@@ -133,7 +134,8 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	// transfer to underlayer packet
 	pkt := sm.newRequestPacket(ctx, method, req)
 	var sync synchub.Sync
-	syncOpts := []synchub.SyncOption{}
+	// the sync hub closing may notify twice, and nobody's there once canceled
+	syncOpts := []synchub.SyncOption{synchub.WithEventChan(make(chan *synchub.Event, 2))}
 	if req.Timeout() != 0 {
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
-- 
2.43.0


From 6ede66a6487746c385cd736e0143c9ce0b1e6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:23 +0000
Subject: [PATCH 20/23] fix: packet: an error without a text reached the peer
 as success

---
 packet/factory.go     | 23 ++++++++++++++++-------
 packet/packet_sess.go |  2 +-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/packet/factory.go b/packet/factory.go
index 205effd..cf7c3c3 100644
--- a/packet/factory.go
+++ b/packet/factory.go
@@ -85,7 +85,7 @@ func (pf *packetFactory) NewConnAckPacket(packetID uint64,
 	}
 	if err != nil {
 		connAckPkt.RetCode = RetCodeERR
-		connAckPkt.ConnData.Error = err.Error()
+		connAckPkt.ConnData.Error = errorText(err)
 	}
 	return connAckPkt
 }
@@ -117,7 +117,7 @@ func (pf *packetFactory) NewDisConnAckPacket(packetID uint64,
 	}
 	if err != nil {
 		disConnAckPkt.RetCode = RetCodeERR
-		disConnAckPkt.ConnData.Error = err.Error()
+		disConnAckPkt.ConnData.Error = errorText(err)
 	}
 	return disConnAckPkt
 }
@@ -183,7 +183,7 @@ func (pf *packetFactory) NewSessionAckPacket(packetID uint64, negotiateID uint64
 		SessionData: &SessionData{},
 	}
 	if err != nil {
-		snAckPkt.SessionData.Error = err.Error()
+		snAckPkt.SessionData.Error = errorText(err)
 	}
 	return snAckPkt
 }
@@ -216,7 +216,7 @@ func (pf *packetFactory) NewDismissAckPacket(packetID uint64,
 		SessionData: &SessionData{},
 	}
 	if err != nil {
-		disAckPkt.SessionData.Error = err.Error()
+		disAckPkt.SessionData.Error = errorText(err)
 	}
 	return disAckPkt
 }
@@ -278,7 +278,7 @@ func (pf *packetFactory) NewMessageAckPacket(packetID uint64, err error) *Messag
 		Data: &MessageData{},
 	}
 	if err != nil {
-		msgAckPkt.Data.Error = err.Error()
+		msgAckPkt.Data.Error = errorText(err)
 	}
 	return msgAckPkt
 }
@@ -342,7 +342,7 @@ func (pf *packetFactory) NewResponsePacket(requestPacketID uint64,
 		},
 	}
 	if err != nil {
-		msgAckPkt.Data.Error = err.Error()
+		msgAckPkt.Data.Error = errorText(err)
 	}
 	return &ResponsePacket{msgAckPkt}
 }
@@ -398,7 +398,7 @@ func (pf *packetFactory) NewRegisterAckPacket(packetID uint64, err error) *Regis
 		RegisterData: &RegisterData{},
 	}
 	if err != nil {
-		registerAckPkt.RegisterData.Error = err.Error()
+		registerAckPkt.RegisterData.Error = errorText(err)
 	}
 	return registerAckPkt
 }
@@ -408,3 +408,12 @@ func (pf *packetFactory) NewRegisterAckPacketWithSessionID(sessionID uint64, pac
 	pkt.sessionID = sessionID
 	return pkt
 }
+
+// errorText is how an error travels: an empty text would tell the peer that
+// there was no error.
+func errorText(err error) string {
+	if text := err.Error(); text != "" {
+		return text
+	}
+	return "unknown error"
+}
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 3fd8378..b055ccc 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -151,7 +151,7 @@ func (pkt *SessionAckPacket) SetSessionID(sessionID uint64) {
 }
 
 func (pkt *SessionAckPacket) SetError(err error) {
-	pkt.SessionData.Error = err.Error()
+	pkt.SessionData.Error = errorText(err)
 }
 
 func (pkt *SessionAckPacket) Encode() ([]byte, error) {
-- 
2.43.0


From 7d2337775f05cf75895e82e8679623dca3d72304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 21/23] fix: application: acknowledgements received before the
 end were given up though the consumer was not behind

When the dialogue was already over, the select between the free buffer and
dgDoneCh was random: the stream could be finished, and publishes and calls
failed whose answers were queued right behind the message.
---
 application/stream.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 90b58c6..d0aae34 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -347,6 +347,11 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 		return iodefine.IODiscard
 	}
 	select {
+	case sm.messageCh <- pkt:
+		return iodefine.IOSuccess
+	default:
+	}
+	select {
 	case sm.messageCh <- pkt:
 		return iodefine.IOSuccess
 	case <-sm.closeCh:
@@ -531,6 +536,11 @@ func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 		return iodefine.IODiscard
 	}
 	select {
+	case sm.streamCh <- pkt:
+		return iodefine.IOSuccess
+	default:
+	}
+	select {
 	case sm.streamCh <- pkt:
 		return iodefine.IOSuccess
 	case <-sm.closeCh:
-- 
2.43.0


From b5d4a0656c4e4a5a7721e0b7576c171d408537e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:54 +0000
Subject: [PATCH 22/23] fix: multiplexer: the peer of a stream whose opening
 was acknowledged just too late was never told

---
 multiplexer/dialogue_mgr.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index d1f1028..f13a6fc 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -326,15 +326,18 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 	if err != nil {
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
-		_, negotiating := dm.negotiatingDialogues[negotiatingID]
 		delete(dm.negotiatingDialogues, negotiatingID)
-		dm.mtx.Unlock()
-		if negotiating {
-			dg.closeIO()
-		} else {
-			// the session ack came too late, peer must be dismissed
-			dg.Close()
+		for dialogueID, late := range dm.dialogues {
+			if late == dg {
+				// the session ack came too late, peer must be dismissed; the
+				// dialogue itself may not know the dialogueID yet
+				delete(dm.dialogues, dialogueID)
+				go dm.cn.Write(dm.pf.NewDismissPacket(dialogueID))
+				break
+			}
 		}
+		dm.mtx.Unlock()
+		dg.closeIO()
 		return nil, err
 	}
 	// the dialogue was moved to dialogues while the session ack came
-- 
2.43.0


From d94a9bccd66d0436ba4e91d856445ee57534dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 23/23] fix: multiplexer: a stream that could not be opened was
 left for ever, nobody took what its sync was told

---
 multiplexer/dialogue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 87f4289..2623912 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -329,16 +329,21 @@ func (dg *dialogue) open() error {
 	var pkt *packet.SessionPacket
 	pkt = dg.pf.NewSessionPacket(dg.negotiatingID, dg.dialogueIDPeersCall, dg.meta, dg.peer)
 	// sync must set before the packet send down, in case of the ack coming first
-	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
+	// the timeout and the closing of the sync hub may notify both, and nobody's
+	// there once canceled
+	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second),
+		synchub.WithEventChan(make(chan *synchub.Event, 2)))
 
 	dg.mtx.RLock()
 	if !dg.dialogueOK {
 		dg.mtx.RUnlock()
+		sync.Cancel(false)
 		return io.EOF
 	}
 	err := dg.writeIn(pkt)
 	dg.mtx.RUnlock()
 	if err != nil {
+		sync.Cancel(false)
 		return err
 	}
 
-- 
2.43.0

