From a0d54a33c949bad0faedf8eabb9adb539fe077a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 01/53] fix: packet: reject packets shorter than their fixed
 fields instead of panicking

---
 packet/packet_conn.go | 18 ++++++++++++++++++
 packet/packet_data.go | 20 +++++++++++++++++++-
 packet/packet_sess.go | 24 ++++++++++++++++++++++++
 3 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..5a10b3b 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -95,6 +95,9 @@ func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 10 {
+		return 0, ErrIllegalPacket
+	}
 	// conn flags
 	flags := data[:1]
 	connPkt.Retain = (flags[0] & 0x01) != 0
@@ -116,6 +119,9 @@ func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connPkt *ConnPacket) DecodeFromReader(reader io.Reader) error {
+	if connPkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	flags := make([]byte, 2)
 	_, err := io.ReadFull(reader, flags)
 	if err != nil {
@@ -191,6 +197,9 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 9 {
+		return 0, ErrIllegalPacket
+	}
 	// ret code
 	connAckPkt.RetCode = RetCode(data[0])
 	// client id
@@ -207,6 +216,9 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 
 func (connAckPkt *ConnAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(connAckPkt.PacketLen)
+	if length < 9 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
@@ -275,6 +287,9 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 1 {
+		return 0, ErrIllegalPacket
+	}
 	// ret code
 	disConnAckPkt.RetCode = RetCode(data[0])
 	// data
@@ -289,6 +304,9 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 
 func (disConnAckPkt *DisConnAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(disConnAckPkt.PacketLen)
+	if length < 1 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..4eb8aa9 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -64,6 +64,9 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// cancel type
@@ -72,7 +75,7 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
 	data := make([]byte, pkt.PacketLen)
@@ -142,6 +145,9 @@ func (pkt *MessagePacket) Decode(data []byte) (uint32, error) {
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
@@ -217,6 +223,9 @@ func (pkt *MessageAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
@@ -292,6 +301,9 @@ func (pkt *StreamPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
@@ -362,6 +374,9 @@ func (pkt *RegisterPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// method
@@ -431,6 +446,9 @@ func (pkt *RegisterAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 7695a85..18209fa 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -91,6 +91,9 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 10 {
+		return 0, ErrIllegalPacket
+	}
 	pkt.SessionFlags.Priority = data[0]
 	pkt.SessionFlags.Qos = int8(data[1] & 0x0F)
 	pkt.SessionFlags.sessionIDAcquire = (data[1] & 0x10) != 0
@@ -108,6 +111,9 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *SessionPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
+	if length < 10 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
@@ -181,6 +187,9 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 18 {
+		return 0, ErrIllegalPacket
+	}
 	pkt.negotiateID = binary.BigEndian.Uint64(data[2:10])
 	pkt.sessionID = binary.BigEndian.Uint64(data[10:18])
 	// data
@@ -196,6 +205,9 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *SessionAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
+	if length < 18 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
@@ -256,6 +268,9 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
@@ -271,6 +286,9 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *DismissPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
+	if length < 8 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
@@ -331,6 +349,9 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < length {
 		return 0, ErrIncompletePacket
 	}
+	if length < 8 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// data
@@ -345,6 +366,9 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 
 func (pkt *DismissAckPacket) DecodeFromReader(reader io.Reader) error {
 	length := int(pkt.PacketLen)
+	if length < 8 {
+		return ErrIllegalPacket
+	}
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
 	if err != nil {
-- 
2.43.0


From 5bcb69e0e0011477588d76d1cfeddae60c5370e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 02/53] fix: packet: decode requests and responses from a
 buffer without a nil dereference

---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From 73a7657287e8a54191fed96f9e73e4d8356b370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 03/53] fix: packet: encode the 320s heartbeat, which the peer
 read as 80s

---
 packet/packet_conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 5a10b3b..865f59a 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -79,7 +79,7 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 		pkt[0] |= 0x08
 	}
 	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+		pkt[0] |= byte(math.Round(math.Log2(float64(connPkt.Heartbeat)/5)/2)) << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From 299dd5707eccc0300ea22615d062b36ea0c29771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 04/53] fix: application: deliver a cancelled call to the
 peer's handler context

---
 application/stream.go | 38 ++++++++++++++++++++++++++------------
 packet/decode.go      | 12 ++++++++++++
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 9940afa..c7aa775 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -227,6 +227,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -291,8 +293,8 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			clientID:  sm.cn.ClientID(),
 			streamID:  sm.dg.DialogueID(),
 		}
-	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	// setup context, the peer may cancel it whether it has a deadline or not
+	ctx, cancel := context.WithCancel(context.Background())
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -300,11 +302,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		cancel()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
 	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -332,12 +335,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -473,6 +474,19 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		if err == io.ErrShortBuffer {
+			return iodefine.IODiscard
+		}
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..6d1bc3d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -123,6 +123,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	case TypeResponsePacket:
 		pkt := &ResponsePacket{
 			&MessageAckPacket{},
@@ -246,6 +252,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	case TypeResponsePacket:
 		pkt := &ResponsePacket{
 			&MessageAckPacket{},
-- 
2.43.0


From 5e8c2376c4e0a0c23e295cb08d3aa1ecf3953300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 05/53] fix: id: make the random start of a counter even, so
 that parity holds

---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..4e98839 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xfe // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From 7cb562289f91897da3bd45747960f70590c61433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 06/53] fix: options: keep RemoteMethodCheck when a later
 option leaves it unset

---
 client/end_options.go | 4 +++-
 server/end_options.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/end_options.go b/client/end_options.go
index 0653972..a34b4c0 100644
--- a/client/end_options.go
+++ b/client/end_options.go
@@ -88,7 +88,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
diff --git a/server/end_options.go b/server/end_options.go
index 6b6be1a..11fcd04 100644
--- a/server/end_options.go
+++ b/server/end_options.go
@@ -87,7 +87,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
-- 
2.43.0


From 65c237fe71e58e5bf6405d3bdc2572021ddef6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 07/53] fix: conn: wait for the connect acknowledgement before
 it can arrive

---
 conn/conn_client.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..4450d8b 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -149,9 +149,6 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.hbTick = cc.tmr.Add(time.Duration(cc.heartbeat)*time.Second,
 		timer.WithHandler(cc.sendHeartbeat), timer.WithCyclically())
 	// start
-	go cc.readPkt()
-	go cc.writePkt()
-	go cc.handlePkt()
 	err = cc.connect()
 	if err != nil {
 		goto ERR
@@ -199,8 +196,13 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// the sync must be set before the packet is sent and before the conn may be
+	// finished by a read error
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
+	go cc.readPkt()
+	go cc.writePkt()
+	go cc.handlePkt()
 	event := <-sync.C()
 
 	if event.Error != nil {
-- 
2.43.0


From 3b6ad053829cc69883e732176ea7cfb734bf1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 08/53] fix: conn: tell the client's delegate of its connection
 going online, and offline only then

---
 client/end_retry.go | 3 ---
 conn/conn_client.go | 8 ++++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..7647d99 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -77,9 +77,6 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 	if err != nil {
 		return nil, err
 	}
-	if re.opts.delegate != nil {
-		re.opts.delegate.ConnOnline(end)
-	}
 	return end.(*clientEnd), nil
 }
 
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 4450d8b..4ea5a5c 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -247,7 +247,8 @@ func (cc *ClientConn) handlePkt() {
 	}
 FINI:
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	// only onlined Conn need to be notified
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
@@ -306,8 +307,11 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 		cc.writeInCh <- retPkt
 		return iodefine.IOSuccess
 	}
-	cc.shub.Done(pkt.PacketID)
+	if cc.dlgt != nil {
+		cc.dlgt.ConnOnline(cc)
+	}
 	cc.onlined = true
+	cc.shub.Done(pkt.PacketID)
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From bf9b7853dc1fe42d155874ed9a2309ac8410e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 09/53] fix: conn: keep returning io.EOF from Read after the
 end, a second Read blocked forever

---
 conn/conn_base.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..d3eaf7b 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -79,7 +79,6 @@ type baseConn struct {
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
-- 
2.43.0


From fa6e00feec8b461802154a33b2150a507bda4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 10/53] fix: conn: tear the connection down when writing fails,
 it hung with its write queue full

---
 conn/conn_base.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index d3eaf7b..b84e70a 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -115,7 +115,12 @@ func (bc *baseConn) writePkt() {
 			record := !packet.ConnLayer(pkt)
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
-				// write to net Conn error, we should close the layer
+				// write to net Conn error, we should close the layer, and keep
+				// taking packets so that nobody blocks on a dead conn
+				bc.netconn.Close()
+				for pkt := range writeOutCh {
+					bc.failPkt(pkt)
+				}
 				return
 			}
 		}
@@ -135,6 +140,13 @@ func (bc *baseConn) dowritePkt(pkt packet.Packet, record bool) error {
 	return err
 }
 
+// only upper layer packet need to be notified
+func (bc *baseConn) failPkt(pkt packet.Packet) {
+	if bc.failedCh != nil && !packet.ConnLayer(pkt) {
+		bc.failedCh <- pkt
+	}
+}
+
 func (bc *baseConn) readPkt() {
 	readInCh := bc.readInCh
 
-- 
2.43.0


From 3a849d9f937cabf793e37d783047f4ca67783251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 11/53] fix: conn: finish with writers blocked on a full queue,
 they deadlocked the teardown

---
 conn/conn_client.go | 16 +++++++++++-----
 conn/conn_server.go | 14 +++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 4ea5a5c..51dbf75 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -410,11 +410,17 @@ func (cc *ClientConn) fini() {
 	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
-	cc.connMtx.Lock()
-	cc.connOK = false
-	close(cc.writeInCh)
-	cc.connMtx.Unlock()
-	for pkt := range cc.writeInCh {
+	// lock protect conn status and input resource
+	writeInCh := cc.writeInCh
+	go func() {
+		// writers may hold the lock until their packets are taken below
+		cc.connMtx.Lock()
+		defer cc.connMtx.Unlock()
+		cc.connOK = false
+		close(writeInCh)
+	}()
+	// writeInCh must be cared since buffer might still has data
+	for pkt := range writeInCh {
 		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
 			cc.failedCh <- pkt
 		}
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..3e5bd79 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -435,12 +435,16 @@ func (sc *ServerConn) fini() {
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
-	sc.connMtx.Lock()
-	sc.connOK = false
-	close(sc.writeInCh)
-	sc.connMtx.Unlock()
+	writeInCh := sc.writeInCh
+	go func() {
+		// writers may hold the lock until their packets are taken below
+		sc.connMtx.Lock()
+		defer sc.connMtx.Unlock()
+		sc.connOK = false
+		close(writeInCh)
+	}()
 	// writeInCh must be cared since buffer might still has data
-	for pkt := range sc.writeInCh {
+	for pkt := range writeInCh {
 		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
 			sc.failedCh <- pkt
 		}
-- 
2.43.0


From f463cd9494dfdd1898deb82ac8e9c375220d412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 12/53] fix: conn: let the reader of a finished connection go,
 it stayed blocked on its full queue

---
 conn/conn_client.go | 5 +++++
 conn/conn_server.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 51dbf75..ece20b5 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -410,6 +410,11 @@ func (cc *ClientConn) fini() {
 	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
+	// readPkt may be blocked on a full readInCh
+	go func(readInCh chan packet.Packet) {
+		for range readInCh {
+		}
+	}(cc.readInCh)
 	// lock protect conn status and input resource
 	writeInCh := cc.writeInCh
 	go func() {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 3e5bd79..ea02ef4 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -434,6 +434,11 @@ func (sc *ServerConn) fini() {
 	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
+	// readPkt may be blocked on a full readInCh
+	go func(readInCh chan packet.Packet) {
+		for range readInCh {
+		}
+	}(sc.readInCh)
 	// lock protect conn status and input resource
 	writeInCh := sc.writeInCh
 	go func() {
-- 
2.43.0


From 5367617280a74696ba1eb8ae4c577c1b2b82667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 13/53] fix: conn: don't queue the answer to a close behind a
 full write queue, it deadlocked

---
 conn/conn_base.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index b84e70a..05c0fa1 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -180,11 +180,11 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
+	// send our side close while receiving close packet, writeInCh may be full
+	// and we are the one who takes packets from it
+	go bc.Close()
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
-	// send our side close while receiving close packet
-	bc.Close()
-	return iodefine.IOSuccess
+	return bc.handleOutDisConnAckPacket(retPkt)
 }
 
 func (bc *baseConn) handleInDisConnAckPacket(pkt *packet.DisConnAckPacket) iodefine.IORet {
-- 
2.43.0


From ff593c186783162e3e0842d01c98433530e2ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 14/53] fix: conn: acknowledge the connect before anything the
 server writes, and tell offline whenever online was told

---
 conn/conn_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index ea02ef4..91c2aed 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -323,14 +323,15 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
+	sc.onlined = true
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	// the first packet received, and its ack goes first
+	sc.shub.Ack(sc.getSyncID(), nil)
 	return iodefine.IOSuccess
 }
 
@@ -391,7 +392,6 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 	sc.writeOutCh <- pkt
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
-	sc.onlined = true
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 8da1d4d6ccc6c5b6d8348c93fe5c75a57328f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 15/53] fix: conn: cancel the client's heartbeat without a race
 between close and teardown, which could crash

---
 conn/conn_client.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index ece20b5..1d642cd 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -381,10 +381,7 @@ func (cc *ClientConn) Close() {
 		if !cc.connOK {
 			return
 		}
-		if cc.hbTick != nil {
-			cc.hbTick.Cancel()
-			cc.hbTick = nil
-		}
+		cc.hbTick.Cancel()
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
@@ -401,10 +398,7 @@ func (cc *ClientConn) fini() {
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
-	if cc.hbTick != nil {
-		cc.hbTick.Cancel()
-		cc.hbTick = nil
-	}
+	cc.hbTick.Cancel()
 	// collect shub
 	cc.shub.Close()
 	cc.shub = nil
-- 
2.43.0


From 3461a24e1a43437aa20e2a221f1edef925d8040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 16/53] fix: conn: ignore a heartbeat acknowledgement while
 closing, it cut the close short and lost packets

---
 conn/conn_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 1d642cd..927c4f8 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -321,9 +321,9 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
-		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
+		cc.log.Debugf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
-		return iodefine.IOErr
+		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From 917fe789cf3f1eaabe139f25667228734f16001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 17/53] fix: conn: drop a client whose heartbeats stopped
 instead of waiting for it to answer a close

---
 conn/conn_server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index 91c2aed..d26ab29 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -485,10 +485,11 @@ func (sc *ServerConn) waitHBTimeout(event *timer.Event) {
 	if event.Error == timer.ErrTimerForceClosed {
 		sc.log.Debugf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
 			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
-	} else {
-		sc.log.Errorf("wait HEARTBEAT err: %s, clientID: %d, remote: %s, meta: %s",
-			event.Error, sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+		sc.Close()
+		return
 	}
-	// changed from sc.netconn.Close() to sc.Close()
-	sc.Close()
+	sc.log.Errorf("wait HEARTBEAT timeout, clientID: %d, remote: %s, meta: %s",
+		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
+	// the client is not there to answer a close, which would never finish
+	sc.netconn.Close()
 }
-- 
2.43.0


From 97dd425e9b217d1dfb2a1872af2e68be4b7548c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 18/53] fix: multiplexer: finish a dialogue with writers
 blocked on a full queue, they deadlocked the teardown

---
 multiplexer/dialogue.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..eff73ef 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -343,6 +343,12 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				// keep taking packets so that nobody blocks on a dead conn
+				for pkt := range writeOutCh {
+					if dg.failedCh != nil {
+						dg.failedCh <- pkt
+					}
+				}
 				return
 			}
 		}
@@ -717,21 +723,25 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
-	dg.mtx.Lock()
-	// TODO should we move dialogueOK=false to Close and CloseWait?
-	dg.dialogueOK = false
-	close(dg.writeInCh)
-	dg.mtx.Unlock()
+	writeInCh := dg.writeInCh
+	go func() {
+		// writers may hold the lock until their packets are taken below
+		dg.mtx.Lock()
+		defer dg.mtx.Unlock()
+		// TODO should we move dialogueOK=false to Close and CloseWait?
+		dg.dialogueOK = false
+		close(writeInCh)
+	}()
+	for pkt := range writeInCh {
+		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
+			dg.failedCh <- pkt
+		}
+	}
 
 	// collect shub
 	dg.shub.Close()
 	dg.shub = nil
 
-	for pkt := range dg.writeInCh {
-		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
-			dg.failedCh <- pkt
-		}
-	}
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From a57261fd343a2d0b2c8bf1a5e179960cbda16f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 19/53] fix: multiplexer: don't queue the answer to a dismiss
 behind a full write queue, it deadlocked

---
 multiplexer/dialogue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index eff73ef..f4a1ed2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -508,12 +508,12 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
+	// send out side dismiss while receiving dismiss packet, writeInCh may be
+	// full and we are the one who takes packets from it
+	go dg.Close()
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
-	// send out side dismiss while receiving dismiss packet
-	dg.Close()
-	return iodefine.IOSuccess
+	return dg.handleOutDismissAckPacket(retPkt)
 }
 
 func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefine.IORet {
-- 
2.43.0


From 1b99391ff5ffabfdaae5b909856bfd12f144f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 20/53] fix: multiplexer: closing a dialogue already finished
 dereferenced nil

---
 multiplexer/dialogue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index f4a1ed2..6757d61 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -646,14 +646,14 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
 		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
 			return
 		}
+		// we need a tick in case of never receiving the dismiss ack packet
+		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-- 
2.43.0


From 144eeee600f80e5aa198f577503a61df2215e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 21/53] fix: multiplexer: register an opened dialogue when its
 acknowledgement is read, data and dismiss right behind it were dropped

---
 multiplexer/dialogue.go     |  5 -----
 multiplexer/dialogue_mgr.go | 32 +++++++++++---------------------
 2 files changed, 11 insertions(+), 26 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 6757d61..7d4f482 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -315,11 +315,6 @@ func (dg *dialogue) open() error {
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
 	}
 	return event.Error
 }
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..66cb1fd 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -257,13 +257,11 @@ func (dm *dialogueMgr) getID() uint64 {
 
 // OpenDialogue blocks until succeed or failed
 func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error) {
-	dm.mtx.RLock()
+	dm.mtx.Lock()
 	if !dm.mgrOK {
-		dm.mtx.RUnlock()
+		dm.mtx.Unlock()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
-	dm.mtx.RUnlock()
-
 	negotiatingID := dm.dialogueIDs.GetID()
 	dialogueIDPeersCall := dm.cn.Side() == geminio.InitiatorSide
 	dg, err := NewDialogue(dm.cn, dm.multiplexerOpts.opts,
@@ -274,10 +272,10 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		OptionDialogueMeta(meta),
 		OptionDialoguePeer(peer))
 	if err != nil {
+		dm.mtx.Unlock()
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
 	}
-	dm.mtx.Lock()
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -286,21 +284,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
+		// cause the dialogue io err
+		dg.closeIO()
 		dm.mtx.Unlock()
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
-	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.fini()
-		return nil, ErrOperationOnClosedMultiplexer
-	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
 	return dg, nil
 }
 
@@ -391,18 +379,20 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dm.mtx.Unlock()
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		// the dialogue is ready before data or dismiss coming
+		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+		dm.dialogues[realPkt.SessionID()] = dg
 		dg.readInCh <- pkt
-		dm.mtx.RUnlock()
+		dm.mtx.Unlock()
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
-- 
2.43.0


From 973c93ecf381edf9077fa70a31a81239a6abb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 22/53] fix: multiplexer: keep the opener's own meta, the
 acknowledgement erased it

---
 multiplexer/dialogue.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 7d4f482..200626b 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -481,7 +481,6 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		return iodefine.IOErr
 	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
-- 
2.43.0


From 96390a69d1cc02b7e1d209e207d7d83ce3802dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 23/53] fix: multiplexer: tell the opener's delegate of the
 dialogue going online, it was only told of it going offline

---
 multiplexer/dialogue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 200626b..c020b33 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -481,6 +481,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		return iodefine.IOErr
 	}
 	dg.dialogueID = pkt.SessionID()
+	// open dialogue active, notify the outside delegate as the passive side does
+	if dg.opts.dlgt != nil {
+		dg.opts.dlgt.DialogueOnline(dg)
+	}
+	dg.onlined = true
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
@@ -489,7 +494,6 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.log.Infof("read dialogue ack packet and no waiting sync, clientID: %d, dialogueID: %d, packetID: %d",
 			dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	}
-	dg.onlined = true
 	return iodefine.IONewActive
 }
 
-- 
2.43.0


From 64da4261ea3bc82b4a4a3c75ccc9c13c8d9357a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 24/53] fix: multiplexer: tell the delegate of dialogues going
 offline with their connection

---
 multiplexer/dialogue_mgr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 66cb1fd..0fb065f 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -239,7 +239,7 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
-	} else if dm.dialogueClosedCh != nil {
+	} else if dm.dialogueClosedCh != nil && dm.mgrOK {
 		// this must not be blocked, or else the whole system will stop
 		dm.dialogueClosedCh <- dg.(*dialogue)
 
@@ -465,7 +465,10 @@ func (dm *dialogueMgr) fini() {
 	for id, dg := range dm.dialogues {
 		// cause the dialogue io err
 		dg.closeIO()
-		delete(dm.dialogues, id)
+		if dg == dm.defaultDialogue {
+			// the others are deleted while going offline
+			delete(dm.dialogues, id)
+		}
 	}
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
-- 
2.43.0


From 25a3d5b05cf6c2efe421204424481c34a2b90ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 25/53] fix: application: finish a stream only where it is
 read, with its writers let through; it deadlocked, crashed or lost what was
 read

---
 application/stream.go | 49 ++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index c7aa775..2f0d00f 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -144,30 +144,21 @@ func (sm *stream) Side() geminio.Side {
 
 // main handle logic
 func (sm *stream) handlePkt() {
-	writeInCh := sm.writeInCh
-
-	for {
-		select {
-		case pkt, ok := <-writeInCh:
-			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
-			}
-			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			ret := sm.handleOut(pkt)
-			switch ret {
-			case iodefine.IOSuccess:
-				continue
-			case iodefine.IODiscard:
-				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
-			case iodefine.IOErr:
-				goto FINI
-			}
+	// take packets until fini closes the channel, writers must never be left blocked
+	for pkt := range sm.writeInCh {
+		sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		ret := sm.handleOut(pkt)
+		switch ret {
+		case iodefine.IOSuccess:
+			continue
+		case iodefine.IODiscard:
+			sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
+		case iodefine.IOErr:
+			// the dialogue is finished, and readPkt leads to fini
+			sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 		}
 	}
-FINI:
-	sm.finiOnce.Do(sm.fini)
 }
 
 func (sm *stream) readPkt() {
@@ -188,7 +179,8 @@ func (sm *stream) readPkt() {
 				sm.log.Infof("stream read in packet but buffer full and discard, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			case iodefine.IOErr:
-				goto FINI
+				// the dialogue is finished or the packet unknown, what was read before the end is still good
+				continue
 			}
 		}
 	}
@@ -569,19 +561,14 @@ func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
+	// handlePkt keeps taking packets so that writers holding the lock get through
 	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
-
 	sm.streamOK = false
 	close(sm.writeInCh)
+	sm.mtx.Unlock()
 
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
-	}
-	sm.writeInCh = nil
+	// collect shub, and all syncs will be close notified
 	sm.shub.Close()
-	sm.shub = nil
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
-- 
2.43.0


From 0dd42738cfe54ce175951c24dcb02c6d97866f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 26/53] fix: application: keep the timer shared by all streams
 when one of them finishes

---
 application/end.go    | 1 -
 application/stream.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/stream.go b/application/stream.go
index 2f0d00f..e5374fd 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -578,7 +578,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
-- 
2.43.0


From 10bce8a55a86a7a50a34bf4093803bff7bc178f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 27/53] fix: application: release the stream after a call to an
 unregistered method, closing it deadlocked

---
 application/rpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..f9920b2 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -88,11 +88,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		// check remote RPC exists
 		sm.rpcMtx.RLock()
 		_, ok := sm.remoteRPCs[method]
+		sm.rpcMtx.RUnlock()
 		if !ok {
-			sm.rpcMtx.RUnlock()
+			sm.mtx.RUnlock()
 			return nil, ErrRemoteRPCUnregistered
 		}
-		sm.rpcMtx.RUnlock()
 	}
 	// transfer to underlayer packet
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
-- 
2.43.0


From 61f65ac58792c2b5c94b9debae828e2511383b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 28/53] fix: application: give an asynchronous call its
 response

---
 application/rpc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/application/rpc.go b/application/rpc.go
index f9920b2..ae80886 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -192,6 +192,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			call.Response = event.Ack.(*response)
 			ch <- call
 			return
 		})}
-- 
2.43.0


From 63f5011c9d1fff23c03045eb4d69a757e599bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 29/53] fix: application: apply the call options and the remote
 method check to asynchronous calls

---
 application/rpc.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/application/rpc.go b/application/rpc.go
index ae80886..bccd5ac 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -156,11 +156,21 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
+
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
-- 
2.43.0


From 1174771d66251c7893f376716cb75c2dd621d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 30/53] fix: application: deliver a response's custom data and
 method to the caller

---
 application/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index e5374fd..e855a5a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -366,7 +366,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -521,6 +523,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From 7e87ae8e0fbc73ba34ce9f9ce45da5a68ec22c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 31/53] fix: application: read one at a time and up to what
 arrived before the end, concurrent reads lost bytes and a close the unread
 rest

---
 application/raw.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..ffebd44 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -16,21 +16,15 @@ const (
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
+	// one reader at a time, what it leaves of a packet is for the next one
 	sm.cacheMtx.Lock()
-	if sm.cache != nil && len(sm.cache) != 0 {
+	defer sm.cacheMtx.Unlock()
+
+	if len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
 	if sm.readDeadlineExceeded() {
 		select {
@@ -38,10 +32,8 @@ func (sm *stream) Read(b []byte) (int, error) {
 			if !ok {
 				return 0, io.EOF
 			}
-			sm.cacheMtx.Lock()
 			n := copy(b, pkt.Data)
 			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
 			return n, nil
 		default:
 			return 0, os.ErrDeadlineExceeded
@@ -55,21 +47,15 @@ func (sm *stream) Read(b []byte) (int, error) {
 
 	select {
 	case pkt, ok := <-sm.streamCh:
+		// if we have't used the deadline channel, then release it
+		sm.dlMtx.Lock()
+		sm.dlReadChList.Remove(e)
+		sm.dlMtx.Unlock()
 		if !ok {
-			sm.dlMtx.Lock()
-			sm.dlReadChList.Remove(e)
-			sm.dlMtx.Unlock()
 			return 0, io.EOF
 		}
-		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
 		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
-
-		// if we have't used the deadline channel, then release it
-		sm.dlMtx.Lock()
-		sm.dlReadChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return n, nil
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
-- 
2.43.0


From 8a1419f62682982dd68a9c9cb98b1426478e9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 32/53] fix: application: wait for the reader of raw data
 instead of dropping it

---
 application/stream.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index e855a5a..cd16f8a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -419,12 +419,8 @@ func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodef
 func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet {
 	sm.log.Tracef("read stream packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-	select {
-	case sm.streamCh <- pkt:
-	default:
-		// TODO drop the packet, we don't want block here
-		return iodefine.IODiscard
-	}
+	// dropping the packet would leave a hole in the byte stream, so wait for the reader
+	sm.streamCh <- pkt
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From fbbf402b9c0383ba8b67355b9c93cb73606a681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 33/53] fix: application: let a deadline set in the past end
 waiting reads and writes, and a moved one not

---
 application/raw.go | 121 +++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 60 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index ffebd44..2ac40d7 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,6 +1,7 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
@@ -26,7 +27,9 @@ func (sm *stream) Read(b []byte) (int, error) {
 		return n, nil
 	}
 
+	sm.dlMtx.Lock()
 	if sm.readDeadlineExceeded() {
+		sm.dlMtx.Unlock()
 		select {
 		case pkt, ok := <-sm.streamCh:
 			if !ok {
@@ -41,7 +44,6 @@ func (sm *stream) Read(b []byte) (int, error) {
 	}
 
 	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlReadChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -74,7 +76,9 @@ func (sm *stream) Write(b []byte) (int, error) {
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
+	sm.dlMtx.Lock()
 	if sm.writeDeadlineExceeded() {
+		sm.dlMtx.Unlock()
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -84,7 +88,6 @@ func (sm *stream) Write(b []byte) (int, error) {
 	}
 
 	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlWriteChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -156,30 +159,30 @@ func (sm *stream) setReadDeadline(t time.Time) error {
 		sm.dlReadSync.Cancel(false)
 		sm.dlReadSync = nil
 	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
-	}
 	sm.dlRead = t
+	if t.IsZero() {
+		return nil
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		wakeDeadlineChs(sm.dlReadChList)
+		return nil
+	}
+	sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
+		synchub.WithTimeout(duration),
+		synchub.WithCallback(func(event *synchub.Event) {
+			if event.Error != synchub.ErrSyncTimeout {
+				return
+			}
+			sm.dlMtx.Lock()
+			defer sm.dlMtx.Unlock()
+			if !sm.dlRead.Equal(t) {
+				// the deadline has been moved meanwhile
+				return
+			}
+			// notify all waiting Read, or wait for the rest if the timer was early
+			sm.setReadDeadline(t)
+		}))
 	return nil
 }
 
@@ -199,49 +202,47 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 		sm.dlWriteSync.Cancel(false)
 		sm.dlWriteSync = nil
 	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
-	}
 	sm.dlWrite = t
+	if t.IsZero() {
+		return nil
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		wakeDeadlineChs(sm.dlWriteChList)
+		return nil
+	}
+	sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
+		synchub.WithTimeout(duration),
+		synchub.WithCallback(func(event *synchub.Event) {
+			if event.Error != synchub.ErrSyncTimeout {
+				return
+			}
+			sm.dlMtx.Lock()
+			defer sm.dlMtx.Unlock()
+			if !sm.dlWrite.Equal(t) {
+				// the deadline has been moved meanwhile
+				return
+			}
+			// notify all waiting Write, or wait for the rest if the timer was early
+			sm.setWriteDeadline(t)
+		}))
 	return nil
 }
 
+// dlMtx must be held
 func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
-	}
-	return false
+	return !sm.dlRead.IsZero() && !time.Now().Before(sm.dlRead)
 }
 
+// dlMtx must be held
 func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+	return !sm.dlWrite.IsZero() && !time.Now().Before(sm.dlWrite)
+}
 
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+// the deadline is exceeded, notify all waiting Read or Write
+func wakeDeadlineChs(chs *list.List) {
+	for e := chs.Front(); e != nil; e = chs.Front() {
+		close(e.Value.(chan struct{}))
+		chs.Remove(e)
 	}
-	return false
 }
-- 
2.43.0


From 463185ada21ca87d96176ef8d2e3b2bf6fc93a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 34/53] fix: application: list a stream before it may finish,
 one finished at once stayed listed

---
 application/end.go    | 4 ----
 application/stream.go | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..87500c6 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -196,7 +195,6 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -210,7 +208,6 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -254,7 +251,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index cd16f8a..0a2027b 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -109,6 +109,8 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	// must be listed before it may finish
+	end.streams.Store(dg.DialogueID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
-- 
2.43.0


From 8b19d9588a8f3ff5ea23b0ee5041d5ab7f4cb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 35/53] fix: application: don't miss a remote registration
 arriving while the end starts to wait for it

---
 application/end.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/application/end.go b/application/end.go
index 87500c6..06b57f5 100644
--- a/application/end.go
+++ b/application/end.go
@@ -157,21 +157,19 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
 		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
+		// and the sync must be set before that, in case of them coming meanwhile
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				sync.DoneSub(method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
-- 
2.43.0


From a290a82753124006509cd130015c235d573ee20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 36/53] fix: application: close a stream behind what was
 written on it

---
 application/stream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 0a2027b..6ea2774 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -227,6 +227,9 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
 		return sm.handleOutRegisterPacket(realPkt)
+	case *packet.DismissPacket:
+		sm.dg.Close()
+		return iodefine.IOSuccess
 	}
 	// unknown packet
 	return iodefine.IOSuccess
@@ -551,8 +554,8 @@ func (sm *stream) Close() error {
 
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
-		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		// close the dialogue after what was written before, it will leads to fini and then close the readInCh
+		sm.writeInCh <- sm.pf.NewDismissPacket(sm.dg.DialogueID())
 	})
 	return nil
 }
-- 
2.43.0


From 1e40d20b7ab14aa97a83ef30056284e5092fa714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 37/53] fix: multiplexer: look a dialogue up under the lock

---
 multiplexer/dialogue_mgr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 0fb065f..d681757 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -331,6 +331,8 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	dialogue, ok := dm.dialogues[dialogueID]
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
-- 
2.43.0


From 1f42878b5527249eb0b6b36454658330d05d7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 38/53] fix: application: let a call or publish with a negative
 timeout time out, it crashed the timer

---
 application/message.go | 10 ++++++++++
 application/rpc.go     |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/application/message.go b/application/message.go
index 51c95c5..252d486 100644
--- a/application/message.go
+++ b/application/message.go
@@ -84,6 +84,11 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		sm.mtx.RUnlock()
 		return nil
 	}
+	if msg.Timeout() < 0 {
+		// the time is already over
+		sm.mtx.RUnlock()
+		return synchub.ErrSyncTimeout
+	}
 	var sync synchub.Sync
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx)}
 	if msg.Timeout() != 0 {
@@ -145,6 +150,11 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		sm.mtx.RUnlock()
 		return nil, nil
 	}
+	if msg.Timeout() < 0 {
+		// the time is already over
+		sm.mtx.RUnlock()
+		return nil, synchub.ErrSyncTimeout
+	}
 	if ch == nil {
 		// we don't want block here
 		ch = make(chan *geminio.Publish, 1)
diff --git a/application/rpc.go b/application/rpc.go
index bccd5ac..242a8d3 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -77,6 +77,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	if opt.Timeout != nil {
 		req.SetTimeout(*opt.Timeout)
 	}
+	if req.Timeout() < 0 {
+		// the time is already over
+		return nil, synchub.ErrSyncTimeout
+	}
 
 	sm.mtx.RLock()
 	if !sm.streamOK {
@@ -160,6 +164,10 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if opt.Timeout != nil {
 		req.SetTimeout(*opt.Timeout)
 	}
+	if req.Timeout() < 0 {
+		// the time is already over
+		return nil, synchub.ErrSyncTimeout
+	}
 
 	sm.mtx.RLock()
 	if !sm.streamOK {
-- 
2.43.0


From 69c911c0cfd886e88cb01825cd1f0baee6488f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 39/53] fix: server: hand streams to AcceptStreamFunc outside
 of the multiplexer, one coming early crashed and a Register in it deadlocked

---
 application/end.go    |  6 +++++-
 application/stream.go |  8 ++++++++
 server/end.go         | 38 +++++++++++++++-----------------------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/application/end.go b/application/end.go
index 06b57f5..276194a 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,6 +143,7 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
+	close(end.stream.handedCh)
 
 	// RPCs
 	// pre register local RPCs
@@ -193,6 +194,7 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
+	close(sm.handedCh)
 	return sm, nil
 }
 
@@ -206,6 +208,7 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
+	close(sm.handedCh)
 	return sm, nil
 }
 
@@ -245,13 +248,14 @@ func (end *End) fini() {
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
-// For multiplexer's call, to notify application layer in this way
+// AcceptDialogue makes the dialogue a stream and hands it to acceptStreamFunc
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
+	close(sm.handedCh)
 }
 
 // For multiplexer's call, to notify application layer in this way
diff --git a/application/stream.go b/application/stream.go
index 6ea2774..5dcb53f 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -67,6 +67,8 @@ type stream struct {
 	streamOK  bool
 	closeOnce *gsync.Once
 	finiOnce  *gsync.Once
+	// closed when the stream was handed outside
+	handedCh chan struct{}
 
 	// app layer messages
 	// raw cache
@@ -102,6 +104,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		streamOK:          true,
 		closeOnce:         new(gsync.Once),
 		finiOnce:          new(gsync.Once),
+		handedCh:          make(chan struct{}),
 		messageCh:         make(chan *packet.MessagePacket, 32),
 		streamCh:          make(chan *packet.StreamPacket, 32),
 		failedCh:          make(chan packet.Packet),
@@ -589,6 +592,11 @@ func (sm *stream) fini() {
 	}
 	// reclaim stream from end
 	sm.end.delStream(sm.dg.DialogueID())
+	if sm.closedStreamFunc != nil && sm.dg.DialogueID() != 1 {
+		// tell outside that the stream is closed, after it was handed outside
+		<-sm.handedCh
+		sm.closedStreamFunc(sm)
+	}
 
 	sm.log.Debugf("stream finished, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
diff --git a/server/end.go b/server/end.go
index 36e1357..8f25149 100644
--- a/server/end.go
+++ b/server/end.go
@@ -40,10 +40,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		cn     conn.Conn
 		cnOpts []conn.ServerConnOption
 		// multiplexer
-		mp       multiplexer.Multiplexer
-		mpOpts   []multiplexer.MultiplexerOption
-		acceptfn func(multiplexer.Dialogue)
-		closedfn func(multiplexer.Dialogue)
+		mp     multiplexer.Multiplexer
+		mpOpts []multiplexer.MultiplexerOption
 		// application
 		ep     geminio.End
 		epOpts []application.EndOption
@@ -65,33 +63,15 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	if err != nil {
 		goto ERR
 	}
-	// multiplexer and application
-	if eo.AcceptStreamFunc != nil {
-		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
-		}
-	}
-	if eo.ClosedStreamFunc != nil {
-		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
-		}
-	}
 	// multiplexer
 	mpOpts = []multiplexer.MultiplexerOption{
 		multiplexer.OptionPacketFactory(eo.PacketFactory),
 		multiplexer.OptionDelegate(eo.Delegate),
 		multiplexer.OptionLogger(eo.Log),
 		multiplexer.OptionTimer(eo.Timer),
+		multiplexer.OptionMultiplexerAcceptDialogue(),
 		multiplexer.OptionBufferSize(eo.ReadBufferSize, eo.WriteBufferSize),
 	}
-	if eo.AcceptStreamFunc != nil {
-		mpOpts = append(mpOpts, multiplexer.OptionMultiplexerAcceptFunc(acceptfn))
-	} else {
-		mpOpts = append(mpOpts, multiplexer.OptionMultiplexerAcceptDialogue())
-	}
-	if eo.ClosedStreamFunc != nil {
-		mpOpts = append(mpOpts, multiplexer.OptionMultiplexerClosedFunc(closedfn))
-	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
 		goto ERR
@@ -119,6 +99,18 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		goto ERR
 	}
 	se.End = ep
+	if eo.AcceptStreamFunc != nil {
+		// the function may use the stream and the end, so it isn't called by the multiplexer
+		go func() {
+			for {
+				dg, err := mp.AcceptDialogue()
+				if err != nil {
+					return
+				}
+				ep.(*application.End).AcceptDialogue(dg)
+			}
+		}()
+	}
 	return se, nil
 ERR:
 	if eo.TimerOwner == se {
-- 
2.43.0


From debb67ec16cff18df8caf138f1e5c768de0c7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 40/53] fix: application: end a call or publish in time with
 its write queue full, and tell the peer of a cancelled asynchronous call

---
 application/message.go | 21 ++++++++++++----
 application/rpc.go     | 56 +++++++++++++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/application/message.go b/application/message.go
index 252d486..6635f86 100644
--- a/application/message.go
+++ b/application/message.go
@@ -96,10 +96,15 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
 	sync = sm.shub.New(msg.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
-
-	event := <-sync.C()
+	// the write queue may be full for longer than the publish may take
+	var event *synchub.Event
+	select {
+	case sm.writeInCh <- pkt:
+		sm.mtx.RUnlock()
+		event = <-sync.C()
+	case event = <-sync.C():
+		sm.mtx.RUnlock()
+	}
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -164,7 +169,9 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Done:    ch,
 	}
 	// deadline and timeout for local
+	over := make(chan struct{})
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+		close(over)
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -183,7 +190,11 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// Add a new sync for the async publish
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	// the write queue may be full for longer than the publish may take
+	select {
+	case sm.writeInCh <- pkt:
+	case <-over:
+	}
 	sm.mtx.RUnlock()
 	return publish, nil
 }
diff --git a/application/rpc.go b/application/rpc.go
index 242a8d3..36fa578 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -118,8 +118,18 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	sync = sm.shub.New(req.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	// the write queue may be full for longer than the call may take
+	select {
+	case sm.writeInCh <- pkt:
+		sm.mtx.RUnlock()
+	case <-ctx.Done():
+		sm.mtx.RUnlock()
+		sync.Cancel(false)
+		return nil, ctx.Err()
+	case event := <-sync.C():
+		sm.mtx.RUnlock()
+		return nil, event.Error
+	}
 
 	// we don't set ctx to sync, because select perform better
 	select {
@@ -130,16 +140,8 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 			// we don't deliver deadline exceeded since the pkt already has it
 			return nil, ctx.Err()
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
 		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
+		sm.cancelRequest(pkt.ID())
 		return nil, ctx.Err()
 
 	case event := <-sync.C():
@@ -153,6 +155,26 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	}
 }
 
+// tell the peer that nobody waits for the request any more
+func (sm *stream) cancelRequest(requestID uint64) {
+	sm.mtx.RLock()
+	if !sm.streamOK {
+		sm.mtx.RUnlock()
+		return
+	}
+	pkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(requestID, sm.dg.DialogueID(), packet.RequestCancelTypeCanceled)
+	select {
+	case sm.writeInCh <- pkt:
+		sm.mtx.RUnlock()
+	default:
+		// the caller shouldn't wait for the write queue
+		go func() {
+			sm.writeInCh <- pkt
+			sm.mtx.RUnlock()
+		}()
+	}
+}
+
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -199,12 +221,18 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Done:    ch,
 	}
 	// deadline and timeout for local
+	over := make(chan struct{})
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
+			close(over)
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 				call.Error = event.Error
+				if event.Error == context.Canceled {
+					// notify peer if context Canceled
+					sm.cancelRequest(pkt.ID())
+				}
 				ch <- call
 				return
 			}
@@ -219,7 +247,11 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// Add a new sync for the async call
 	sm.shub.New(pkt.ID(), syncOpts...)
-	sm.writeInCh <- pkt
+	// the write queue may be full for longer than the call may take
+	select {
+	case sm.writeInCh <- pkt:
+	case <-over:
+	}
 	sm.mtx.RUnlock()
 	return call, nil
 }
-- 
2.43.0


From c55092cb00c314af5e9a950c0d90fc73728385ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 41/53] fix: multiplexer: don't close a dialogue's input while
 a packet is put in, closing after a timeout crashed

---
 multiplexer/dialogue.go     | 18 ++++++++++++++++++
 multiplexer/dialogue_hub.go |  6 +++---
 multiplexer/dialogue_mgr.go |  6 +++---
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index c020b33..2189dd2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -75,6 +75,9 @@ type dialogue struct {
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
+	// closeIOMtx protects readInCh from being closed while it's written
+	closeIOMtx sync.Mutex
+	ioClosed   bool
 }
 
 type DialogueOption func(*dialogue)
@@ -706,10 +709,25 @@ func (dg *dialogue) CloseWait() {
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
+		dg.closeIOMtx.Lock()
+		defer dg.closeIOMtx.Unlock()
+		dg.ioClosed = true
 		close(dg.readInCh)
 	})
 }
 
+// readIn takes a packet from the under layer
+func (dg *dialogue) readIn(pkt packet.Packet) {
+	dg.closeIOMtx.Lock()
+	defer dg.closeIOMtx.Unlock()
+	if dg.ioClosed {
+		dg.log.Debugf("dialogue io closed, discard packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+		return
+	}
+	dg.readInCh <- pkt
+}
+
 func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
 	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index a764f98..6794e2f 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -241,7 +241,7 @@ func (dh *dialogueHub) handlePkt(pkt packet.Packet) {
 		dh.mtx.Lock()
 		dh.negotiatingDialogues[key] = dg
 		dh.mtx.Unlock()
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 
 	case *packet.SessionAckPacket:
 		clientID := realPkt.ClientID()
@@ -255,7 +255,7 @@ func (dh *dialogueHub) handlePkt(pkt packet.Packet) {
 				clientID, realPkt.NegotiateID())
 			return
 		}
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 
 	default:
 		clientID := realPkt.(packet.ConnAbove).ClientID()
@@ -278,7 +278,7 @@ func (dh *dialogueHub) handlePkt(pkt packet.Packet) {
 
 		dh.log.Tracef("write to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			clientID, dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 	}
 }
 
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index d681757..0538c17 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -377,7 +377,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.Unlock()
 
 	case *packet.SessionAckPacket:
@@ -393,7 +393,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		// the dialogue is ready before data or dismiss coming
 		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
 		dm.dialogues[realPkt.SessionID()] = dg
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.Unlock()
 
 	default:
@@ -418,7 +418,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.RUnlock()
 	}
 }
-- 
2.43.0


From 78931ad1300eda10025dc73d66a0926f7acecbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 42/53] fix: multiplexer: keep the output channel of a finished
 dialogue, its writer starting late waited forever

---
 multiplexer/dialogue.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 2189dd2..c9332d4 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -762,8 +762,6 @@ func (dg *dialogue) fini() {
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
-	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
 	// collect fsm
-- 
2.43.0


From d09d1235cad989b747a882bf54a5664b5c1c81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 43/53] fix: conn: keep the channels of a finished connection,
 its goroutines starting late waited forever

---
 conn/conn_client.go | 2 --
 conn/conn_server.go | 2 --
 2 files changed, 4 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 927c4f8..06e9fbf 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -442,8 +442,6 @@ func (cc *ClientConn) fini() {
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
 	cc.fsm = nil
-	// collect channels
-	cc.readInCh, cc.writeInCh, cc.writeOutCh = nil, nil, nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
diff --git a/conn/conn_server.go b/conn/conn_server.go
index d26ab29..d381723 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -474,8 +474,6 @@ func (sc *ServerConn) fini() {
 	sc.fsm = nil
 	// collect id
 	sc.clientIDs = nil
-	// collect channels
-	sc.readInCh, sc.writeInCh, sc.writeOutCh = nil, nil, nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
-- 
2.43.0


From 01baa6de4100a16474e6a1516e4b909b97e708fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 44/53] fix: multiplexer: open a dialogue under its lock, a
 connection lost meanwhile crashed it

---
 multiplexer/dialogue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index c9332d4..ec8e030 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -303,14 +303,14 @@ func (dg *dialogue) open() error {
 
 	var pkt *packet.SessionPacket
 	pkt = dg.pf.NewSessionPacket(dg.negotiatingID, dg.dialogueIDPeersCall, dg.meta, dg.peer)
-	// sync must set before the packet send down, in case of the ack coming first
-	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 
 	dg.mtx.RLock()
 	if !dg.dialogueOK {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
+	// sync must set before the packet send down, in case of the ack coming first
+	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 	dg.writeInCh <- pkt
 	dg.mtx.RUnlock()
 
-- 
2.43.0


From 192660ec204c332bc9b9e62e03f4dcba9b8f84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 45/53] fix: conn: finish a closing connection whose peer never
 answers, it stayed for good

---
 conn/conn_base.go   | 12 ++++++++++++
 conn/conn_client.go |  4 ++++
 conn/conn_server.go |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 05c0fa1..57e50e5 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -74,6 +75,17 @@ type baseConn struct {
 
 	connOK  bool
 	connMtx sync.RWMutex
+
+	// set while closing, under connMtx
+	closeTimer *time.Timer
+}
+
+// waitClosed finishes the conn anyway if the peer never answers the close
+func (bc *baseConn) waitClosed() {
+	bc.closeTimer = time.AfterFunc(30*time.Second, func() {
+		bc.log.Infof("conn close timeout, clientID: %d", bc.clientID)
+		bc.netconn.Close()
+	})
 }
 
 func (bc *baseConn) Read() (packet.Packet, error) {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 06e9fbf..f2e2cb7 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -387,6 +387,7 @@ func (cc *ClientConn) Close() {
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
 		pkt := cc.pf.NewDisConnPacket()
+		cc.waitClosed()
 		cc.writeInCh <- pkt
 	})
 }
@@ -424,6 +425,9 @@ func (cc *ClientConn) fini() {
 			cc.failedCh <- pkt
 		}
 	}
+	if cc.closeTimer != nil {
+		cc.closeTimer.Stop()
+	}
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index d381723..38dffc5 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -407,6 +407,7 @@ func (sc *ServerConn) Close() {
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
 		pkt := sc.pf.NewDisConnPacket()
+		sc.waitClosed()
 		sc.writeInCh <- pkt
 	})
 }
@@ -454,6 +455,9 @@ func (sc *ServerConn) fini() {
 			sc.failedCh <- pkt
 		}
 	}
+	if sc.closeTimer != nil {
+		sc.closeTimer.Stop()
+	}
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 319fa9cbb941f393a2f1c820416a76952ae20f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 46/53] fix: multiplexer: let the close of a dialogue time out
 with its queue full, closing an end hung

---
 multiplexer/dialogue.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index ec8e030..199c1cd 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -658,11 +658,18 @@ func (dg *dialogue) Close() {
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
+		event := (*synchub.Event)(nil)
+		select {
+		case dg.writeInCh <- pkt:
+		case event = <-dg.closewait.C():
+			// the peer doesn't take anything
+		}
 
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
-			event := <-dg.closewait.C()
+			if event == nil {
+				event = <-dg.closewait.C()
+			}
 			if event.Error != nil {
 				dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
 					event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
@@ -688,10 +695,17 @@ func (dg *dialogue) CloseWait() {
 		dg.log.Debugf("dialogue is closing, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
+		event := (*synchub.Event)(nil)
+		select {
+		case dg.writeInCh <- pkt:
+		case event = <-dg.closewait.C():
+			// the peer doesn't take anything
+		}
 		dg.mtx.RUnlock()
 		// the sync shouldn't be locked
-		event := <-dg.closewait.C()
+		if event == nil {
+			event = <-dg.closewait.C()
+		}
 		if event.Error != nil {
 			dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
 				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
-- 
2.43.0


From cc0edbf55daf9a5336c3d251d100bc8a3d5fb326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 47/53] fix: client: redial whatever the delegate says to the
 loss, an error of its ConnOffline ended the end

---
 client/end_retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 7647d99..600a257 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -151,7 +151,7 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 		// The offline is just a notification, we're still keep on trying reconnct
 		err := delegate.ConnOffline(conn)
 		if err != nil {
-			return err
+			re.opts.Log.Infof("retry client offline and delegate err: %s", err)
 		}
 	}
 	fn := func() {
-- 
2.43.0


From 09b622bba87e19a322dba2bb4d60f404f7406777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 48/53] fix: client: register legacy methods on the new end
 itself, a loss meanwhile deadlocked the retry

---
 client/end_retry.go | 79 +++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 600a257..9fc4369 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -81,14 +81,28 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
-	// the reinit take times
+	new, err := re.renew(old)
+	if err != nil || new == nil {
+		return err
+	}
+	// after retry the end succeed, after hijack and register legacy functions,
+	// the brand new end online
+	if re.opts.delegate != nil {
+		re.opts.delegate.EndReOnline(new)
+	}
+	return nil
+}
+
+// renew returns the new end, or nil if the old one isn't current
+func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
+	// the renew take times
 	re.retry.Lock()
 	defer re.retry.Unlock()
 
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	if cur != old {
 		// already reinited
-		return nil
+		return nil, nil
 	}
 	// release the end
 	if old != nil {
@@ -97,43 +111,41 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 
 	time.Sleep(3 * time.Second)
 	if atomic.LoadInt32(re.ok) == 0 {
-		return io.EOF
+		return nil, io.EOF
 	}
 	new, err := re.getEnd()
 	if err != nil {
 		// if we still get end error, deliver the error to user, but it
 		// doesn't mean to close the end
-		return err
+		return nil, err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
+	re.rpcMtx.RLock()
+	hijackRPC, hijackRPCOpts := re.hijackRPC, re.hijackRPCOpts
+	rpcs := make(map[string]geminio.RPC, len(re.rpcs))
+	for method, rpc := range re.rpcs {
+		rpcs[method] = rpc
+	}
+	re.rpcMtx.RUnlock()
 	// hijack
-	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+	if hijackRPC != nil {
+		err = new.Hijack(hijackRPC, hijackRPCOpts)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
-	// register legacy functions
-	re.rpcMtx.RLock()
-	for method, rpc := range re.rpcs {
+	// register legacy functions, on the new end itself since we're in its retry
+	for method, rpc := range rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
-			return err
+			return nil, err
 		}
 	}
-	re.rpcMtx.RUnlock()
-
-	// after retry the end succeed, after hijack and register legacy functions,
-	// the brand new end online
-	if re.opts.delegate != nil {
-		re.opts.delegate.EndReOnline(new)
-	}
-	return nil
+	return new, nil
 }
 
 // wrappered delegate
@@ -336,11 +348,6 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
-}
-
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -362,15 +369,17 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.Register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
+	// memorize the rpc in case of retry
+	re.rpcMtx.Lock()
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
+	if cur != (*clientEnd)(atomic.LoadPointer(&re.end)) {
+		// a retry meanwhile may have missed it
+		return re.Register(ctx, method, rpc)
 	}
 	return nil
 }
@@ -401,8 +410,14 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
+	if cur != (*clientEnd)(atomic.LoadPointer(&re.end)) {
+		// a retry meanwhile may have missed it
+		return re.Hijack(rpc, opts...)
+	}
 	return nil
 }
 
-- 
2.43.0


From 8487596ad202eb849c8096025b67ac947c146e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 49/53] fix: client: close the end that a retry brings up while
 closing, it stayed for good

---
 client/end_retry.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 9fc4369..6dadd7e 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -120,6 +120,10 @@ func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 		return nil, err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		new.Close()
+		return nil, io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
@@ -573,9 +577,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
-		// set re.ok false, no more reconnect
+		// set re.ok false, no more reconnect, a retry on its way closes its new end itself
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From 4eba69cc08dcfb016c469e8fe183fba437da28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 50/53] fix: client: carry a retried call or message out as the
 new client, it failed with a mismatch

---
 client/end_retry.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 6dadd7e..ae24c67 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -313,7 +313,8 @@ func (re *RetryEnd) Call(ctx context.Context, method string, req geminio.Request
 				// some other error, maybe ErrInvalidConn, ErrClosed
 				return nil, ierr
 			}
-			// retry succeed, recursive the Call
+			// retry succeed, recursive the Call as the new client
+			req.SetClientID(re.ClientID())
 			return re.Call(ctx, method, req, opts...)
 		}
 		return nil, cerr
@@ -343,7 +344,8 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 				// some other error, maybe ErrInvalidConn, ErrClosed
 				return nil, ierr
 			}
-			// retry succeed, recursive the CallAsync
+			// retry succeed, recursive the CallAsync as the new client
+			req.SetClientID(re.ClientID())
 			return re.CallAsync(ctx, method, req, ch, opts...)
 		}
 		return nil, cerr
@@ -452,7 +454,8 @@ func (re *RetryEnd) Publish(ctx context.Context, msg geminio.Message,
 				}
 				return ierr
 			}
-			// retry succeed, recursive the Publish
+			// retry succeed, recursive the Publish as the new client
+			msg.SetClientID(re.ClientID())
 			return re.Publish(ctx, msg, opts...)
 		}
 		return perr
@@ -481,7 +484,8 @@ func (re *RetryEnd) PublishAsync(ctx context.Context, msg geminio.Message, ch ch
 				}
 				return nil, ierr
 			}
-			// retry succeed, recursive the PublishAsync
+			// retry succeed, recursive the PublishAsync as the new client
+			msg.SetClientID(re.ClientID())
 			return re.PublishAsync(ctx, msg, ch, opts...)
 		}
 		return nil, perr
-- 
2.43.0


From 2e6e09bc1a758b8741153062a193c8894d2962de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 51/53] fix: client: know which end went offline, one lost
 before it was set wasn't redialled

---
 client/end_retry.go | 67 +++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index ae24c67..d2eb601 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -55,14 +55,12 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 		eo.TimerOwner = re
 	}
 
-	// replace outside delegate to ours
+	// outside delegate, the ends take ours
 	re.opts.delegate = re.opts.Delegate
-	re.opts.Delegate = re
-	end, err := re.getEnd()
+	_, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -72,12 +70,54 @@ ERR:
 	return nil, err
 }
 
+// getEnd gets a new end and sets it
 func (re *RetryEnd) getEnd() (*clientEnd, error) {
-	end, err := NewEndWithDialer(re.dialer, re.opts)
+	rd := &retryDelegate{RetryEnd: re, set: make(chan struct{})}
+	defer close(rd.set)
+
+	opts := *re.opts
+	opts.Delegate = rd
+	end, err := NewEndWithDialer(re.dialer, &opts)
 	if err != nil {
 		return nil, err
 	}
-	return end.(*clientEnd), nil
+	rd.end = end.(*clientEnd)
+	atomic.StorePointer(&re.end, unsafe.Pointer(rd.end))
+	return rd.end, nil
+}
+
+// retryDelegate is the delegate of one of the ends, to know which one is
+// offline, it may be before the end is set
+type retryDelegate struct {
+	*RetryEnd
+	end *clientEnd
+	set chan struct{}
+}
+
+func (rd *retryDelegate) ConnOffline(conn delegate.ConnDescriber) error {
+	rd.RetryEnd.ConnOffline(conn)
+	// in case of blocking the function
+	go func() {
+		<-rd.set
+		if rd.end != nil {
+			rd.redial(rd.end)
+		}
+	}()
+	return nil
+}
+
+// redial until there is another end than the lost one
+func (re *RetryEnd) redial(end *clientEnd) {
+	for atomic.LoadInt32(re.ok) == 1 {
+		err := re.reinit(end)
+		if err != nil {
+			re.opts.Log.Infof("retry client offline and retry failed: %s", err)
+			end = (*clientEnd)(atomic.LoadPointer(&re.end))
+			continue
+		}
+		re.opts.Log.Infof("retry client offline and retry succeed")
+		return
+	}
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
@@ -119,7 +159,6 @@ func (re *RetryEnd) renew(old *clientEnd) (*clientEnd, error) {
 		// doesn't mean to close the end
 		return nil, err
 	}
-	atomic.StorePointer(&re.end, unsafe.Pointer(new))
 	if atomic.LoadInt32(re.ok) == 0 {
 		new.Close()
 		return nil, io.EOF
@@ -170,20 +209,6 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 			re.opts.Log.Infof("retry client offline and delegate err: %s", err)
 		}
 	}
-	fn := func() {
-		for atomic.LoadInt32(re.ok) == 1 {
-			end := (*clientEnd)(atomic.LoadPointer(&re.end))
-			err := re.reinit(end)
-			if err != nil {
-				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
-				continue
-			}
-			re.opts.Log.Infof("retry client offline and retry succeed")
-			return
-		}
-	}
-	// in case of blocking the function
-	go fn()
 	return nil
 }
 
-- 
2.43.0


From f32409f515ef7fc91f216ee426649ac8633df307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 52/53] fix: a stream reports the side that opened it

---
 multiplexer/dialogue.go     | 6 +++++-
 multiplexer/dialogue_mgr.go | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 199c1cd..d92ab5e 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -46,6 +46,9 @@ type dialogue struct {
 	meta []byte
 	peer string
 
+	// who opened it, for the default dialogue who opened the conn
+	side geminio.Side
+
 	// under layer
 	cn conn.Conn
 
@@ -143,6 +146,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		opts:         baseOpts,
 		meta:         cn.Meta(),
 		dialogueID:   packet.SessionIDNull,
+		side:         geminio.RecipientSide,
 		cn:           cn,
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
@@ -199,7 +203,7 @@ func (dg *dialogue) DialogueID() uint64 {
 
 // TODO
 func (dg *dialogue) Side() geminio.Side {
-	return geminio.RecipientSide
+	return dg.side
 }
 
 func (dg *dialogue) Peer() string {
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 0538c17..5499898 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -178,6 +178,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		goto ERR
 	}
 	dg.dialogueID = packet.SessionID1
+	dg.side = cn.Side()
 	dm.defaultDialogue = dg
 	dm.dialogues[packet.SessionID1] = dg
 	// rolling up
@@ -276,6 +277,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
 	}
+	dg.side = geminio.InitiatorSide
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
-- 
2.43.0


From e211f792841011f0cb54ec02cb98858eedd2cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:50 +0000
Subject: [PATCH 53/53] fix: a full read queue no longer stops the writes, and
 the other way round

---
 conn/conn_base.go       | 33 ++++++++++++++++++++++++++-
 conn/conn_client.go     | 14 +++++++++---
 conn/conn_server.go     | 14 +++++++++---
 multiplexer/dialogue.go | 50 ++++++++++++++++++++++++++++++++++++-----
 4 files changed, 99 insertions(+), 12 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 57e50e5..802b646 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -69,6 +69,9 @@ type baseConn struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// taken from readInCh and writeInCh but not passed on yet, only used by
+	// handlePkt, which must not wait for one direction to serve the other
+	toRead, toWrite packet.Packet
 
 	// heartbeat
 	hbTick timer.Tick
@@ -110,6 +113,30 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	return nil
 }
 
+// what handlePkt may do next, nil channels for what it may not
+func (bc *baseConn) nextIO() (readInCh, writeInCh, readOutCh, writeOutCh chan packet.Packet) {
+	readInCh, writeInCh = bc.readInCh, bc.writeInCh
+	if bc.toRead != nil {
+		readInCh, readOutCh = nil, bc.readOutCh
+	}
+	if bc.toWrite != nil {
+		writeInCh, writeOutCh = nil, bc.writeOutCh
+	}
+	return
+}
+
+// passes on what was read in, it's still good when the conn is over
+func (bc *baseConn) finiIO() {
+	if bc.toRead != nil {
+		bc.readOutCh <- bc.toRead
+		bc.toRead = nil
+	}
+	if bc.toWrite != nil {
+		bc.failPkt(bc.toWrite)
+		bc.toWrite = nil
+	}
+}
+
 // common read/write/handle
 func (bc *baseConn) writePkt() {
 	writeOutCh := bc.writeOutCh
@@ -250,7 +277,11 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	select {
+	case bc.writeOutCh <- pkt:
+	default:
+		bc.toWrite = pkt
+	}
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index f2e2cb7..8f61207 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -216,10 +216,13 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh := cc.nextIO()
 		select {
+		case readOutCh <- cc.toRead:
+			cc.toRead = nil
+		case writeOutCh <- cc.toWrite:
+			cc.toWrite = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -246,6 +249,7 @@ func (cc *ClientConn) handlePkt() {
 		}
 	}
 FINI:
+	cc.finiIO()
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
 	// only onlined Conn need to be notified
 	if cc.dlgt != nil && cc.onlined {
@@ -335,7 +339,11 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	select {
+	case cc.readOutCh <- pkt:
+	default:
+		cc.toRead = pkt
+	}
 	return iodefine.IOSuccess
 }
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 38dffc5..f26e26e 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -204,10 +204,13 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh := sc.nextIO()
 		select {
+		case readOutCh <- sc.toRead:
+			sc.toRead = nil
+		case writeOutCh <- sc.toWrite:
+			sc.toWrite = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -240,6 +243,7 @@ func (sc *ServerConn) handlePkt() {
 		}
 	}
 FINI:
+	sc.finiIO()
 	sc.log.Debugf("handle pkt done, clientID: %d", sc.clientID)
 	// only onlined Conn need to be notified
 	if sc.dlgt != nil && sc.onlined {
@@ -366,7 +370,11 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	select {
+	case sc.readOutCh <- pkt:
+	default:
+		sc.toRead = pkt
+	}
 	return iodefine.IOSuccess
 }
 
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index d92ab5e..d9ccfcf 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -75,6 +75,9 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// taken from readInCh and writeInCh but not passed on yet, only used by
+	// handlePkt, which must not wait for one direction to serve the other
+	toRead, toWrite packet.Packet
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
@@ -370,12 +373,40 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 	return err
 }
 
-func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
+// what handlePkt may do next, nil channels for what it may not
+func (dg *dialogue) nextIO() (readInCh, writeInCh, readOutCh, writeOutCh chan packet.Packet) {
+	readInCh, writeInCh = dg.readInCh, dg.writeInCh
+	if dg.toRead != nil {
+		readInCh, readOutCh = nil, dg.readOutCh
+	}
+	if dg.toWrite != nil {
+		writeInCh, writeOutCh = nil, dg.writeOutCh
+	}
+	return
+}
 
+// passes on what was read in, it's still good when the dialogue is over
+func (dg *dialogue) finiIO() {
+	if dg.toRead != nil {
+		dg.readOutCh <- dg.toRead
+		dg.toRead = nil
+	}
+	if dg.toWrite != nil {
+		if dg.failedCh != nil {
+			dg.failedCh <- dg.toWrite
+		}
+		dg.toWrite = nil
+	}
+}
+
+func (dg *dialogue) handlePkt() {
 	for {
+		readInCh, writeInCh, readOutCh, writeOutCh := dg.nextIO()
 		select {
+		case readOutCh <- dg.toRead:
+			dg.toRead = nil
+		case writeOutCh <- dg.toWrite:
+			dg.toWrite = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -410,6 +441,7 @@ func (dg *dialogue) handlePkt() {
 		}
 	}
 FINI:
+	dg.finiIO()
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
@@ -552,7 +584,11 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	select {
+	case dg.readOutCh <- pkt:
+	default:
+		dg.toRead = pkt
+	}
 	return iodefine.IOSuccess
 }
 
@@ -642,7 +678,11 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	select {
+	case dg.writeOutCh <- pkt:
+	default:
+		dg.toWrite = pkt
+	}
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
-- 
2.43.0

