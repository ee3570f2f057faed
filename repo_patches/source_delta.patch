From 02c11d499748177f9c5fe9edfe3263ea585dee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 01/26] fix: call a delivery callback once

---
 channel.go | 2 +-
 packet.go  | 4 ++--
 tru.go     | 8 +++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..38ca2c9 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index 96e7c3a..b779905 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index dc58bd4..a895bc8 100644
--- a/tru.go
+++ b/tru.go
@@ -375,9 +375,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		ch.stat.setAckReceived()
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
 		pac, ok := ch.sendQueue.delete(pac.ID())
-		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
+		if !ok {
+			break
+		}
+		// Execute packet delivery callback if it was not executed by timeout
+		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
 		}
 
-- 
2.43.0


From 99b4ce07a38ef5ffb69802283fdea7a27b19ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 02/26] fix: survive late and repeated connect done packets

---
 connect.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index 22dbd57..d28c6fa 100644
--- a/connect.go
+++ b/connect.go
@@ -109,7 +109,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	// Create wait connection channel and save connection data to map
 	wch := tru.connect.add(uuid)
 	defer tru.connect.delete(uuid)
-	defer close(wch)
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -146,7 +145,7 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 func (c *connect) add(uuid string) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
+	wch = make(chan *connectData, 1)
 	c.connects[uuid] = &connectData{uuid, wch, nil}
 	return
 }
@@ -319,8 +318,17 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Send connectData to client connect wait channel
-		cd.wch <- cd
+		// Skip connect done packet received before the server answer
+		if cd.ch == nil {
+			return
+		}
+
+		// Send connectData to client connect wait channel. Skip repeated connect
+		// done packet
+		select {
+		case cd.wch <- cd:
+		default:
+		}
 
 	default:
 		err = errors.New("wrong packet status")
-- 
2.43.0


From 3447a45ce9e53b0a0cadfa41ce56375c671cbfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 03/26] fix: keep an established channel on stray handshake
 packets

---
 channel.go |   2 +
 connect.go | 106 +++++++++++++++++++++++++++++++++++++++++++++--------
 tru.go     |  15 +++-----
 3 files changed, 98 insertions(+), 25 deletions(-)

diff --git a/channel.go b/channel.go
index 38ca2c9..aaabace 100644
--- a/channel.go
+++ b/channel.go
@@ -27,6 +27,8 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+
+	connectUUID string // UUID of the connect packet which created server channel
 	*crypt                   // Crypt module
 }
 
diff --git a/connect.go b/connect.go
index d28c6fa..a69d11c 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -24,8 +25,13 @@ const (
 	ServerConnectTimeout = waitConnectionTimeout
 )
 
+// connectServedKeep is how long the server remembers connections UUIDs to skip
+// repeated connect packets
+const connectServedKeep = 10 * time.Minute
+
 type connect struct {
 	connects map[string]*connectData // Connections map
+	served   map[string]time.Time    // Connections UUIDs served by server
 	m        sync.RWMutex            // Connections maps mutex
 }
 
@@ -165,6 +171,29 @@ func (c *connect) get(uuid string) (cd *connectData, ok bool) {
 	return
 }
 
+// isServed return true if connect packet with this uuid was already served
+func (c *connect) isServed(uuid string) bool {
+	c.m.RLock()
+	defer c.m.RUnlock()
+	_, ok := c.served[uuid]
+	return ok
+}
+
+// setServed save uuid of served connect packet and forget old uuids
+func (c *connect) setServed(uuid string) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if c.served == nil {
+		c.served = make(map[string]time.Time)
+	}
+	for u, t := range c.served {
+		if time.Since(t) > connectServedKeep {
+			delete(c.served, u)
+		}
+	}
+	c.served[uuid] = time.Now()
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
@@ -180,32 +209,53 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
-		var ch *Channel
-		ch, err = tru.newChannel(addr, true)
-		if err != nil {
+		// Skip repeated connect packet
+		if c.isServed(string(cp.uuid)) {
 			return
 		}
 
 		// Get public key
+		var cr *crypt
+		cr, err = tru.newCrypt()
+		if err != nil {
+			return
+		}
 		var pub []byte
-		pub, err = ch.publicKeyToBytes(&ch.privateKey.PublicKey)
+		pub, err = cr.publicKeyToBytes(&cr.privateKey.PublicKey)
 		if err != nil {
 			return
 		}
 
 		// Encrypt public key with received clients public key
 		var pubcli *rsa.PublicKey
-		pubcli, err = ch.bytesToPublicKey(cp.data)
+		pubcli, err = cr.bytesToPublicKey(cp.data)
 		if err != nil {
 			return
 		}
-		cp.data, err = ch.encrypt(pubcli, pub)
+		cp.data, err = cr.encrypt(pubcli, pub)
 		if err != nil {
 			return
 		}
 		var data []byte
 		data, err = cp.MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// When got connect packet from existing channel we destroy this channel
+		// first becaus client reconnected
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+
+		// Create new tru channel
+		var ch *Channel
+		ch, err = tru.newChannel(addr, true)
+		if err != nil {
+			return
+		}
+		ch.connectUUID = string(cp.uuid)
+		c.setServed(ch.connectUUID)
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
@@ -228,26 +278,32 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		cd.ch, err = tru.newChannel(addr)
-		if err != nil {
+
+		// Skip repeated server answer packet
+		if cd.ch != nil {
 			return
 		}
 
 		// Got servers public key from packet
+		var cr *crypt
+		cr, err = tru.newCrypt()
+		if err != nil {
+			return
+		}
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = cr.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = cr.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := cr.makeSesionKey()
+		cp.data, err = cr.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -258,6 +314,15 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Create new tru channel
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+		cd.ch, err = tru.newChannel(addr)
+		if err != nil {
+			return
+		}
+
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
 		cd.ch.writeToSender(pac)
@@ -274,9 +339,9 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Get channel
+		// Get channel created by connect packet with the same uuid
 		ch, ok := tru.getChannel(addr.String())
-		if !ok {
+		if !ok || !ch.serverMode || ch.connectUUID != string(cp.uuid) {
 			err = errors.New("connected channel does not exists")
 			return
 		}
@@ -287,7 +352,16 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
-		ch.setSesionKey(key)
+		switch {
+		case len(key) == 0:
+			err = errors.New("wrong connect client answer packet")
+			return
+		case !ch.ison():
+			ch.setSesionKey(key)
+		case !bytes.Equal(key, ch.sessionKey.bytes):
+			err = errors.New("channel is already connected")
+			return
+		}
 
 		// Create output connect packet data
 		var data []byte
diff --git a/tru.go b/tru.go
index a895bc8..0a9d004 100644
--- a/tru.go
+++ b/tru.go
@@ -329,15 +329,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
-		// Process connection packets
+		// Process connection packets. Wrong, repeated or late connection packets
+		// does not touch existing channel
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debug.Println("connection packet error:", err)
 		}
 		return
 
@@ -350,8 +346,9 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		return
 
 	// Wrong packets: some other packets received when channel does not exists
+	// or does not connected yet
 	default:
-		if !channelExists {
+		if !channelExists || !ch.ison() {
 			return
 		}
 	}
-- 
2.43.0


From 071032afe73901d5919e4f221880c8da0d3ce1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 04/26] fix: close the channel of a failed Connect

---
 connect.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/connect.go b/connect.go
index a69d11c..fde0b30 100644
--- a/connect.go
+++ b/connect.go
@@ -114,7 +114,12 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 
 	// Create wait connection channel and save connection data to map
 	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
+	defer func() {
+		// Close the channel of a not finished connection
+		if c := tru.connect.delete(uuid); c != nil && err != nil {
+			c.Close()
+		}
+	}()
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -156,11 +161,27 @@ func (c *connect) add(uuid string) (wch chan *connectData) {
 	return
 }
 
-// delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+// delete delete connection data from connections map and return its channel
+func (c *connect) delete(uuid string) (ch *Channel) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	delete(c.connects, uuid)
+	if cd, ok := c.connects[uuid]; ok {
+		ch = cd.ch
+		delete(c.connects, uuid)
+	}
+	return
+}
+
+// setChannel set channel to connection data, return false if the connection
+// data is already deleted from connections map
+func (c *connect) setChannel(cd *connectData, ch *Channel) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if c.connects[cd.uuid] != cd {
+		return false
+	}
+	cd.ch = ch
+	return true
 }
 
 // get get connection data from connections map
@@ -318,15 +339,20 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if ch, ok := tru.getChannel(addr.String()); ok {
 			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
 		}
-		cd.ch, err = tru.newChannel(addr)
+		var ch *Channel
+		ch, err = tru.newChannel(addr)
 		if err != nil {
 			return
 		}
+		if !c.setChannel(cd, ch) {
+			ch.destroy(fmt.Sprint("connect timeout, destroy ", ch.addr.String()))
+			return
+		}
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		ch.writeToSender(pac)
+		ch.setSesionKey(key)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
-- 
2.43.0


From 8e7788171b81fbf5d6a905431de01910b8e0ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:08 +0000
Subject: [PATCH 05/26] fix: announce a connection after its handshake is
 completed

---
 channel.go | 5 -----
 connect.go | 7 +++++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index aaabace..13a550e 100644
--- a/channel.go
+++ b/channel.go
@@ -76,11 +76,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	}
 	tru.channels[addr.String()] = ch
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
-
 	return
 }
 
diff --git a/connect.go b/connect.go
index fde0b30..079f6aa 100644
--- a/connect.go
+++ b/connect.go
@@ -378,12 +378,14 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
+		var connected bool
 		switch {
 		case len(key) == 0:
 			err = errors.New("wrong connect client answer packet")
 			return
 		case !ch.ison():
 			ch.setSesionKey(key)
+			connected = true
 		case !bytes.Equal(key, ch.sessionKey.bytes):
 			err = errors.New("channel is already connected")
 			return
@@ -401,6 +403,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
 		ch.writeToSender(pac)
 
+		// Channel connect to server callback
+		if connected && tru.connectcb != nil {
+			tru.connectcb(ch, nil)
+		}
+
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
-- 
2.43.0


From 9e5f3aa1f1c29aec3099f65a37ce25f74eddf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 06/26] fix: return the number of a split message's first
 packet

---
 split.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/split.go b/split.go
index 12cba66..a5b2e45 100644
--- a/split.go
+++ b/split.go
@@ -24,7 +24,10 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 			}
 			break
 		}
-		rid, err = writeTo(data[:maxDataLen], statusSplit)
+		id, err = writeTo(data[:maxDataLen], statusSplit)
+		if i == 0 {
+			rid = id
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From d4d2794ace110dbe619221f01f66c4ede00ac06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 07/26] fix: keep packets in the UDP size limit

---
 packet.go | 4 ++--
 tru.go    | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/packet.go b/packet.go
index b779905..086b8b7 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
diff --git a/tru.go b/tru.go
index 0a9d004..a0b6fe1 100644
--- a/tru.go
+++ b/tru.go
@@ -134,7 +134,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
@@ -212,11 +212,12 @@ func (tru *Tru) SetSendDelay(delay int) {
 	tru.sendDelay = delay
 }
 
-// SetMaxDataLen set max data len in created packets, 0 - maximum UDP len
+// SetMaxDataLen set max data len in created packets, 0 - maximum UDP len. Values
+// which are negative or not less than the maximum are skipped
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
-	if maxDataLen < l {
+	if maxDataLen >= 0 && maxDataLen < l {
 		tru.maxDataLen = maxDataLen
 	}
 }
-- 
2.43.0


From fa5dd86f7b2e506df27aa87e517e538d098655e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 08/26] fix: destroy a channel once and stop its timers

---
 channel.go    | 49 ++++++++++++++++++++++++++++---------------------
 send_queue.go |  5 +++++
 speed.go      |  5 +++++
 statistic.go  | 11 +++++++++--
 4 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/channel.go b/channel.go
index 13a550e..08bc4ae 100644
--- a/channel.go
+++ b/channel.go
@@ -29,7 +29,7 @@ type Channel struct {
 	maxDataLen int           // Max data len in created packets
 
 	connectUUID string // UUID of the connect packet which created server channel
-	*crypt                   // Crypt module
+	*crypt             // Crypt module
 }
 
 // const MaxUint16 = ^uint16(0)
@@ -128,41 +128,48 @@ func (ch *Channel) setReader(reader ReaderFunc) {
 	ch.reader = reader
 }
 
-// destroy destroy channel
-func (ch *Channel) destroy(msg string) {
+// destroy destroy channel, does nothing if the channel is already destroyed.
+// Sends disconnect packet to peer if second parameter is true
+func (ch *Channel) destroy(msg string, disconnect ...bool) {
 	if ch == nil {
 		return
 	}
 
-	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	// Destroy statistic and sendQueue
+	if !ch.stat.destroy() {
+		return
 	}
-	if ch.tru.reader != nil {
-		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	ch.sendQueue.destroy()
+
+	// Send disconnect packet
+	if len(disconnect) > 0 && disconnect[0] {
+		ch.writeToDisconnect()
 	}
 
-	// Destroy sendQueue and statistic
-	ch.sendQueue.destroy()
-	ch.stat.destroy()
+	// Delete channel from channels, the address may already be used by the next
+	// channel
+	ch.tru.mu.Lock()
+	if addr := ch.addr.String(); ch.tru.channels[addr] == ch {
+		delete(ch.tru.channels, addr)
+	}
+	ch.tru.mu.Unlock()
 
 	// Log messages
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
-	ch.tru.mu.Lock()
-	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	// Send error event to readers
+	if ch.reader != nil {
+		ch.reader(ch, nil, ErrChannelDestroyed)
+	}
+	if ch.tru.reader != nil {
+		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	}
 }
 
 // Close tru channel
 func (ch *Channel) Close() {
-	if ch.stat.isDestroyed() {
-		return
-	}
-	ch.writeToDisconnect()
-	ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()))
+	ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()), true)
 }
 
 // Destroyed return true if channel is already destroyed
@@ -213,7 +220,7 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 
 // writeTo writes a packet with status and data to channel
 func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ...int) (id int, err error) {
-	if ch.stat.isDestroyed() {
+	if ch.stat.isDestroyed() && stat != statusDisconnect {
 		err = ErrChannelDestroyed
 		return
 	}
diff --git a/send_queue.go b/send_queue.go
index 181eeca..1eb278a 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -37,6 +38,7 @@ func (s *sendQueue) init(ch *Channel) {
 func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
+	s.destroyed = true
 	s.retransmitTimer.Stop()
 }
 
@@ -116,6 +118,9 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..2a86cef 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	destroyed  bool
 	sync.RWMutex
 }
 
@@ -32,6 +33,7 @@ func (s *speed) destroy() {
 	s.Lock()
 	defer s.Unlock()
 
+	s.destroyed = true
 	if s.timer != nil {
 		s.timer.Stop()
 	}
@@ -76,6 +78,9 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index f8dd38b..ef52e0f 100644
--- a/statistic.go
+++ b/statistic.go
@@ -57,15 +57,19 @@ func (s *statistic) init(inactive, keepalive func()) {
 	s.recvSpeed.init()
 }
 
-// destroy statistic
-func (s *statistic) destroy() {
+// destroy statistic, return false if it is already destroyed
+func (s *statistic) destroy() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return false
+	}
 	s.checkActivityTimer.Stop()
 	s.sendSpeed.destroy()
 	s.recvSpeed.destroy()
 	s.destroyed = true
+	return true
 }
 
 // isDestroyed return true if channel is already destroyed
@@ -180,6 +184,9 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From c744ead2b84d76f69ff4fc2f516e04a1c41e49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:38 +0000
Subject: [PATCH 09/26] fix: fill the queue columns of the statistics list

---
 statistic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic.go b/statistic.go
index ef52e0f..21b0970 100644
--- a/statistic.go
+++ b/statistic.go
@@ -233,7 +233,7 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 	// The Statistic function needs values from send queue and send queue needs
 	// values from statistic so they race. We use WaitGroup and goroutines which
 	// wait while send queue unlock and add values to ChannelsStatistic slice.
-	getRetransmitAttempts := func(stat ChannelsStatistic, ch *Channel, i int) {
+	getRetransmitAttempts := func(ch *Channel, i int) {
 		wg.Add(1)
 		go func() {
 			mu.Lock()
@@ -268,7 +268,7 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 			TT:    float64(ch.stat.tripTimeMidle.Microseconds()) / 1000.0,
 		})
 		ch.stat.RUnlock()
-		getRetransmitAttempts(stat, ch, i)
+		getRetransmitAttempts(ch, i)
 		i++
 	}
 	tru.mu.RUnlock()
-- 
2.43.0


From 1d5ca8ec001fb183144847ff4b362a30a6575c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 10/26] fix: let hotkeys be added while the menu runs

---
 hotkey/hotkey.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..4269c7c 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,11 +18,13 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
 
 type Hotkey struct {
+	mut           sync.RWMutex // protects hotkeys
 	hotkeys       map[string]*hotkeyData
 	unknownKey    func(h *Hotkey, ch []byte)
 	nextKeyAction func(ch []byte)
@@ -100,6 +102,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mut.Lock()
+	defer h.mut.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -144,9 +148,11 @@ func (h *Hotkey) String() (str string) {
 	}
 
 	// Add hotkeyData to slice and sort it
+	h.mut.RLock()
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
 	}
+	h.mut.RUnlock()
 	sort()
 
 	// Add hotkeys and description to returns string
@@ -190,11 +196,13 @@ func (h *Hotkey) SetStopAction(f func()) {
 func (h *Hotkey) run() {
 	for !h.stop {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
+		if action := h.nextKeyAction; action != nil {
 			h.nextKeyAction = nil
+			action(ch)
 		}
+		h.mut.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		h.mut.RUnlock()
 		if !ok {
 			if h.unknownKey != nil {
 				h.unknownKey(h, ch)
-- 
2.43.0


From 922be491f441bd2c9e5603ecd65f7ffab145022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 11/26] fix: start the hotkey menu and statistics of a created
 tru only

---
 tru.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tru.go b/tru.go
index a0b6fe1..1b2348f 100644
--- a/tru.go
+++ b/tru.go
@@ -83,6 +83,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var startHotkey, showStat bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -118,15 +119,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = bool(v)
 
 		// Show statistic
 		case Stat:
-			if v {
-				tru.StatisticPrint()
-			}
+			showStat = bool(v)
 
 		// Private key
 		case *rsa.PrivateKey:
@@ -179,6 +176,14 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Start hotkey menu and show statistic
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+	if showStat {
+		tru.StatisticPrint()
+	}
+
 	log.Connect.Println("tru created")
 
 	return
-- 
2.43.0


From 416914d6fd33b6b6901a421814ff2fd897f6d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 12/26] fix: keep packets of messages written at the same time
 apart

---
 channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/channel.go b/channel.go
index 08bc4ae..2213421 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -27,6 +28,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	writeMut   sync.Mutex    // Keeps packets of splitted messages together
 
 	connectUUID string // UUID of the connect packet which created server channel
 	*crypt             // Crypt module
@@ -213,6 +215,9 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	ch.writeMut.Lock()
+	defer ch.writeMut.Unlock()
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From fda554fcb8cfe560f3acd4e153177109dc911eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 13/26] fix: iterate over a copy of the channels

---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 2213421..95ca148 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync"
 	"time"
 )
@@ -109,10 +108,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
-- 
2.43.0


From ddce157664fc724472001cc09444099e3c81d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 14/26] fix: do not print statistics after they are stopped

---
 statistic.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/statistic.go b/statistic.go
index 21b0970..f1d5be1 100644
--- a/statistic.go
+++ b/statistic.go
@@ -392,13 +392,21 @@ func (tru *Tru) printStatistic(prnt bool) {
 	// Print statistic every 500 ms
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	var timer *time.Timer
+	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+
+		// Print next frame if the print was not stopped
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(500 * time.Millisecond)
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
-- 
2.43.0


From 7ace9a693644f4a4be781e8e29401bb0e5fe8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 15/26] fix: close a tru once and refuse new channels after
 that

---
 channel.go |  5 +++++
 tru.go     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/channel.go b/channel.go
index 95ca148..9b6d846 100644
--- a/channel.go
+++ b/channel.go
@@ -43,6 +43,11 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
+	if tru.closed {
+		err = ErrTruClosed
+		return
+	}
+
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
diff --git a/tru.go b/tru.go
index 1b2348f..07e9603 100644
--- a/tru.go
+++ b/tru.go
@@ -40,6 +40,7 @@ type Tru struct {
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
 	hotkey     *hotkey.Hotkey      // Hotkey menu
+	closed     bool                // Tru is closed
 	mu         sync.RWMutex        // Channels map mutex
 }
 
@@ -192,6 +193,15 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
+	// Set closed flag, new channels are not created any more
+	tru.mu.Lock()
+	closed := tru.closed
+	tru.closed = true
+	tru.mu.Unlock()
+	if closed {
+		return
+	}
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
-- 
2.43.0


From bb15e9bc23c95ba38b8b7ae3d1cdc519a46ccce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 16/26] fix: give the reader of Connect the first messages

---
 channel.go | 15 +++++++++++++--
 connect.go | 28 ++++++++++++++--------------
 tru.go     |  4 ++--
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/channel.go b/channel.go
index 9b6d846..9d10247 100644
--- a/channel.go
+++ b/channel.go
@@ -134,9 +134,20 @@ func (tru *Tru) WriteToPunch(data []byte, addri interface{}) (addr net.Addr, err
 
 // setReader sets channels reafer
 func (ch *Channel) setReader(reader ReaderFunc) {
+	ch.tru.mu.Lock()
+	defer ch.tru.mu.Unlock()
+
 	ch.reader = reader
 }
 
+// getReader gets channels reader
+func (ch *Channel) getReader() ReaderFunc {
+	ch.tru.mu.RLock()
+	defer ch.tru.mu.RUnlock()
+
+	return ch.reader
+}
+
 // destroy destroy channel, does nothing if the channel is already destroyed.
 // Sends disconnect packet to peer if second parameter is true
 func (ch *Channel) destroy(msg string, disconnect ...bool) {
@@ -168,8 +179,8 @@ func (ch *Channel) destroy(msg string, disconnect ...bool) {
 	ch.tru.statMsgs.add(msg)
 
 	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	if reader := ch.getReader(); reader != nil {
+		reader(ch, nil, ErrChannelDestroyed)
 	}
 	if ch.tru.reader != nil {
 		ch.tru.reader(ch, nil, ErrChannelDestroyed)
diff --git a/connect.go b/connect.go
index 079f6aa..1306b79 100644
--- a/connect.go
+++ b/connect.go
@@ -36,9 +36,10 @@ type connect struct {
 }
 
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	wch    chan *connectData
+	ch     *Channel
+	reader ReaderFunc
 }
 
 type connectPacketData struct {
@@ -113,7 +114,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
+	wch := tru.connect.add(uuid, reader...)
 	defer func() {
 		// Close the channel of a not finished connection
 		if c := tru.connect.delete(uuid); c != nil && err != nil {
@@ -129,14 +130,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 
 	// Wait answer to connect message or timeout
 	ch, err = tru.connect.wait(wch)
-	if err != nil {
-		return
-	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
 	return
 }
 
@@ -153,11 +146,15 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	wch = make(chan *connectData, 1)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
+	cd := &connectData{uuid: uuid, wch: wch}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	c.connects[uuid] = cd
 	return
 }
 
@@ -349,6 +346,9 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Add reader to channel before the first message can be received
+		ch.setReader(cd.reader)
+
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
 		ch.writeToSender(pac)
diff --git a/tru.go b/tru.go
index 07e9603..791a1de 100644
--- a/tru.go
+++ b/tru.go
@@ -467,8 +467,8 @@ func (tru *Tru) readerProccess() {
 		}
 
 		// Execute channel reader
-		if r.ch.reader != nil {
-			if r.ch.reader(r.ch, r.pac, nil) {
+		if reader := r.ch.getReader(); reader != nil {
+			if reader(r.ch, r.pac, nil) {
 				continue
 			}
 		}
-- 
2.43.0


From 064540342e89b6bfe3d588cddeac60fb583ad690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 17/26] fix: queue received messages of a net connection

---
 tru_net.go | 122 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 73 insertions(+), 49 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 9040972..71f8ee8 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -43,12 +43,13 @@ func Dial(network, address string) (conn net.Conn, err error) {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	// The connections reader gets messages received before Connect returns
+	c := trunet.newConn()
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.setChannel(ch)
 	conn = c
 	return
 }
@@ -93,19 +94,12 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
 
-	// Check channel destroyed and close Conn (connection)
+	// Check channel destroyed and close Conn (connection), messages which were
+	// received before can be read yet
 	if err != nil {
 		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
+			conn.read.close(false)
 			return
 		}
 		// Some other errors (I think it never happens)
@@ -113,15 +107,7 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		return
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+	conn.read.add(pac.Data())
 
 	return
 }
@@ -135,15 +121,27 @@ func (t Trunet) connected(ch *Channel, err error) {
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func (t Trunet) newConn() (c *Conn) {
+	c = &Conn{localAddr: t.LocalAddr()}
+	c.read.cond = sync.NewCond(&c.read)
+	return
+}
+
+// setChannel sets channel of the connection
+func (c *Conn) setChannel(ch *Channel) {
+	c.ch = ch
+	c.remoteAddr = ch.Addr()
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
 	ch := <-t.accept
-	c := t.newConn(ch)
+	c := t.newConn()
+	c.setChannel(ch)
 	ch.setReader(c.reader)
+	if ch.Destroyed() {
+		c.read.close(false)
+	}
 	conn = c
 	return
 }
@@ -168,17 +166,47 @@ type Conn struct {
 	read       connRead
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	sync.Mutex
+	cond   *sync.Cond // Wakes up waiting Read
+	queue  [][]byte   // Messages received from tru channel reader
+	closed bool       // Connection closed
+	buf    []byte     // Read data which was not send in previuse call
+	cont   bool       // Need send os.EOF
+}
+
+// add adds received message to read queue
+func (r *connRead) add(data []byte) {
+	r.Lock()
+	defer r.Unlock()
+	if r.closed {
+		return
+	}
+	r.queue = append(r.queue, data)
+	r.cond.Signal()
+}
+
+// close closes read queue and drops messages which were not read if the drop
+// parameter is true. Returns false if the queue is already closed
+func (r *connRead) close(drop bool) bool {
+	r.Lock()
+	defer r.Unlock()
+	if r.closed {
+		return false
+	}
+	r.closed = true
+	if drop {
+		r.queue, r.buf, r.cont = nil, nil, false
+	}
+	r.cond.Broadcast()
+	return true
 }
-type connReadChan chan connReadChanData
-type connReadChanData []byte
 
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
+	c.read.Lock()
+	defer c.read.Unlock()
 
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
@@ -189,13 +217,16 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
+		for len(c.read.queue) == 0 && !c.read.closed {
+			c.read.cond.Wait()
+		}
+		if len(c.read.queue) == 0 {
+			// Connection closed
 			err = ErrChannelDestroyed
 			return
 		}
-		c.read.buf = chanData
+		c.read.buf = c.read.queue[0]
+		c.read.queue = c.read.queue[1:]
 		c.read.cont = true
 	}
 
@@ -209,11 +240,7 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
-		err = ErrChannelDestroyed
-		return
-	}
+func (c *Conn) Write(b []byte) (n int, err error) {
 	_, err = c.ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -225,24 +252,21 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
 
-	if c.ch == nil {
+	if !c.read.close(true) {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
 
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
+	c.ch.Close()
 
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.localAddr }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +289,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From e1874b88d05976a50c3a668bb11bcb1011099c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 18/26] fix: queue connections of a listener and stop Accept on
 Close

---
 tru.go     |   8 ++++
 tru_net.go | 106 +++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 91 insertions(+), 23 deletions(-)

diff --git a/tru.go b/tru.go
index 791a1de..34fd91e 100644
--- a/tru.go
+++ b/tru.go
@@ -217,6 +217,14 @@ func (tru *Tru) Close() {
 	log.Connect.Println("tru closed")
 }
 
+// isClosed return true if tru is closed
+func (tru *Tru) isClosed() bool {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+
+	return tru.closed
+}
+
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
 	tru.punchcb = punchcb
diff --git a/tru_net.go b/tru_net.go
index 71f8ee8..329433b 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -19,11 +19,18 @@ import (
 // Trunet is receiver to create Tru net.Listener interface
 type Trunet struct {
 	*Tru
-	accept acceptChannel
+	accept *acceptQueue
 }
-type acceptChannel chan *Channel
 
-// Common tru object
+// acceptQueue contains connected peers which are not accepted yet
+type acceptQueue struct {
+	sync.Mutex
+	cond   *sync.Cond // Wakes up waiting Accept
+	queue  []*Conn    // Connections to accept
+	closed bool       // Listener closed
+}
+
+// Common tru object, used by Dial
 var truCommon struct {
 	*Tru
 	sync.Mutex
@@ -31,20 +38,24 @@ var truCommon struct {
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
+	trunet, err := newTrunet(address, true)
+	if err != nil {
+		return
+	}
+	listener = trunet
 	return
 }
 
 // Dial connects to the address on the tru network
 func Dial(network, address string) (conn net.Conn, err error) {
 
-	trunet, err := newTrunet(":0", true)
+	trunet, err := newTrunet(":0", false)
 	if err != nil {
 		return
 	}
 
 	// The connections reader gets messages received before Connect returns
-	c := trunet.newConn()
+	c := newConn(trunet.Tru)
 	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
@@ -54,8 +65,8 @@ func Dial(network, address string) (conn net.Conn, err error) {
 	return
 }
 
-// newTrunet creates new Trunet object
-func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
+// newTrunet creates new Trunet object. Every listener has its own tru object
+func newTrunet(address string, listen bool) (trunet *Trunet, err error) {
 	trunet = new(Trunet)
 
 	// Parse the address and get port value
@@ -70,20 +81,26 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 		return
 	}
 
-	// Make accept golan channel
-	trunet.accept = make(acceptChannel)
+	// Make accept queue
+	trunet.accept = new(acceptQueue)
+	trunet.accept.cond = sync.NewCond(trunet.accept)
 
 	// Create new tru object or use existing
 	truCommon.Lock()
 	defer truCommon.Unlock()
 	var truObj = truCommon.Tru
-	if !useTruCommon || truObj == nil {
-		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
+	common := truObj != nil && !truObj.isClosed()
+	if listen || !common {
+		params := []interface{}{logLevel, Stat(showStats)}
+		if listen {
+			params = append(params, trunet.connected)
+		}
+		truObj, err = New(port, params...)
 		if err != nil {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if !common {
 			truCommon.Tru = truObj
 		}
 	}
@@ -117,12 +134,57 @@ func (t Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+
+	// Create connection and set its reader before the first message can be
+	// received
+	c := newConn(ch.tru)
+	c.setChannel(ch)
+	ch.setReader(c.reader)
+	if ch.Destroyed() {
+		c.read.close(false)
+	}
+	t.accept.add(c)
+}
+
+// add adds connection to accept queue
+func (a *acceptQueue) add(c *Conn) {
+	a.Lock()
+	defer a.Unlock()
+	if a.closed {
+		return
+	}
+	a.queue = append(a.queue, c)
+	a.cond.Signal()
+}
+
+// get waits for and returns the next connection
+func (a *acceptQueue) get() (c *Conn, err error) {
+	a.Lock()
+	defer a.Unlock()
+	for len(a.queue) == 0 && !a.closed {
+		a.cond.Wait()
+	}
+	if a.closed {
+		err = ErrTruClosed
+		return
+	}
+	c = a.queue[0]
+	a.queue = a.queue[1:]
+	return
+}
+
+// close closes accept queue
+func (a *acceptQueue) close() {
+	a.Lock()
+	defer a.Unlock()
+	a.closed = true
+	a.queue = nil
+	a.cond.Broadcast()
 }
 
 // Create new Conn object
-func (t Trunet) newConn() (c *Conn) {
-	c = &Conn{localAddr: t.LocalAddr()}
+func newConn(tru *Tru) (c *Conn) {
+	c = &Conn{localAddr: tru.LocalAddr()}
 	c.read.cond = sync.NewCond(&c.read)
 	return
 }
@@ -135,12 +197,9 @@ func (c *Conn) setChannel(ch *Channel) {
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn()
-	c.setChannel(ch)
-	ch.setReader(c.reader)
-	if ch.Destroyed() {
-		c.read.close(false)
+	c, err := t.accept.get()
+	if err != nil {
+		return
 	}
 	conn = c
 	return
@@ -149,12 +208,13 @@ func (t Trunet) Accept() (conn net.Conn, err error) {
 // Close closes the listener.
 // Any blocked Accept operations will be unblocked and return errors.
 func (t Trunet) Close() (err error) {
+	t.accept.close()
 	t.Tru.Close()
 	return
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
-- 
2.43.0


From a0cf70aec3bbfc83e7d75666095ab349b47dcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 19/26] fix: concurrent Reads of a Conn lose data or end of
 message

---
 tru_net.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 329433b..69a8059 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -268,32 +268,36 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 	c.read.Lock()
 	defer c.read.Unlock()
 
-	// Return io.EOF
-	if len(c.read.buf) == 0 && c.read.cont {
-		c.read.cont = false
-		err = io.EOF
-		return
-	}
-
-	// Get data from reader
-	if len(c.read.buf) == 0 {
-		for len(c.read.queue) == 0 && !c.read.closed {
-			c.read.cond.Wait()
+	// Get data from reader. While this Read waits other Reads can get a part of
+	// message, than its rest and its io.EOF should be returned first
+	for len(c.read.buf) == 0 {
+		// Return io.EOF
+		if c.read.cont {
+			c.read.cont = false
+			err = io.EOF
+			return
+		}
+		if len(c.read.queue) > 0 {
+			c.read.buf = c.read.queue[0]
+			c.read.queue = c.read.queue[1:]
+			c.read.cont = true
+			break
 		}
-		if len(c.read.queue) == 0 {
+		if c.read.closed {
 			// Connection closed
 			err = ErrChannelDestroyed
 			return
 		}
-		c.read.buf = c.read.queue[0]
-		c.read.queue = c.read.queue[1:]
-		c.read.cont = true
+		c.read.cond.Wait()
 	}
 
 	// Copy data to input slice
 	n = copy(b, c.read.buf)
 	c.read.buf = c.read.buf[n:]
 
+	// The rest of message or its io.EOF waits for the next Read
+	c.read.cond.Signal()
+
 	return
 }
 
-- 
2.43.0


From e2abdfa33116615c08f64879c421a782f0d53620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 20/26] fix: Connect does not return a channel destroyed before
 connect done

---
 connect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/connect.go b/connect.go
index 1306b79..a91832b 100644
--- a/connect.go
+++ b/connect.go
@@ -425,8 +425,9 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Skip connect done packet received before the server answer
-		if cd.ch == nil {
+		// Skip connect done packet received before the server answer or when
+		// the channel of this connection is already destroyed
+		if cd.ch == nil || cd.ch.Destroyed() {
 			return
 		}
 
-- 
2.43.0


From 52e5176822287468abe7a6f5cddbfcf445dfc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 21/26] fix: hotkey menu does not undo later level changes
 after the filter was set

---
 hotkey.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hotkey.go b/hotkey.go
index 3270824..f6df82f 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -28,6 +28,7 @@ func (s *hotkeyMenuState) stopLog(h *hotkey.Hotkey) teolog.LogLevel {
 
 // restoreLog continue stopped by stopLog() logger with saved log level
 func (s *hotkeyMenuState) restoreLog(h *hotkey.Hotkey) teolog.LogLevel {
+	h.NextKeyAction(nil)
 	state := h.State().(*hotkeyMenuState)
 	log.SetLevel(state.logLevel)
 	return state.logLevel
-- 
2.43.0


From fb577b17a0dc92e81fcd8390650245726fffc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 22/26] fix: data written before the connection is established
 was sent in clear

---
 channel.go | 19 +++++++++++++++++--
 connect.go |  4 ++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 9d10247..2fdf1b0 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -29,14 +30,16 @@ type Channel struct {
 	maxDataLen int           // Max data len in created packets
 	writeMut   sync.Mutex    // Keeps packets of splitted messages together
 
-	connectUUID string // UUID of the connect packet which created server channel
-	*crypt             // Crypt module
+	connectUUID string      // UUID of the connect packet which created server channel
+	*crypt                  // Crypt module
+	connected   atomic.Bool // Session key is set, data packets may be sent
 }
 
 // const MaxUint16 = ^uint16(0)
 
 var ErrChannelDestroyed = errors.New("channel destroyed")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
+var ErrChannelNotConnected = errors.New("channel is not connected")
 
 // NewChannel create new tru channel by address
 func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err error) {
@@ -85,6 +88,12 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	return
 }
 
+// setConnected sets session key and allows to send data packets
+func (ch *Channel) setConnected(key []byte) {
+	ch.setSesionKey(key)
+	ch.connected.Store(true)
+}
+
 // getChannel get tru channel by address
 func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 	tru.mu.RLock()
@@ -267,6 +276,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 
 	status := stat &^ statusSplit
 
+	// Data can't be encrypted while the connection is not established
+	if status == statusData && !ch.connected.Load() {
+		err = ErrChannelNotConnected
+		return
+	}
+
 	// Calculate and execute delay for client mode data packets
 	ch.writeToDelay(status)
 
diff --git a/connect.go b/connect.go
index a91832b..dd6e8b1 100644
--- a/connect.go
+++ b/connect.go
@@ -352,7 +352,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
 		ch.writeToSender(pac)
-		ch.setSesionKey(key)
+		ch.setConnected(key)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -384,7 +384,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect client answer packet")
 			return
 		case !ch.ison():
-			ch.setSesionKey(key)
+			ch.setConnected(key)
 			connected = true
 		case !bytes.Equal(key, ch.sessionKey.bytes):
 			err = errors.New("channel is already connected")
-- 
2.43.0


From 8680553827522d45322cbdd167d279e0f9d2ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 23/26] fix: packet keys are derived in the shared session
 key's spare capacity

---
 crypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypt.go b/crypt.go
index fe7b8d2..8c63ab4 100644
--- a/crypt.go
+++ b/crypt.go
@@ -253,7 +253,7 @@ func (c crypt) ison() bool {
 func (k sessionKey) packetKey(id uint32, len int) []byte {
 	b := make([]byte, 4)
 	binary.LittleEndian.PutUint32(b, id)
-	key := append(k.bytes, b...)
+	key := append(append([]byte{}, k.bytes...), b...)
 	// Hash key depend of data len
 	//   md5:    16 byte
 	//   sha1:   20 byte
-- 
2.43.0


From 88e9a58d7742e6b30c3eab110c852d77aa8cdec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 24/26] fix: logger's level and filter are changed without
 synchronisation

---
 teolog/teolog.go | 55 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..32e99b7 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,9 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+
+	levelMut  sync.RWMutex // Protects level and outputs of loggers
+	filterMut sync.RWMutex // Protects filter
 }
 
 type LogLevel int
@@ -95,6 +99,14 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+
+	l.levelMut.Lock()
+	defer l.levelMut.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level. Does not lock
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,50 +119,68 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.levelMut.RLock()
+	defer l.levelMut.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
-	l.level++
-	if l.level >= numLevels {
-		l.level = 0
+	l.levelMut.Lock()
+	defer l.levelMut.Unlock()
+
+	level := l.level + 1
+	if level >= numLevels {
+		level = 0
 	}
-	l.SetLevel(l.level)
-	return l.level
+	l.setLevel(level)
+	return level
 }
 
 // SetFilter set log filter
 func (l *Teolog) SetFilter(f interface{}) {
 
+	var filter Filter
 	switch v := f.(type) {
 	case Filter:
-		l.filter = v
+		filter = v
 	case string:
-		l.filter = Logfilter(v)
+		filter = Logfilter(v)
 	default:
 		panic("wrong filter tipe")
 	}
 
+	l.filterMut.Lock()
+	defer l.filterMut.Unlock()
+	l.filter = filter
 }
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
+	l.filterMut.Lock()
+	defer l.filterMut.Unlock()
 	l.filter = []string{}
 }
 
+// getFilter return current log filter
+func (l *Teolog) getFilter() Filter {
+	l.filterMut.RLock()
+	defer l.filterMut.RUnlock()
+	return l.filter
+}
+
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
-	for i := range l.filter {
+	for i, f := range l.getFilter() {
 		if i > 0 {
 			str += " || "
 		}
-		str += l.filter[i]
+		str += f
 	}
 	return
 }
@@ -249,13 +279,14 @@ type writer struct {
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
 	var valid bool
-	for _, f := range w.l.filter {
+	filter := w.l.getFilter()
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return
 	}
 	return os.Stdout.Write(p)
-- 
2.43.0


From f75597de6c23ba1c74182c5fd45b78e0b2dfd446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 25/26] fix: running hotkey menu is changed without
 synchronisation

---
 hotkey/hotkey.go | 53 ++++++++++++++++++++++++++++++++++++++++--------
 tru.go           |  2 +-
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index 4269c7c..c49c1db 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -24,7 +24,7 @@ import (
 )
 
 type Hotkey struct {
-	mut           sync.RWMutex // protects hotkeys
+	mut           sync.RWMutex // protects all next fields
 	hotkeys       map[string]*hotkeyData
 	unknownKey    func(h *Hotkey, ch []byte)
 	nextKeyAction func(ch []byte)
@@ -65,20 +65,34 @@ func New() *Hotkey {
 // use in its hotkey menu. State is place where user can save its own menu
 // parameters
 func (h *Hotkey) SetState(state interface{}) *Hotkey {
+	h.mut.Lock()
+	defer h.mut.Unlock()
 	h.state = state
 	return h
 }
 
 // State return saved user menu state
 func (h *Hotkey) State() interface{} {
+	h.mut.RLock()
+	defer h.mut.RUnlock()
 	return h.state
 }
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mut.Lock()
+	defer h.mut.Unlock()
 	h.nextKeyAction = f
 }
 
+// takeNextKeyAction return and clear next key action
+func (h *Hotkey) takeNextKeyAction() (f func(ch []byte)) {
+	h.mut.Lock()
+	defer h.mut.Unlock()
+	f, h.nextKeyAction = h.nextKeyAction, nil
+	return
+}
+
 // Add hotkey menu
 func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey)) *Hotkey {
 
@@ -112,6 +126,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mut.Lock()
+	defer h.mut.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -181,31 +197,50 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mut.RLock()
+	stopactions := h.stopactions
+	h.mut.RUnlock()
+	for _, f := range stopactions {
 		f()
 	}
-	h.stop = true
+	h.setStop(true)
+}
+
+// setStop set stop flag
+func (h *Hotkey) setStop(stop bool) {
+	h.mut.Lock()
+	defer h.mut.Unlock()
+	h.stop = stop
+}
+
+// stopped return stop flag
+func (h *Hotkey) stopped() bool {
+	h.mut.RLock()
+	defer h.mut.RUnlock()
+	return h.stop
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mut.Lock()
+	defer h.mut.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
-		if action := h.nextKeyAction; action != nil {
-			h.nextKeyAction = nil
+		if action := h.takeNextKeyAction(); action != nil {
 			action(ch)
 		}
 		h.mut.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknownKey := h.unknownKey
 		h.mut.RUnlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknownKey != nil {
+				unknownKey(h, ch)
 			}
 			continue
 		}
@@ -214,5 +249,5 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
-	h.stop = false
+	h.setStop(false)
 }
diff --git a/tru.go b/tru.go
index 34fd91e..59be65f 100644
--- a/tru.go
+++ b/tru.go
@@ -55,7 +55,7 @@ const (
 )
 
 // Teolog
-var log *teolog.Teolog
+var log = teolog.New()
 
 // Global flag "drop" drop send paskets for testing
 var drop = flag.Int("drop", 0, "drop send packets")
-- 
2.43.0


From 587777636be6a9ee93f83e5c880bf9883319a0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 26/26] fix: message of the event log is read without lock

---
 statistic_log.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
-- 
2.43.0

