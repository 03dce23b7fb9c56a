From 1ff7838d7d4d6912b80d26e33f810b8ed76817dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 01/32] fix: largest packet must fit into an IPv4 UDP datagram

The length of the IPv4 header was not subtracted, so packets of large messages
were refused by the network (EMSGSIZE) and never delivered.
---
 packet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet.go b/packet.go
index 96e7c3a..eee730d 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
-- 
2.43.0


From df9a716b42db623d49a1ae599342a9a34f3c9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 02/32] fix: concurrent writes mixed the packets of split
 messages

The peer combined packets of different messages to one when several goroutines
wrote to the channel at the same time.
---
 channel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/channel.go b/channel.go
index 0679bd0..e2d19b1 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -27,6 +28,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	writeMu    sync.Mutex    // Keeps packets of one message together
 	*crypt                   // Crypt module
 }
 
@@ -209,6 +211,10 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	// Packets of one message can't be mixed with packets of other messages
+	ch.writeMu.Lock()
+	defer ch.writeMu.Unlock()
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From 52e6af7de577fa8c9d656f71ef2f6f3c1a7f34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 03/32] fix: delivery callback was called twice

The timer was stored by value, so Stop did not stop it and the callback was
called with success and, when the timeout passed, with an error again. The
packet was also put to the send queue before its callback was set, so an early
answer could leave the callback uncalled until its timeout.
---
 channel.go | 2 +-
 packet.go  | 4 ++--
 tru.go     | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index e2d19b1..4f87670 100644
--- a/channel.go
+++ b/channel.go
@@ -267,12 +267,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index eee730d..086b8b7 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index dc58bd4..b691df4 100644
--- a/tru.go
+++ b/tru.go
@@ -376,8 +376,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
 		pac, ok := ch.sendQueue.delete(pac.ID())
 		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
+		if !ok {
+			break
+		}
+		// The callback is already called with error if the timer has fired
+		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
 		}
 
-- 
2.43.0


From f57d57241a54da893b7f2b2f7c0a7be7ff38dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 04/32] fix: delivery of a split message was reported when its
 last packet was delivered

Success is now reported when the peer has acknowledged all packets of the
message.
---
 channel.go |  3 +++
 packet.go  |  1 +
 split.go   | 34 ++++++++++++++++++++++++++++++++++
 tru.go     |  5 +++++
 4 files changed, 43 insertions(+)

diff --git a/channel.go b/channel.go
index 4f87670..26528e4 100644
--- a/channel.go
+++ b/channel.go
@@ -29,6 +29,7 @@ type Channel struct {
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
 	writeMu    sync.Mutex    // Keeps packets of one message together
+	message    *sendMessage  // Message which is written now, guarded by writeMu
 	*crypt                   // Crypt module
 }
 
@@ -215,6 +216,7 @@ func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err er
 	ch.writeMu.Lock()
 	defer ch.writeMu.Unlock()
 
+	ch.message = new(sendMessage)
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
@@ -272,6 +274,7 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.message.add(pac)
 		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
diff --git a/packet.go b/packet.go
index 086b8b7..fbfc3a2 100644
--- a/packet.go
+++ b/packet.go
@@ -49,6 +49,7 @@ type Packet struct {
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
 	deliveryTimer      *time.Timer        // Packet delivery timeout timer
+	message            *sendMessage       // Message this packet is part of
 	sync.RWMutex
 }
 
diff --git a/split.go b/split.go
index 12cba66..4624ac5 100644
--- a/split.go
+++ b/split.go
@@ -6,6 +6,8 @@
 
 package tru
 
+import "sync"
+
 // splitPacket split lage packet
 func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int) (int, error)) (rid int, err error) {
 	var id int
@@ -33,6 +35,38 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 	return
 }
 
+// sendMessage counts not delivered packets of one (probably split) message
+type sendMessage struct {
+	packets int     // Number of packets which are not delivered yet
+	last    *Packet // Last packet of message, it has the delivery callback
+	sync.Mutex
+}
+
+// add packet to message
+func (m *sendMessage) add(pac *Packet) {
+	m.Lock()
+	defer m.Unlock()
+
+	m.packets++
+	if pac.status == statusData {
+		m.last = pac
+	}
+	pac.message = m
+}
+
+// delivered counts one packet as delivered. It returns last packet of message
+// if all packets of the message are delivered, or nil
+func (m *sendMessage) delivered() (last *Packet) {
+	m.Lock()
+	defer m.Unlock()
+
+	m.packets--
+	if m.packets > 0 {
+		return
+	}
+	return m.last
+}
+
 // combinePacket combine packet receiver and data structure
 type combinePacket struct {
 	combine bool
diff --git a/tru.go b/tru.go
index b691df4..d2c3c77 100644
--- a/tru.go
+++ b/tru.go
@@ -379,6 +379,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		if !ok {
 			break
 		}
+		// Get last packet of the message if all packets of it are delivered
+		pac = pac.message.delivered()
+		if pac == nil {
+			break
+		}
 		// The callback is already called with error if the timer has fired
 		if delivery := pac.Delivery(); delivery != nil && pac.deliveryTimer.Stop() {
 			go delivery(pac, nil)
-- 
2.43.0


From af4e2a7fb1c478912d495447806d87c28d854749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 05/32] fix: channel could be destroyed more than once

Readers were told several times, a late destroy removed the new channel of the
same peer from the channels map, and timers which were running while the
channel was destroyed started again.
---
 channel.go    | 28 ++++++++++++++++------------
 send_queue.go |  5 +++++
 speed.go      |  5 +++++
 statistic.go  | 11 +++++++++--
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/channel.go b/channel.go
index 26528e4..82ce315 100644
--- a/channel.go
+++ b/channel.go
@@ -140,26 +140,30 @@ func (ch *Channel) destroy(msg string) {
 		return
 	}
 
-	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
-	}
-	if ch.tru.reader != nil {
-		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	// Destroy statistic and sendQueue, channel may be destroyed only once
+	if !ch.stat.destroy() {
+		return
 	}
-
-	// Destroy sendQueue and statistic
 	ch.sendQueue.destroy()
-	ch.stat.destroy()
 
 	// Log messages
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
+	// Delete channel from channels, if there is not a new channel to this peer
 	ch.tru.mu.Lock()
-	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	if ch.tru.channels[ch.addr.String()] == ch {
+		delete(ch.tru.channels, ch.addr.String())
+	}
+	ch.tru.mu.Unlock()
+
+	// Send error event to readers
+	if ch.reader != nil {
+		ch.reader(ch, nil, ErrChannelDestroyed)
+	}
+	if ch.tru.reader != nil {
+		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	}
 }
 
 // Close tru channel
diff --git a/send_queue.go b/send_queue.go
index 181eeca..77d7064 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -38,6 +39,7 @@ func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
 	s.retransmitTimer.Stop()
+	s.destroyed = true
 }
 
 // add packet to send queue
@@ -116,6 +118,9 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..b4cefed 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	destroyed  bool
 	sync.RWMutex
 }
 
@@ -35,6 +36,7 @@ func (s *speed) destroy() {
 	if s.timer != nil {
 		s.timer.Stop()
 	}
+	s.destroyed = true
 }
 
 // get current speed
@@ -76,6 +78,9 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index f8dd38b..ef52e0f 100644
--- a/statistic.go
+++ b/statistic.go
@@ -57,15 +57,19 @@ func (s *statistic) init(inactive, keepalive func()) {
 	s.recvSpeed.init()
 }
 
-// destroy statistic
-func (s *statistic) destroy() {
+// destroy statistic, return false if it is already destroyed
+func (s *statistic) destroy() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return false
+	}
 	s.checkActivityTimer.Stop()
 	s.sendSpeed.destroy()
 	s.recvSpeed.destroy()
 	s.destroyed = true
+	return true
 }
 
 // isDestroyed return true if channel is already destroyed
@@ -180,6 +184,9 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From 8254f063abc0aa64cb8199ebf9069b05d70b86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 06/32] fix: ForEachChannel read the channels map without lock

It called the function with nil when a channel was destroyed meanwhile.
---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 82ce315..30bb7b9 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync"
 	"time"
 )
@@ -113,10 +112,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for i := range channels {
+		f(channels[i])
 	}
 }
 
-- 
2.43.0


From 945411c8462b7bdf8c1ee483a499f8bdbf5c591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 07/32] fix: duplicate, late and stray handshake packets broke
 connections

A second connect done packet, or one which came while Connect gave up, caused a
panic (send on closed channel) or blocked the node. Handshake packets of other
connections destroyed or re-keyed the connected channel, and a duplicate server
answer created a second one. Channels are now connected only by the packets of
their own connection and replace the previous channel when connected; half
connected ones are removed. The connect callback is called without the lock and
when the session key is set, and the reader of Connect is set before the first
message can be received.
---
 channel.go |  35 ++++++++-
 connect.go | 212 +++++++++++++++++++++++++++++++++++++++++++----------
 tru.go     |  14 ++--
 3 files changed, 210 insertions(+), 51 deletions(-)

diff --git a/channel.go b/channel.go
index 30bb7b9..b4e1976 100644
--- a/channel.go
+++ b/channel.go
@@ -18,6 +18,8 @@ import (
 type Channel struct {
 	addr       net.Addr      // Peer address
 	serverMode bool          // Server mode if true
+	uuid       string        // Connection UUID (server mode)
+	connected  bool          // Channel was added to channels map
 	id         uint32        // Next send ID
 	expectedID uint32        // Next expected ID
 	reader     ReaderFunc    // Channels reader
@@ -39,8 +41,6 @@ var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
 // NewChannel create new tru channel by address
 func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err error) {
-	tru.mu.Lock()
-	defer tru.mu.Unlock()
 
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
@@ -74,14 +74,34 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	if !ch.serverMode {
 		ch.stat.sendDelay = tru.sendDelay
 	}
-	tru.channels[addr.String()] = ch
+
+	return
+}
+
+// addChannel add connected channel to channels map instead of previous channel
+// to the same address, which is destroyed. It returns false if the channel is
+// already destroyed
+func (tru *Tru) addChannel(ch *Channel) bool {
+	tru.mu.Lock()
+	if ch.stat.isDestroyed() {
+		tru.mu.Unlock()
+		return false
+	}
+	old := tru.channels[ch.addr.String()]
+	tru.channels[ch.addr.String()] = ch
+	ch.connected = true
+	tru.mu.Unlock()
+
+	if old != nil {
+		old.destroy(fmt.Sprint("channel reconnect, destroy ", old.addr.String()))
+	}
 
 	// Channel connect to server callback
 	if ch.serverMode && ch.tru.connectcb != nil {
 		ch.tru.connectcb(ch, nil)
 	}
 
-	return
+	return true
 }
 
 // getChannel get tru channel by address
@@ -157,7 +177,14 @@ func (ch *Channel) destroy(msg string) {
 	if ch.tru.channels[ch.addr.String()] == ch {
 		delete(ch.tru.channels, ch.addr.String())
 	}
+	connected := ch.connected
 	ch.tru.mu.Unlock()
+	ch.tru.connect.deletePending(ch)
+
+	// Readers do not know about channel which was not connected
+	if !connected {
+		return
+	}
 
 	// Send error event to readers
 	if ch.reader != nil {
diff --git a/connect.go b/connect.go
index 22dbd57..d654527 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -23,16 +24,20 @@ const (
 	ClientConnectTimeout = waitConnectionTimeout
 	ServerConnectTimeout = waitConnectionTimeout
 )
+const uuidLifeTime = 2 * time.Minute // Duplicates of connect packet are skipped during this time
 
 type connect struct {
-	connects map[string]*connectData // Connections map
+	connects map[string]*connectData // Connections map (clients side)
+	pending  map[string]*Channel     // Channels wait client answer by address (servers side)
+	uuids    map[string]time.Time    // Lately used connections UUIDs (servers side)
 	m        sync.RWMutex            // Connections maps mutex
 }
 
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	wch    chan *connectData
+	ch     *Channel
+	reader ReaderFunc
 }
 
 type connectPacketData struct {
@@ -107,65 +112,145 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
-	defer close(wch)
+	wch := tru.connect.add(uuid, reader...)
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
 	if err != nil {
+		tru.connect.delete(uuid)
 		return
 	}
 
 	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
-	if err != nil {
-		return
-	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
-	return
+	return tru.connect.wait(uuid, wch)
 }
 
 // wait channel connected or timeout
-func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
+func (c *connect) wait(uuid string, wch chan *connectData) (ch *Channel, err error) {
+	var cd *connectData
+	var ok bool
 	select {
-	case cd := <-wch:
-		ch = cd.ch
-		return
+	case cd, ok = <-wch:
 	case <-time.After(waitConnectionTimeout):
-		err = errors.New("can't connect to peer during timeout")
+		// Destroy half connected channel. If there is no connection data then
+		// connect was done just now
+		if cd, timeout := c.delete(uuid); timeout {
+			if cd.ch != nil {
+				cd.ch.destroy(fmt.Sprint("channel connect timeout, destroy ", cd.ch.addr.String()))
+			}
+			err = errors.New("can't connect to peer during timeout")
+			return
+		}
+		cd, ok = <-wch
+	}
+	if !ok {
+		err = ErrChannelDestroyed
 		return
 	}
+	ch = cd.ch
+	return
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
+	wch = make(chan *connectData, 1)
+	cd := &connectData{uuid: uuid, wch: wch}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	c.connects[uuid] = cd
 	return
 }
 
-// delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+// delete get and delete connection data from connections map
+func (c *connect) delete(uuid string) (cd *connectData, ok bool) {
 	c.m.Lock()
 	defer c.m.Unlock()
+	cd, ok = c.connects[uuid]
 	delete(c.connects, uuid)
+	return
 }
 
-// get get connection data from connections map
+// get get connection data which wait server answer from connections map
 func (c *connect) get(uuid string) (cd *connectData, ok bool) {
 	c.m.RLock()
 	defer c.m.RUnlock()
 	cd, ok = c.connects[uuid]
+	ok = ok && cd.ch == nil
+	return
+}
+
+// setChannel set channel to connection data if it is still in connections map
+func (c *connect) setChannel(uuid string, ch *Channel) (ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	cd, ok := c.connects[uuid]
+	if ok {
+		cd.ch = ch
+	}
+	return
+}
+
+// done get and delete connection data, which got server answer, from
+// connections map
+func (c *connect) done(uuid string) (cd *connectData, ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	cd, ok = c.connects[uuid]
+	if !ok || cd.ch == nil {
+		return nil, false
+	}
+	delete(c.connects, uuid)
+	return
+}
+
+// duplicate save connection uuid and return true if it was already used
+func (c *connect) duplicate(uuid string) (ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	for u, t := range c.uuids {
+		if time.Since(t) > uuidLifeTime {
+			delete(c.uuids, u)
+		}
+	}
+	_, ok = c.uuids[uuid]
+	if !ok {
+		c.uuids[uuid] = time.Now()
+	}
 	return
 }
 
+// addPending add channel which wait client answer, and return previous one
+func (c *connect) addPending(ch *Channel) (old *Channel) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	old = c.pending[ch.addr.String()]
+	c.pending[ch.addr.String()] = ch
+	return
+}
+
+// getPending get channel which wait client answer by address and uuid
+func (c *connect) getPending(addr net.Addr, uuid []byte) (ch *Channel, ok bool) {
+	c.m.RLock()
+	defer c.m.RUnlock()
+	ch, ok = c.pending[addr.String()]
+	if !ok || ch.uuid != string(uuid) {
+		return nil, false
+	}
+	return
+}
+
+// deletePending delete channel which wait client answer
+func (c *connect) deletePending(ch *Channel) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if c.pending[ch.addr.String()] == ch {
+		delete(c.pending, ch.addr.String())
+	}
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
@@ -181,12 +266,24 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
+		// Skip duplicate of connect packet which is already processed
+		if c.duplicate(string(cp.uuid)) {
+			return
+		}
+
+		// Create new tru channel. Channel which already connected to this
+		// address is live until client answer received
 		var ch *Channel
 		ch, err = tru.newChannel(addr, true)
 		if err != nil {
 			return
 		}
+		ch.uuid = string(cp.uuid)
+		defer func() {
+			if err != nil {
+				ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+			}
+		}()
 
 		// Get public key
 		var pub []byte
@@ -207,6 +304,14 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 		var data []byte
 		data, err = cp.MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// Save channel until client answer
+		if old := c.addPending(ch); old != nil {
+			old.destroy(fmt.Sprint("channel reconnect, destroy ", old.addr.String()))
+		}
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
@@ -229,26 +334,33 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		cd.ch, err = tru.newChannel(addr)
+		var ch *Channel
+		ch, err = tru.newChannel(addr)
 		if err != nil {
 			return
 		}
+		ch.reader = cd.reader
+		defer func() {
+			if err != nil {
+				ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+			}
+		}()
 
 		// Got servers public key from packet
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = ch.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = ch.crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := ch.makeSesionKey()
+		cp.data, err = ch.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -260,9 +372,13 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Create packet and send it to tru channel
+		ch.setSesionKey(key)
+		if !c.setChannel(cd.uuid, ch) {
+			err = errors.New("connect was canceled by timeout")
+			return
+		}
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		ch.writeToSender(pac)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -275,8 +391,8 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Get channel
-		ch, ok := tru.getChannel(addr.String())
+		// Get channel which wait this answer
+		ch, ok := c.getPending(addr, cp.uuid)
 		if !ok {
 			err = errors.New("connected channel does not exists")
 			return
@@ -288,6 +404,10 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
+		if len(key) == 0 {
+			err = errors.New("wrong session key in connect client answer packet")
+			return
+		}
 		ch.setSesionKey(key)
 
 		// Create output connect packet data
@@ -298,6 +418,13 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Channel is connected now
+		c.deletePending(ch)
+		if !tru.addChannel(ch) {
+			err = ErrChannelDestroyed
+			return
+		}
+
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
 		ch.writeToSender(pac)
@@ -313,12 +440,19 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Get connection data from connection map and get tru channel
-		cd, ok := c.get(string(cp.uuid))
+		cd, ok := c.done(string(cp.uuid))
 		if !ok {
 			err = errors.New("wrong connect done packet")
 			return
 		}
 
+		// Channel is connected now
+		if !tru.addChannel(cd.ch) {
+			close(cd.wch)
+			err = ErrChannelDestroyed
+			return
+		}
+
 		// Send connectData to client connect wait channel
 		cd.wch <- cd
 
diff --git a/tru.go b/tru.go
index d2c3c77..b9b5f71 100644
--- a/tru.go
+++ b/tru.go
@@ -154,6 +154,8 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
+	tru.connect.pending = make(map[string]*Channel)
+	tru.connect.uuids = make(map[string]time.Time)
 	tru.conn, err = net.ListenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
@@ -329,15 +331,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
-		// Process connection packets
+		// Process connection packets. Existing channel is replaced only when
+		// new one is connected
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debug.Println("connect error:", err, addr.String())
 		}
 		return
 
-- 
2.43.0


From 33a1269662b754764c471f8653a9459c7d51b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 08/32] fix: connect and punch callbacks blocked the listener

Callbacks were executed in the listen goroutine, so the node did not process any
packets while a callback was running, and Connect in a callback always failed.
---
 channel.go | 5 +++--
 tru.go     | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/channel.go b/channel.go
index b4e1976..0d17ba2 100644
--- a/channel.go
+++ b/channel.go
@@ -96,9 +96,10 @@ func (tru *Tru) addChannel(ch *Channel) bool {
 		old.destroy(fmt.Sprint("channel reconnect, destroy ", old.addr.String()))
 	}
 
-	// Channel connect to server callback
+	// Channel connect to server callback. It may use the network, so it can't be
+	// executed in the listen goroutine
 	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
+		tru.readerCh <- readerChData{ch, nil, nil}
 	}
 
 	return true
diff --git a/tru.go b/tru.go
index b9b5f71..1ccbad4 100644
--- a/tru.go
+++ b/tru.go
@@ -343,7 +343,8 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// to make p2p connection between tru clients
 	case statusPunch:
 		if tru.punchcb != nil {
-			tru.punchcb(addr, pac.Data())
+			// Callback may use the network, f.e. connect to this addr
+			go tru.punchcb(addr, pac.Data())
 		}
 		return
 
@@ -457,6 +458,12 @@ func (tru *Tru) readerProccess() {
 			continue
 		}
 
+		// Execute channel connect to server callback
+		if r.pac == nil {
+			tru.connectcb(r.ch, nil)
+			continue
+		}
+
 		// Execute channel reader
 		if r.ch.reader != nil {
 			if r.ch.reader(r.ch, r.pac, nil) {
-- 
2.43.0


From b22a7b9196bc0574eb83b41f9801fbc7a17898e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 09/32] fix: Close left goroutines of the node running and
 could be called only once

The reader and sender goroutines never ended, a second Close caused a panic, and
channels which were connecting during Close stayed alive.
---
 channel.go |  9 ++++++---
 connect.go | 34 ++++++++++++++++++++++++++++++++--
 tru.go     | 37 ++++++++++++++++++++++++++++++++++---
 3 files changed, 72 insertions(+), 8 deletions(-)

diff --git a/channel.go b/channel.go
index 0d17ba2..84af486 100644
--- a/channel.go
+++ b/channel.go
@@ -83,7 +83,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 // already destroyed
 func (tru *Tru) addChannel(ch *Channel) bool {
 	tru.mu.Lock()
-	if ch.stat.isDestroyed() {
+	if tru.closed || ch.stat.isDestroyed() {
 		tru.mu.Unlock()
 		return false
 	}
@@ -99,7 +99,7 @@ func (tru *Tru) addChannel(ch *Channel) bool {
 	// Channel connect to server callback. It may use the network, so it can't be
 	// executed in the listen goroutine
 	if ch.serverMode && ch.tru.connectcb != nil {
-		tru.readerCh <- readerChData{ch, nil, nil}
+		tru.writeToReader(readerChData{ch, nil, nil})
 	}
 
 	return true
@@ -402,7 +402,10 @@ func (ch *Channel) writeToDisconnect() (err error) {
 
 // writeToSender write packet to sender process channel
 func (ch *Channel) writeToSender(pac *Packet) {
-	ch.tru.senderCh <- senderChData{ch, pac}
+	select {
+	case ch.tru.senderCh <- senderChData{ch, pac}:
+	case <-ch.tru.listenStop:
+	}
 }
 
 // newID create new channels packet id
diff --git a/connect.go b/connect.go
index d654527..047815f 100644
--- a/connect.go
+++ b/connect.go
@@ -30,6 +30,7 @@ type connect struct {
 	connects map[string]*connectData // Connections map (clients side)
 	pending  map[string]*Channel     // Channels wait client answer by address (servers side)
 	uuids    map[string]time.Time    // Lately used connections UUIDs (servers side)
+	closed   bool                    // Half connected channels can't be added
 	m        sync.RWMutex            // Connections maps mutex
 }
 
@@ -45,6 +46,26 @@ type connectPacketData struct {
 	data []byte // Packet data
 }
 
+// close destroy all half connected channels
+func (c *connect) close() {
+	c.m.Lock()
+	var channels []*Channel
+	for _, ch := range c.pending {
+		channels = append(channels, ch)
+	}
+	for _, cd := range c.connects {
+		if cd.ch != nil {
+			channels = append(channels, cd.ch)
+		}
+	}
+	c.closed = true
+	c.m.Unlock()
+
+	for _, ch := range channels {
+		ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()))
+	}
+}
+
 // MarshalBinary marshal connection data
 func (c *connectPacketData) MarshalBinary() (out []byte, err error) {
 	buf := new(bytes.Buffer)
@@ -187,6 +208,7 @@ func (c *connect) setChannel(uuid string, ch *Channel) (ok bool) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	cd, ok := c.connects[uuid]
+	ok = ok && !c.closed
 	if ok {
 		cd.ch = ch
 	}
@@ -223,9 +245,12 @@ func (c *connect) duplicate(uuid string) (ok bool) {
 }
 
 // addPending add channel which wait client answer, and return previous one
-func (c *connect) addPending(ch *Channel) (old *Channel) {
+func (c *connect) addPending(ch *Channel) (old *Channel, err error) {
 	c.m.Lock()
 	defer c.m.Unlock()
+	if c.closed {
+		return nil, ErrTruClosed
+	}
 	old = c.pending[ch.addr.String()]
 	c.pending[ch.addr.String()] = ch
 	return
@@ -309,7 +334,12 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Save channel until client answer
-		if old := c.addPending(ch); old != nil {
+		var old *Channel
+		old, err = c.addPending(ch)
+		if err != nil {
+			return
+		}
+		if old != nil {
 			old.destroy(fmt.Sprint("channel reconnect, destroy ", old.addr.String()))
 		}
 
diff --git a/tru.go b/tru.go
index 1ccbad4..e5fe9f4 100644
--- a/tru.go
+++ b/tru.go
@@ -40,6 +40,7 @@ type Tru struct {
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
 	hotkey     *hotkey.Hotkey      // Hotkey menu
+	closed     bool                // Tru is closed
 	mu         sync.RWMutex        // Channels map mutex
 }
 
@@ -189,6 +190,15 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
+	// Tru may be closed only once. New channels can't be created after this
+	tru.mu.Lock()
+	if tru.closed {
+		tru.mu.Unlock()
+		return
+	}
+	tru.closed = true
+	tru.mu.Unlock()
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
@@ -197,6 +207,7 @@ func (tru *Tru) Close() {
 	// Close all channels
 	log.Debug.Println("close all channels")
 	tru.ForEachChannel(func(ch *Channel) { ch.Close() })
+	tru.connect.close()
 
 	// Stop listner and statistic
 	tru.stopListen()
@@ -421,7 +432,7 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.readerCh <- readerChData{ch, pac, nil}
+				tru.writeToReader(readerChData{ch, pac, nil})
 				ch.stat.setRecv()
 			}
 			sendToReader(ch, pac)
@@ -449,9 +460,23 @@ type readerChData struct {
 	err error
 }
 
+// writeToReader write data to reader process channel
+func (tru *Tru) writeToReader(r readerChData) {
+	select {
+	case tru.readerCh <- r:
+	case <-tru.listenStop:
+	}
+}
+
 // readerProccess process received tru packets
 func (tru *Tru) readerProccess() {
-	for r := range tru.readerCh {
+	for {
+		var r readerChData
+		select {
+		case <-tru.listenStop:
+			return
+		case r = <-tru.readerCh:
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
@@ -485,7 +510,13 @@ type senderChData struct {
 
 // senderProccess process sended tru packets
 func (tru *Tru) senderProccess() {
-	for r := range tru.senderCh {
+	for {
+		var r senderChData
+		select {
+		case <-tru.listenStop:
+			return
+		case r = <-tru.senderCh:
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From c062501f0098cdc8b32582799db15829e6711e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 10/32] fix: statistic printing survived its stop and crashed
 when New failed

With the Stat parameter a panic was caused half a second after New had returned
an error, and a frame printed while the statistic was stopped started it again.
---
 statistic.go | 12 ++++++++++--
 tru.go       | 10 +++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/statistic.go b/statistic.go
index ef52e0f..b9bba32 100644
--- a/statistic.go
+++ b/statistic.go
@@ -392,13 +392,21 @@ func (tru *Tru) printStatistic(prnt bool) {
 	// Print statistic every 500 ms
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	var timer *time.Timer
+	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+
+		// Print next frame if statistic was not stopped
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(500 * time.Millisecond)
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
diff --git a/tru.go b/tru.go
index e5fe9f4..1f9ce30 100644
--- a/tru.go
+++ b/tru.go
@@ -84,6 +84,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var showStat bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -125,9 +126,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Show statistic
 		case Stat:
-			if v {
-				tru.StatisticPrint()
-			}
+			showStat = bool(v)
 
 		// Private key
 		case *rsa.PrivateKey:
@@ -182,6 +181,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Start show statistic
+	if showStat {
+		tru.StatisticPrint()
+	}
+
 	log.Connect.Println("tru created")
 
 	return
-- 
2.43.0


From 9e0555deb43dd59c46a7f5a5a72f61b3c9f911d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 11/32] fix: connections lost messages and blocked each other,
 Close could panic

A message which came before the Accept or Dial returned was lost. A connection
which was not read, or not accepted, blocked all connections of the node. Close
from two goroutines, or when the peer closes too, caused a panic, and messages
which were not read yet were lost when the peer closed. Accept was not unblocked
when listener closed.
---
 tru_net.go | 207 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 129 insertions(+), 78 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 9040972..405b6e6 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -19,9 +19,16 @@ import (
 // Trunet is receiver to create Tru net.Listener interface
 type Trunet struct {
 	*Tru
-	accept acceptChannel
+	accept accept
+}
+
+// accept is queue of connections which was not accepted yet
+type accept struct {
+	queue  []*Conn // Connections queue
+	closed bool    // Listener closed
+	cond   *sync.Cond
+	sync.Mutex
 }
-type acceptChannel chan *Channel
 
 // Common tru object
 var truCommon struct {
@@ -43,12 +50,12 @@ func Dial(network, address string) (conn net.Conn, err error) {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	c := trunet.newConn()
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.setChannel(ch)
 	conn = c
 	return
 }
@@ -69,8 +76,8 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 		return
 	}
 
-	// Make accept golan channel
-	trunet.accept = make(acceptChannel)
+	// Make accept queue
+	trunet.accept.cond = sync.NewCond(&trunet.accept)
 
 	// Create new tru object or use existing
 	truCommon.Lock()
@@ -93,70 +100,90 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
+	conn.read.Lock()
+	defer conn.read.Unlock()
 
-	// Check channel destroyed and close Conn (connection)
-	if err != nil {
-		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
-			return
-		}
-		// Some other errors (I think it never happens)
+	switch {
+
+	// Tru channel destroyed, there is nothing to read after messages which are
+	// already received
+	case err == ErrChannelDestroyed:
+		conn.read.destroyed = true
+
+	// Some other errors (I think it never happens)
+	case err != nil:
 		log.Error.Println("got error in reader:", err)
 		return
-	}
-
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
 
-	conn.read.ch <- pac.Data()
+	// Add message to the read queue. Users application may read it later, and
+	// other connections should not wait for this
+	default:
+		conn.read.queue = append(conn.read.queue, pac.Data())
+	}
+	conn.read.cond.Broadcast()
 
 	return
 }
 
 // connected to tru callback function
-func (t Trunet) connected(ch *Channel, err error) {
+func (t *Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+
+	// Set reader before first message will be processed
+	c := t.newConn()
+	c.setChannel(ch)
+	ch.setReader(c.reader)
+	if ch.Destroyed() {
+		c.reader(ch, nil, ErrChannelDestroyed)
+	}
+
+	t.accept.Lock()
+	defer t.accept.Unlock()
+	t.accept.queue = append(t.accept.queue, c)
+	t.accept.cond.Signal()
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func (t *Trunet) newConn() *Conn {
+	c := &Conn{localAddr: t.LocalAddr()}
+	c.read.cond = sync.NewCond(&c.read)
+	return c
 }
 
 // Accept waits for and returns the next connection to the listener.
-func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
+func (t *Trunet) Accept() (conn net.Conn, err error) {
+	t.accept.Lock()
+	defer t.accept.Unlock()
+
+	for len(t.accept.queue) == 0 && !t.accept.closed {
+		t.accept.cond.Wait()
+	}
+	if t.accept.closed {
+		err = ErrTruClosed
+		return
+	}
+
+	conn = t.accept.queue[0]
+	t.accept.queue = t.accept.queue[1:]
 	return
 }
 
 // Close closes the listener.
 // Any blocked Accept operations will be unblocked and return errors.
-func (t Trunet) Close() (err error) {
+func (t *Trunet) Close() (err error) {
+	t.accept.Lock()
+	t.accept.closed = true
+	t.accept.cond.Broadcast()
+	t.accept.Unlock()
+
 	t.Tru.Close()
 	return
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t *Trunet) Addr() (addr net.Addr) { return }
 
 // Conn is a generic stream-oriented network connection.
 //
@@ -168,35 +195,60 @@ type Conn struct {
 	read       connRead
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	queue     [][]byte // Received messages which was not read yet
+	buf       []byte   // Read data which was not send in previuse call
+	cont      bool     // Need send os.EOF
+	closed    bool     // Connection closed
+	destroyed bool     // Tru channel destroyed
+	cond      *sync.Cond
+	sync.Mutex
+}
+
+// setChannel set tru channel of the connection
+func (c *Conn) setChannel(ch *Channel) {
+	c.ch = ch
+	c.remoteAddr = ch.Addr()
 }
-type connReadChan chan connReadChanData
-type connReadChanData []byte
 
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
-
-	// Return io.EOF
-	if len(c.read.buf) == 0 && c.read.cont {
-		c.read.cont = false
-		err = io.EOF
-		return
-	}
+	c.read.Lock()
+	defer c.read.Unlock()
 
 	// Get data from reader
-	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
+	for len(c.read.buf) == 0 {
+		switch {
+
+		// Connection closed
+		case c.read.closed:
 			err = ErrChannelDestroyed
 			return
+
+		// Return io.EOF
+		case c.read.cont:
+			c.read.cont = false
+			err = io.EOF
+			return
+
+		// Get next message
+		case len(c.read.queue) > 0:
+			c.read.buf = c.read.queue[0]
+			c.read.queue = c.read.queue[1:]
+			c.read.cont = true
+			if len(c.read.buf) == 0 {
+				return
+			}
+
+		// All messages was read and tru channel destroyed
+		case c.read.destroyed:
+			err = ErrChannelDestroyed
+			return
+
+		default:
+			c.read.cond.Wait()
 		}
-		c.read.buf = chanData
-		c.read.cont = true
 	}
 
 	// Copy data to input slice
@@ -209,11 +261,7 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
-		err = ErrChannelDestroyed
-		return
-	}
+func (c *Conn) Write(b []byte) (n int, err error) {
 	_, err = c.ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -224,25 +272,28 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Close closes the connection.
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
-
-	if c.ch == nil {
+	c.read.Lock()
+	if c.read.closed || c.read.destroyed {
 		err = ErrChannelAlreadyDestroyed
+	}
+	c.read.closed = true
+	c.read.buf = nil
+	c.read.queue = nil
+	c.read.cond.Broadcast()
+	c.read.Unlock()
+	if err != nil {
 		return
 	}
 
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
-
+	c.ch.Close()
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.localAddr }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +316,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From 193762634054e7d4ca91fc14a04630afc9d7563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 12/32] fix: Listen ignored its port when the process has
 already used Dial or Listen

The listener used the common tru object, whichever port it has and even if it
was closed, and never got a connection.
---
 tru_net.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 405b6e6..e057a38 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -38,19 +38,23 @@ var truCommon struct {
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
+	trunet, err := newTrunet(address, true)
+	if err != nil {
+		return
+	}
+	listener = trunet
 	return
 }
 
 // Dial connects to the address on the tru network
 func Dial(network, address string) (conn net.Conn, err error) {
 
-	trunet, err := newTrunet(":0", true)
+	trunet, err := newTrunet(":0", false)
 	if err != nil {
 		return
 	}
 
-	c := trunet.newConn()
+	c := newConn()
 	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
@@ -60,8 +64,10 @@ func Dial(network, address string) (conn net.Conn, err error) {
 	return
 }
 
-// newTrunet creates new Trunet object
-func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
+// newTrunet creates new Trunet object. Listener always has its own tru object,
+// because it listens its own port. It becomes the common one if there is no
+// common tru object yet.
+func newTrunet(address string, listen bool) (trunet *Trunet, err error) {
 	trunet = new(Trunet)
 
 	// Parse the address and get port value
@@ -83,13 +89,13 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 	truCommon.Lock()
 	defer truCommon.Unlock()
 	var truObj = truCommon.Tru
-	if !useTruCommon || truObj == nil {
+	if listen || truObj == nil {
 		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
 		if err != nil {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if truCommon.Tru == nil {
 			truCommon.Tru = truObj
 		}
 	}
@@ -132,7 +138,7 @@ func (t *Trunet) connected(ch *Channel, err error) {
 	}
 
 	// Set reader before first message will be processed
-	c := t.newConn()
+	c := newConn()
 	c.setChannel(ch)
 	ch.setReader(c.reader)
 	if ch.Destroyed() {
@@ -145,9 +151,9 @@ func (t *Trunet) connected(ch *Channel, err error) {
 	t.accept.cond.Signal()
 }
 
-// Create new Conn object
-func (t *Trunet) newConn() *Conn {
-	c := &Conn{localAddr: t.LocalAddr()}
+// newConn create new Conn object
+func newConn() *Conn {
+	c := new(Conn)
 	c.read.cond = sync.NewCond(&c.read)
 	return c
 }
@@ -178,6 +184,13 @@ func (t *Trunet) Close() (err error) {
 	t.accept.cond.Broadcast()
 	t.accept.Unlock()
 
+	// Closed tru object can't be used any more
+	truCommon.Lock()
+	if truCommon.Tru == t.Tru {
+		truCommon.Tru = nil
+	}
+	truCommon.Unlock()
+
 	t.Tru.Close()
 	return
 }
@@ -207,6 +220,7 @@ type connRead struct {
 // setChannel set tru channel of the connection
 func (c *Conn) setChannel(ch *Channel) {
 	c.ch = ch
+	c.localAddr = ch.tru.LocalAddr()
 	c.remoteAddr = ch.Addr()
 }
 
-- 
2.43.0


From 13df413c2a197df960243072d62de8d03877c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 13/32] fix: connect packet of a live channel was accepted
 again two minutes later

---
 connect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index 047815f..43914d5 100644
--- a/connect.go
+++ b/connect.go
@@ -291,7 +291,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Skip duplicate of connect packet which is already processed
+		// Skip duplicate of connect packet which is already processed. It may
+		// come as late as its channel is live
+		if ch, ok := tru.getChannel(addr.String()); ok && ch.serverMode && ch.uuid == string(cp.uuid) {
+			return
+		}
 		if c.duplicate(string(cp.uuid)) {
 			return
 		}
-- 
2.43.0


From ea3eb0e0fbfce06cb5f622ab94bff5cf853b1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 14/32] fix: client heard by late datagrams did not ping, so
 the server dropped the channel

---
 channel.go   |  1 +
 statistic.go | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/channel.go b/channel.go
index 84af486..fbdfaf2 100644
--- a/channel.go
+++ b/channel.go
@@ -402,6 +402,7 @@ func (ch *Channel) writeToDisconnect() (err error) {
 
 // writeToSender write packet to sender process channel
 func (ch *Channel) writeToSender(pac *Packet) {
+	ch.stat.setLastOutput()
 	select {
 	case ch.tru.senderCh <- senderChData{ch, pac}:
 	case <-ch.tru.listenStop:
diff --git a/statistic.go b/statistic.go
index b9bba32..8a15ffb 100644
--- a/statistic.go
+++ b/statistic.go
@@ -22,6 +22,7 @@ type statistic struct {
 	started            time.Time   // Channel started time
 	lastActivity       time.Time   // Last activity in channel (last received)
 	lastSend           time.Time   // Last send to remote peer
+	lastOutput         time.Time   // Last packet of any type sent to remote peer
 	lastDelayCheck     time.Time   // Last delay check
 	checkActivityTimer *time.Timer // Check activity timer
 	sendDelay          int         // Client send delay
@@ -52,6 +53,7 @@ var stathide = flag.Bool("stathide", false, "hide statistic (for debuging)")
 func (s *statistic) init(inactive, keepalive func()) {
 	s.started = time.Now()
 	s.setLastActivity()
+	s.setLastOutput()
 	s.checkActivity(inactive, keepalive)
 	s.sendSpeed.init()
 	s.recvSpeed.init()
@@ -177,9 +179,26 @@ func (s *statistic) getLastSend() time.Time {
 	return s.lastSend
 }
 
+// setLastOutput set time of last packet of any type sent to remote peer
+func (s *statistic) setLastOutput() {
+	s.Lock()
+	defer s.Unlock()
+
+	s.lastOutput = time.Now()
+}
+
+// getLastOutput get time of last packet of any type sent to remote peer
+func (s *statistic) getLastOutput() time.Time {
+	s.RLock()
+	defer s.RUnlock()
+
+	return s.lastOutput
+}
+
 // checkActivity check channel activity every second and call inactive func
 // if channel inactive time grate than disconnectInactiveAfter time constant,
-// and call keepalive func if channel inactive time grate than pingInactiveAfter
+// and call keepalive func if channel inactive time or time since last packet
+// sent to remote peer grate than pingInactiveAfter
 func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
@@ -196,7 +215,8 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 			inactive()
 			return
 
-		case time.Since(lastActivity) > pingInactiveAfter:
+		case time.Since(lastActivity) > pingInactiveAfter,
+			time.Since(s.getLastOutput()) > pingInactiveAfter:
 			keepalive()
 		}
 
-- 
2.43.0


From a4b19bb4205eb2d28d889143a9a7d7fca4700d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 15/32] fix: idle channel was dropped right after a connect
 over a slow link

---
 channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channel.go b/channel.go
index fbdfaf2..80de6be 100644
--- a/channel.go
+++ b/channel.go
@@ -87,6 +87,7 @@ func (tru *Tru) addChannel(ch *Channel) bool {
 		tru.mu.Unlock()
 		return false
 	}
+	ch.stat.setLastActivity() // connect packet received just now
 	old := tru.channels[ch.addr.String()]
 	tru.channels[ch.addr.String()] = ch
 	ch.connected = true
-- 
2.43.0


From ef794b3e2de71435b9d893ac7a22e81dabbac411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 16/32] fix: StatisticPrint on a closed node started an endless
 timer

---
 statistic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic.go b/statistic.go
index 8a15ffb..99a62e4 100644
--- a/statistic.go
+++ b/statistic.go
@@ -409,9 +409,12 @@ func (tru *Tru) printStatistic(prnt bool) {
 		return
 	}
 
-	// Print statistic every 500 ms
+	// Print statistic every 500 ms until tru is closed
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
+	if tru.closed {
+		return
+	}
 	var timer *time.Timer
 	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
-- 
2.43.0


From 8b95b930c1c707bb2f30bbe3561b68e059616995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 17/32] fix: Statistic returned zero send queue length and
 attempts for most channels

---
 statistic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic.go b/statistic.go
index 99a62e4..70b90a9 100644
--- a/statistic.go
+++ b/statistic.go
@@ -253,7 +253,7 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 	// The Statistic function needs values from send queue and send queue needs
 	// values from statistic so they race. We use WaitGroup and goroutines which
 	// wait while send queue unlock and add values to ChannelsStatistic slice.
-	getRetransmitAttempts := func(stat ChannelsStatistic, ch *Channel, i int) {
+	getRetransmitAttempts := func(ch *Channel, i int) {
 		wg.Add(1)
 		go func() {
 			mu.Lock()
@@ -288,7 +288,7 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 			TT:    float64(ch.stat.tripTimeMidle.Microseconds()) / 1000.0,
 		})
 		ch.stat.RUnlock()
-		getRetransmitAttempts(stat, ch, i)
+		getRetransmitAttempts(ch, i)
 		i++
 	}
 	tru.mu.RUnlock()
-- 
2.43.0


From 788027b997d95c6b27d0fb17d0161600bda05587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 18/32] fix: next key action set in a next key action was lost

---
 hotkey/hotkey.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..a044e31 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -190,9 +190,10 @@ func (h *Hotkey) SetStopAction(f func()) {
 func (h *Hotkey) run() {
 	for !h.stop {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
+		// The action may set next action for the next key
+		if nextKeyAction := h.nextKeyAction; nextKeyAction != nil {
 			h.nextKeyAction = nil
+			nextKeyAction(ch)
 		}
 		hd, ok := h.hotkeys[string(ch)]
 		if !ok {
-- 
2.43.0


From f0056c03d20500862ebb92b6083e67d041220024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 19/32] fix: hotkey menu could not be run again or run twice
 after Stop

---
 hotkey/hotkey.go | 96 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 19 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a044e31..d8a3f74 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -27,8 +28,10 @@ type Hotkey struct {
 	unknownKey    func(h *Hotkey, ch []byte)
 	nextKeyAction func(ch []byte)
 	state         interface{}
+	running       bool
 	stop          bool
 	stopactions   []func()
+	mu            sync.Mutex
 }
 
 type hotkeyData struct {
@@ -63,17 +66,26 @@ func New() *Hotkey {
 // use in its hotkey menu. State is place where user can save its own menu
 // parameters
 func (h *Hotkey) SetState(state interface{}) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	h.state = state
 	return h
 }
 
 // State return saved user menu state
 func (h *Hotkey) State() interface{} {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	return h.state
 }
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	h.nextKeyAction = f
 }
 
@@ -99,6 +111,9 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 		panic(err)
 	}
 
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	hd := &hotkeyData{keysAr, description, action}
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
@@ -108,6 +123,9 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	h.unknownKey = action
 	return h
 }
@@ -144,9 +162,11 @@ func (h *Hotkey) String() (str string) {
 	}
 
 	// Add hotkeyData to slice and sort it
+	h.mu.Lock()
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
 	}
+	h.mu.Unlock()
 	sort()
 
 	// Add hotkeys and description to returns string
@@ -169,43 +189,81 @@ func (h *Hotkey) String() (str string) {
 
 // Run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) Run() *Hotkey {
-	go h.run()
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
+	// Hotkey menu which was stopped may still wait its last key
+	h.stop = false
+	if !h.running {
+		h.running = true
+		go h.run()
+	}
 	return h
 }
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.Lock()
+	stopactions := h.stopactions
+	h.mu.Unlock()
+
+	for _, f := range stopactions {
 		f()
 	}
+
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stop = true
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
-		ch := term.Getch()
-		// The action may set next action for the next key
-		if nextKeyAction := h.nextKeyAction; nextKeyAction != nil {
-			h.nextKeyAction = nil
-			nextKeyAction(ch)
-		}
-		hd, ok := h.hotkeys[string(ch)]
-		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
-			}
-			continue
-		}
-		if hd.action == nil {
-			continue
+	for !h.stopped() {
+		h.process(term.Getch())
+	}
+}
+
+// stopped return true and finish execution of hotkey menu if it was stopped
+func (h *Hotkey) stopped() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+
+	if h.stop {
+		h.running = false
+	}
+	return h.stop
+}
+
+// process execute actions of pressed key
+func (h *Hotkey) process(ch []byte) {
+
+	// The action may set next action for the next key
+	h.mu.Lock()
+	nextKeyAction := h.nextKeyAction
+	h.nextKeyAction = nil
+	h.mu.Unlock()
+	if nextKeyAction != nil {
+		nextKeyAction(ch)
+	}
+
+	h.mu.Lock()
+	hd, ok := h.hotkeys[string(ch)]
+	unknownKey := h.unknownKey
+	h.mu.Unlock()
+	switch {
+	case !ok:
+		if unknownKey != nil {
+			unknownKey(h, ch)
 		}
+	case hd.action != nil:
 		hd.action(h)
 	}
-	h.stop = false
 }
-- 
2.43.0


From 5d570467b8d46356d5da55cb26c8569dbe20fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 20/32] fix: settings of running tru were changed without
 synchronization

---
 channel.go |  8 ++++++--
 tru.go     | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 80de6be..4380d5d 100644
--- a/channel.go
+++ b/channel.go
@@ -46,7 +46,11 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
-	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen}
+	tru.mu.RLock()
+	maxDataLen, sendDelay := tru.maxDataLen, tru.sendDelay
+	tru.mu.RUnlock()
+
+	ch = &Channel{addr: addr, tru: tru, maxDataLen: maxDataLen}
 	if len(serverMode) > 0 {
 		ch.serverMode = serverMode[0]
 	}
@@ -72,7 +76,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	)
 	// Set default send delay in client mode
 	if !ch.serverMode {
-		ch.stat.sendDelay = tru.sendDelay
+		ch.stat.sendDelay = sendDelay
 	}
 
 	return
diff --git a/tru.go b/tru.go
index 1f9ce30..e9ca75f 100644
--- a/tru.go
+++ b/tru.go
@@ -221,11 +221,22 @@ func (tru *Tru) Close() {
 
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.punchcb = punchcb
 }
 
+// getPunchCb get punch callback
+func (tru *Tru) getPunchCb() PunchFunc {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+	return tru.punchcb
+}
+
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.sendDelay = delay
 }
 
@@ -234,6 +245,8 @@ func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
 	if maxDataLen < l {
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
 		tru.maxDataLen = maxDataLen
 	}
 }
@@ -357,9 +370,9 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// Punch packets: hi level software (f.e. teonet package) use punch packets
 	// to make p2p connection between tru clients
 	case statusPunch:
-		if tru.punchcb != nil {
+		if punchcb := tru.getPunchCb(); punchcb != nil {
 			// Callback may use the network, f.e. connect to this addr
-			go tru.punchcb(addr, pac.Data())
+			go punchcb(addr, pac.Data())
 		}
 		return
 
-- 
2.43.0


From bdc27122a7e39fc7239e92e83327c3294ba56e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 21/32] fix: statistic log was read without synchronization

---
 statistic_log.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
-- 
2.43.0


From ca18a47593e59b3399c8f70c132ed66d9a743d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 22/32] fix: package logger was created without synchronization

---
 tru.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tru.go b/tru.go
index e9ca75f..ba94b3d 100644
--- a/tru.go
+++ b/tru.go
@@ -55,7 +55,7 @@ const (
 )
 
 // Teolog
-var log *teolog.Teolog
+var log = teolog.New()
 
 // Global flag "drop" drop send paskets for testing
 var drop = flag.Int("drop", 0, "drop send packets")
@@ -143,10 +143,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 		}
 	}
 
-	// Log define and set filter
-	if log == nil {
-		log = teolog.New()
-	}
+	// Set log filter and level
 	log.SetFilter(logFilter)
 	log.SetLevel(logLevel)
 
-- 
2.43.0


From 7ea8b220f2fdde9f627818e78baeeab40add6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 23/32] fix: level and filter of logger were changed without
 synchronization

---
 teolog/teolog.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..c7a1383 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,8 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+	levelMu  sync.RWMutex // Guards level
+	filterMu sync.RWMutex // Guards filter, it is used when loggers write
 }
 
 type LogLevel int
@@ -95,6 +98,13 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level, levelMu should be locked
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,26 +117,32 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.levelMu.RLock()
+	defer l.levelMu.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
-	l.level++
-	if l.level >= numLevels {
-		l.level = 0
+	l.levelMu.Lock()
+	defer l.levelMu.Unlock()
+	level := l.level + 1
+	if level >= numLevels {
+		level = 0
 	}
-	l.SetLevel(l.level)
-	return l.level
+	l.setLevel(level)
+	return level
 }
 
 // SetFilter set log filter
 func (l *Teolog) SetFilter(f interface{}) {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 
 	switch v := f.(type) {
 	case Filter:
@@ -141,11 +157,15 @@ func (l *Teolog) SetFilter(f interface{}) {
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
+	l.filterMu.Lock()
+	defer l.filterMu.Unlock()
 	l.filter = []string{}
 }
 
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
+	l.filterMu.RLock()
+	defer l.filterMu.RUnlock()
 	for i := range l.filter {
 		if i > 0 {
 			str += " || "
@@ -248,14 +268,18 @@ type writer struct {
 // It returns the number of bytes written and an error, if any.
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
+	w.l.filterMu.RLock()
+	filter := w.l.filter
+	w.l.filterMu.RUnlock()
+
 	var valid bool
-	for _, f := range w.l.filter {
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return
 	}
 	return os.Stdout.Write(p)
-- 
2.43.0


From 5f288940e9a92ee0d9a00e567891b826a26e1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 24/32] fix: reader of channel was changed without
 synchronization

---
 channel.go | 13 +++++++++++--
 connect.go |  2 +-
 tru.go     |  4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index 4380d5d..a914751 100644
--- a/channel.go
+++ b/channel.go
@@ -159,9 +159,18 @@ func (tru *Tru) WriteToPunch(data []byte, addri interface{}) (addr net.Addr, err
 
 // setReader sets channels reafer
 func (ch *Channel) setReader(reader ReaderFunc) {
+	ch.tru.mu.Lock()
+	defer ch.tru.mu.Unlock()
 	ch.reader = reader
 }
 
+// getReader get channels reader
+func (ch *Channel) getReader() ReaderFunc {
+	ch.tru.mu.RLock()
+	defer ch.tru.mu.RUnlock()
+	return ch.reader
+}
+
 // destroy destroy channel
 func (ch *Channel) destroy(msg string) {
 	if ch == nil {
@@ -193,8 +202,8 @@ func (ch *Channel) destroy(msg string) {
 	}
 
 	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	if reader := ch.getReader(); reader != nil {
+		reader(ch, nil, ErrChannelDestroyed)
 	}
 	if ch.tru.reader != nil {
 		ch.tru.reader(ch, nil, ErrChannelDestroyed)
diff --git a/connect.go b/connect.go
index 43914d5..f581ec5 100644
--- a/connect.go
+++ b/connect.go
@@ -373,7 +373,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
-		ch.reader = cd.reader
+		ch.setReader(cd.reader)
 		defer func() {
 			if err != nil {
 				ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
diff --git a/tru.go b/tru.go
index ba94b3d..40ef146 100644
--- a/tru.go
+++ b/tru.go
@@ -504,8 +504,8 @@ func (tru *Tru) readerProccess() {
 		}
 
 		// Execute channel reader
-		if r.ch.reader != nil {
-			if r.ch.reader(r.ch, r.pac, nil) {
+		if reader := r.ch.getReader(); reader != nil {
+			if reader(r.ch, r.pac, nil) {
 				continue
 			}
 		}
-- 
2.43.0


From 6a22c924e66b72cdd6c65d92dc2285cb78012ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 25/32] fix: hotkey menu started before tru was created

---
 tru.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tru.go b/tru.go
index 40ef146..9c6dcf8 100644
--- a/tru.go
+++ b/tru.go
@@ -84,7 +84,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
-	var showStat bool
+	var showStat, startHotkey bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -120,9 +120,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = bool(v)
 
 		// Show statistic
 		case Stat:
@@ -178,6 +176,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Start hotkey menu, its actions use created tru
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+
 	// Start show statistic
 	if showStat {
 		tru.StatisticPrint()
-- 
2.43.0


From 7f2f3101f676afbf82528b267aa305025043a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 26/32] fix: too large or negative max data length made writes
 fail

---
 tru.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tru.go b/tru.go
index 9c6dcf8..35767e8 100644
--- a/tru.go
+++ b/tru.go
@@ -132,7 +132,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
@@ -244,7 +244,7 @@ func (tru *Tru) SetSendDelay(delay int) {
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
-	if maxDataLen < l {
+	if maxDataLen >= 0 && maxDataLen < l {
 		tru.mu.Lock()
 		defer tru.mu.Unlock()
 		tru.maxDataLen = maxDataLen
-- 
2.43.0


From 250dc160aa4f05cf5ccebfe25fe0a07cad15df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 27/32] fix: packet send time was read without synchronization

---
 channel.go | 2 +-
 packet.go  | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index a914751..ef9c8c7 100644
--- a/channel.go
+++ b/channel.go
@@ -464,7 +464,7 @@ func (ch *Channel) setTripTime(id int) (tt time.Duration, err error) {
 	ch.stat.Lock()
 	defer ch.stat.Unlock()
 
-	tt = time.Since(pac.time)
+	tt = time.Since(pac.getTime())
 	ch.stat.tripTime = tt
 	if ch.stat.tripTimeMidle != 0 {
 		ch.stat.tripTimeMidle = (ch.stat.tripTimeMidle*9 + tt) / 10
diff --git a/packet.go b/packet.go
index fbfc3a2..85c7264 100644
--- a/packet.go
+++ b/packet.go
@@ -245,6 +245,14 @@ func (p *Packet) getRetransmitTime() (rtt time.Time) {
 	return p.retransmitTime
 }
 
+// getTime get packet send time
+func (p *Packet) getTime() time.Time {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.time
+}
+
 // setRetransmitTime set retransmit time to packet
 func (p *Packet) setRetransmitTime(rtt time.Duration) {
 	p.Lock()
-- 
2.43.0


From 7f79e32bc46b5f58b5822a8d84559457fa7ca875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 28/32] fix: readers were told about end of channel in the
 listen goroutine

A reader which uses the network when its channel ends (e.g. connects again)
blocked the listen goroutine, so its Connect always failed by timeout and the
node did not serve other channels meanwhile.
---
 channel.go | 32 ++++++++++++++++++++++++--------
 tru.go     | 18 +++++++++++++-----
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/channel.go b/channel.go
index ef9c8c7..288cc6f 100644
--- a/channel.go
+++ b/channel.go
@@ -97,14 +97,21 @@ func (tru *Tru) addChannel(ch *Channel) bool {
 	ch.connected = true
 	tru.mu.Unlock()
 
-	if old != nil {
-		old.destroy(fmt.Sprint("channel reconnect, destroy ", old.addr.String()))
+	// Readers may use the network when channel destroyed, so they can't be
+	// executed in the listen goroutine
+	var destroyed chan struct{}
+	if old != nil && old.end(fmt.Sprint("channel reconnect, destroy ", old.addr.String())) {
+		destroyed = make(chan struct{})
+		go func() {
+			defer close(destroyed)
+			old.sendDestroyed()
+		}()
 	}
 
 	// Channel connect to server callback. It may use the network, so it can't be
 	// executed in the listen goroutine
 	if ch.serverMode && ch.tru.connectcb != nil {
-		tru.writeToReader(readerChData{ch, nil, nil})
+		tru.writeToReader(readerChData{ch: ch, after: destroyed})
 	}
 
 	return true
@@ -177,6 +184,15 @@ func (ch *Channel) destroy(msg string) {
 		return
 	}
 
+	if ch.end(msg) {
+		ch.sendDestroyed()
+	}
+}
+
+// end destroy channel without sending error event to readers. It returns true
+// if this event should be sent
+func (ch *Channel) end(msg string) (connected bool) {
+
 	// Destroy statistic and sendQueue, channel may be destroyed only once
 	if !ch.stat.destroy() {
 		return
@@ -192,16 +208,16 @@ func (ch *Channel) destroy(msg string) {
 	if ch.tru.channels[ch.addr.String()] == ch {
 		delete(ch.tru.channels, ch.addr.String())
 	}
-	connected := ch.connected
+	connected = ch.connected
 	ch.tru.mu.Unlock()
 	ch.tru.connect.deletePending(ch)
 
 	// Readers do not know about channel which was not connected
-	if !connected {
-		return
-	}
+	return
+}
 
-	// Send error event to readers
+// sendDestroyed send error event to readers
+func (ch *Channel) sendDestroyed() {
 	if reader := ch.getReader(); reader != nil {
 		reader(ch, nil, ErrChannelDestroyed)
 	}
diff --git a/tru.go b/tru.go
index 35767e8..6e69e00 100644
--- a/tru.go
+++ b/tru.go
@@ -417,7 +417,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		}
 
 	case statusDisconnect:
-		ch.destroy(fmt.Sprint("channel disconnect received, destroy ", ch.addr.String()))
+		// Readers may use the network when channel destroyed, so they can't be
+		// executed in the listen goroutine
+		if ch.end(fmt.Sprint("channel disconnect received, destroy ", ch.addr.String())) {
+			go ch.sendDestroyed()
+		}
 		return
 
 	case statusData, statusDataNext:
@@ -449,7 +453,7 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.writeToReader(readerChData{ch, pac, nil})
+				tru.writeToReader(readerChData{ch: ch, pac: pac})
 				ch.stat.setRecv()
 			}
 			sendToReader(ch, pac)
@@ -472,9 +476,10 @@ type ConnectFunc func(*Channel, error)
 type PunchFunc func(addr net.Addr, data []byte)
 
 type readerChData struct {
-	ch  *Channel
-	pac *Packet
-	err error
+	ch    *Channel
+	pac   *Packet
+	err   error
+	after chan struct{} // Wait until it is closed, if it is not nil
 }
 
 // writeToReader write data to reader process channel
@@ -502,6 +507,9 @@ func (tru *Tru) readerProccess() {
 
 		// Execute channel connect to server callback
 		if r.pac == nil {
+			if r.after != nil {
+				<-r.after
+			}
 			tru.connectcb(r.ch, nil)
 			continue
 		}
-- 
2.43.0


From c68fed8b84e014cf3bc9f15ae5644831e0ecca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 29/32] fix: disconnect of a channel closed in connect callback
 overtook connect done

The server adds the channel and then queues the connect done packet, so when
the connect callback (or any other goroutine) closes the channel at once, the
disconnect packet is written before it. The peer drops the disconnect, its
Connect succeeds and the channel is dead for it only after the inactivity
limit. Write connect done when the channel is added, before anybody gets it.
---
 channel.go |  8 ++++++--
 connect.go | 16 +++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/channel.go b/channel.go
index 288cc6f..2ce6951 100644
--- a/channel.go
+++ b/channel.go
@@ -84,8 +84,9 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 
 // addChannel add connected channel to channels map instead of previous channel
 // to the same address, which is destroyed. It returns false if the channel is
-// already destroyed
-func (tru *Tru) addChannel(ch *Channel) bool {
+// already destroyed. The answer, if any, is written to the peer before anybody
+// can get the channel and close it: disconnect packet should not overtake it
+func (tru *Tru) addChannel(ch *Channel, answer []byte) bool {
 	tru.mu.Lock()
 	if tru.closed || ch.stat.isDestroyed() {
 		tru.mu.Unlock()
@@ -95,6 +96,9 @@ func (tru *Tru) addChannel(ch *Channel) bool {
 	old := tru.channels[ch.addr.String()]
 	tru.channels[ch.addr.String()] = ch
 	ch.connected = true
+	if answer != nil {
+		tru.WriteTo(answer, ch.addr)
+	}
 	tru.mu.Unlock()
 
 	// Readers may use the network when channel destroyed, so they can't be
diff --git a/connect.go b/connect.go
index f581ec5..01169c5 100644
--- a/connect.go
+++ b/connect.go
@@ -452,17 +452,19 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Channel is connected now
+		// Create packet
+		data, err = tru.newPacket().SetStatus(statusConnectDone).SetData(data).MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// Channel is connected now, send packet to peer
 		c.deletePending(ch)
-		if !tru.addChannel(ch) {
+		if !tru.addChannel(ch, data) {
 			err = ErrChannelDestroyed
 			return
 		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
-		ch.writeToSender(pac)
-
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
@@ -481,7 +483,7 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Channel is connected now
-		if !tru.addChannel(cd.ch) {
+		if !tru.addChannel(cd.ch, nil) {
 			close(cd.wch)
 			err = ErrChannelDestroyed
 			return
-- 
2.43.0


From ba69c3bfd0d58dddba984c45cc92f31b00f4e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 30/32] fix: channel which was connecting while tru closes kept
 its timers

The connection was already taken out of the half connected ones, so neither
Close nor the connect code destroyed the channel when it could not be added,
and its timers and send process went on for the inactivity limit.
---
 channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channel.go b/channel.go
index 2ce6951..b6e8c8e 100644
--- a/channel.go
+++ b/channel.go
@@ -90,6 +90,7 @@ func (tru *Tru) addChannel(ch *Channel, answer []byte) bool {
 	tru.mu.Lock()
 	if tru.closed || ch.stat.isDestroyed() {
 		tru.mu.Unlock()
+		ch.destroy(fmt.Sprint("channel can't be added, destroy ", ch.addr.String()))
 		return false
 	}
 	ch.stat.setLastActivity() // connect packet received just now
-- 
2.43.0


From 563a05eaaca58f848ccdb747dd3277bcf5dd92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 31/32] fix: packets sent far ahead of a lost one were taken
 for already processed

---
 channel.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/channel.go b/channel.go
index b6e8c8e..dc73102 100644
--- a/channel.go
+++ b/channel.go
@@ -325,6 +325,9 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 		id = ids[0]
 	}
 	if status == statusData {
+		if err = ch.waitSendWindow(); err != nil {
+			return
+		}
 		id = ch.newID()
 		data, err = ch.encryptPacketData(id, data)
 		if err != nil {
@@ -444,6 +447,28 @@ func (ch *Channel) writeToSender(pac *Packet) {
 	}
 }
 
+// waitSendWindow waits while the first not acknowledged packet is half of the
+// packets id space behind the next one: the remote peer can't tell packets which
+// are more ahead from packets which it has already processed
+func (ch *Channel) waitSendWindow() error {
+	for {
+		pac := ch.sendQueue.getFirst()
+		if pac == nil {
+			return nil
+		}
+		ch.tru.mu.RLock()
+		id := ch.id
+		ch.tru.mu.RUnlock()
+		if dist := pac.distance(uint32(pac.ID()), id); dist >= 0 && dist < packetIDLimit/2-1 {
+			return nil
+		}
+		if ch.stat.isDestroyed() {
+			return ErrChannelDestroyed
+		}
+		time.Sleep(time.Millisecond)
+	}
+}
+
 // newID create new channels packet id
 func (ch *Channel) newID() (id int) {
 	ch.tru.mu.Lock()
-- 
2.43.0


From 8c9e3c74666ad194745aa7faa09b8b3660e941ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 32/32] fix: message could be read from connection after Read
 has returned the closed error

---
 tru_net.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tru_net.go b/tru_net.go
index e057a38..59a7d75 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -121,6 +121,10 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		log.Error.Println("got error in reader:", err)
 		return
 
+	// There is nothing to read after the closed error was returned
+	case conn.read.destroyed:
+		return
+
 	// Add message to the read queue. Users application may read it later, and
 	// other connections should not wait for this
 	default:
-- 
2.43.0

