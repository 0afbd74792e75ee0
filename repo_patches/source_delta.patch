From ef139f3205d9b1b926e56da8651262e8910bb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 01/28] fix: malformed message must not crash or hang the
 decoder

A length prefix near 2^32 overflowed the bounds check, a piece message that
failed to decode was dereferenced, and a bitfield that failed to decode made
DecodeAll loop forever on zero bytes read.
---
 src/p2p/message.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..e5060df 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,7 +165,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
@@ -202,13 +202,19 @@ func Decode(data []byte) (DecodeResult, error) {
 		msg, err = DecodeMsgBitfield(data, msglen)
 		if err == nil {
 			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		} else {
+			n = uint64(len(data))
 		}
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		if err == nil {
+			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		} else {
+			n = uint64(len(data))
+		}
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
-- 
2.43.0


From 7361bd896c41d9158ab24aae8583ae43bc6fd692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 02/28] fix: piece messages always failed to decode

The specified message length includes the ID byte, the payload does not.
---
 src/p2p/piece.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..b6b1f05 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,8 +78,9 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the message ID, payload does not
+	if uint32(len(payload))+1 != length {
+		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", length-1, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
-- 
2.43.0


From 338b0bf69c04b80e1f2b481c253a7acdf68c74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 03/28] fix: request messages were encoded as 5 bytes of
 garbage

Length, ID, index and begin were all overwritten by the requested length.
---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From 908d1102c483611b18378d4102252241e99f3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 04/28] fix: a request outside of a piece must not crash the
 client or leak bytes

Index, begin and length come from the peer and were used unchecked: an index
or range out of bounds panicked, and a range past the end of the short last
piece was answered with left-over bytes of another piece.
---
 src/swarm/msghandler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..30781c9 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -59,11 +59,17 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Tor.Info().NumPieces() {
+		return errors.New("invalid request, no such piece")
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
+		if int64(reqMsg.Begin())+int64(reqMsg.ReqLen()) > n {
+			return errors.New("invalid request, range outside of piece")
+		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
-- 
2.43.0


From 2980a5199e37dc672552054dc2b9475a257d1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 05/28] fix: pieces announced with have messages were ignored

A peer that completes pieces after connecting announces them with have
messages; without registering them its pieces are never requested.
---
 src/swarm/msghandler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 30781c9..fe7b54b 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -19,6 +19,9 @@ func (ph *PeerHandler) handleMessage(buf []byte) error {
 		case p2p.TypeRequest:
 			mreq := msg.(*p2p.MsgRequest)
 			e = ph.handleRequest(mreq)
+		case p2p.TypeHave:
+			mhave := msg.(*p2p.MsgHave)
+			e = ph.handleHave(mhave)
 		case p2p.TypeBitfield:
 			mbf := msg.(*p2p.MsgBitfield)
 			e = ph.handleBitfield(mbf)
@@ -55,6 +58,20 @@ func (ph *PeerHandler) handleBitfield(bfMsg *p2p.MsgBitfield) error {
 	return nil
 }
 
+func (ph *PeerHandler) handleHave(haveMsg *p2p.MsgHave) error {
+	swarm := ph.swarm
+
+	idx := int64(haveMsg.Index())
+	if idx >= swarm.Tor.Info().NumPieces() {
+		return errors.New("invalid have, no such piece")
+	}
+
+	ph.bf.Set(idx, true)
+	swarm.PPT.Register(ph, haveMsg.Index())
+
+	return nil
+}
+
 func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
-- 
2.43.0


From 10da4e2b8b152abef1ba61d0ff5213a1e629da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 06/28] fix: accept handshakes that arrive split, close
 connections without one

A handshake split into several segments was refused, and a connection whose
handshake timed out or could not be answered was never closed.
---
 src/swarm/peerhandler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..3677196 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	gio "io"
 	"log"
 	"math"
 	"net"
@@ -67,6 +68,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
 func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 
+	// Don't leave the peer hanging if it can't join
+	joined := false
+	defer func() {
+		if !joined {
+			_ = conn.Close()
+		}
+	}()
+
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
 	if !ok {
@@ -82,13 +91,12 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 
 	// Read the handshake
-	_, e = conn.Read(buf)
+	_, e = gio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
@@ -109,6 +117,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 	log.Printf("Sent %v bitfield\n", conn.RemoteAddr())
 
+	joined = true
 	newPeer := peer.MakePeer(string(peerHs.Id()), tcpAddr.IP, uint16(tcpAddr.Port))
 
 	return NewPeerHandler(newPeer, swarm, conn), nil
-- 
2.43.0


From 9d599c6e70458b42a89c157911caaddd3c8ff14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 07/28] fix: messages split over several reads were lost

Every read was decoded on its own, so a message cut by a read boundary, and
whatever came with it, was dropped. Keep the incomplete tail for the next read.
A message the client does not understand no longer hides those that follow.
---
 src/swarm/msghandler.go  | 74 +++++++++++++++++++++++++++++++---------
 src/swarm/peerhandler.go | 11 +-----
 2 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index fe7b54b..122de00 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -1,40 +1,80 @@
 package swarm
 
 import (
+	"encoding/binary"
 	"errors"
+	"fmt"
 	"log"
 
 	"gotor/p2p"
 )
 
-// handleMessage decodes the data in the buffer and handles the messages appropriately.
+// maxMessageLen is the length up to which messages of any type are accepted.
+const maxMessageLen = 1048576
+
+// handleMessage handles all the messages that are completed by the data in the
+// buffer. Data of a message that is not complete yet is kept for the next call.
 func (ph *PeerHandler) handleMessage(buf []byte) error {
-	var e error
-	dar := p2p.DecodeAll(buf)
-	pcent := 100.0 * float32(dar.Read) / float32(len(buf))
-	log.Printf("Decoded %v/%v (%v%%) bytes from %v\n", dar.Read, len(buf), pcent, ph.peerInfo.Addr())
-
-	for _, msg := range dar.Msgs {
-		switch msg.Mtype() {
-		case p2p.TypeRequest:
-			mreq := msg.(*p2p.MsgRequest)
-			e = ph.handleRequest(mreq)
-		case p2p.TypeHave:
-			mhave := msg.(*p2p.MsgHave)
-			e = ph.handleHave(mhave)
-		case p2p.TypeBitfield:
-			mbf := msg.(*p2p.MsgBitfield)
-			e = ph.handleBitfield(mbf)
+	ph.pending = append(ph.pending, buf...)
+
+	for len(ph.pending) >= int(p2p.MsgLengthPrefixLen) {
+		length := int64(binary.BigEndian.Uint32(ph.pending))
+		if length > ph.maxMessageLen() {
+			return fmt.Errorf("message of %v bytes is too long", length)
+		}
+		total := int64(p2p.MsgLengthPrefixLen) + length
+		if int64(len(ph.pending)) < total {
+			break
 		}
 
+		e := ph.handleFrame(ph.pending[:total])
 		if e != nil {
 			return e
 		}
+		ph.pending = ph.pending[total:]
 	}
 
 	return nil
 }
 
+// maxMessageLen is the length of the longest message a peer may send, bitfield
+// and piece messages can be longer than other types.
+func (ph *PeerHandler) maxMessageLen() int64 {
+	longest := int64(maxMessageLen)
+	if n := 1 + ph.swarm.Bf.Nbytes(); n > longest {
+		longest = n
+	}
+	if n := 1 + int64(p2p.MsgPieceMinPayloadLen) + ph.swarm.Tor.Info().PieceLen(); n > longest {
+		longest = n
+	}
+	return longest
+}
+
+// handleFrame decodes the data of one message and handles it appropriately.
+func (ph *PeerHandler) handleFrame(frame []byte) error {
+	var e error
+	dr, de := p2p.Decode(frame)
+	if de != nil {
+		log.Printf("ignoring message from %v: %v\n", ph.peerInfo.Addr(), de)
+		return nil
+	}
+
+	msg := dr.Msg
+	switch msg.Mtype() {
+	case p2p.TypeRequest:
+		mreq := msg.(*p2p.MsgRequest)
+		e = ph.handleRequest(mreq)
+	case p2p.TypeHave:
+		mhave := msg.(*p2p.MsgHave)
+		e = ph.handleHave(mhave)
+	case p2p.TypeBitfield:
+		mbf := msg.(*p2p.MsgBitfield)
+		e = ph.handleBitfield(mbf)
+	}
+
+	return e
+}
+
 func (ph *PeerHandler) handleBitfield(bfMsg *p2p.MsgBitfield) error {
 	// TODO: Check that this is the first message received
 	// If not, error and kill connection.
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 3677196..99d84de 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -39,6 +39,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	pending   []byte         // Received data of a message that is not complete yet
 
 	chErr chan<- error // Report errors
 }
@@ -195,16 +196,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	ph.procs.Add(1)
 	defer ph.procs.Done()
 
-- 
2.43.0


From af01773d5005ddd51a2726ca2857d13639c9176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 08/28] fix: stopping a ReadLoop could block forever and data
 could be lost

Finish blocked if Run was reading, reporting an error or had ended, Run blocked
forever reporting an error nobody waits for, a deadline set by Finish could be
overwritten, and data returned together with an error was dropped.
---
 src/io/readloop.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..cff12f3 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -20,6 +21,8 @@ type ReadLoop struct {
 
 	conn    net.Conn
 	timeout time.Duration
+
+	finish sync.Once
 }
 
 func NewReadLoop(bufSize int64, conn net.Conn, timeout time.Duration) *ReadLoop {
@@ -52,7 +55,7 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
@@ -70,15 +73,19 @@ func (rl *ReadLoop) Run() {
 	for !done {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
-			rl.chErr <- e
+			rl.report(e)
 			break
 		}
 
+		// Finish may have set its deadline just before we overwrote it
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
-			break
-		} else {
+		if n > 0 {
 			rl.chBuf <- rl.buf[:n]
 
 			select {
@@ -87,5 +94,17 @@ func (rl *ReadLoop) Run() {
 				done = true
 			}
 		}
+		if e != nil && !done {
+			rl.report(e)
+			break
+		}
+	}
+}
+
+// report writes the error to the error channel, unless the user is done.
+func (rl *ReadLoop) report(e error) {
+	select {
+	case rl.chErr <- e:
+	case <-rl.chDone:
 	}
 }
-- 
2.43.0


From 32809c7cb286903ff624359c33c031fd2e681cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 09/28] fix: a finished connection leaked its socket,
 goroutines and piece claims

Only one of the three loops was told to stop, errors blocked their reporters,
the socket was never closed, the peer stayed registered as a holder of its
pieces, and every handler was kept in a slice shared without locking.
---
 src/swarm/peerhandler.go | 35 +++++++++++++++++++++++++----------
 src/swarm/swarm.go       |  3 ---
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 99d84de..d7aafc4 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -151,8 +151,9 @@ func (ph *PeerHandler) Choke() error {
 
 func (ph *PeerHandler) Loop() {
 
-	// Any goroutines spawned should report errors on this chan
-	chErr := make(chan error)
+	// Any goroutines spawned should report errors on this chan. Each reports
+	// at most one, which must not block it if we already have another.
+	chErr := make(chan error, 3)
 
 	// Use to stop to all spawned goroutines
 	chDone := make(chan bool)
@@ -164,6 +165,8 @@ func (ph *PeerHandler) Loop() {
 		log.Printf("error unchoking: %v\n", e)
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
@@ -182,11 +185,16 @@ func (ph *PeerHandler) Loop() {
 		case e = <-chErr:
 			done = true
 			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
+			close(chDone)
+			_ = ph.conn.Close()
 			ph.procs.Wait()
+			ph.swarm.PPT.Unregister(ph)
 			// We will eventually wrap this in a struct so that we can
 			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
+			select {
+			case ph.chErr <- e:
+			default:
+			}
 		}
 	}
 
@@ -196,7 +204,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -204,6 +211,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -216,7 +224,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 		case e = <-readLoop.ReadError():
 			done = true
 		case <-chKill:
-			readLoop.Finish()
 			done = true
 		}
 
@@ -229,7 +236,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -240,6 +246,12 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 	// TODO: Yikes
 	for !ph.swarm.Bf.Complete() {
 
+		select {
+		case <-chDone:
+			return
+		default:
+		}
+
 		// Fill up requests
 		for i := len(reqs); i < 5; i++ {
 			next, ok := ph.swarm.PPT.NextPiece(ph)
@@ -252,8 +264,11 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					chErr <- e
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
@@ -285,7 +300,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
@@ -293,6 +307,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..41bfa5e 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -144,8 +144,6 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
@@ -158,7 +156,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From 202dac909fbe0ef7e96d02f540a294a87ffb682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 10/28] fix: a peer that vanished or stopped reading blocked
 its handler forever

Writes had no deadline, so once the send buffer was full the handler, its
goroutines and its socket stayed until the process ended.
---
 src/swarm/peerhandler.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index d7aafc4..e59acdd 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -44,6 +44,32 @@ type PeerHandler struct {
 	chErr chan<- error // Report errors
 }
 
+// peerConn is a connection on which no write takes longer than GetKeepAlive. A
+// write that fails may have sent part of a message, so nothing follows it.
+type peerConn struct {
+	net.Conn
+	wlock sync.Mutex
+	werr  error
+}
+
+func (pc *peerConn) Write(data []byte) (int, error) {
+	pc.wlock.Lock()
+	defer pc.wlock.Unlock()
+
+	if pc.werr != nil {
+		return 0, pc.werr
+	}
+
+	e := pc.Conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+	if e != nil {
+		return 0, e
+	}
+
+	var n int
+	n, pc.werr = pc.Conn.Write(data)
+	return n, pc.werr
+}
+
 // ============================================================================
 // FUNK =======================================================================
 
@@ -55,6 +81,8 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
+	conn = &peerConn{Conn: conn}
+
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
 	_, e = conn.Write(hs)
@@ -69,6 +97,8 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
 func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 
+	conn = &peerConn{Conn: conn}
+
 	// Don't leave the peer hanging if it can't join
 	joined := false
 	defer func() {
-- 
2.43.0


From d7451d4ae471a7f2da61b5b37f1965b8d2b0d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 11/28] fix: outgoing connections never read or checked the
 peer's handshake

Its 68 bytes were decoded as messages, losing those that came along with it,
and a peer of another swarm, or none at all, was treated as one of ours.
---
 src/swarm/peerhandler.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index e59acdd..a1e67bc 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -74,7 +74,7 @@ func (pc *peerConn) Write(data []byte) (int, error) {
 // FUNK =======================================================================
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
-// handshake.
+// handshake and checks the one the peer answers with.
 func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
@@ -83,6 +83,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 	conn = &peerConn{Conn: conn}
 
+	// Don't keep the connection if it's not with a peer of this swarm
+	joined := false
+	defer func() {
+		if !joined {
+			_ = conn.Close()
+		}
+	}()
+
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
 	_, e = conn.Write(hs)
@@ -90,6 +98,21 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 		return nil, e
 	}
 
+	// Read the peer's handshake
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		return nil, e
+	}
+	peerHs := make(Handshake, HandshakeLen)
+	_, e = gio.ReadFull(conn, peerHs)
+	if e != nil {
+		return nil, e
+	}
+	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
+		return nil, fmt.Errorf("bad peer handshake")
+	}
+
+	joined = true
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
-- 
2.43.0


From dcf2de213751ecb690b05e9eb69a90ae3564365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 12/28] fix: creating the requests of a piece never ended

The offset was not advanced, so the first piece to request used up all memory.
---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index a1e67bc..47d278e 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -344,6 +344,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 467c0a5d570aa937a32dd1356daaa5d15722fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 13/28] fix: rate-limited reads reported success without
 filling the buffer

The length read was dropped, so a short read looked like a complete one.
---
 src/io/ratelimit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..369bc1e 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -126,7 +126,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
 	if rl.rRate == NoLimit {
-		_, e := reader.Read(buf)
+		_, e := io.ReadFull(reader, buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
 		return e
@@ -147,6 +147,6 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	unlocker.Do(rl.rlock.Unlock)
 	atomic.AddInt64(&rl.rTotal, lenBuf)
 
-	_, e := reader.Read(buf)
+	_, e := io.ReadFull(reader, buf)
 	return e
 }
-- 
2.43.0


From e7a31ddac5a2a1753fb5331349e75d37201862cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 14/28] fix: the same piece was assigned to any number of peers

NextPiece marked a copy of the piece as active, so the mark had no effect.
---
 src/swarm/piecetracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..7d5cfd4 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
@@ -155,14 +156,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From f0ffaea0d33054392476319b597684b3e2434728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 15/28] fix: 64 holders of one piece crashed the piece tracker

The highest bucket is numBuckets-1; moving a piece beyond it is out of range.
---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 7d5cfd4..aa80468 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -133,7 +133,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 			// leaves it in the largest bucket. I.e, numBuckets = 50
 			// and oldCount = 52, then the node should remain in bucket 50.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From 5cffc4fa63050c4e08e0121ae329f8511f7f6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 16/28] fix: failing to open a downloaded file destroyed it

OCAT took every error for a missing file and created it with O_TRUNC, so that
running out of file descriptors for a moment erased the downloaded data.
---
 src/utils/futils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..4606f38 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,6 +67,11 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
+	// Any other error doesn't mean that there is no file with data in it
+	if e != nil && !os.IsNotExist(e) {
+		return nil, e
+	}
+
 	// Create new file
 	if e != nil {
 		fp, e = CreateZeroFilledFile(fpath, length)
-- 
2.43.0


From 300e220f0bf511acfce554f4a1087414b8d46b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 17/28] fix: CloseAll left files open after the first that
 failed to close

---
 src/torrent/fileio/fileio.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/torrent/fileio/fileio.go b/src/torrent/fileio/fileio.go
index 38eedcc..fbaa201 100644
--- a/src/torrent/fileio/fileio.go
+++ b/src/torrent/fileio/fileio.go
@@ -101,21 +101,24 @@ func (fio *FileIO) Close(fpath string) error {
 }
 
 func (fio *FileIO) CloseAll() error {
-	var e error
+	var first error
 
 	for _, lfp := range fio.lfps {
+		var e error
+
 		func() {
 			lfp.lock.Lock()
 			defer lfp.lock.Unlock()
 			e = lfp.fp.Close()
 		}()
 
-		if e != nil {
-			return e
+		// Close the others nonetheless
+		if e != nil && first == nil {
+			first = e
 		}
 	}
 
-	return nil
+	return first
 }
 
 func (fio *FileIO) write(fpath string, seekAmnt int64, data []byte) (int64, error) {
-- 
2.43.0


From 7062b24af65fb4ee14f7b4e070b2fc9456d9131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 18/28] fix: failing to accept one connection ended the whole
 client

Aborted connections and running out of file descriptors are transient.
---
 src/swarm/swarm.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 41bfa5e..c4ecb54 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -1,10 +1,12 @@
 package swarm
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -15,6 +17,9 @@ import (
 	"gotor/utils"
 )
 
+// acceptRetry is how long to wait after failing to accept a connection.
+const acceptRetry = 100 * time.Millisecond
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -146,9 +151,15 @@ func (s *Swarm) runListener() {
 
 	for {
 		conn, err := listener.Accept()
-		if err != nil {
+		if errors.Is(err, net.ErrClosed) {
 			panic(err)
 		}
+		if err != nil {
+			// Aborted connection, out of file descriptors...
+			log.Printf("failed to accept: %v", err)
+			time.Sleep(acceptRetry)
+			continue
+		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
 		go func(c net.Conn) {
-- 
2.43.0


From 57d0772d0b39471a3c57aa8e5c5c11c5676d9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 19/28] fix: a bad tracker or announce URL hung or crashed the
 client

A tracker that stalls, or sends an endless body, was waited for forever, and an
announce URL that does not parse was dereferenced.
---
 src/tracker/tracker.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..62887a8 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -3,17 +3,27 @@ package tracker
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net"
 	"net/http"
 	"net/url"
 	"strings"
+	"time"
 
 	"gotor/bencode"
 	"gotor/peer"
 	"gotor/torrent"
 )
 
+const (
+	// timeout is how long the tracker may take to respond in full
+	timeout = 30 * time.Second
+
+	// maxResponse is the most bytes of a response that are read
+	maxResponse = 4 * 1048576
+)
+
 // ============================================================================
 // ERROR ======================================================================
 
@@ -75,7 +85,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +96,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,18 +110,20 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-	client := http.Client{}
+	client := http.Client{Timeout: timeout}
 
 	resp, err := client.Do(req)
 	if err != nil {
 		return nil, err
 	}
 
-	body, err := ioutil.ReadAll(resp.Body)
+	defer resp.Body.Close()
+
+	body, err := ioutil.ReadAll(io.LimitReader(resp.Body, maxResponse))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7cd584526a9089c494d98de3bfcfbfc239cbae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 20/28] fix: the tracker was always told that nothing is left
 to download

---
 src/swarm/swarm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index c4ecb54..f748554 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -77,9 +77,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	swarm.Stats = tracker.NewStats(0, 0, swarm.bytesLeft())
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
@@ -122,6 +120,25 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// bytesLeft is the total length of the pieces we don't have.
+func (s *Swarm) bytesLeft() uint64 {
+	torInfo := s.Tor.Info()
+	left := uint64(0)
+
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if s.Bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += uint64(torInfo.LastPieceLen())
+		} else {
+			left += uint64(torInfo.PieceLen())
+		}
+	}
+
+	return left
+}
+
 func (s *Swarm) Start() {
 
 	go s.runListener()
-- 
2.43.0


From 7598a7b992727511eaebdc7b662741530a5cd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 21/28] fix: IPv6 peers could not be dialed

Their address must be in brackets when followed by a port.
---
 src/peer/info.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..aa4ce9d 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,13 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
+	addr := net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port))
 
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: addr,
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 459af08b87a7ff1ca5508338fd0dde3877c8061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 22/28] fix: CreateTorInfo hung for pieces over 5 MiB, crashed
 for length 0

The buffer had room for zero pieces, so that nothing could ever be read.
---
 src/torrent/info/info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..baead6f 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -83,7 +83,14 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
+	if pieceLen <= 0 {
+		return nil, errors.New("piece length must be positive")
+	}
+
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
-- 
2.43.0


From 0d2bbbbda06ceb232426074318f67eb561c82991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 23/28] fix: CreateTorInfo leaked files on errors and trusted a
 changing length

---
 src/torrent/info/info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index baead6f..dac5f40 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -113,6 +113,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 
 		stat, e := fptr.Stat()
 		if e != nil {
+			_ = fptr.Close()
 			return nil, e
 		}
 
@@ -120,11 +121,13 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 		fentry.SetLocalPath(localPath)
 		fentries = append(fentries, fentry)
 
+		total := int64(0)
 		for {
 			// Fill buffer with data
 			n, e := fptr.Read(buf[buflen:])
 			if e != nil {
 				if e != io.EOF {
+					_ = fptr.Close()
 					return nil, e
 				}
 				// If we reached end of file, break and start processing
@@ -132,6 +135,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 				break
 			}
 			buflen += int64(n)
+			total += int64(n)
 
 			// If the buffer is now full, process the pieces.
 			// then "clear" the buffer and loop again.
@@ -149,6 +153,10 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 		if err != nil {
 			return nil, err
 		}
+
+		if total != stat.Size() {
+			return nil, fmt.Errorf("read %v/%v bytes of [%v]", total, stat.Size(), localPath)
+		}
 	}
 
 	// Process anything remaining in the buffer
-- 
2.43.0


From 1d37434cda081e2854f7f511b0532feca2a1d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 24/28] fix: inconsistent metadata crashed the client or was
 accepted

Piece lengths of zero or beyond memory, negative or overflowing file lengths and
a number of hashes that doesn't match them are refused before touching files.
---
 src/torrent/info/info.go | 20 ++++++++++++++++++++
 src/torrent/torrent.go   |  5 ++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index dac5f40..00e7026 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -25,6 +26,10 @@ func (fme *FileMetaError) Error() string {
 // ============================================================================
 // STRUCTS ====================================================================
 
+// maxPieceLen is the longest piece length of torrents that are opened, pieces
+// are held in memory.
+const maxPieceLen = 128 * 1048576
+
 // TorInfo holds the metadata found in a torrent's info dictionary.
 type TorInfo struct {
 	name      string `info:"name"`
@@ -175,12 +180,23 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	if pieceLen <= 0 {
+		return nil, errors.New("piece length must be positive")
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-pieceLen-length {
+			return nil, errors.New("invalid file length")
+		}
 		length += fentry.Length()
 	}
 
+	if int64(len(hashes)/20) != filesd.CalcNumPieces(files, pieceLen) {
+		return nil, errors.New("number of hashes doesn't match the length of the files")
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
@@ -220,6 +236,10 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	if pieceLen > maxPieceLen {
+		return nil, &FileMetaError{msg: "piece length is too long"}
+	}
+
 	hashes, err := info.GetString("pieces")
 	if err != nil {
 		return nil, err
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..adb86f3 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,7 +97,10 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
+	enc, err := bencode.Encode(infodict)
+	if err != nil {
+		return nil, err
+	}
 	tor.infohash = utils.SHA1(enc)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
-- 
2.43.0


From 1635c4061b561ec9d7ad22ea5f6771c260881172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 25/28] fix: file names in a torrent could lead out of the
 download directory

Names like .. or a/../../b made the client create and truncate any file the
user may write, an empty path crashed it, duplicate paths overwrote each other.
---
 src/torrent/filesd/entrybase.go | 40 +++++++++++++++++++++++++++++++++
 src/torrent/info/info.go        |  9 ++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..2ac1032 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -51,6 +51,38 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// CheckPathToken returns an error if token can't be the name of a single file
+// or directory.
+func CheckPathToken(token string) error {
+	if token == "" || token == "." || token == ".." || strings.ContainsAny(token, "/\x00") {
+		return fmt.Errorf("invalid file or directory name [%v]", token)
+	}
+	return nil
+}
+
+// CheckPaths returns an error if two of the entries would be the same file, or
+// one would be a directory of another.
+func CheckPaths(entries []EntryBase) error {
+	files := make(map[string]bool)
+
+	for _, fe := range entries {
+		if files[fe.TorPath()] {
+			return fmt.Errorf("duplicate file [%v]", fe.TorPath())
+		}
+		files[fe.TorPath()] = true
+	}
+
+	for _, fe := range entries {
+		for i, c := range fe.TorPath() {
+			if c == '/' && files[fe.TorPath()[:i]] {
+				return fmt.Errorf("file is also a directory [%v]", fe.TorPath()[:i])
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -70,6 +102,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry contains empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
@@ -78,6 +114,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			err = CheckPathToken(pathPiece)
+			if err != nil {
+				return nil, err
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 00e7026..2e8234e 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -230,6 +230,10 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+	err = filesd.CheckPathToken(name)
+	if err != nil {
+		return nil, err
+	}
 
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
@@ -270,6 +274,11 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 			return nil, err
 		}
 
+		err = filesd.CheckPaths(fentries)
+		if err != nil {
+			return nil, err
+		}
+
 		// Modify local path
 		workingDir = filepath.Join(workingDir, name) // Torrent paths don't include base dir
 		for i, fe := range fentries {
-- 
2.43.0


From d21a03dca2fa5acf983f663a09efc9c954727fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 26/28] fix: deeply nested bencoding crashed the client

A few megabytes of l or d overflowed the stack, which can't be recovered from.
---
 src/bencode/decode.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..5203f38 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +103,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -208,8 +218,25 @@ func (dc *decoder) decodeInt() (int64, error) {
 // Decoder Struct =============================================================
 
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
+}
+
+// maxDepth is how deep lists and dictionaries can be nested. Running out of
+// stack can't be recovered from.
+const maxDepth = 1000
+
+func (dc *decoder) enter() error {
+	dc.depth++
+	if dc.depth > maxDepth {
+		return &DecoderError{"nested too deep"}
+	}
+	return nil
+}
+
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From fa3a768d0c0a782c99017013dd0456fb40bdaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 27/28] fix: piece availability mixed up between connections
 with the same peer

Holders of a piece are kept in a set by the handler's key, which was the
address and id of the peer. With two connections of one peer (listed
twice by the tracker, or reconnecting from the same port before the old
connection is gone) the first one to leave took the other's pieces away,
and the other was no longer downloaded from.
---
 src/swarm/peerhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 47d278e..4a86a1b 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -382,6 +382,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	}
 }
 
+// Key identifies the handler, there can be several for the same peer.
 func (ph *PeerHandler) Key() string {
-	return ph.peerInfo.String()
+	return fmt.Sprintf("%v #%p", ph.peerInfo.String(), ph)
 }
-- 
2.43.0


From fad4c6d2e205924ae281f4c1d6d5bcc81754c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:04 +0000
Subject: [PATCH 28/28] fix: rate-limited transfer hung when the limit was
 removed

---
 src/io/ratelimit.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 369bc1e..a9bf681 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -100,7 +100,8 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	rl.wlock.Lock()
 	defer unlocker.Do(rl.wlock.Unlock)
 
-	for {
+	// The limit may have been removed before we got the lock
+	for rl.wRate != NoLimit {
 		if rl.wUsed < rl.wRate {
 			break
 		}
@@ -137,7 +138,8 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	rl.rlock.Lock()
 	defer unlocker.Do(rl.rlock.Unlock)
 
-	for {
+	// The limit may have been removed before we got the lock
+	for rl.rRate != NoLimit {
 		if rl.rUsed < rl.rRate {
 			break
 		}
-- 
2.43.0

