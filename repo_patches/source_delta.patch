From 7506ba382e1f596a8fc9314ab39f22d6af1fbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:37 +0000
Subject: [PATCH 01/34] fix: NewMessage dropped its isError and isAsync
 arguments

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 7fd41e3..8782b5c 100644
--- a/handler.go
+++ b/handler.go
@@ -887,7 +887,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From 8fe6f53359fc33d32c9aaf802003eb849eecd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:38 +0000
Subject: [PATCH 02/34] fix: clearAsyncHandler ran the last callback for every
 pending async call

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index d44bdb1..c8f3c00 100644
--- a/client.go
+++ b/client.go
@@ -733,6 +733,7 @@ func (c *Client) clearAsyncHandler() {
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
 	for _, ah := range handlers {
+		ah := ah
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From 149df01c140050f075d8047a540c99d1cfb0d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 03/34] fix: batchSendLoop freed its initial buffer again after
 Append had replaced it

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c8f3c00..fe71495 100644
--- a/client.go
+++ b/client.go
@@ -933,7 +933,7 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From 5517e3a87d726aea94b1c1608caaff2a4224df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:39 +0000
Subject: [PATCH 04/34] fix: OnMessage kept using method names that alias a
 released message buffer

---
 handler.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 8782b5c..2334cd3 100644
--- a/handler.go
+++ b/handler.go
@@ -743,6 +743,8 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				})
 			}
 		} else {
+			// msg is released with its context, keep a copy for logging
+			method = msg.Method()
 			if rh, ok = h.routes[""]; ok {
 				ctx := newContext(c, msg, rh.handlers)
 				ctx.Next()
@@ -784,12 +786,12 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		id := msg.Seq()
 		local := !msg.IsStreamLocal()
 		eof := msg.IsStreamEOF()
-		method := msg.method()
+		method := msg.Method()
 		stream, ok := c.getStreamAndPushMsg(id, local, eof)
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(method, id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 5216592d5daf377db322ce7fc4bb5fa6d82b4750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:40 +0000
Subject: [PATCH 05/34] fix: OnMessage called a nil onMessageDone for streams
 without handler

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 2334cd3..4571633 100644
--- a/handler.go
+++ b/handler.go
@@ -802,7 +802,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
-				h.onMessageDone(c, msg)
+				h.OnMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
 			}
 		} else {
-- 
2.43.0


From 8cf360d7663275c7ea0586664b0d2daf733bc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:41 +0000
Subject: [PATCH 06/34] fix: Stream.RecvContext dereferenced nil on a closed
 stream instead of returning io.EOF

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index f1af279..e560bb4 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From 5ff809564e2b582f7c14d6621ac8b4374024f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:42 +0000
Subject: [PATCH 07/34] fix: Context.Abort did not stop chains of more than 127
 handlers

---
 context.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 0f46bab..ef4eb21 100644
--- a/context.go
+++ b/context.go
@@ -5,7 +5,6 @@
 package arpc
 
 import (
-	"math"
 	"sync"
 	"time"
 )
@@ -122,7 +121,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = len(ctx.handlers)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From 6d8d60db0eac0038c4e3c5200568b99c7790be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:43 +0000
Subject: [PATCH 08/34] fix: a connection stopped from its own handler was
 never cleaned up

---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index fe71495..bb26068 100644
--- a/client.go
+++ b/client.go
@@ -829,11 +829,11 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-- 
2.43.0


From 5330a1c99bb1967e5589114cc42ac4acde45dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:44 +0000
Subject: [PATCH 09/34] fix: stopping a client without async write did not
 raise its stop signal

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index bb26068..e53851c 100644
--- a/client.go
+++ b/client.go
@@ -520,7 +520,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
+	if c.chClose != nil {
 		close(c.chClose)
 	}
 	if c.onStop != nil {
-- 
2.43.0


From 0140046294731dffc5d296e31a7492f3e6e8eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:45 +0000
Subject: [PATCH 10/34] fix: a duplicate response blocked the receive loop or
 hit a closed session

---
 client.go  | 7 -------
 handler.go | 6 +++---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index e53851c..bbcf040 100644
--- a/client.go
+++ b/client.go
@@ -667,13 +667,6 @@ func (c *Client) deleteSession(seq uint64) *rpcSession {
 	return session
 }
 
-func (c *Client) getSession(seq uint64) (*rpcSession, bool) {
-	c.mux.Lock()
-	session, ok := c.sessionMap[seq]
-	c.mux.Unlock()
-	return session, ok
-}
-
 func (c *Client) clearSession() {
 	c.mux.Lock()
 	for _, sess := range c.sessionMap {
diff --git a/handler.go b/handler.go
index 4571633..6831645 100644
--- a/handler.go
+++ b/handler.go
@@ -759,9 +759,9 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		}
 	case CmdResponse:
 		if !msg.IsAsync() {
-			seq := msg.Seq()
-			session, ok := c.getSession(seq)
-			if ok {
+			// the session is taken out, so that only one response can complete it
+			session := c.deleteSession(msg.Seq())
+			if session != nil {
 				session.done <- msg
 			} else {
 				h.OnSessionMiss(c, msg)
-- 
2.43.0


From 344db34e5c67f3581a4247c9bb2f2558632c34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:46 +0000
Subject: [PATCH 11/34] fix: dropping a queued message lost async callbacks and
 hit calls of the same seq

---
 client.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index bbcf040..5270f97 100644
--- a/client.go
+++ b/client.go
@@ -311,6 +311,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			// the error is returned to the caller, not to the handler
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -677,16 +679,24 @@ func (c *Client) clearSession() {
 }
 
 func (c *Client) dropMessage(msg *Message) {
-	if !msg.IsAsync() {
-		session := c.deleteSession(msg.Seq())
-		if session != nil {
-			close(session.done)
+	// only requests have a pending call, other messages carry a seq of the other side
+	if msg.Cmd() == CmdRequest {
+		if !msg.IsAsync() {
+			session := c.deleteSession(msg.Seq())
+			if session != nil {
+				close(session.done)
+			}
+		} else if ah, ok := c.getAndDeleteAsyncHandler(msg.Seq()); ok {
+			if ah.timer != nil {
+				ah.timer.Stop()
+			}
+			c.Handler.AsyncExecute(func() {
+				ah.handler(nil, ErrClientReconnecting)
+				putAsyncHandler(ah)
+			})
 		}
-		c.Handler.OnMessageDropped(c, msg)
-	} else {
-		c.deleteAsyncHandler(msg.Seq())
-		c.Handler.OnMessageDropped(c, msg)
 	}
+	c.Handler.OnMessageDropped(c, msg)
 }
 
 func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
-- 
2.43.0


From fddec76502fdc58448404c72f830c31d4dd5a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 12/34] fix: a connection that ended before it was added stayed
 in the server forever

---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 77627e8..dae5e39 100644
--- a/server.go
+++ b/server.go
@@ -196,6 +196,10 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
+				if cli.CheckState() != nil {
+					// it may have ended, and been deleted, before it was added
+					s.deleteClient(cli)
+				}
 				s.Handler.OnConnected(cli)
 			} else {
 				conn.Close()
-- 
2.43.0


From d2894aa9c9c1d63c460ad2e437d897cfccb9faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:47 +0000
Subject: [PATCH 13/34] fix: pubsub topic decoding crashed on a name length
 beyond the data

---
 extension/pubsub/topic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..ff287a0 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -51,6 +51,9 @@ func (tp *Topic) fromBytes(data []byte) error {
 	if nameLen == 0 || nameLen > MaxTopicNameLen {
 		return ErrInvalidTopicNameLength
 	}
+	if nameLen+10 > len(data) {
+		return ErrInvalidTopicBytes
+	}
 	tp.Timestamp = int64(binary.LittleEndian.Uint64(data[len(data)-8:]))
 	tp.Name = string(data[len(data)-nameLen-10 : len(data)-10])
 	tp.Data = data[:len(data)-nameLen-10]
-- 
2.43.0


From c5d810b3af91070a748790d95ce8e34e74eba112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:48 +0000
Subject: [PATCH 14/34] fix: pubsub topic encoding wrote into the spare
 capacity of the payload

---
 extension/pubsub/topic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index ff287a0..b715726 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,7 +37,7 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
+	tp.Data = append(tp.Data[:dataLen:dataLen], tail...)
 	tp.raw = tp.Data
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
-- 
2.43.0


From e45fbbecdb44dfb3e6bd9b246fce306223fb4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:48 +0000
Subject: [PATCH 15/34] fix: pubsub re-authentication lost the subscriptions of
 the client

---
 extension/pubsub/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..e904138 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,6 +250,9 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	if _, ok := c.Get(userTopicKey); ok {
+		return
+	}
 	c.Set(userTopicKey, &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
 	})
-- 
2.43.0


From 91d303d774a7fcbbc9037948038e3dc10c89f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 16/34] fix: pubsub publish pushed one message reference to
 several clients

---
 extension/pubsub/topic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index b715726..ff31776 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -97,8 +97,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
@@ -119,8 +121,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
-- 
2.43.0


From 74c5613c411472a7d86b18356b8f29ef3319d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:49 +0000
Subject: [PATCH 17/34] fix: pubsub client called topic handlers with its lock
 held

---
 extension/pubsub/client.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..b969c54 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -181,11 +181,10 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		if ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From e257da898b9c9a6261cd077d00620e8c01f69e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 18/34] fix: graceful middleware let refused requests run their
 handler

---
 extension/middleware/router/graceful.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..2be349f 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -26,6 +26,7 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
-- 
2.43.0


From ba838b95f555f2822b5d2df74db0b66801b74d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 19/34] fix: graceful shutdown could miss a request admitted
 while it began

---
 extension/middleware/router/graceful.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 2be349f..5665b00 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,6 +13,7 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.RWMutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
@@ -20,8 +21,7 @@ type Graceful struct {
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.begin() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
@@ -31,9 +31,22 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 	}
 }
 
+// begin counts a new request, unless shutting down.
+func (g *Graceful) begin() bool {
+	g.mux.RLock()
+	defer g.mux.RUnlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From 8380aacce04f932ecef60514bb3a41f63bff598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 20/34] fix: appender coder flagged messages it did not extend
 and crashed on malformed ones

---
 extension/middleware/coder/appender.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..b49ff9f 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -23,11 +23,11 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+	valueData, err := ap.valueToBytes(value)
+	if err != nil || len(key)+len(valueData)+2 > 0xFFFF {
 		return msg
 	}
-	valueData, err := ap.valueToBytes(value)
-	if err != nil {
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
 		return msg
 	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
@@ -47,15 +47,16 @@ func (ap *Appender) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 		if bufLen > 2 && ap.bytesToValue != nil {
 			key := ap.AppenderName
 			appendLen := (int(msg.Buffer[bufLen-2]) << 8) | int(msg.Buffer[bufLen-1])
-			if bufLen >= appendLen {
-				appenderName := util.BytesToStr(msg.Buffer[bufLen-appendLen : bufLen-appendLen+len(key)])
-				if appenderName != key {
-					return msg
-				}
-				payloadBody := msg.Buffer[bufLen-appendLen+len(appenderName) : bufLen-2]
-				if value, err := ap.bytesToValue(payloadBody); err == nil {
-					msg.Set(key, value)
-				}
+			if appendLen < len(key)+2 || bufLen-appendLen < arpc.HeadLen {
+				return msg
+			}
+			appenderName := util.BytesToStr(msg.Buffer[bufLen-appendLen : bufLen-appendLen+len(key)])
+			if appenderName != key {
+				return msg
+			}
+			payloadBody := msg.Buffer[bufLen-appendLen+len(appenderName) : bufLen-2]
+			if value, err := ap.bytesToValue(payloadBody); err == nil {
+				msg.Set(key, value)
 			}
 			msg.Buffer = msg.Buffer[:len(msg.Buffer)-appendLen]
 			msg.SetFlagBit(ap.FlagBitIndex, false)
-- 
2.43.0


From 5b17859964c78aac60c492fb7815256e326eb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:51 +0000
Subject: [PATCH 21/34] fix: gzip coder decoded to messages shorter than a
 header

---
 extension/middleware/coder/gzip/gzip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/middleware/coder/gzip/gzip.go b/extension/middleware/coder/gzip/gzip.go
index fc7c39e..961e890 100644
--- a/extension/middleware/coder/gzip/gzip.go
+++ b/extension/middleware/coder/gzip/gzip.go
@@ -53,7 +53,7 @@ func (g *Gzip) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
 func (g *Gzip) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
 	if msg.IsFlagBitSet(coder.FlagBitGZip) {
 		buf, err := gzipUnCompress(msg.Buffer[arpc.HeaderIndexReserved+1:])
-		if err == nil {
+		if err == nil && len(buf) >= arpc.HeadLen-arpc.HeaderIndexReserved-1 {
 			msg.Buffer = append(msg.Buffer[:arpc.HeaderIndexReserved+1], buf...)
 			msg.SetFlagBit(coder.FlagBitGZip, false)
 			msg.SetBodyLen(len(msg.Buffer) - 16)
-- 
2.43.0


From 3157c94260911295c1f87095af1a80d9110a77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 22/34] fix: msgpack coder crashed on or changed messages it
 could not decode

---
 extension/middleware/coder/msgpack/msgpack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/msgpack/msgpack.go b/extension/middleware/coder/msgpack/msgpack.go
index 4888d48..0793510 100644
--- a/extension/middleware/coder/msgpack/msgpack.go
+++ b/extension/middleware/coder/msgpack/msgpack.go
@@ -33,10 +33,10 @@ func (mp *MsgPack) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 
 // Decode implements arpc MessageCoder.
 func (mp *MsgPack) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
-	v := &mpkv{
-		Body:   msg.Data(),
-		Values: msg.Values(),
+	if arpc.HeadLen+msg.MethodLen() > msg.Len() {
+		return msg
 	}
+	v := &mpkv{}
 	err := msgpack.Unmarshal(msg.Data(), v)
 	if err == nil {
 		ml := msg.MethodLen()
-- 
2.43.0


From 214962a538d339fee30a172fd56adce5333e1c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:53 +0000
Subject: [PATCH 23/34] fix: concurrent ClientPool.Next calls could miss the
 only usable client

---
 client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 5270f97..4db98fd 100644
--- a/client.go
+++ b/client.go
@@ -1076,12 +1076,14 @@ func (pool *ClientPool) Get(index int) *Client {
 
 // Next returns a Client by round robin.
 func (pool *ClientPool) Next() *Client {
-	var client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+	var first = atomic.AddUint64(&pool.round, 1) % pool.size
+	var client = pool.clients[first]
 	if client.running && !client.reconnecting {
 		return client
 	}
+	// one ticket per call: concurrent calls must not make each other skip members
 	for i := uint64(1); i < pool.size; i++ {
-		client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+		client = pool.clients[(first+i)%pool.size]
 		if client.running && !client.reconnecting {
 			return client
 		}
-- 
2.43.0


From de33d37e967c2bafc92db6947f4cbb2c830fae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:53 +0000
Subject: [PATCH 24/34] fix: concurrent service lookups could miss the only
 usable node

---
 extension/micro/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..fc1d095 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -86,8 +86,8 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
-- 
2.43.0


From eba37b56698b903bb4d43b6a58bc206f7aacdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:44 +0000
Subject: [PATCH 25/34] fix: a client stopped before its receive loop ran was
 never cleaned up

---
 client.go | 62 +++++++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/client.go b/client.go
index 4db98fd..9583aab 100644
--- a/client.go
+++ b/client.go
@@ -840,49 +840,47 @@ func (c *Client) recvLoop() {
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
-		RECV:
-			for {
-				msg, err = c.Handler.Recv(c)
-				if err != nil {
-					log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-					break
-				}
-				c.Handler.OnMessage(c, msg)
+	RECV:
+		for {
+			msg, err = c.Handler.Recv(c)
+			if err != nil {
+				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
+				break
 			}
+			c.Handler.OnMessage(c, msg)
+		}
 
-			c.reconnecting = true
+		c.reconnecting = true
 
-			c.Conn.Close()
-			c.clearSession()
-			c.clearAsyncHandler()
-			c.clearStream()
+		c.Conn.Close()
+		c.clearSession()
+		c.clearAsyncHandler()
+		c.clearStream()
 
-			// if c.running {
-			// 	log.Info("%v\t%v\tReconnect Start", c.Handler.LogTag(), addr)
-			// }
-			maxReconnectTimes := c.Handler.MaxReconnectTimes()
-			for i := 0; c.running && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
-				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
-				conn, err := c.Dialer()
-				if err == nil {
-					c.Conn = conn
+		// if c.running {
+		// 	log.Info("%v\t%v\tReconnect Start", c.Handler.LogTag(), addr)
+		// }
+		maxReconnectTimes := c.Handler.MaxReconnectTimes()
+		for i := 0; c.running && ((maxReconnectTimes <= 0) || (i < maxReconnectTimes)); i++ {
+			log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
+			conn, err := c.Dialer()
+			if err == nil {
+				c.Conn = conn
 
-					c.initReader()
+				c.initReader()
 
-					c.reconnecting = false
+				c.reconnecting = false
 
-					log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
+				log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
-					go c.Handler.OnConnected(c)
+				go c.Handler.OnConnected(c)
 
-					goto RECV
-				}
-
-				time.Sleep(time.Second)
+				goto RECV
 			}
-			c.closeAndClean()
+
+			time.Sleep(time.Second)
 		}
+		c.closeAndClean()
 	}
 }
 
-- 
2.43.0


From c68c8b688c25c8337897cbbe7affc9c63f9afa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:45 +0000
Subject: [PATCH 26/34] fix: CallAsync could lose a callback whose timer fired,
 or client stopped, before registration

---
 client.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 9583aab..74c3641 100644
--- a/client.go
+++ b/client.go
@@ -283,7 +283,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	chTimer := make(chan time.Time, 1)
 	timerC := *(*<-chan time.Time)(unsafe.Pointer(&chTimer))
 	timer := &time.Timer{C: timerC}
-	timerCallback := time.AfterFunc(timeout, func() {
+	// armed below, when the handler is registered
+	timerCallback := time.AfterFunc(TimeForever, func() {
 		ah, ok := c.getAndDeleteAsyncHandler(seq)
 		if ok {
 			if ah.timer != nil {
@@ -295,7 +296,13 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		chTimer <- time.Now()
 	})
 	ah := getAsyncHandler(timerCallback, handler)
-	c.addAsyncHandler(seq, ah)
+	if !c.addAsyncHandler(seq, ah) {
+		timerCallback.Stop()
+		putAsyncHandler(ah)
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
+	timerCallback.Reset(timeout)
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -699,12 +706,14 @@ func (c *Client) dropMessage(msg *Message) {
 	c.Handler.OnMessageDropped(c, msg)
 }
 
-func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
+func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) bool {
 	c.mux.Lock()
-	if c.running {
+	running := c.running
+	if running {
 		c.asyncHandlerMap[seq] = ah
 	}
 	c.mux.Unlock()
+	return running
 }
 
 func (c *Client) deleteAsyncHandler(seq uint64) {
-- 
2.43.0


From 9e5c45f0d2296062938908fc2bfd5d8a05f01f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:46 +0000
Subject: [PATCH 27/34] fix: pubsub subscribe racing with disconnect or
 unsubscribe left a stale receiver

---
 extension/pubsub/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index e904138..cfe5726 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -22,6 +22,7 @@ const (
 
 type clientTopics struct {
 	mux         sync.RWMutex
+	closed      bool
 	topicAgents map[string]*TopicAgent
 }
 
@@ -117,10 +118,14 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		tp, ok := cts.topicAgents[topicName]
 		if !ok {
+			if cts.closed {
+				cts.mux.Unlock()
+				return
+			}
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +163,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -267,8 +272,9 @@ func (s *Server) deleteClient(c *arpc.Client) {
 	defer util.Recover()
 
 	cts := topics.(*clientTopics)
-	cts.mux.RLock()
-	defer cts.mux.RUnlock()
+	cts.mux.Lock()
+	defer cts.mux.Unlock()
+	cts.closed = true
 	for _, tp := range cts.topicAgents {
 		tp.Delete(c)
 		log.Info("%v [Disconnected Unsubscribe] [topic: '%v'] from\t%v", s.Handler.LogTag(), tp.Name, c.Conn.RemoteAddr())
-- 
2.43.0


From 1a42406959402f577b39a84105b783040fffc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 28/34] fix: a cloned handler kept using the receive buffer
 size of its original

---
 handler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 6831645..4a92dee 100644
--- a/handler.go
+++ b/handler.go
@@ -285,7 +285,7 @@ type handler struct {
 	append     func([]byte, ...byte) []byte
 	free       func([]byte)
 
-	wrapReader func(conn net.Conn) io.Reader
+	wrapReader func(h *handler, conn net.Conn) io.Reader
 
 	routes  map[string]*routerHandler
 	streams map[string]*streamHandler
@@ -472,13 +472,19 @@ func (h *handler) SetAsyncResponse(async bool) {
 
 func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
-		return h.wrapReader(conn)
+		return h.wrapReader(h, conn)
 	}
 	return conn
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
-	h.wrapReader = wrapper
+	if wrapper == nil {
+		h.wrapReader = nil
+		return
+	}
+	h.wrapReader = func(_ *handler, conn net.Conn) io.Reader {
+		return wrapper(conn)
+	}
 }
 
 func (h *handler) RecvBufferSize() int {
@@ -926,7 +932,7 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
+	h.wrapReader = func(h *handler, conn net.Conn) io.Reader {
 		return bufio.NewReaderSize(conn, h.recvBufferSize)
 	}
 	h.HandleConnected(func(cli *Client) {
-- 
2.43.0


From 4efad76de1c8c57623098adff773d384975f5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 29/34] fix: a cloned handler finished dropped messages with
 the callback of its original

---
 handler.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/handler.go b/handler.go
index 4a92dee..3004598 100644
--- a/handler.go
+++ b/handler.go
@@ -370,32 +370,30 @@ func (h *handler) SetMaxReconnectTimes(n int) {
 }
 
 func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
-	h.onOverstock = func(c *Client, m *Message) {
-		if onOverstock != nil {
-			onOverstock(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onOverstock == nil {
+		onOverstock = func(c *Client, m *Message) {}
 	}
+	h.onOverstock = onOverstock
 }
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
 		h.onOverstock(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
 func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Message)) {
-	h.onMessageDropped = func(c *Client, m *Message) {
-		if onMessageDropped != nil {
-			onMessageDropped(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onMessageDropped == nil {
+		onMessageDropped = func(c *Client, m *Message) {}
 	}
+	h.onMessageDropped = onMessageDropped
 }
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
 		h.onMessageDropped(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
-- 
2.43.0


From aeebe0b606b2a437af04ddb8febd2bb554e5a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 30/34] fix: concurrent pubsub authentications of one client
 could lose its subscriptions

---
 extension/pubsub/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index cfe5726..f80d1b6 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -255,6 +255,8 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
 	if _, ok := c.Get(userTopicKey); ok {
 		return
 	}
-- 
2.43.0


From 19d1aa1c83a5c4892d4e537930afa3b29a8e557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 31/34] fix: streams of a lost connection send nothing on the
 next one

---
 client.go | 6 ++----
 stream.go | 9 +++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 74c3641..45251f2 100644
--- a/client.go
+++ b/client.go
@@ -796,12 +796,10 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abort()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abort()
 	}
 }
 
diff --git a/stream.go b/stream.go
index e560bb4..3c039fa 100644
--- a/stream.go
+++ b/stream.go
@@ -63,6 +63,15 @@ func (s *Stream) CloseSendContext(ctx context.Context) {
 	}
 }
 
+// abort closes both directions without sending anything: the connection is lost,
+// and an EOF sent later would reach the next one.
+func (s *Stream) abort() {
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		s.halfClose()
+	}
+	s.CloseRecv()
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
 		return io.EOF
-- 
2.43.0


From ddb02e7deb8f5a9bc2c96b9cbac72ecb38f1bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:09 +0000
Subject: [PATCH 32/34] fix: a broadcast gives back the server's lock when the
 free handler panics

---
 server.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index dae5e39..e86e775 100644
--- a/server.go
+++ b/server.go
@@ -63,10 +63,8 @@ func (s *Server) Run(addr string) error {
 func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	msg := s.NewMessage(CmdNotify, method, v, args...)
 	s.mux.Lock()
-	defer func() {
-		msg.Release()
-		s.mux.Unlock()
-	}()
+	defer s.mux.Unlock()
+	defer msg.Release()
 
 	for c := range s.clients {
 		msg.Retain()
@@ -77,10 +75,8 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*Client) bool, args ...interface{}) {
 	msg := s.NewMessage(CmdNotify, method, v, args...)
 	s.mux.Lock()
-	defer func() {
-		msg.Release()
-		s.mux.Unlock()
-	}()
+	defer s.mux.Unlock()
+	defer msg.Release()
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-- 
2.43.0


From 94830bc08707172d024d8901cec2ccca4967da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:09 +0000
Subject: [PATCH 33/34] fix: Client.Set gives back the lock when the key cannot
 be hashed

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 45251f2..53b521a 100644
--- a/client.go
+++ b/client.go
@@ -94,11 +94,11 @@ func (c *Client) Set(key interface{}, value interface{}) {
 		return
 	}
 	c.mux.Lock()
+	defer c.mux.Unlock()
 	if c.values == nil {
 		c.values = map[interface{}]interface{}{}
 	}
 	c.values[key] = value
-	c.mux.Unlock()
 }
 
 // Delete deletes key-value pair
-- 
2.43.0


From 21c01a1c93b8d845436cd459e522ec1d28943ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:59 +0000
Subject: [PATCH 34/34] fix: publishing gives back the topic's lock when a
 callback panics

---
 extension/pubsub/topic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index ff31776..c7e4be5 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -99,6 +99,7 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	defer msg.Release()
 	t.mux.RLock()
+	defer t.mux.RUnlock()
 	for to := range t.clients {
 		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
@@ -110,7 +111,6 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 			}
 		}
 	}
-	t.mux.RUnlock()
 	if from != nil {
 		log.Debug("%v [Publish] [topic: '%v'] from\t%v", s.Handler.LogTag(), topic.Name, from.Conn.RemoteAddr())
 	} else {
@@ -123,6 +123,7 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	defer msg.Release()
 	t.mux.RLock()
+	defer t.mux.RUnlock()
 	for to := range t.clients {
 		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
@@ -141,7 +142,6 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 			break
 		}
 	}
-	t.mux.RUnlock()
 }
 
 func newTopicAgent(topic string) *TopicAgent {
-- 
2.43.0

