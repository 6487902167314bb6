From 87d29b9972fc526fc3d1c88a52e2ea66774b4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 01/22] fix: header and body extraction must not panic on
 length fields of 2^31 or more

The signed 32 bit lengths made the bounds check pass and the slice
expression panic (or overflow). Such lengths are now reported as errors.
---
 packx.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..f41bf77 100644
--- a/packx.go
+++ b/packx.go
@@ -219,10 +219,13 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 {
+		return nil, errors.New(fmt.Sprintf("invalid header length %d", headerLen))
+	}
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
-	header := stream[16 : 16+headerLen]
+	header := stream[16 : 16+int(headerLen)]
 	return header, nil
 }
 
@@ -260,10 +263,13 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 || bodyLen < 0 {
+		return nil, errors.New(fmt.Sprintf("invalid header length %d or body length %d", headerLen, bodyLen))
+	}
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-	body := stream[16+headerLen : 16+headerLen+bodyLen]
+	body := stream[16+int(headerLen) : 16+int(headerLen)+int(bodyLen)]
 	return body, nil
 }
 
-- 
2.43.0


From ee826fd05fbed5b5f551d792ea450d780c3727fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 02/22] fix: unpacking a truncated or corrupt stream must
 return an error, not panic

---
 packx.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packx.go b/packx.go
index f41bf77..10134d6 100644
--- a/packx.go
+++ b/packx.go
@@ -366,15 +366,24 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("require stream length at least 16 but got %d", len(stream)))
+	}
 	// 包长
-	length := binary.BigEndian.Uint32(stream[0:4])
+	length := int(binary.BigEndian.Uint32(stream[0:4]))
+	if length < 12 || len(stream)-4 < length {
+		return Message{}, errors.New(fmt.Sprintf("invalid block length %d in a stream of length %d", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
 	// header长度
-	headerLength := binary.BigEndian.Uint32(stream[8:12])
+	headerLength := int(binary.BigEndian.Uint32(stream[8:12]))
 	// body长度
-	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	bodyLength := int(binary.BigEndian.Uint32(stream[12:16]))
+	if len(stream) < 16+headerLength+bodyLength {
+		return Message{}, errors.New(fmt.Sprintf("require block length at least %d but got %d", 16+headerLength+bodyLength, len(stream)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-- 
2.43.0


From 14b19f83dbc61c8fbb9aaefa5dd1f4b31345b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 03/22] fix: reading a block must refuse announced lengths of
 2^31 or more

A negative length passed the size limit and made the allocation panic;
the limit itself was truncated to 32 bits.
---
 packx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packx.go b/packx.go
index 10134d6..34c6f6e 100644
--- a/packx.go
+++ b/packx.go
@@ -460,6 +460,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("invalid block length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -487,8 +490,11 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("invalid block length %d", length)
+	}
 
-	if length > int32(maxByTe) {
+	if int(length) > maxByTe {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
-- 
2.43.0


From 999edd651fa0551031db339c6b344f25381172c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 04/22] fix: bytes delivered together with end-of-stream or an
 error were dropped

A reader may return n > 0 and an error from the same call; a block
completed by such a read was lost.
---
 packx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index 34c6f6e..e8ff65f 100644
--- a/packx.go
+++ b/packx.go
@@ -516,16 +516,16 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 15488a5313aff3a927e6f4f1882944fde43e7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 05/22] fix: Any with several handlers registered every one of
 them twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..dbe2ad3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From aac9e890882a8d5f719628239812595ad8c164e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 06/22] fix: a refused registration of an url already
 registered must not change its handlers

---
 tcpx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index dbe2ad3..836d449 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -353,9 +353,10 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	//	tcpx.Mux = NewMux()
 	//}
 	//tcpx.Mux.AddHandleFunc(messageID, f)
-	tcpx.Mux.Any(urlPattern, handlers...)
+	// the anchor is added first: it refuses an url which is already registered
 	var messageIDAnchor = NewUrlPatternAnchor(urlPattern, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddURLAnchor(messageIDAnchor)
+	tcpx.Mux.Any(urlPattern, handlers...)
 }
 
 // Start to listen.
-- 
2.43.0


From 087766b9357b2af38c5574e4ba9a276918783d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 07/22] fix: a refused or removed registration must not leave
 its middlewares behind

---
 tcpx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 836d449..570c3f6 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -248,6 +248,7 @@ func (tcpx *TcpX) RewriteHeartBeatHandler(messageID int32, f func(c *Context)) *
 func (tcpx *TcpX) removeHandler(messageID int32) {
 	delete(tcpx.Mux.Handlers, messageID)
 	delete(tcpx.Mux.MessageIDAnchorMap, messageID)
+	delete(tcpx.Mux.MessageIDSelfMiddleware, messageID)
 }
 
 // Middleware typed 'AnchorTypedMiddleware'.
@@ -330,15 +331,16 @@ func (tcpx *TcpX) AddHandler(messageID int32, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
-	}
 
 	f := handlers[len(handlers)-1]
 	if tcpx.Mux == nil {
 		tcpx.Mux = NewMux()
 	}
+	// the handler is added first: it refuses a messageID which is already registered
 	tcpx.Mux.AddHandleFunc(messageID, f)
+	if len(handlers) > 1 {
+		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
+	}
 	var messageIDAnchor = NewMessageIDAnchor(messageID, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddMessageIDAnchor(messageIDAnchor)
 }
-- 
2.43.0


From ec1476251d26be9bbc644aa1b64fee0d09bfc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 08/22] fix: messageID 0 bypassed all middlewares when
 heartbeat or auth is not enabled

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 570c3f6..3aef7a6 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -899,12 +899,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 7b7be978f58fc62bf6c1cf888437e4c6d8d8d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 09/22] fix: using an anchor middleware again after UnUse had
 no effect

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 3aef7a6..2fda065 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -282,7 +282,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From 22847c1bb2dadddd53d506250bac713a55c7d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 10/22] fix: requests of a connection shared one request-scoped
 key/value space

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From 1bf864832a4b74fe4e655eb7081ee230e5690e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 11/22] fix: a closing connection evicted the newer connection
 of the same user from the pool

---
 client-pool.go | 9 +++++++++
 context.go     | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..2fdd5dc 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,15 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// remove username from the pool only if it still belongs to the same connection as ctx
+func (cp *ClientPool) offlineContext(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if current := cp.Clients[username]; current != nil && current.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index d5e045e..dd9dc7e 100644
--- a/context.go
+++ b/context.go
@@ -168,7 +168,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineContext(username, ctx)
 	return nil
 }
 
-- 
2.43.0


From ef8ebbdc1294562649e9b53a649960251a239788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 12/22] fix: closing all pooled connections deadlocked on the
 pool lock

---
 tcpx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 2fda065..8b2c3f7 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1173,12 +1173,14 @@ func (tcpx *TcpX) closeAllConnection() {
 		if tcpx.pool != nil {
 			oldPool := tcpx.pool
 			go func() {
+				// CloseConn locks the pool itself
 				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
+				clients := oldPool.Clients
+				oldPool.Clients = make(map[string]*Context)
+				oldPool.m.Unlock()
 
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
+				for k, _ := range clients {
+					clients[k].CloseConn()
 				}
 			}()
 
-- 
2.43.0


From 43b393bcc201405f4c1a6c9a0340ae2f25d5c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 13/22] fix: Start served only the last recorded address

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 8b2c3f7..793980c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1196,7 +1196,7 @@ func (tcpx *TcpX) Start() error {
 	}
 
 	for _, v := range tcpx.properties {
-		go func() {
+		go func(v *PropertyCache) {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
@@ -1207,7 +1207,7 @@ func (tcpx *TcpX) Start() error {
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-		}()
+		}(v)
 	}
 	return nil
 }
-- 
2.43.0


From 48d3f4fb343d28acf0940aa3d94e02fba6b6a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 14/22] fix: Stop closed no listener of networks other than
 tcp, udp and kcp

---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 793980c..8703664 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1149,12 +1149,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			switch listener := v.Listener.(type) {
+			case net.Listener:
+				listener.Close()
+			case net.PacketConn:
+				listener.Close()
 			}
 		}
 	}()
-- 
2.43.0


From 8dac756473a188537acc644fb9a83e92f2d2b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 15/22] fix: stopping a restarted server panicked and its
 connections were closed at once

---
 tcpx.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 8703664..6ad9300 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1168,7 +1168,9 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 
 func (tcpx *TcpX) closeAllConnection() {
 	if tcpx.withSignals == true {
-		close(tcpx.closeAllSignal)
+		CloseChanel(func() {
+			close(tcpx.closeAllSignal)
+		})
 	} else {
 		if tcpx.pool != nil {
 			oldPool := tcpx.pool
@@ -1195,6 +1197,11 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
+	// the former signal was closed by tcpX.Stop(true)
+	if tcpx.withSignals {
+		tcpx.closeAllSignal = make(chan int, 1)
+	}
+
 	for _, v := range tcpx.properties {
 		go func(v *PropertyCache) {
 			defer func() {
-- 
2.43.0


From 4aa270fbc7c7e32ebf00a9be1319b8929156c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 16/22] fix: heartbeat watch and handler could use different
 channels

---
 context.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/context.go b/context.go
index dd9dc7e..9565543 100644
--- a/context.go
+++ b/context.go
@@ -619,20 +619,18 @@ func (ctx *Context) RawStream() ([]byte, error) {
 // HeartBeatChan returns a prepared chan int to save heart-beat signal.
 // It will never be nil, if not exist the channel, it will auto-make.
 func (ctx *Context) HeartBeatChan() chan int {
-	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
+	// all callers must get the same channel
+	kv := ctx.PerConnectionContext
+	if ctx.ConnectionProtocolType() == "udp" {
+		kv = ctx.PerRequestContext
+	}
+	channel, _ := kv.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
+	tmp, ok := channel.(chan int)
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-		return channel.(chan int)
-	} else {
-		tmp, ok := channel.(chan int)
-		if !ok {
-			channel = make(chan int, 1)
-			ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-			return channel.(chan int)
-		}
-		return tmp
+		tmp = make(chan int, 1)
+		ctx.setCtxPerConn("tcpx-heart-beat-channel", tmp)
 	}
+	return tmp
 }
 
 // RecvHeartBeat
-- 
2.43.0


From b8398468c96076d09b96a05d224197b11114c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 17/22] fix: incomplete pipes and bad pipe arguments must not
 crash the server

---
 tcpx.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 6ad9300..3ef45af 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -582,8 +582,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
@@ -594,10 +593,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
@@ -1254,7 +1256,7 @@ func isPipe(block []byte) (bool, int, error) {
 
 	pipeArgs, ok := pipeArgsI.(string)
 	if !ok {
-		return false, 0, errorx.NewFromStringf("bad pipe args, should format as a  string, bug got type '%s'", reflect.TypeOf(pipeArgsI).Name())
+		return false, 0, errorx.NewFromStringf("bad pipe args, should format as a  string, bug got type '%T'", pipeArgsI)
 	}
 
 	arr := strings.Split(pipeArgs, ";")
@@ -1266,6 +1268,9 @@ func isPipe(block []byte) (bool, int, error) {
 	if err != nil {
 		return false, 0, errorx.NewFromStringf("bad pipe args length, should format as 'enable:<length>' but got %s,\n %v", arr[1], err)
 	}
+	if length <= 0 {
+		return false, 0, errorx.NewFromStringf("bad pipe args length, should be positive but got %d", length)
+	}
 	if arr[0] == "enable" {
 		return true, length - 1, nil
 	}
-- 
2.43.0


From e13d49b389ce67f1f4cd950a823cf72c19c31c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 18/22] fix: an unset read or write deadline erased the
 configured deadline

---
 tcpx.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3ef45af..bd69a20 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -447,8 +447,12 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -525,8 +529,12 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -648,8 +656,12 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.openState()
 
 	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From b0633b059072cc8426e37e56cb2b38341bc2d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 19/22] fix: the raw server served plain text although TLS was
 configured

---
 tcpx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index bd69a20..dd25a17 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -426,7 +426,11 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			return
 		}
 	}()
-	listener, err := net.Listen(network, addr)
+	listener, err := newListener(listenerConfig{
+		Network:   network,
+		Addr:      addr,
+		TLSConfig: tcpx.TLSConfig,
+	})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b3ed9898af57fca14f9ac4f14e241f7336a7ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 20/22] fix: write helpers sent the beginning again after a
 partial write

---
 utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 3a44053..0a05ee4 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
@@ -269,9 +269,8 @@ func write(conn net.Conn, buf []byte) error {
 	}
 
 	var sum int
-	var slice []byte
+	var slice = buf
 	for {
-		slice = buf
 		n, e := conn.Write(slice)
 		if e != nil {
 			return e
-- 
2.43.0


From bae5f227cd8693361fcb463ca8d550fb4a017182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 21/22] fix: In panicked on the pattern "%"

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 0a05ee4..1fa585e 100644
--- a/utils.go
+++ b/utils.go
@@ -29,7 +29,7 @@ func Debug(src interface{}) string {
 func In(s string, arr []string) bool {
 	for _, v := range arr {
 		if strings.Contains(v, "%") {
-			if strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
+			if len(v) > 1 && strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
 				if strings.Contains(s, string(v[1:len(v)-1])) {
 					return true
 				}
-- 
2.43.0


From ec13eab513916c619af958bab372748922027ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:45 +0000
Subject: [PATCH 22/22] fix: a refused rewrite of the heartbeat handler keeps
 the previous one

---
 tcpx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index dd25a17..0c26d35 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -237,6 +237,10 @@ func (tcpx *TcpX) HeartBeatModeDetail(on bool, duration time.Duration, throughMi
 //   * heartbeatInterval
 //   * throughMiddleware
 func (tcpx *TcpX) RewriteHeartBeatHandler(messageID int32, f func(c *Context)) *TcpX {
+	// refused before anything is changed
+	if _, ok := tcpx.Mux.Handlers[messageID]; ok && messageID != tcpx.HeartBeatMessageID {
+		panic(errorx.NewFromStringf("messageID '%d' already has its handler", messageID))
+	}
 	tcpx.removeHandler(tcpx.HeartBeatMessageID)
 	tcpx.HeartBeatMessageID = messageID
 	tcpx.AddHandler(messageID, f)
-- 
2.43.0

