From 2f206c3e2378fb8535cd6a28864e3b0ff40b20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:58 +0000
Subject: [PATCH 01/39] fix: give every request its own request-scoped map

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From ff69cc196657159f0ab4cbc33fd3f0cc3578f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:03 +0000
Subject: [PATCH 02/39] fix: return an error instead of panicking when
 unpacking a short or inconsistent stream

---
 packx.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..e01f84b 100644
--- a/packx.go
+++ b/packx.go
@@ -361,14 +361,23 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	}
 	var e error
 	// 包长
-	length := binary.BigEndian.Uint32(stream[0:4])
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
+	}
+	length := uint64(binary.BigEndian.Uint32(stream[0:4]))
+	if length < 12 || uint64(len(stream)) < length+4 {
+		return Message{}, errors.New(fmt.Sprintf("bad stream length %d, got a stream of %d bytes", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
 	// header长度
-	headerLength := binary.BigEndian.Uint32(stream[8:12])
+	headerLength := uint64(binary.BigEndian.Uint32(stream[8:12]))
 	// body长度
-	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	bodyLength := uint64(binary.BigEndian.Uint32(stream[12:16]))
+	if 16+headerLength+bodyLength > uint64(len(stream)) {
+		return Message{}, errors.New(fmt.Sprintf("header length %d and body length %d don't fit in a stream of %d bytes", headerLength, bodyLength, len(stream)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-- 
2.43.0


From ac4d29b9a52c3bb2148dc270a848b34aea2276c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 03/39] fix: report negative header and body lengths as errors
 in HeaderBytesOf and BodyBytesOf

---
 packx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index e01f84b..59eea12 100644
--- a/packx.go
+++ b/packx.go
@@ -219,10 +219,10 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
-	if len(stream) < 16+int(headerLen) {
+	if headerLen < 0 || len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
-	header := stream[16 : 16+headerLen]
+	header := stream[16 : 16+int(headerLen)]
 	return header, nil
 }
 
@@ -260,10 +260,10 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
-	if len(stream) < 16+int(headerLen)+int(bodyLen) {
+	if headerLen < 0 || bodyLen < 0 || len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-	body := stream[16+headerLen : 16+headerLen+bodyLen]
+	body := stream[16+int(headerLen) : 16+int(headerLen)+int(bodyLen)]
 	return body, nil
 }
 
-- 
2.43.0


From 982d25a8964246c6f54db0c0eff8151c64e5d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:14 +0000
Subject: [PATCH 04/39] fix: refuse blocks with a negative declared length
 instead of panicking

---
 packx.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packx.go b/packx.go
index 59eea12..2e1c242 100644
--- a/packx.go
+++ b/packx.go
@@ -454,6 +454,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("recv message with a bad length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -482,10 +485,13 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 		return nil, e
 	}
 
-	if length > int32(maxByTe) {
+	if int(length) > maxByTe {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
 	}
 
+	if length < 0 {
+		return nil, errorx.NewFromStringf("recv message with a bad length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
-- 
2.43.0


From 71086ffdd9ecc5eed5115e9d583240c594371724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:19 +0000
Subject: [PATCH 05/39] fix: do not drop bytes that a reader returns together
 with an error

---
 packx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index 2e1c242..24d5534 100644
--- a/packx.go
+++ b/packx.go
@@ -510,16 +510,16 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 9504d912d91ba611220a0969f3e4dbc7c1fc7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:06 +0000
Subject: [PATCH 06/39] fix: do not panic when a message without body is
 unpacked into a nil dest

---
 packx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packx.go b/packx.go
index 24d5534..d8bb678 100644
--- a/packx.go
+++ b/packx.go
@@ -395,10 +395,14 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		}
 	}
 
+	var body interface{}
+	if v := reflect.Indirect(reflect.ValueOf(dest)); v.IsValid() {
+		body = v.Interface()
+	}
 	return Message{
 		MessageID: int32(messageID),
 		Header:    header,
-		Body:      reflect.Indirect(reflect.ValueOf(dest)).Interface(),
+		Body:      body,
 	}, nil
 }
 
-- 
2.43.0


From 8a8f18318f2d9133b305509b7f4447485d4ff41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 07/39] fix: a cut short or nonsensical pipe batch no longer
 crashes the server

---
 tcpx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..5025dd8 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -582,8 +582,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
@@ -593,11 +592,14 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							Logger.Println(e)
 							break
 						}
-						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, copyContext(*ctx))
 					}
 
+					// only the messages really received
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
-- 
2.43.0


From d1dbe8998705b00e584147078aa6a3101b6df228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:17 +0000
Subject: [PATCH 08/39] fix: message ID 0 must not skip its middlewares when
 heartbeat and auth are off

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 5025dd8..790e409 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -901,12 +901,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From cf4ac0e162029ad1c487c4b238e0916e91690113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:23 +0000
Subject: [PATCH 09/39] fix: a middleware used again after UnUse applies to the
 handlers added from then on

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 790e409..8865e40 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From 197ea330eb3064ebada63f5ca3d835d83d7520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:28 +0000
Subject: [PATCH 10/39] fix: do not register the handlers of Any twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 8865e40..2f450fb 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From 82654b86a58dc3713b2e5237b83430efcf5b4b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:33 +0000
Subject: [PATCH 11/39] fix: a refused second handler leaves the first one and
 its middlewares as they were

---
 tcpx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 2f450fb..0fc605c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -330,15 +330,15 @@ func (tcpx *TcpX) AddHandler(messageID int32, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
-	}
 
 	f := handlers[len(handlers)-1]
 	if tcpx.Mux == nil {
 		tcpx.Mux = NewMux()
 	}
 	tcpx.Mux.AddHandleFunc(messageID, f)
+	if len(handlers) > 1 {
+		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
+	}
 	var messageIDAnchor = NewMessageIDAnchor(messageID, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddMessageIDAnchor(messageIDAnchor)
 }
@@ -353,9 +353,9 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	//	tcpx.Mux = NewMux()
 	//}
 	//tcpx.Mux.AddHandleFunc(messageID, f)
-	tcpx.Mux.Any(urlPattern, handlers...)
 	var messageIDAnchor = NewUrlPatternAnchor(urlPattern, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddURLAnchor(messageIDAnchor)
+	tcpx.Mux.Any(urlPattern, handlers...)
 }
 
 // Start to listen.
-- 
2.43.0


From 3fb206e04fa8596ab4c2568cc93d539f97a4ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:39 +0000
Subject: [PATCH 12/39] fix: In must not panic on the pattern '%'

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a44053..862c468 100644
--- a/utils.go
+++ b/utils.go
@@ -29,7 +29,7 @@ func Debug(src interface{}) string {
 func In(s string, arr []string) bool {
 	for _, v := range arr {
 		if strings.Contains(v, "%") {
-			if strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
+			if len(v) > 1 && strings.HasPrefix(v, "%") && strings.HasSuffix(v, "%") {
 				if strings.Contains(s, string(v[1:len(v)-1])) {
 					return true
 				}
-- 
2.43.0


From e87529f674b64ed40ee52d22a4e01691f9517da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 13/39] fix: Message.Set works on a message without header

---
 message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message.go b/message.go
index 47bcdf3..3ddda5e 100644
--- a/message.go
+++ b/message.go
@@ -50,5 +50,8 @@ func (msg Message) Get(key string) interface{} {
 // if you should never operate the header in multiple goroutines, it's better to design a context yourself per request
 // rather than straightly use message.Header.
 func (msg *Message) Set(k string, v interface{}) {
+	if msg.Header == nil {
+		msg.Header = make(map[string]interface{})
+	}
 	msg.Header[k] = v
 }
-- 
2.43.0


From b089d00b711cfea61a05c1eec38819966282dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:50 +0000
Subject: [PATCH 14/39] fix: continue a short write where it stopped instead of
 resending the buffer

---
 utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 862c468..1fa585e 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
@@ -269,9 +269,8 @@ func write(conn net.Conn, buf []byte) error {
 	}
 
 	var sum int
-	var slice []byte
+	var slice = buf
 	for {
-		slice = buf
 		n, e := conn.Write(slice)
 		if e != nil {
 			return e
-- 
2.43.0


From bebddf26b7fba7eb647d98450fab615d7f8aef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:55 +0000
Subject: [PATCH 15/39] fix: ClientIP returns the address of ipv6 clients, only
 ::1 is localhost

---
 context.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index d5e045e..57486a4 100644
--- a/context.go
+++ b/context.go
@@ -535,17 +535,16 @@ func (ctx Context) ClientIP() string {
 		//case "kcp":
 		//	clientAddr = ctx.UDPSession.RemoteAddr().String()
 	}
-	arr := strings.Split(clientAddr, ":")
-	// ipv4
-	if len(arr) == 2 {
-		return arr[0]
+	host, _, e := net.SplitHostPort(clientAddr)
+	if e != nil {
+		// no host:port form, such as a unix socket
+		return ""
 	}
 	// [::1] localhost
-	if strings.Contains(clientAddr, "[") && strings.Contains(clientAddr, "]") {
+	if host == "::1" {
 		return "127.0.0.1"
 	}
-	// ivp6
-	return strings.Join(arr[:len(arr)-1], ":")
+	return host
 }
 
 // stop middleware chain
-- 
2.43.0


From ef38897e4faf3c2f3e2c99579f3c299298c341e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:59 +0000
Subject: [PATCH 16/39] fix: the general deadline is not overridden by unset
 read and write deadlines

---
 tcpx.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 0fc605c..11043a5 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -444,8 +444,12 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -522,8 +526,12 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 		// SetDeadline
 		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		if !tcpx.readDeadLine.IsZero() {
+			conn.SetReadDeadline(tcpx.readDeadLine)
+		}
+		if !tcpx.writeDeadLine.IsZero() {
+			conn.SetWriteDeadline(tcpx.writeDeadLine)
+		}
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -645,8 +653,12 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.openState()
 
 	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From d8a0a2daa4f4437b8952bcb92dd43e3376fb7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 17/39] fix: the watcher and the handler of a connection always
 get the same heartbeat channel

---
 context.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/context.go b/context.go
index 57486a4..462ccd2 100644
--- a/context.go
+++ b/context.go
@@ -618,20 +618,17 @@ func (ctx *Context) RawStream() ([]byte, error) {
 // HeartBeatChan returns a prepared chan int to save heart-beat signal.
 // It will never be nil, if not exist the channel, it will auto-make.
 func (ctx *Context) HeartBeatChan() chan int {
-	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
+	scope := ctx.PerConnectionContext
+	if ctx.ConnectionProtocolType() == "udp" {
+		scope = ctx.PerRequestContext
+	}
+	channel, _ := scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
+	tmp, ok := channel.(chan int)
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-		return channel.(chan int)
-	} else {
-		tmp, ok := channel.(chan int)
-		if !ok {
-			channel = make(chan int, 1)
-			ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-			return channel.(chan int)
-		}
-		return tmp
+		tmp = make(chan int, 1)
+		scope.Store("tcpx-heart-beat-channel", tmp)
 	}
+	return tmp
 }
 
 // RecvHeartBeat
-- 
2.43.0


From 43daad14280f30887c43f53ee19b2945762279d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:10 +0000
Subject: [PATCH 18/39] fix: heartbeat and auth signals never block a handler
 when nobody waits for them

---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 462ccd2..097c466 100644
--- a/context.go
+++ b/context.go
@@ -633,7 +633,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a heartbeat is already pending
+	}
 }
 
 // Send to another conn index via username.
@@ -667,11 +671,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	ctx.recvAuthResult(PASS)
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	ctx.recvAuthResult(DENY)
+}
+
+// the first result counts, later ones must not block their handlers
+func (ctx *Context) recvAuthResult(v int) {
+	select {
+	case ctx.recvAuth <- v:
+	default:
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From 073460ccd12c82b4a803334c23cd8e123c39363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:02 +0000
Subject: [PATCH 19/39] fix: ending an old connection keeps the pool entry of a
 newer one of the same user

---
 client-pool.go | 10 ++++++++++
 context.go     |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..3e159e2 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,16 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Remove username only when it still belongs to ctx's connection.
+// The same user might have gone online again by another connection, which should be kept.
+func (cp *ClientPool) offlineConn(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if current := cp.Clients[username]; current != nil && current.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index 097c466..ae6dcca 100644
--- a/context.go
+++ b/context.go
@@ -168,7 +168,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineConn(username, ctx)
 	return nil
 }
 
-- 
2.43.0


From a1116fd21664d1569fc1c3e289f5826f2f859d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:07 +0000
Subject: [PATCH 20/39] fix: going online under another username does not leave
 the old pool entry behind

---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index ae6dcca..dec8109 100644
--- a/context.go
+++ b/context.go
@@ -132,6 +132,10 @@ func (ctx *Context) Online(username string) error {
 	if username == "" {
 		return errors.New("can't use empty username to online")
 	}
+	if old, ok := ctx.Username(); ok && old != username && ctx.poolRef != nil {
+		// a connection has one username, don't leave the old one in pool
+		ctx.poolRef.offlineConn(old, ctx)
+	}
 	ctx.SetUsername(username)
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
-- 
2.43.0


From ba0ad56b2b451c94e93d90647a50ae88c5b958b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:12 +0000
Subject: [PATCH 21/39] fix: a closed connection can not enter the pool any
 more

---
 context.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index dec8109..3f9c6a7 100644
--- a/context.go
+++ b/context.go
@@ -140,7 +140,15 @@ func (ctx *Context) Online(username string) error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
+	if ctx.IsOffline() {
+		return errors.New("connection is closed, can't online")
+	}
 	ctx.poolRef.Online(username, ctx)
+	if ctx.IsOffline() {
+		// closed meanwhile
+		ctx.poolRef.offlineConn(username, ctx)
+		return errors.New("connection is closed, can't online")
+	}
 	return nil
 }
 
@@ -285,13 +293,14 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
-		if ctx.poolRef != nil {
-			ctx.Offline()
-		}
 
 		ctx.L.Lock()
-		defer ctx.L.Unlock()
 		*(ctx.userState) = CONTEXT_OFFLINE
+		ctx.L.Unlock()
+
+		if ctx.poolRef != nil {
+			ctx.Offline()
+		}
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From fb9042efc18b765d7e7cbfaeda9ac4faf52b0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 22/39] fix: Stop(true) closes the pooled connections instead
 of dead-locking on the pool

---
 client-pool.go | 12 ++++++++++++
 tcpx.go        | 15 +++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 3e159e2..74ee2f3 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -58,6 +58,18 @@ func (cp *ClientPool) offlineConn(username string, ctx *Context) {
 	}
 }
 
+// Empty the pool and return the contexts it had.
+func (cp *ClientPool) clear() []*Context {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	ctxs := make([]*Context, 0, len(cp.Clients))
+	for k, v := range cp.Clients {
+		ctxs = append(ctxs, v)
+		delete(cp.Clients, k)
+	}
+	return ctxs
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/tcpx.go b/tcpx.go
index 11043a5..2934abd 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1182,18 +1182,9 @@ func (tcpx *TcpX) closeAllConnection() {
 		close(tcpx.closeAllSignal)
 	} else {
 		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
-
-			tcpx.pool = NewClientPool()
+			for _, ctx := range tcpx.pool.clear() {
+				ctx.CloseConn()
+			}
 		}
 	}
 }
-- 
2.43.0


From 216580e6e1d6a11f41bc6005ca409032b645d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 23/39] fix: Stop closes the listeners of every network, not
 only tcp and udp

---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 2934abd..946fa4a 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1160,12 +1160,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			switch l := v.Listener.(type) {
+			case net.Listener:
+				l.Close()
+			case net.PacketConn:
+				l.Close()
 			}
 		}
 	}()
-- 
2.43.0


From d1ae5f166aabdde83a0e29f3ac7658fd25f66e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:29 +0000
Subject: [PATCH 24/39] fix: Start reopens every listener, not the last one
 several times

---
 tcpx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcpx.go b/tcpx.go
index 946fa4a..acc8f65 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1196,6 +1196,7 @@ func (tcpx *TcpX) Start() error {
 	}
 
 	for _, v := range tcpx.properties {
+		v := v
 		go func() {
 			defer func() {
 				if e := recover(); e != nil {
-- 
2.43.0


From 04736244ea9cd29337776c9d3137e080ed60e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 25/39] fix: a restarted raw or udp server is served as before
 the restart

---
 tcpx.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index acc8f65..6a5fcd1 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -102,6 +102,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// opens and serves the same listener again
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -390,7 +393,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -403,6 +406,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -410,6 +414,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -427,7 +432,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -509,7 +514,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeTCP(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -648,7 +653,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
 
@@ -1204,7 +1209,7 @@ func (tcpx *TcpX) Start() error {
 				}
 			}()
 			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			e := v.serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-- 
2.43.0


From 88e5c17bd6a65a4e27297a27716ea32046f2f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 26/39] fix: a server stopped with all its connections can be
 started and stopped again

---
 tcpx.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 6a5fcd1..214d80f 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -634,6 +634,11 @@ func (tcpx *TcpX) stopState() {
 	defer tcpx.pLock.Unlock()
 	tcpx.state = STATE_STOP
 }
+func (tcpx *TcpX) closeAllChan() <-chan int {
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
+	return tcpx.closeAllSignal
+}
 func (tcpx *TcpX) State() int {
 	tcpx.pLock.RLock()
 	defer tcpx.pLock.RUnlock()
@@ -1042,6 +1047,7 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 // - time out receiving interval heartbeat pack.
 func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 	if tcpx.HeartBeatOn == true {
+		closeAll := tcpx.closeAllChan()
 		go func() {
 			defer func() {
 				// fmt.Println("心跳结束)
@@ -1074,7 +1080,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-closeAll:
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1090,9 +1096,10 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
 func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
 	if tcpx.withSignals == true {
+		closeAll := tcpx.closeAllChan()
 		for {
 			select {
-			case <-tcpx.closeAllSignal:
+			case <-closeAll:
 				ctx.CloseConn()
 				return
 			case <-ctx.recvEnd:
@@ -1106,6 +1113,7 @@ func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
 // It will start a handler to wait for an auth signal.
 func authWatch(ctx *Context, tcpx *TcpX) {
 	if tcpx.auth {
+		closeAll := tcpx.closeAllChan()
 		select {
 		case <-time.After(tcpx.authDeadline):
 			Logger.Println("connection auth time out, closed")
@@ -1121,7 +1129,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-closeAll:
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1184,7 +1192,11 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 
 func (tcpx *TcpX) closeAllConnection() {
 	if tcpx.withSignals == true {
+		// each running period has its own signal
+		tcpx.pLock.Lock()
+		defer tcpx.pLock.Unlock()
 		close(tcpx.closeAllSignal)
+		tcpx.closeAllSignal = make(chan int, 1)
 	} else {
 		if tcpx.pool != nil {
 			for _, ctx := range tcpx.pool.clear() {
-- 
2.43.0


From 2d5043ba86d93d4ea63e5302ddfff26a9cc03c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 27/39] fix: Stop(false) keeps the connections that are watched
 for heartbeats

---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 214d80f..6f5de85 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1059,10 +1059,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
-- 
2.43.0


From 171ecbb9bb0bf9799d13a38615a0fb767c0c156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:51 +0000
Subject: [PATCH 28/39] fix: a udp datagram without heartbeats must not close
 the shared socket

---
 tcpx.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 6f5de85..c476c74 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -704,7 +704,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 			go broadcastSignalWatch(ctx, tcpx)
 
-			go heartBeatWatch(ctx, tcpx)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From ed4012539ca9ca62ff70575e9c27a397f5ae4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:56 +0000
Subject: [PATCH 29/39] fix: the udp read loop ends with its socket, also when
 the server is restarted at once

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index c476c74..5e2b1b5 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -689,7 +689,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 			// global
 			if e != nil {
-				if e == io.EOF {
+				if e == io.EOF || errors.Is(e, net.ErrClosed) {
 					break
 				}
 				Logger.Println(e.Error())
-- 
2.43.0


From 717bb1d70f2b5c5cd33d4743c7f529f9090d0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:01 +0000
Subject: [PATCH 30/39] fix: reading a message does not race with the heartbeat
 watcher copying the context

---
 tcpx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 5e2b1b5..6757f27 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -571,9 +571,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
 			}
-			var e error
 			for {
-				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+				// ctx is shared with the goroutines watching the connection, only copies get a stream
+				stream, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 				if e != nil {
 					if e == io.EOF {
 						break
@@ -582,6 +582,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					break
 				}
 				tmpContext := copyContext(*ctx)
+				tmpContext.Stream = stream
 
 				isPipe, restN, e := isPipe(tmpContext.Stream)
 				if e != nil {
@@ -594,7 +595,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					// fmt.Println("recv pipe", isPipe, restN)
 					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
-						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+						stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
 							if e == io.EOF {
 								break
@@ -602,7 +603,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							Logger.Println(e)
 							break
 						}
-						ctxs = append(ctxs, copyContext(*ctx))
+						tmpContext := copyContext(*ctx)
+						tmpContext.Stream = stream
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					// only the messages really received
-- 
2.43.0


From 26d9fade138d32cb9f7ac35a71978824b802d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:06 +0000
Subject: [PATCH 31/39] fix: of two concurrent calls of Stop only one stops the
 server

---
 tcpx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 6757f27..7b8bc8b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -632,10 +632,15 @@ func (tcpx *TcpX) openState() {
 
 // set srv state stopped
 // tcp, udp, kcp will stop for circle and close listener/conn
-func (tcpx *TcpX) stopState() {
+// returns false if it has already been stopped
+func (tcpx *TcpX) stopState() bool {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
+	if tcpx.state == STATE_STOP {
+		return false
+	}
 	tcpx.state = STATE_STOP
+	return true
 }
 func (tcpx *TcpX) closeAllChan() <-chan int {
 	tcpx.pLock.RLock()
@@ -1161,12 +1166,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 // listener, but also kill all connections(stops their net.Conn, stop all sub-routine, clear the pool)
 func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	fmt.Println("graceful stop")
-	if tcpx.State() == STATE_STOP {
+	if !tcpx.stopState() {
 		return errors.New("already stopped")
 	}
 
-	tcpx.stopState()
-
 	// close all listener
 	func() {
 		tcpx.pLock.Lock()
-- 
2.43.0


From 1c1912cd84adb2cc6dcc4f6c45b3776016c314b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:44 +0000
Subject: [PATCH 32/39] fix: a termination signal arriving before BeforeExit
 receives it is not lost

---
 tcpx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 7b8bc8b..49e402a 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1150,7 +1150,8 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
+		// signals are not waited for by the sender, keep the one arriving before it's received
+		ch := make(chan os.Signal, 1)
 		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
-- 
2.43.0


From b7ec2c6e2a6a980d5f26051927b1c0af8d3eb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:19 +0000
Subject: [PATCH 33/39] fix: concurrent onlines and offlines of one connection
 leave the pool consistent

---
 client-pool.go | 33 ++++++++++++++++++++++++++++++---
 context.go     | 24 +++---------------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 74ee2f3..476f5fc 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -1,6 +1,7 @@
 package tcpx
 
 import (
+	"errors"
 	"sync"
 )
 
@@ -48,11 +49,37 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
-// Remove username only when it still belongs to ctx's connection.
-// The same user might have gone online again by another connection, which should be kept.
-func (cp *ClientPool) offlineConn(username string, ctx *Context) {
+// Put ctx's connection online as username, in one step with respect to its other onlines, offlines and its close.
+func (cp *ClientPool) onlineConn(username string, ctx *Context) error {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if old, ok := ctx.Username(); ok && old != username {
+		// a connection has one username, don't leave the old one in pool
+		cp.deleteOwn(old, ctx)
+	}
+	ctx.SetUsername(username)
+	if ctx.IsOffline() {
+		return errors.New("connection is closed, can't online")
+	}
+	cp.Clients[username] = ctx
+	return nil
+}
+
+// Take ctx's connection offline.
+func (cp *ClientPool) offlineConn(ctx *Context) error {
 	cp.m.Lock()
 	defer cp.m.Unlock()
+	username, ok := ctx.Username()
+	if !ok {
+		return errors.New("offline username  empty, did you call c.Online(username string) yet")
+	}
+	cp.deleteOwn(username, ctx)
+	return nil
+}
+
+// Remove username only when it still belongs to ctx's connection. Caller should lock it.
+// The same user might have gone online again by another connection, which should be kept.
+func (cp *ClientPool) deleteOwn(username string, ctx *Context) {
 	if current := cp.Clients[username]; current != nil && current.userState == ctx.userState {
 		delete(cp.Clients, username)
 	}
diff --git a/context.go b/context.go
index 3f9c6a7..457544e 100644
--- a/context.go
+++ b/context.go
@@ -132,24 +132,11 @@ func (ctx *Context) Online(username string) error {
 	if username == "" {
 		return errors.New("can't use empty username to online")
 	}
-	if old, ok := ctx.Username(); ok && old != username && ctx.poolRef != nil {
-		// a connection has one username, don't leave the old one in pool
-		ctx.poolRef.offlineConn(old, ctx)
-	}
-	ctx.SetUsername(username)
 	if ctx.poolRef == nil {
+		ctx.SetUsername(username)
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	if ctx.IsOffline() {
-		return errors.New("connection is closed, can't online")
-	}
-	ctx.poolRef.Online(username, ctx)
-	if ctx.IsOffline() {
-		// closed meanwhile
-		ctx.poolRef.offlineConn(username, ctx)
-		return errors.New("connection is closed, can't online")
-	}
-	return nil
+	return ctx.poolRef.onlineConn(username, ctx)
 }
 
 // Only used when tcpX instance's builtInPool is true,
@@ -176,12 +163,7 @@ func (ctx *Context) Offline() error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	username, ok := ctx.Username()
-	if !ok {
-		return errors.New("offline username  empty, did you call c.Online(username string) yet")
-	}
-	ctx.poolRef.offlineConn(username, ctx)
-	return nil
+	return ctx.poolRef.offlineConn(ctx)
 }
 
 // New a context.
-- 
2.43.0


From 19609e1c37548f2903fb9ff11007ca2fa65af2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:48 +0000
Subject: [PATCH 34/39] fix: a body TOML or YAML can't encode is an error, not
 a panic

---
 marshaller.go | 8 +++++++-
 utils.go      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index cc34fef..2976b42 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -61,7 +61,13 @@ func (xm XmlMarshaller) MarshalName() string {
 
 type YamlMarshaller struct{}
 
-func (ym YamlMarshaller) Marshal(v interface{}) ([]byte, error) {
+func (ym YamlMarshaller) Marshal(v interface{}) (buf []byte, e error) {
+	// yaml panics on values it can't encode
+	defer func() {
+		if r := recover(); r != nil {
+			buf, e = nil, errorx.NewFromStringf("yaml: %v", r)
+		}
+	}()
 	return yaml.Marshal(v)
 }
 func (ym YamlMarshaller) Unmarshal(data []byte, dest interface{}) error {
diff --git a/utils.go b/utils.go
index 1fa585e..4227cd8 100644
--- a/utils.go
+++ b/utils.go
@@ -249,7 +249,13 @@ func Recv(conn net.Conn) (PackType, error) {
 	return FirstBlockOf(conn)
 }
 
-func MarshalTOML(src interface{}) ([]byte, error) {
+func MarshalTOML(src interface{}) (res []byte, err error) {
+	// toml panics on values it can't encode
+	defer func() {
+		if r := recover(); r != nil {
+			res, err = nil, errorx.NewFromStringf("toml: %v", r)
+		}
+	}()
 	var buf bytes.Buffer
 	enc := toml.NewEncoder(&buf)
 	if e := enc.Encode(src); e != nil {
-- 
2.43.0


From 8c784a35d2a1e28ebfce6e7af7162bbb63ca02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:02 +0000
Subject: [PATCH 35/39] fix: what is cached in request scope doesn't mix with
 user values

---
 context.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 457544e..3085b3f 100644
--- a/context.go
+++ b/context.go
@@ -74,6 +74,14 @@ type Context struct {
 	handlers []func(*Context)
 }
 
+// keys of what is cached in request scope, of a type no user key has
+type requestKey string
+
+const (
+	keyRouterType requestKey = "router_type"
+	keyURLPattern requestKey = "url_pattern"
+)
+
 // share some pointer properties With former context, but has independent Stream and handlers
 // Not locked. Caller should lock it.
 func copyContext(ctx Context) *Context {
@@ -692,7 +700,7 @@ func (ctx Context) RouterType() string {
 
 // return routertype, cached in ctx
 func (ctx *Context) routerType() (string, bool) {
-	rt, exist := ctx.GetCtxPerRequest("router_type")
+	rt, exist := ctx.GetCtxPerRequest(keyRouterType)
 
 	if exist {
 		rtstr, transfer := rt.(string)
@@ -766,11 +774,11 @@ func (ctx *Context) ProtobufURLPattern(src interface{}) error {
 }
 
 func (ctx *Context) setRouterType(routerType string) {
-	ctx.PerRequestContext.Store("router_type", routerType)
+	ctx.PerRequestContext.Store(keyRouterType, routerType)
 }
 
 func (ctx *Context) GetURLPattern() (string, error) {
-	urlPattern, exist := ctx.PerRequestContext.Load("url_pattern")
+	urlPattern, exist := ctx.PerRequestContext.Load(keyURLPattern)
 	if exist {
 		urlPatternStr, transfer := urlPattern.(string)
 		if transfer {
@@ -782,6 +790,6 @@ func (ctx *Context) GetURLPattern() (string, error) {
 		return "", errorx.Wrap(e)
 	}
 
-	ctx.PerRequestContext.Store("url_pattern", urlPatternStr)
+	ctx.PerRequestContext.Store(keyURLPattern, urlPatternStr)
 	return urlPatternStr, nil
 }
-- 
2.43.0


From dff5b61f35f8dadba826e255da61893c020270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:02 +0000
Subject: [PATCH 36/39] fix: a panicking heartbeat-loss handler doesn't keep
 the connection open

---
 tcpx.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 49e402a..1afc283 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1076,7 +1076,12 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						// heartbeat loss handler
 
 						if tcpx.OnHeartbeatLoss != nil {
-							tcpx.OnHeartbeatLoss(copyContext(*ctx))
+							// the connection is closed whatever happens to the handler
+							Defer(func() {
+								tcpx.OnHeartbeatLoss(copyContext(*ctx))
+							}, func(v interface{}) {
+								Logger.Println(fmt.Sprintf("recover from panic %v", v))
+							})
 						}
 
 						_ = ctx.CloseConn()
-- 
2.43.0


From 689b94b3330f63f0df5b4b19d7c0afb331a59406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:06 +0000
Subject: [PATCH 37/39] fix: a connection tagged with another username after
 going online leaves the pool when it ends

---
 client-pool.go | 23 ++++++++++++++++-------
 context.go     |  9 +++++++++
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 476f5fc..3b68548 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -53,14 +53,13 @@ func (cp *ClientPool) Offline(username string) {
 func (cp *ClientPool) onlineConn(username string, ctx *Context) error {
 	cp.m.Lock()
 	defer cp.m.Unlock()
-	if old, ok := ctx.Username(); ok && old != username {
-		// a connection has one username, don't leave the old one in pool
-		cp.deleteOwn(old, ctx)
-	}
+	// a connection has one username, don't leave the old one in pool
+	cp.deleteNames(ctx)
 	ctx.SetUsername(username)
 	if ctx.IsOffline() {
 		return errors.New("connection is closed, can't online")
 	}
+	ctx.setCtxPerConn("tcpx-pooled-username", username)
 	cp.Clients[username] = ctx
 	return nil
 }
@@ -69,14 +68,24 @@ func (cp *ClientPool) onlineConn(username string, ctx *Context) error {
 func (cp *ClientPool) offlineConn(ctx *Context) error {
 	cp.m.Lock()
 	defer cp.m.Unlock()
-	username, ok := ctx.Username()
-	if !ok {
+	if _, ok := ctx.Username(); !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	cp.deleteOwn(username, ctx)
+	cp.deleteNames(ctx)
 	return nil
 }
 
+// Remove ctx's connection by its username and by the one it went online under, they differ after ctx.SetUsername().
+// Caller should lock it.
+func (cp *ClientPool) deleteNames(ctx *Context) {
+	if username, ok := ctx.Username(); ok {
+		cp.deleteOwn(username, ctx)
+	}
+	if username, ok := ctx.pooledUsername(); ok {
+		cp.deleteOwn(username, ctx)
+	}
+}
+
 // Remove username only when it still belongs to ctx's connection. Caller should lock it.
 // The same user might have gone online again by another connection, which should be kept.
 func (cp *ClientPool) deleteOwn(username string, ctx *Context) {
diff --git a/context.go b/context.go
index 3085b3f..7e660c5 100644
--- a/context.go
+++ b/context.go
@@ -394,6 +394,15 @@ func (ctx *Context) SetUsername(username string) {
 	ctx.setCtxPerConn("tcpx-username", username)
 }
 
+// the username this connection last went online under, ctx.SetUsername() doesn't change it
+func (ctx *Context) pooledUsername() (string, bool) {
+	usernameI, ok := ctx.GetCtxPerConn("tcpx-pooled-username")
+	if !ok {
+		return "", ok
+	}
+	return usernameI.(string), ok
+}
+
 // this has no restriction for key, should be used in local package
 func (ctx *Context) setCtxPerConn(k, v interface{}) {
 	if ctx.ConnectionProtocolType() == "udp" {
-- 
2.43.0


From 09db9ab9bacef2b8d7c124cf1243dd1b23e0dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:16 +0000
Subject: [PATCH 38/39] fix: malformed TOML that the toml library panics on is
 an error, it can't crash a server

---
 utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 4227cd8..968bc71 100644
--- a/utils.go
+++ b/utils.go
@@ -264,7 +264,13 @@ func MarshalTOML(src interface{}) (res []byte, err error) {
 	return buf.Bytes(), nil
 }
 
-func UnmarshalTOML(buf []byte, dest interface{}) error {
+func UnmarshalTOML(buf []byte, dest interface{}) (err error) {
+	// toml panics on some malformed documents
+	defer func() {
+		if r := recover(); r != nil {
+			err = errorx.NewFromStringf("toml: %v", r)
+		}
+	}()
 	return toml.Unmarshal(buf, dest)
 }
 
-- 
2.43.0


From 0084475f30224bfd5646ab80d11e29cfe9bbc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:21 +0000
Subject: [PATCH 39/39] fix: starting the server reads its listeners under the
 lock that serving writes them with

---
 tcpx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index 1afc283..91a7611 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1219,7 +1219,15 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
+	// serving replaces them
+	tcpx.pLock.RLock()
+	properties := make([]PropertyCache, 0, len(tcpx.properties))
 	for _, v := range tcpx.properties {
+		properties = append(properties, *v)
+	}
+	tcpx.pLock.RUnlock()
+
+	for _, v := range properties {
 		v := v
 		go func() {
 			defer func() {
-- 
2.43.0

