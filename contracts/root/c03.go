package arpc

import "net"

// C03, C04, C06, C07: what happens to a received message.
//
// The contracts of this file are about OnMessage. The maps of pending calls are shared with other
// goroutines and may change whenever the lock of the client is not held.
//
//@ guarded arpc.Client.mux sessionMap asyncHandlerMap streamLocalMap streamRemoteMap running

// ghost: what the message reached
var gNextN int
var gChain []HandlerFunc
var gChainMsg *Message
var gChainCli *Client
var gCtxDone int
var gCtxDoneMsg *Message
var gSess int
var gAsync int
var gMiss int
var gMissMsg *Message
var gStreamMsg int
var gStreamTo *Stream
var gStreamEnd int
var gStreamEndOf *Stream
var gSH int
var gSHStream *Stream
var gMsgDone int
var gWrites int
var gStops int
var gMade *Stream

// ghost: the message as the coders left it, and how many coders are still to come
var gMsg *Message
var gCoders int

// ghost: what the last lookup under the lock found, and whether it was taken out under that lock
var gGotSess *rpcSession
var gGotSessOK bool
var gGotSessSeq uint64
var gTookSess bool
var gGotAh *asyncHandler
var gGotAhOK bool
var gGotAhSeq uint64
var gTookAh bool
var gSessLook int
var gAhLook int

func spDispatchReset(h *handler, msg *Message) {
	gNextN = 0
	gCtxDone = 0
	gSess = 0
	gAsync = 0
	gMiss = 0
	gStreamMsg = 0
	gStreamEnd = 0
	gSH = 0
	gMsgDone = 0
	gWrites = 0
	gStops = 0
	gTookSess = false
	gTookAh = false
	gGotSessOK = false
	gGotAhOK = false
	gSessLook = 0
	gAhLook = 0
	gMsg = msg
	gCoders = len(h.msgCoders)
	gLookLocal = false
	gLookRemote = false
	gMade = nil
}

//@ op load arpc.handler.msgCoders[]
//@ theory dispatch
func hkCoderLoad(h *handler, m MessageCoder, i int) {
	vcAssume(m != nil)
	vcAssert("C07.incoming messages pass the coders in reverse order, each once", i == gCoders-1)
}

// A coder returns a message with a complete header (for the coders of this repository: C17).
//
//@ extern (arpc.MessageCoder).Decode
//@ theory dispatch
func exDecode(m MessageCoder, c *Client, msg *Message, out *Message) *Message {
	vcAssert("C07.each coder gets what the one before it returned", msg == gMsg)
	vcAssume(out != nil)
	vcAssume(len(out.Buffer) >= 16)
	gCoders--
	gMsg = out
	return out
}

//@ extern (*arpc.Context).Next
//@ theory dispatch
func exNextDispatch(ctx *Context) {
	gNextN++
	gChain = ctx.handlers
	gChainMsg = ctx.Message
	gChainCli = ctx.Client
	vcAssert("C03.a chain starts at its first handler", ctx.index == 0)
	vcAssert("C03.a chain runs before its context is done", gCtxDone == 0)
}

//@ op call arpc.handler.onContextDone
//@ theory dispatch
func hkCtxDone(h *handler, f func(*Context), ctx *Context) {
	gCtxDone++
	gCtxDoneMsg = ctx.Message
}

//@ op call arpc.handler.onSessionMiss
//@ theory dispatch
func hkMiss(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	gMiss++
	gMissMsg = m
}

//@ op call arpc.handler.onMessageDone
//@ theory dispatch
func hkDoneDispatch(h *handler, f func(*Client, *Message), c *Client, m *Message) { gMsgDone++ }

// An executor runs the function it is given.
//
//@ op call arpc.handler.executor
//@ theory dispatch
func hkExecutor(h *handler, e func(func()), f func()) { f() }

//@ op lock arpc.Client.mux
//@ theory dispatch
func hkLockDispatch(c *Client) {
	gGotSessOK = false
	gTookSess = false
	gGotAhOK = false
	gTookAh = false
}

//@ op mapget arpc.Client.sessionMap
//@ theory dispatch
func hkSessGet(c *Client, seq uint64, s *rpcSession, ok bool) {
	vcAssume(ok == (s != nil))
	gSessLook++
	gGotSess = s
	gGotSessOK = ok
	gGotSessSeq = seq
}

//@ op mapdelete arpc.Client.sessionMap
//@ theory dispatch
func hkSessDel(c *Client, seq uint64) {
	gTookSess = vcAnd(vcHeld(&c.mux), seq == gGotSessSeq)
	vcAssert("C04.only the call of the response's own number is taken out", seq == spSeq(gMsg))
}

//@ op mapget arpc.Client.asyncHandlerMap
//@ theory dispatch
func hkAhGet(c *Client, seq uint64, ah *asyncHandler, ok bool) {
	vcAssume(ok == (ah != nil))
	vcAssume(vcImp(ok, ah.handler != nil))
	gAhLook++
	gGotAh = ah
	gGotAhOK = ok
	gGotAhSeq = seq
}

//@ op mapdelete arpc.Client.asyncHandlerMap
//@ theory dispatch
func hkAhDel(c *Client, seq uint64) {
	gTookAh = vcAnd(vcHeld(&c.mux), seq == gGotAhSeq)
	vcAssert("C04.only the async call of the response's own number is taken out", seq == spSeq(gMsg))
}

// spSeq: the sequence number in the header.
func spSeq(m *Message) uint64 { return m.Seq() }

// spSyncRsp: m is a response to a synchronous call.
func spSyncRsp(m *Message) bool { return vcAnd(m.Cmd() == CmdResponse, !m.IsAsync()) }

// spAsyncRsp: m is a response to an asynchronous call.
func spAsyncRsp(m *Message) bool { return vcAnd(m.Cmd() == CmdResponse, m.IsAsync()) }

//@ op send arpc.rpcSession.done
//@ theory dispatch
func hkSessDone(s *rpcSession, m *Message) {
	gSess++
	vcAssert("C04.a synchronous response completes the call registered under its number", vcAnd(s == gGotSess, vcAnd(gGotSessOK, gGotSessSeq == spSeq(gMsg))))
	vcAssert("C04.a call is taken out in one step with its lookup, so only one response completes it", gTookSess)
	vcAssert("C04.a call is completed with the response itself", m == gMsg)
	vcAssert("C04.a synchronous call is completed only by a synchronous response", spSyncRsp(gMsg))
}

//@ op call arpc.asyncHandler.handler
//@ theory dispatch
func hkAhCall(ah *asyncHandler, f AsyncHandlerFunc, ctx *Context, err error) {
	gAsync++
	vcAssert("C04.an asynchronous response completes the call registered under its number", vcAnd(ah == gGotAh, vcAnd(gGotAhOK, gGotAhSeq == spSeq(gMsg))))
	vcAssert("C06.a callback is claimed in one step with its lookup, so only one event invokes it", gTookAh)
	vcAssert("C04.an asynchronous call is completed only by an asynchronous response", spAsyncRsp(gMsg))
	vcAssert("C06.a callback is given the response", vcAnd(ctx != nil, vcAnd(ctx.Message == gMsg, ctx.Client != nil)))
	vcAssert("C06.a callback is given an error exactly when the response carries one", (err != nil) == gMsg.IsError())
	vcAssert("C06.a callback's registration is intact while it runs", vcId(ah.handler) == vcId(f))
}

//@ extern (*arpc.Stream).onMessage
//@ theory dispatch
func exStreamMsg(s *Stream, m *Message) {
	vcAssert("C11.frames reach the stream before its end does", vcOr(gStreamEnd == 0, s != gStreamEndOf))
	vcAssert("C03.a stream gets the frame itself", m == gMsg)
	gStreamMsg++
	gStreamTo = s
}

//@ extern (*arpc.Stream).CloseRecv
//@ theory dispatch
func exStreamEnd(s *Stream) {
	gStreamEnd++
	gStreamEndOf = s
}

// ghost: what the lookup of the stream found
var gLookLocal bool
var gLookRemote bool
var gGotStream *Stream
var gGotStreamOK bool
var gGotStreamId uint64

//@ op mapget arpc.Client.streamLocalMap
//@ theory dispatch
func hkStreamLocal(c *Client, id uint64, s *Stream, ok bool) {
	vcAssume(ok == (s != nil))
	gLookLocal = true
	gGotStream = s
	gGotStreamOK = ok
	gGotStreamId = id
}

//@ op mapget arpc.Client.streamRemoteMap
//@ theory dispatch
func hkStreamRemote(c *Client, id uint64, s *Stream, ok bool) {
	vcAssume(ok == (s != nil))
	gLookRemote = true
	gGotStream = s
	gGotStreamOK = ok
	gGotStreamId = id
}

//@ extern (*arpc.Client).newStream
//@ theory dispatch
func exNewStream(c *Client, method string, id uint64, local bool, s *Stream) *Stream {
	vcAssume(s != nil)
	vcAssert("C03.a new stream is a remote one with the frame's id", vcAnd(!local, id == spSeq(gMsg)))
	vcAssert("C03.a new stream has the frame's method", method == gMsg.method())
	vcAssume(s != gStreamTo)
	gMade = s
	return s
}

//@ op mapget arpc.handler.streams
//@ theory dispatch
func hkSHGet(h *handler, method string, sh *streamHandler, ok bool) {
	// registered stream handlers are functions
	vcAssume(vcImp(ok, vcAnd(sh != nil, sh.handler != nil)))
}

//@ op mapget arpc.handler.routes
//@ theory dispatch
func hkRHGet(h *handler, method string, rh *routerHandler, ok bool) {
	vcAssume(ok == (rh != nil))
}

//@ op call arpc.streamHandler.handler
//@ theory dispatch
func hkSH(sh *streamHandler, f StreamHandlerFunc, s *Stream) {
	gSH++
	gSHStream = s
	vcAssert("C03.a stream handler is given the new stream, with its first frame", vcAnd(s == gMade, vcAnd(gStreamMsg == 1, gStreamTo == s)))
}

//@ extern (net.Conn).Write
//@ theory dispatch
func exConnWrite(c net.Conn, b []byte, n int, err error) (int, error) {
	gWrites++
	return n, err
}

//@ extern (net.Conn).Close
//@ theory dispatch
func exConnClose(c net.Conn, err error) error {
	gStops++
	return err
}

// spValid: the method of the message lies within it.
func spValid(m *Message) bool {
	ml := int(m.Buffer[HeaderIndexMethodLen])
	return vcAnd(0 < ml, vcAnd(ml <= 127, 16+ml <= len(m.Buffer)))
}

func spPongOK() bool { return vcAnd(PongMessage != nil, PingMessage != nil) }

func spCliOK(c *Client) bool {
	return vcAnd(c.Conn != nil, vcAnd(spHandlerOK(c.Handler), c.Codec != nil))
}

func spReached() int { return gNextN + gSess + gAsync + gStreamMsg + gSH }

func spDispatchPre(h *handler, c *Client, msg *Message) bool {
	return vcAnd(c != nil, vcAnd(spCliOK(c), vcAnd(msg != nil, vcAnd(len(msg.Buffer) >= 16, vcAnd(spPongOK(), len(h.msgCoders) <= 1<<20)))))
}

//@ contract (*handler).OnMessage
//@ property C03 C04 C06 C07
//@ theory dispatch
//@ panicfree
func ctOnMessage(h *handler, c *Client, msg *Message, m0 string) {
	vcRequires(spDispatchPre(h, c, msg))
	vcRequires(m0 == "")
	cmd0 := msg.Cmd()
	beat := vcOr(cmd0 == CmdPing, cmd0 == CmdPong)
	spDispatchReset(h, msg)
	vcHint("coders so far", func() bool { return vcAnd(gMsg != nil, len(gMsg.Buffer) >= 16) })
	h.OnMessage(c, msg)
	valid := spValid(gMsg)
	cmd := gMsg.Cmd()
	vcEnsures("C07.every coder sees a message that is not a heartbeat", vcImp(!beat, gCoders == 0))
	vcEnsures("C07.no coder sees a heartbeat", vcImp(beat, gCoders == len(h.msgCoders)))
	vcEnsures("C03.a heartbeat reaches no handler", vcImp(beat, spReached() == 0))
	vcEnsures("C03.a message whose method is not within it reaches nothing", vcImp(vcAnd(!beat, !valid), spReached()+gMiss == 0))
	known := vcOr(vcOr(cmd == CmdRequest, cmd == CmdNotify), vcOr(cmd == CmdResponse, cmd == CmdStream))
	vcEnsures("C03.a message of an unknown command reaches nothing", vcImp(vcAnd(!beat, !known), spReached()+gMiss == 0))
	vcEnsures("C03.a connection survives every known command", vcImp(vcOr(beat, vcOr(known, !valid)), gStops == 0))
}

func spRouted(m *Message) bool { return vcOr(m.Cmd() == CmdRequest, m.Cmd() == CmdNotify) }

//@ contract (*handler).OnMessage
//@ property C03
//@ theory dispatch
//@ panicfree
func ctOnRequest(h *handler, c *Client, msg *Message) {
	vcRequires(spDispatchPre(h, c, msg))
	vcRequires(len(h.msgCoders) == 0)
	vcRequires(vcAnd(spValid(msg), spRouted(msg)))
	rh, ok := h.routes[msg.method()]
	rh0, ok0 := h.routes[""]
	vcRequires(vcAnd(vcImp(ok, rh != nil), vcImp(ok0, rh0 != nil)))
	spDispatchReset(h, msg)
	h.OnMessage(c, msg)
	vcEnsures("C03.a request runs the chain of its method, once", vcImp(ok, vcAnd(gNextN == 1, vcAnd(vcId(gChain) == vcId(rh.handlers), len(gChain) == len(rh.handlers)))))
	vcEnsures("C03.a request without a route runs the not-found chain, once", vcImp(vcAnd(!ok, ok0), vcAnd(gNextN == 1, vcAnd(vcId(gChain) == vcId(rh0.handlers), len(gChain) == len(rh0.handlers)))))
	vcEnsures("C03.a request without a route and without a not-found handler runs nothing", vcImp(vcAnd(!ok, !ok0), gNextN == 0))
	vcEnsures("C03.a chain gets the message and the client it came from", vcImp(gNextN != 0, vcAnd(gChainMsg == msg, gChainCli == c)))
	vcEnsures("C03.a chain's context is handed back once", vcImp(h.onContextDone != nil, gCtxDone == gNextN))
	vcEnsures("C03.a request reaches nothing else", gSess+gAsync+gMiss+gStreamMsg+gSH == 0)
}

//@ contract (*handler).OnMessage
//@ property C04 C06 C03
//@ theory dispatch
//@ panicfree
func ctOnResponse(h *handler, c *Client, msg *Message) {
	vcRequires(spDispatchPre(h, c, msg))
	vcRequires(len(h.msgCoders) == 0)
	vcRequires(vcAnd(spValid(msg), msg.Cmd() == CmdResponse))
	sync := !msg.IsAsync()
	spDispatchReset(h, msg)
	h.OnMessage(c, msg)
	vcEnsures("C04.a synchronous response completes the call found under its number, once", vcImp(sync, vcAnd(gSessLook > 0, vcAnd(gAsync == 0, vcImp(gGotSessOK, vcAnd(gSess == 1, gMiss == 0))))))
	vcEnsures("C04.a synchronous response without a call is reported as a miss and completes nothing", vcImp(vcAnd(sync, !gGotSessOK), vcAnd(gSess == 0, vcImp(h.onSessionMiss != nil, vcAnd(gMiss == 1, gMissMsg == msg)))))
	vcEnsures("C04.an asynchronous response completes the call found under its number, once", vcImp(!sync, vcAnd(gAhLook > 0, vcAnd(gSess == 0, vcImp(gGotAhOK, vcAnd(gAsync == 1, gMiss == 0))))))
	vcEnsures("C04.an asynchronous response without a call is reported as a miss and completes nothing", vcImp(vcAnd(!sync, !gGotAhOK), vcAnd(gAsync == 0, vcImp(h.onSessionMiss != nil, vcAnd(gMiss == 1, gMissMsg == msg)))))
	vcEnsures("C03.a response runs no handler chain and no stream", gNextN+gStreamMsg+gSH == 0)
}

//@ contract (*handler).OnMessage
//@ property C03 C11
//@ theory dispatch
//@ panicfree
func ctOnStream(h *handler, c *Client, msg *Message) {
	vcRequires(spDispatchPre(h, c, msg))
	vcRequires(len(h.msgCoders) == 0)
	vcRequires(vcAnd(spValid(msg), msg.Cmd() == CmdStream))
	sh, ok := h.streams[msg.method()]
	vcRequires(vcImp(ok, vcAnd(sh != nil, sh.handler != nil)))
	mine := !msg.IsStreamLocal()
	eof := msg.IsStreamEOF()
	spDispatchReset(h, msg)
	h.OnMessage(c, msg)
	found := vcAnd(gGotStreamOK, vcOr(gLookLocal, gLookRemote))
	vcEnsures("C03.a frame of a stream this side opened is looked up among those", vcImp(gLookLocal, mine))
	vcEnsures("C03.a frame of a stream the other side opened is looked up among those", vcImp(gLookRemote, !mine))
	vcEnsures("C03.a stream is looked up under the frame's number", vcImp(vcOr(gLookLocal, gLookRemote), gGotStreamId == msg.Seq()))
	vcEnsures("C03.a frame reaches the stream it belongs to, once", vcImp(found, vcAnd(gStreamMsg == 1, vcAnd(gStreamTo == gGotStream, gSH == 0))))
	vcEnsures("C03.the first frame of a stream of the other side runs its handler, once", vcImp(vcAnd(!found, vcAnd(ok, !mine)), vcAnd(gSH == 1, gStreamMsg == 1)))
	vcEnsures("C03.a frame of no stream and without a handler reaches nothing", vcImp(vcAnd(!found, vcOr(!ok, mine)), vcAnd(gSH == 0, gStreamMsg == 0)))
	vcEnsures("C11.the end of a stream closes its receiving side, once", vcImp(gStreamMsg == 1, vcAnd((gStreamEnd == 1) == eof, vcImp(eof, gStreamEndOf == gStreamTo))))
	vcEnsures("C11.only an end of stream ends a stream", vcImp(!eof, gStreamEnd == 0))
	vcEnsures("C03.a stream frame runs no chain and completes no call", gNextN+gSess+gAsync+gMiss == 0)
}
