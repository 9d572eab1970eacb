package arpc

import "net"

// C08: dispatching gives the received message up once, and nothing of it is touched afterwards.
// Giving up is modelled by taking the bytes away: any later access indexes an empty buffer, which
// panicfree reports. Whoever gets the message may recycle it at once.

var gOwnMsg *Message
var gOwnGiven int

func spOwnGive(m *Message) {
	vcAssert("C08.dispatch gives up the received message, and only that one", m == gOwnMsg)
	vcAssert("C08.dispatch gives up a message at most once", gOwnGiven == 0)
	gOwnGiven++
	m.Buffer = nil
	m.values = nil
	m.handler = nil
}

//@ extern (arpc.MessageCoder).Decode
//@ theory own
func exOwnDecode(m MessageCoder, c *Client, msg *Message, out *Message) *Message {
	vcAssume(out != nil)
	vcAssume(len(out.Buffer) >= 16)
	gOwnMsg = out
	return out
}

//@ op load arpc.handler.msgCoders[]
//@ theory own
func hkOwnCoder(h *handler, m MessageCoder, i int) { vcAssume(m != nil) }

//@ extern (*arpc.Context).Next
//@ theory own
func exOwnNext(ctx *Context) {
	vcAssert("C08.handlers run while the message is theirs", gOwnGiven == 0)
}

//@ op call arpc.handler.onContextDone
//@ theory own
func hkOwnCtxDone(h *handler, f func(*Context), ctx *Context) {
	spOwnGive(ctx.Message)
	ctx.Message = nil
}

//@ op call arpc.handler.onSessionMiss
//@ theory own
func hkOwnMiss(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	vcAssert("C08.the session-miss callback sees a message that is still its own", vcAnd(m == gOwnMsg, gOwnGiven == 0))
}

//@ op call arpc.handler.onMessageDone
//@ theory own
func hkOwnDone(h *handler, f func(*Client, *Message), c *Client, m *Message) { spOwnGive(m) }

// An executor may run the function it is given at once.
//
//@ op call arpc.handler.executor
//@ theory own
func hkOwnExecutor(h *handler, e func(func()), f func()) { f() }

//@ op mapget arpc.Client.sessionMap
//@ theory own
func hkOwnSess(c *Client, seq uint64, s *rpcSession, ok bool) { vcAssume(ok == (s != nil)) }

//@ op mapget arpc.Client.asyncHandlerMap
//@ theory own
func hkOwnAh(c *Client, seq uint64, ah *asyncHandler, ok bool) {
	vcAssume(ok == (ah != nil))
	vcAssume(vcImp(ok, ah.handler != nil))
}

//@ op send arpc.rpcSession.done
//@ theory own
func hkOwnSessDone(s *rpcSession, m *Message) { spOwnGive(m) }

//@ op call arpc.asyncHandler.handler
//@ theory own
func hkOwnAhCall(ah *asyncHandler, f AsyncHandlerFunc, ctx *Context, err error) {
	vcAssert("C08.a callback runs while the message is its own", gOwnGiven == 0)
}

//@ extern (*arpc.Stream).onMessage
//@ theory own
func exOwnStreamMsg(s *Stream, m *Message) { spOwnGive(m) }

//@ extern (*arpc.Stream).CloseRecv
//@ theory own
func exOwnStreamEnd(s *Stream) {}

//@ op mapget arpc.Client.streamLocalMap
//@ theory own
func hkOwnStreamLocal(c *Client, id uint64, s *Stream, ok bool) { vcAssume(ok == (s != nil)) }

//@ op mapget arpc.Client.streamRemoteMap
//@ theory own
func hkOwnStreamRemote(c *Client, id uint64, s *Stream, ok bool) { vcAssume(ok == (s != nil)) }

//@ extern (*arpc.Client).newStream
//@ theory own
func exOwnNewStream(c *Client, method string, id uint64, local bool, s *Stream) *Stream {
	vcAssume(s != nil)
	vcAssert("C08.a stream keeps a method of its own, not the frame's bytes", vcOr(len(method) == 0, vcStrArrayId(method) != vcArrayId(gOwnMsg.Buffer)))
	return s
}

//@ op mapget arpc.handler.streams
//@ theory own
func hkOwnSH(h *handler, method string, sh *streamHandler, ok bool) {
	vcAssume(vcImp(ok, vcAnd(sh != nil, sh.handler != nil)))
}

//@ op mapget arpc.handler.routes
//@ theory own
func hkOwnRH(h *handler, method string, rh *routerHandler, ok bool) { vcAssume(ok == (rh != nil)) }

//@ op call arpc.streamHandler.handler
//@ theory own
func hkOwnSHCall(sh *streamHandler, f StreamHandlerFunc, s *Stream) {}

//@ extern (net.Conn).Write
//@ theory own
func exOwnWrite(c net.Conn, b []byte, n int, err error) (int, error) { return n, err }

//@ extern (net.Conn).Close
//@ theory own
func exOwnClose(c net.Conn, err error) error { return err }

//@ contract (*handler).OnMessage
//@ property C08
//@ theory own
//@ panicfree
func ctOwnMessage(h *handler, c *Client, msg *Message) {
	vcRequires(spDispatchPre(h, c, msg))
	gOwnMsg = msg
	gOwnGiven = 0
	vcHint("the message is still ours", func() bool { return vcAnd(gOwnGiven == 0, vcAnd(gOwnMsg != nil, len(gOwnMsg.Buffer) >= 16)) })
	h.OnMessage(c, msg)
	vcEnsures("C08.a message is given up at most once", gOwnGiven <= 1)
	vcCover("done")
}
