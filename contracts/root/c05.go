package arpc

import (
	"context"
	"net"
	"time"

	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/util"
)

// C04, C05, C07, C08, C11: what happens to an outgoing message.
//
// The contracts of this file follow one message from where it is built to where it is queued,
// written or given up. Everything between the public operation and the queue or the connection is
// inlined; the environment is: the codec and newMessage (C01), the coders, the connection, timers
// and contexts, and the user's callbacks.

// ghost: the message built by the operation
var gNewN int
var gNew *Message
var gNewCmd byte
var gNewMethod string
var gNewErr bool
var gNewAsync bool
var gNewSeq uint64
var gNewV interface{}
var gNewValues map[interface{}]interface{}

// ghost: the message as the coders left it, and how many coders it passed
var gCur *Message
var gEnc int
var gNCoders int

// ghost: how often the message was queued, written and handed back, and what was written last
var gQueued int
var gWrote int
var gGone int
var gOver int
var gDropped int

// ghost: what the operation waited for
var gTimedOut bool
var gClosed bool
var gGotRsp bool
var gRspMsg *Message
var gWriteFailed bool
var gConnClosed int

// ghost: the pending calls of this operation
var gRegSess bool
var gRegAh bool
var gRegN int
var gSessN *rpcSession
var gAhN *asyncHandler

// ghost: results of decoding
var gUnmarshalled int
var gUnmarshalErr error
var gUnmarshalData []byte
var gUnmarshalTo interface{}

func spOutReset(c *Client) {
	gNewN = 0
	gEnc = 0
	gQueued = 0
	gWrote = 0
	gGone = 0
	gOver = 0
	gDropped = 0
	gTimedOut = false
	gClosed = false
	gGotRsp = false
	gWriteFailed = false
	gConnClosed = 0
	gRegSess = false
	gRegAh = false
	gRegN = 0
	gUnmarshalled = 0
	gClaimed = 0
	gCb = 0
	gArmed = false
	gOutGotOK = false
	gClaim = nil
	gAhPut = 0
	gDelN = 0
	gTimerThread = false
	gAhFresh = nil
	gTimerStops = 0
	gSawStopped = false
	gRspN = 0
	gSessClosed = 0
	gSessFound = false
	gSawRecon = false
	gWriteErr = nil
	h := c.Handler.(*handler)
	gNCoders = len(h.msgCoders)
	gCur = nil
	gNew = nil
	gRspMsg = nil
	gAhN = nil
	gSessN = nil
	vcHint("encoded so far", func() bool {
		return vcImp(gCur != nil, vcAnd(len(gCur.Buffer) >= 16, vcAnd(0 <= gEnc, vcImp(gEnc == 0, gCur == gNew))))
	})
}

// newMessage builds the frame of its arguments (C01).
//
//@ extern arpc.newMessage
//@ theory out
func exNewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}, b []byte) *Message {
	m := &Message{}
	vcAssume(len(b) >= 16)
	m.Buffer = b
	m.handler = h
	m.values = values
	vcAssume(m.Cmd() == cmd)
	vcAssume(m.IsAsync() == isAsync)
	vcAssume(m.IsError() == isError)
	vcAssume(m.Seq() == seq)
	gNewN++
	gNew = m
	gCur = m
	gNewCmd = cmd
	gNewMethod = method
	gNewErr = isError
	gNewAsync = isAsync
	gNewSeq = seq
	gNewV = v
	gNewValues = values
	return m
}

//@ op load arpc.handler.msgCoders[]
//@ theory out
func hkOutCoderLoad(h *handler, m MessageCoder, i int) {
	vcAssume(m != nil)
	vcAssert("C07.outgoing messages pass the coders in registration order, each once", i == gEnc)
}

// A coder returns a message of its own or the one it was given.
//
//@ extern (arpc.MessageCoder).Encode
//@ theory out
func exEncode(m MessageCoder, c *Client, msg *Message, out *Message) *Message {
	vcAssert("C07.each coder gets what the one before it returned", msg == gCur)
	vcAssert("C08.a message is not encoded after it was given up", gGone+gQueued == 0)
	vcAssume(out != nil)
	vcAssume(len(out.Buffer) >= 16)
	gEnc++
	gCur = out
	return out
}

//@ op send arpc.Client.chSend
//@ theory out
func hkQueue(c *Client, m *Message) {
	vcAssert("C08.a message is queued at most once and not after it was given up", gGone+gQueued+gWrote == 0)
	vcAssert("C07.the message queued is the one built, not yet encoded", vcAnd(m == gCur, gEnc == 0))
	gQueued++
	gOutLocal = m.IsStreamLocal()
	gOutEOF = m.IsStreamEOF()
	// from here on the message belongs to the sender
	m.Buffer = nil
}

//@ extern (net.Conn).Write
//@ theory out
func exOutWrite(c net.Conn, b []byte, n int, err error) (int, error) {
	vcAssert("C08.a message is not written after it was given up", gGone+gQueued == 0)
	vcAssert("C07.a message is written once", gWrote == 0)
	vcAssert("C07.what is written is the whole frame as the coders left it", vcAnd(vcSameArray(b, gCur.Buffer), vcAnd(vcArrayOff(b) == vcArrayOff(gCur.Buffer), len(b) == len(gCur.Buffer))))
	vcAssert("C07.a message passes every coder before it is written", gEnc == gNCoders)
	gWrote++
	if gEnc == 0 {
		gOutLocal = gCur.IsStreamLocal()
		gOutEOF = gCur.IsStreamEOF()
	}
	if err != nil {
		gWriteFailed = true
		gWriteErr = err
	}
	return n, err
}

var gWriteErr error

// ghost: the stream flags of the frame sent
var gOutLocal bool
var gOutEOF bool

//@ extern (net.Conn).Close
//@ theory out
func exOutClose(c net.Conn, err error) error {
	gConnClosed++
	return err
}

//@ op call arpc.handler.beforeSend
//@ theory out
func hkBeforeSend(h *handler, f func(net.Conn) error, c net.Conn, err error) error {
	if err != nil {
		gWriteFailed = true
		gWriteErr = err
	}
	return err
}

//@ op call arpc.handler.onMessageDone
//@ theory out
func hkOutDone(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	if m == gRspMsg {
		vcAssert("C08.a response is handed back at most once", vcAnd(gGotRsp, gRspDone == 0))
		gRspDone++
		m.Buffer = nil
		return
	}
	vcAssert("C08.a message is given up at most once", gGone+gQueued == 0)
	vcAssert("C08.only the operation's own message is given up", m == gCur)
	gGone++
	m.Buffer = nil
}

var gRspDone int

//@ op call arpc.handler.onOverstock
//@ theory out
func hkOverstock(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	vcAssert("C08.a message is reported before it is given up", gGone+gQueued == 0)
	vcAssert("C08.only the operation's own message is reported", m == gCur)
	gOver++
}

//@ op call arpc.handler.onMessageDropped
//@ theory out
func hkDropped(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	vcAssert("C08.a message is reported before it is given up", gGone+gQueued == 0)
	vcAssert("C08.only the operation's own message is reported", m == gCur)
	gDropped++
}

//@ op call arpc.handler.executor
//@ theory out
func hkOutExecutor(h *handler, e func(func()), f func()) { f() }

type spTick struct{ ch chan struct{} }

var gTick *spTick

//@ extern (context.Context).Done
//@ theory out
func exCtxDone(c context.Context) <-chan struct{} {
	return gTick.ch
}

//@ op recv arpc.spTick.ch
//@ theory out
func hkCtxExpired(t *spTick) { gTimedOut = true }

//@ extern time.NewTimer
//@ theory out
func exNewTimer(d time.Duration) *time.Timer {
	t := &time.Timer{}
	return t
}

//@ op recv time.Timer.C
//@ theory out
func hkTimer(t *time.Timer) { gTimedOut = true }

//@ op recv arpc.Client.chClose
//@ theory out
func hkStopped(c *Client) { gClosed = true }

//@ op mapset arpc.Client.sessionMap
//@ theory out
func hkSessSet(c *Client, seq uint64, s *rpcSession) {
	vcAssert("C05.a call is registered under its message's number", vcAnd(seq == gNewSeq, vcAnd(gNewN == 1, !gNewAsync)))
	vcAssert("C05.a call is registered before its message can be answered", gQueued+gWrote == 0)
	vcAssert("C05.the lock is held when a call is registered", vcHeld(&c.mux))
	vcAssert("C04.a response to a call that has ended never holds up the connection", cap(s.done) >= 1)
	vcAssert("C05.a response to a call that has ended never holds up the other calls", cap(s.done) >= 1)
	gRegSess = true
	gRegN++
	gSessN = s
}

//@ op mapget arpc.Client.sessionMap
//@ theory out
func hkOutSessGet(c *Client, seq uint64, s *rpcSession, ok bool) {
	vcAssume(ok == (s != nil))
	gSessFound = ok
	// what is registered under the number of this call is this call
	vcAssume(vcImp(vcAnd(ok, seq == gNewSeq), vcAnd(gRegSess, s == gSessN)))
}

//@ op mapdelete arpc.Client.sessionMap
//@ theory out
func hkOutSessDel(c *Client, seq uint64) {
	vcAssert("C05.a call deregisters only itself", seq == gNewSeq)
	vcAssert("C05.the lock is held when a call is deregistered", vcHeld(&c.mux))
	gRegSess = false
}

// ghost: the lookup in the current critical section, and the callback claimed with it
var gOutGot *asyncHandler
var gOutGotOK bool
var gOutLooked bool
var gOutGotSeq uint64
var gClaim *asyncHandler
var gAhPut int
var gDelN int
var gTimerThread bool

//@ op lock arpc.Client.mux
//@ theory out
func hkOutLock(c *Client) { gOutGotOK, gOutLooked = false, false }

//@ op mapget arpc.Client.asyncHandlerMap
//@ theory out
func hkOutAhGet(c *Client, seq uint64, ah *asyncHandler, ok bool) {
	vcAssert("C06.the lock is held when a callback is looked up", vcHeld(&c.mux))
	vcAssume(ok == (ah != nil))
	vcAssume(vcImp(ok, ah.handler != nil))
	// what is registered under the number of this call is its callback
	vcAssume(vcImp(vcAnd(ok, vcAnd(gNewN == 1, seq == gNewSeq)), vcAnd(gRegAh, ah == gAhN)))
	// once taken out it is never registered again
	gRegAh = vcAnd(gRegAh, vcOr(ok, seq != gNewSeq))
	gOutGot = ah
	gOutGotOK = ok
	gOutLooked = true
	gOutGotSeq = seq
}

//@ op mapset arpc.Client.asyncHandlerMap
//@ theory out
func hkOutAhSet(c *Client, seq uint64, ah *asyncHandler) {
	vcAssert("C06.a callback is registered under its message's number, with the lock held", vcAnd(seq == gNewSeq, vcAnd(gNewN == 1, vcHeld(&c.mux))))
	vcAssert("C06.a callback is registered once, before its message can be answered", vcAnd(gRegN == 0, gQueued+gWrote == 0))
	vcAssert("C06.what is registered is the caller's callback", vcAnd(ah != nil, vcId(ah.handler) == vcId(gUserCb)))
	gRegAh = true
	gRegN++
	gAhN = ah
}

//@ op mapdelete arpc.Client.asyncHandlerMap
//@ theory out
func hkOutAhDel(c *Client, seq uint64) {
	vcAssert("C06.a callback is taken out in one step with its lookup", vcAnd(vcHeld(&c.mux), vcAnd(gOutLooked, seq == gOutGotSeq)))
	vcAssert("C06.only the operation's own callback is taken out", seq == gNewSeq)
	gRegAh = false
	// taking out what the lookup did not find does nothing
	if gOutGotOK {
		gOutGotOK = false
		gDelN++
		gClaimed++
		gClaim = gOutGot
	}
}

//@ op call arpc.asyncHandler.handler
//@ theory out
func hkOutCb(ah *asyncHandler, f AsyncHandlerFunc, ctx *Context, err error) {
	vcAssert("C06.a callback is invoked only by the one who took it out, once", vcAnd(ah == gClaim, vcAnd(gClaimed == 1, vcAnd(gCb == 0, gAhPut == 0))))
	vcAssert("C06.without a response the callback gets the error naming the cause", vcAnd(ctx == nil, vcAnd(vcImp(gTimerThread, err == ErrTimeout), vcImp(!gTimerThread, err == ErrClientReconnecting))))
	gCb++
}

//@ op poolput arpc.asyncHandlerPool
//@ theory out
func hkAhPut(v interface{}) {
	ah, ok := v.(*asyncHandler)
	mine := vcOr(vcAnd(gClaimed == 1, ah == gClaim), vcAnd(gRegN == 0, ah == gAhFresh))
	vcAssert("C06.only a callback taken out or never registered is recycled, once", vcAnd(ok, vcAnd(mine, gAhPut == 0)))
	gAhPut++
}

// ghost: the registration taken from the pool by this operation, and the callback of the caller
var gAhFresh *asyncHandler
var gUserCb AsyncHandlerFunc

//@ op poolget arpc.asyncHandlerPool
//@ theory out
func hkAhGetPool() interface{} {
	gAhFresh = &asyncHandler{}
	return gAhFresh
}

// ghost: the function of the timer, and its delay
var gTimerFn func()
var gTimeout time.Duration

// A timer runs its function in a goroutine of its own when the delay has passed.
//
//@ extern time.AfterFunc
//@ theory out
func exAfterFunc(d time.Duration, f func()) *time.Timer {
	gTimerFn = f
	if d == gTimeout {
		spArm()
	}
	return &time.Timer{}
}

//@ extern (*time.Timer).Reset
//@ theory out
func exTimerReset(t *time.Timer, d time.Duration, b bool) bool {
	if d == gTimeout {
		spArm()
	}
	return b
}

func spArm() {
	gArmed = true
	vcFork(func() {
		gTimerThread = true
		gTimerFn()
	})
}

//@ op recv arpc.rpcSession.done
//@ theory out
func hkRsp(s *rpcSession, m *Message, ok bool) {
	vcAssert("C05.a call waits for its own response", vcAnd(gRegN <= 1, vcImp(gRegN == 1, s == gSessN)))
	// nobody knows a call that was not registered
	vcAssume(gRegN == 1)
	vcAssume(ok == (m != nil))
	vcAssume(vcImp(ok, vcAnd(m.Buffer != nil, vcAnd(len(m.Buffer) >= 16, vcAnd(m != gNew, m != gCur)))))
	// only messages whose method lies within them are dispatched (C03)
	vcAssume(vcImp(ok, spValid(m)))
	vcAssume(spRspOK(gRspTo))
	gGotRsp = ok
	gRspMsg = m
	gRspDone = 0
	gRspN++
	gRspErr = false
	gRspCmd = 0
	if ok {
		gRspErr = m.IsError()
		gRspCmd = m.Cmd()
	}
}

// ghost: the callback of this operation
var gClaimed int
var gCb int
var gArmed bool
var gTimerStops int

// ghost: what the operation saw of the client's state before it built its message
var gSawStopped bool
var gSawRecon bool

//@ op load arpc.Client.running
//@ theory out
func hkRunning(c *Client, v bool) {
	if gNewN == 0 {
		gSawStopped = vcOr(gSawStopped, !v)
	}
}

//@ op load arpc.Client.reconnecting
//@ theory out
func hkRecon(c *Client, v bool) { gSawRecon = vcOr(gSawRecon, v) }

// ghost: where the response goes
var gRspTo interface{}
var gRspN int
var gSessClosed int
var gSessFound bool
var gRspErr bool
var gRspCmd byte

//@ op close arpc.rpcSession.done
//@ theory out
func hkSessClose(s *rpcSession) {
	vcAssert("C05.only the operation's own call is cancelled", s == gSessN)
	vcAssert("C05.a cancelled call is taken out first, so it is cancelled once", vcAnd(!gRegSess, gSessClosed == 0))
	gSessClosed++
}

//@ extern (codec.Codec).Unmarshal
//@ theory out
func exUnmarshal(c codec.Codec, data []byte, v interface{}, err error) error {
	vcAssert("C08.what is decoded was not given up yet", vcImp(gGotRsp, gRspDone == 0))
	gUnmarshalled++
	gUnmarshalErr = err
	gUnmarshalData = data
	gUnmarshalTo = v
	return err
}

// ghost: the text of the last error made
var gErrNewText string
var gErrNew error

//@ extern errors.New
//@ theory out
func exErrorsNew(text string, e error) error {
	vcAssume(e != nil)
	gErrNewText = text
	gErrNew = e
	return e
}

func spErrsOK() bool {
	a := vcAnd(ErrClientTimeout != nil, vcAnd(ErrClientStopped != nil, ErrClientReconnecting != nil))
	b := vcAnd(ErrClientInvalidTimeoutZero != nil, vcAnd(ErrClientInvalidTimeoutLessThanZero != nil, ErrInvalidRspMessage != nil))
	d := vcAnd(ErrContextResponseToNotify != nil, vcAnd(ErrStreamClosedSend != nil, vcAnd(ErrClientOverstock != nil, ErrTimeout != nil)))
	return vcAnd(a, vcAnd(b, vcAnd(d, ErrClientInvalidAsyncHandler != nil)))
}

func spOutPre(c *Client) bool {
	return vcAnd(spCliOK(c), vcAnd(spErrsOK(), vcAnd(gTick != nil, vcAnd(spMapsOK(c), spCodersOK(c.Handler)))))
}

func spCodersOK(hd Handler) bool {
	h := hd.(*handler)
	return len(h.msgCoders) <= 1<<20
}

func spMapsOK(c *Client) bool {
	return vcAnd(c.sessionMap != nil, vcAnd(c.asyncHandlerMap != nil, vcAnd(c.streamLocalMap != nil, c.streamRemoteMap != nil)))
}

var _ = util.Recover

// spRspOK: a result to decode into is not a nil pointer.
func spRspOK(rsp interface{}) bool {
	a, ok := rsp.(*string)
	b, ok2 := rsp.(*[]byte)
	return vcAnd(vcImp(ok, a != nil), vcImp(ok2, b != nil))
}

// spNothingSent: the operation had no effect on the connection.
func spNothingSent() bool { return vcAnd(gQueued == 0, gWrote == 0) }

func spCallPost(c *Client, method string, req interface{}, rsp interface{}, err error) {
	vcEnsures("C05.a call leaves no pending entry behind", !gRegSess)
	vcEnsures("C05.a call succeeds only with a response to it", vcImp(err == nil, vcAnd(gGotRsp, vcAnd(!gRspErr, gRspCmd == CmdResponse))))
	vcEnsures("C05.a call succeeds only if its message was sent", vcImp(err == nil, gQueued+gWrote == 1))
	vcEnsures("C05.a response carrying an error is reported as that error", vcImp(vcAnd(gGotRsp, vcAnd(gRspErr, gRspCmd == CmdResponse)), vcAnd(err != nil, err == gErrNew)))
	vcEnsures("C05.a response without an error is decoded into the result", vcImp(vcAnd(gUnmarshalled > 0, gGotRsp), vcAnd(err == gUnmarshalErr, vcAnd(gUnmarshalled == 1, gUnmarshalTo == rsp))))
	vcEnsures("C05.an expired call reports the timeout", vcImp(vcAnd(gTimedOut, !gGotRsp), err == ErrClientTimeout))
	vcEnsures("C05.a call on a stopped client reports that", vcImp(vcAnd(gClosed, !gGotRsp), err == ErrClientStopped))
	cut := vcOr(vcOr(gTimedOut, gClosed), vcOr(vcOr(gSawStopped, gSawRecon), gWriteFailed))
	vcEnsures("C05.a call that nothing cut short waited for its response", vcImp(vcAnd(!cut, gNewN != 0), gRspN == 1))
	vcEnsures("C05.a call whose connection was lost reports that", vcImp(vcAnd(gRspN == 1, !gGotRsp), err == ErrClientReconnecting))
	vcEnsures("C05.a failed write is reported", vcImp(gWriteFailed, err == gWriteErr))
	vcEnsures("C05.a response is handed back once", vcImp(vcAnd(gGotRsp, c.Handler.(*handler).onMessageDone != nil), gRspDone == 1))
	vcEnsures("C05.the request carries the method and the value", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewMethod == method, vcAnd(gNewCmd == CmdRequest, vcAnd(!gNewErr, gNewV == req))))))
}

//@ contract (*Client).Call
//@ property C05 C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctCall(c *Client, method string, req interface{}, rsp interface{}, timeout time.Duration, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	gRspTo = rsp
	spOutReset(c)
	err := c.Call(method, req, rsp, timeout, args...)
	spCallPost(c, method, req, rsp, err)
	bad := vcOr(gSawStopped, vcOr(vcOr(len(method) == 0, len(method) > 127), timeout <= 0))
	vcEnsures("C05.a call with bad arguments or on an unusable client sends nothing", vcImp(bad, vcAnd(err != nil, vcAnd(spNothingSent(), gNewN == 0))))
	return err
}

//@ contract (*Client).CallContext
//@ property C05 C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctCallContext(c *Client, ctx context.Context, method string, req interface{}, rsp interface{}, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	gRspTo = rsp
	spOutReset(c)
	err := c.CallContext(ctx, method, req, rsp, args...)
	spCallPost(c, method, req, rsp, err)
	bad := vcOr(gSawStopped, vcOr(len(method) == 0, len(method) > 127))
	vcEnsures("C05.a call with bad arguments or on an unusable client sends nothing", vcImp(bad, vcAnd(err != nil, vcAnd(spNothingSent(), gNewN == 0))))
	return err
}

//@ contract (*Client).CallWith
//@ property C05 C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctCallWith(c *Client, ctx context.Context, method string, req interface{}, rsp interface{}, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	gRspTo = rsp
	spOutReset(c)
	err := c.CallWith(ctx, method, req, rsp, args...)
	spCallPost(c, method, req, rsp, err)
	return err
}

// The response is decoded into the caller's variable; what is stored there is the caller's own.
//
//@ contract (*Client).parseResponse
//@ property C05 C08
//@ theory parse
//@ panicfree
func ctParseResponse(c *Client, msg *Message, rsp interface{}, k int) error {
	vcRequires(c.Codec != nil)
	vcRequires(vcAnd(spErrsOK(), spRspOK(rsp)))
	vcRequires(vcImp(msg != nil, vcAnd(len(msg.Buffer) >= 16, spValid(msg))))
	gUnmarshalled = 0
	if msg == nil {
		err := c.parseResponse(msg, rsp)
		vcEnsures("C05.no response is no success", err == ErrClientReconnecting)
		return err
	}
	ml := int(msg.Buffer[HeaderIndexMethodLen])
	buf := msg.Buffer
	data := buf[16+ml:]
	isRsp := msg.Cmd() == CmdResponse
	isErr := vcAnd(buf[HeaderIndexFlag]&1 == 1, isRsp)
	err := c.parseResponse(msg, rsp)
	vcEnsures("C05.only a response is a success", vcImp(!isRsp, err != nil))
	vcEnsures("C05.an error response is reported with its text", vcImp(isErr, vcAnd(err != nil, vcAnd(err == gErrNew, vcBytesStr(data, gErrNewText)))))
	vcEnsures("C08.an error is not made of the response's bytes", vcImp(isErr, vcStrArrayId(gErrNewText) != vcArrayId(buf)))
	ok := vcAnd(!isErr, isRsp)
	if !ok {
		vcEnsures("C05.an error response is not decoded", gUnmarshalled == 0)
		return err
	}
	if rsp == nil {
		vcEnsures("C05.without a result variable a good response is a success", err == nil)
		return err
	}
	if p, is := rsp.(*[]byte); is {
		vcEnsures("C05.bytes are decoded exactly", vcAnd(err == nil, vcBytesEq(*p, data)))
		vcEnsures("C08.a result does not alias the response", vcOr(len(*p) == 0, vcArrayId(*p) != vcArrayId(buf)))
		return err
	}
	if p, is := rsp.(*string); is {
		vcEnsures("C05.a string is decoded exactly", vcAnd(err == nil, vcBytesStr(data, *p)))
		vcEnsures("C08.a result does not alias the response", vcOr(len(*p) == 0, vcStrArrayId(*p) != vcArrayId(buf)))
		return err
	}
	vcEnsures("C05.other values are decoded by the codec from the payload", vcAnd(gUnmarshalled == 1, vcAnd(err == gUnmarshalErr, vcAnd(gUnmarshalTo == rsp, vcAnd(vcSameArray(gUnmarshalData, data), vcAnd(vcArrayOff(gUnmarshalData) == vcArrayOff(data), len(gUnmarshalData) == len(data)))))))
	return err
}

//@ extern (codec.Codec).Unmarshal
//@ theory parse
func exUnmarshalParse(c codec.Codec, data []byte, v interface{}, err error) error {
	gUnmarshalled++
	gUnmarshalErr = err
	gUnmarshalData = data
	gUnmarshalTo = v
	return err
}

//@ extern errors.New
//@ theory parse
func exErrorsNewParse(text string, e error) error {
	vcAssume(e != nil)
	gErrNewText = text
	gErrNew = e
	return e
}

func spSendPost(c *Client, err error) {
	vcEnsures("C07.success means queued or written, once", vcImp(err == nil, gQueued+gWrote == 1))
	vcEnsures("C07.a failed write is reported and ends the connection", vcImp(gWriteFailed, vcAnd(err == gWriteErr, gConnClosed > 0)))
	vcEnsures("C07.a message not written whole is not a success", vcImp(vcAnd(err == nil, gQueued == 0), !gWriteFailed))
	vcEnsures("C05.no pending call is registered", gRegN == 0)
	vcEnsures("C05.an expired operation reports the timeout", vcImp(gTimedOut, vcAnd(spNothingSent(), vcOr(err == ErrClientTimeout, err == ErrTimeout))))
	vcEnsures("C05.an operation on a stopped client reports that", vcImp(gClosed, vcAnd(spNothingSent(), err == ErrClientStopped)))
	vcEnsures("C07.a message is queued or written only once", gQueued+gWrote <= 1)
}

//@ contract (*Client).Notify
//@ property C05 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctNotify(c *Client, method string, data interface{}, timeout time.Duration, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	spOutReset(c)
	err := c.Notify(method, data, timeout, args...)
	spSendPost(c, err)
	bad := vcOr(gSawStopped, vcOr(vcOr(len(method) == 0, len(method) > 127), timeout < 0))
	vcEnsures("C05.a notification with bad arguments or on an unusable client sends nothing", vcImp(bad, vcAnd(err != nil, vcAnd(spNothingSent(), gNewN == 0))))
	vcEnsures("C05.the notification carries the method and the value", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewMethod == method, vcAnd(gNewCmd == CmdNotify, vcAnd(!gNewErr, gNewV == data))))))
	return err
}

//@ contract (*Client).NotifyContext
//@ property C05 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctNotifyContext(c *Client, ctx context.Context, method string, data interface{}, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	spOutReset(c)
	err := c.NotifyContext(ctx, method, data, args...)
	spSendPost(c, err)
	bad := vcOr(gSawStopped, vcOr(len(method) == 0, len(method) > 127))
	vcEnsures("C05.a notification with bad arguments or on an unusable client sends nothing", vcImp(bad, vcAnd(err != nil, vcAnd(spNothingSent(), gNewN == 0))))
	vcEnsures("C05.the notification carries the method and the value", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewMethod == method, vcAnd(gNewCmd == CmdNotify, vcAnd(!gNewErr, gNewV == data))))))
	return err
}

//@ contract (*Client).NotifyWith
//@ property C05 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctNotifyWith(c *Client, ctx context.Context, method string, data interface{}, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	spOutReset(c)
	err := c.NotifyWith(ctx, method, data, args...)
	spSendPost(c, err)
	vcEnsures("C05.the notification carries the method and the value", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewMethod == method, vcAnd(gNewCmd == CmdNotify, vcAnd(!gNewErr, gNewV == data))))))
	return err
}

// The message pushed is the caller's; a dropped request cancels its own pending call.
//
//@ contract (*Client).PushMsg
//@ property C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctPushMsg(c *Client, msg *Message, timeout time.Duration) error {
	vcRequires(spOutPre(c))
	vcRequires(vcAnd(msg != nil, len(msg.Buffer) >= 16))
	spOutReset(c)
	gNew = msg
	gCur = msg
	gNewSeq = msg.Seq()
	err := c.PushMsg(msg, timeout)
	spSendPost(c, err)
	return err
}

func spRspPost(ctx *Context, isReq bool, async bool, seq uint64, isErr bool, v interface{}, err error) {
	vcEnsures("C04.a notification is never answered", vcImp(!isReq, vcAnd(err == ErrContextResponseToNotify, vcAnd(spNothingSent(), gNewN == 0))))
	vcEnsures("C04.a request is answered by one response", vcImp(isReq, vcAnd(gNewN == 1, gNewCmd == CmdResponse)))
	vcEnsures("C04.a response carries its request's number", vcImp(isReq, gNewSeq == seq))
	vcEnsures("C04.a response carries its request's kind", vcImp(isReq, gNewAsync == async))
	vcEnsures("C04.a response carries its request's method", vcImp(isReq, gNewMethod == ctx.Message.method()))
	vcEnsures("C04.a response is marked as an error exactly when it is one", vcImp(isReq, gNewErr == isErr))
	vcEnsures("C04.a response carries the value", vcImp(isReq, gNewV == v))
	spSendPost(ctx.Client, err)
}

func spCtxPre(ctx *Context) bool {
	return vcAnd(ctx.Client != nil, vcAnd(spOutPre(ctx.Client), vcAnd(ctx.Message != nil, vcAnd(len(ctx.Message.Buffer) >= 16, spValid(ctx.Message)))))
}

//@ contract (*Context).Write
//@ property C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctWrite(ctx *Context, v interface{}) error {
	vcRequires(spCtxPre(ctx))
	spOutReset(ctx.Client)
	async := ctx.Message.IsAsync()
	seq := ctx.Message.Seq()
	isReq := ctx.Message.Cmd() == CmdRequest
	err := ctx.Write(v)
	_, isErr := v.(error)
	spRspPost(ctx, isReq, async, seq, isErr, v, err)
	return err
}

//@ contract (*Context).WriteWithTimeout
//@ property C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctWriteWithTimeout(ctx *Context, v interface{}, timeout time.Duration) error {
	vcRequires(spCtxPre(ctx))
	spOutReset(ctx.Client)
	async := ctx.Message.IsAsync()
	seq := ctx.Message.Seq()
	isReq := ctx.Message.Cmd() == CmdRequest
	err := ctx.WriteWithTimeout(v, timeout)
	_, isErr := v.(error)
	spRspPost(ctx, isReq, async, seq, isErr, v, err)
	return err
}

//@ contract (*Context).Error
//@ property C04 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctWriteError(ctx *Context, v interface{}) error {
	vcRequires(spCtxPre(ctx))
	spOutReset(ctx.Client)
	async := ctx.Message.IsAsync()
	seq := ctx.Message.Seq()
	isReq := ctx.Message.Cmd() == CmdRequest
	err := ctx.Error(v)
	spRspPost(ctx, isReq, async, seq, v != nil, v, err)
	return err
}

// ghost: the stream of this operation
var gStr *Stream
var gCasSend int
var gCasRecv int
var gHalf int
var gForgot int
var gChClosed int
var gConv []byte
var gSawSendClosed bool
var gCasTried bool

func spStreamReset(s *Stream) {
	spOutReset(s.cli)
	gStr = s
	gCasSend = 0
	gCasRecv = 0
	gHalf = 0
	gForgot = 0
	gChClosed = 0
	gSawSendClosed = false
	gCasTried = false
}

//@ extern util.ValueToBytes
//@ theory out
func exValueToBytes(c codec.Codec, v interface{}, out []byte) []byte {
	gConv = out
	return out
}

//@ op atomicload arpc.Stream.stateSend
//@ theory out
func hkSendState(s *Stream, v int32) {
	if gNewN == 0 {
		gSawSendClosed = vcOr(gSawSendClosed, v == 1)
	}
}

//@ op cas arpc.Stream.stateSend
//@ theory out
func hkCasSend(s *Stream, old int32, v int32, ok bool) {
	vcAssert("C11.the sending side goes from open to closed only", vcAnd(old == 0, v == 1))
	gCasTried = true
	if ok {
		gCasSend++
	}
}

//@ op cas arpc.Stream.stateRecv
//@ theory out
func hkCasRecv(s *Stream, old int32, v int32, ok bool) {
	vcAssert("C11.the receiving side goes from open to closed only", vcAnd(old == 0, v == 1))
	if ok {
		gCasRecv++
	}
}

//@ op close arpc.Stream.chData
//@ theory out
func hkDataClose(s *Stream) {
	gChClosed++
	vcAssert("C11.only the operation that closed the receiving side closes its queue", vcAnd(s == gStr, gCasRecv == gChClosed))
}

//@ op atomicadd arpc.Stream.stateCloseCnt
//@ theory out
func hkHalf(s *Stream, d int32, v int32) {
	gHalf++
	vcAssert("C11.each direction counts once when closed", vcAnd(s == gStr, vcAnd(d == 1, gHalf <= gCasSend+gCasRecv)))
	gBoth = v == 2
}

var gBoth bool

//@ op mapdelete arpc.Client.streamLocalMap
//@ theory out
func hkForgetLocal(c *Client, id uint64) {
	vcAssert("C11.a stream is forgotten only when both directions are closed", gBoth)
	vcAssert("C11.only the stream itself is forgotten", vcAnd(id == gStr.id, vcAnd(gStr.local, c == gStr.cli)))
	vcAssert("C11.the lock is held when a stream is forgotten", vcHeld(&c.mux))
	gForgot++
}

//@ op mapdelete arpc.Client.streamRemoteMap
//@ theory out
func hkForgetRemote(c *Client, id uint64) {
	vcAssert("C11.a stream is forgotten only when both directions are closed", gBoth)
	vcAssert("C11.only the stream itself is forgotten", vcAnd(id == gStr.id, vcAnd(!gStr.local, c == gStr.cli)))
	vcAssert("C11.the lock is held when a stream is forgotten", vcHeld(&c.mux))
	gForgot++
}

func spStreamPre(s *Stream) bool {
	return vcAnd(s.cli != nil, spOutPre(s.cli))
}

func spStreamSendPost(s *Stream, eof bool, err error) {
	spSendPost(s.cli, err)
	b, ok := gNewV.([]byte)
	vcEnsures("C11.a frame carries the stream's number and method and the data", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewCmd == CmdStream, vcAnd(gNewSeq == s.id, vcAnd(gNewMethod == s.method, vcAnd(ok, vcAnd(vcSameArray(b, gConv), len(b) == len(gConv)))))))))
	plain := vcAnd(gQueued+gWrote == 1, vcOr(gQueued == 1, gNCoders == 0))
	vcEnsures("C11.a frame carries its side and end-of-stream marks", vcImp(plain, vcAnd(gOutLocal == s.local, gOutEOF == eof)))
	vcEnsures("C11.a direction closed counts", gHalf == gCasSend+gCasRecv)
	vcEnsures("C11.sending without closing closes nothing", vcImp(!eof, gCasSend+gCasRecv == 0))
}

//@ contract (*Stream).SendContext
//@ property C11 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting arpc.Stream.stateSend arpc.Stream.stateRecv arpc.Stream.stateCloseCnt
//@ panicfree
func ctStreamSend(s *Stream, ctx context.Context, v interface{}, args ...interface{}) error {
	vcRequires(spStreamPre(s))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	spStreamReset(s)
	err := s.SendContext(ctx, v, args...)
	spStreamSendPost(s, false, err)
	vcEnsures("C11.sending on a closed side fails and sends nothing", vcImp(gSawSendClosed, vcAnd(err == ErrStreamClosedSend, vcAnd(spNothingSent(), gNewN == 0))))
	return err
}

//@ contract (*Stream).SendAndCloseContext
//@ property C11 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting arpc.Stream.stateSend arpc.Stream.stateRecv arpc.Stream.stateCloseCnt
//@ panicfree
func ctStreamSendAndClose(s *Stream, ctx context.Context, v interface{}, args ...interface{}) error {
	vcRequires(spStreamPre(s))
	vcRequires(spArgsOK(args))
	vcRequires(ctx != nil)
	spStreamReset(s)
	err := s.SendAndCloseContext(ctx, v, args...)
	spStreamSendPost(s, true, err)
	vcEnsures("C11.sending on a closed side fails and sends nothing", vcImp(gSawSendClosed, vcAnd(err == ErrStreamClosedSend, vcAnd(spNothingSent(), gNewN == 0))))
	vcEnsures("C11.closing with a message closes the sending side at most once", vcAnd(gCasSend <= 1, gCasRecv == 0))
	vcEnsures("C11.a stream is not closed for sending before its end mark is built", vcImp(gCasSend == 1, gNewN == 1))
	vcEnsures("C11.after an end mark is sent the sending side is closed", vcImp(gQueued+gWrote == 1, gCasTried))
	return err
}

//@ contract (*Stream).CloseSendContext
//@ property C11 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting arpc.Stream.stateSend arpc.Stream.stateRecv arpc.Stream.stateCloseCnt
//@ panicfree
func ctStreamCloseSend(s *Stream, ctx context.Context) {
	vcRequires(spStreamPre(s))
	vcRequires(ctx != nil)
	spStreamReset(s)
	s.CloseSendContext(ctx)
	plain := vcAnd(gQueued+gWrote == 1, vcOr(gQueued == 1, gNCoders == 0))
	vcEnsures("C11.closing sends an end mark", vcImp(plain, vcAnd(gOutLocal == s.local, gOutEOF)))
	vcEnsures("C11.closing a side already closed sends nothing", vcImp(gCasSend == 0, vcAnd(gNewN == 0, gHalf == 0)))
	vcEnsures("C11.closing an open side of a usable client sends its end mark", vcImp(vcAnd(gCasSend > 0, vcAnd(!gSawStopped, !gSawRecon)), vcOr(vcOr(gTimedOut, vcOr(gClosed, gWriteFailed)), gQueued+gWrote == 1)))
}

//@ contract (*Stream).CloseRecv
//@ property C11
//@ theory out
//@ volatile arpc.Client.running arpc.Stream.stateSend arpc.Stream.stateRecv arpc.Stream.stateCloseCnt
//@ panicfree
func ctStreamCloseRecv(s *Stream) {
	vcRequires(spStreamPre(s))
	vcRequires(s.chData != nil)
	spStreamReset(s)
	s.CloseRecv()
	vcEnsures("C11.the receiving side is closed at most once", vcAnd(gCasRecv <= 1, vcAnd(gChClosed == gCasRecv, gHalf == gCasRecv)))
	vcEnsures("C11.closing the receiving side sends nothing", vcAnd(spNothingSent(), gCasSend == 0))
}

//@ contract (*Client).CallAsync
//@ property C06 C05 C07 C08
//@ theory out
//@ volatile arpc.Client.running arpc.Client.reconnecting
//@ panicfree
func ctCallAsync(c *Client, method string, req interface{}, handler AsyncHandlerFunc, timeout time.Duration, args ...interface{}) error {
	vcRequires(spOutPre(c))
	vcRequires(spArgsOK(args))
	spOutReset(c)
	gUserCb = handler
	gTimeout = timeout
	err := c.CallAsync(method, req, handler, timeout, args...)
	vcEnsures("C06.a rejected asynchronous call leaves no callback registered", vcImp(err != nil, !gRegAh))
	vcEnsures("C06.a rejected asynchronous call does not invoke its callback", vcImp(err != nil, gCb == 0))
	vcEnsures("C06.an accepted asynchronous call leaves its callback registered", vcImp(err == nil, vcAnd(gRegN == 1, vcAnd(gDelN == 0, gCb == 0))))
	vcEnsures("C06.an accepted asynchronous call has its timeout armed", vcImp(err == nil, gArmed))
	vcEnsures("C06.an asynchronous call succeeds only if its message was sent", vcImp(err == nil, vcAnd(gQueued+gWrote == 1, !gWriteFailed)))
	vcEnsures("C05.a failed write is reported", vcImp(gWriteFailed, err == gWriteErr))
	bad := vcOr(gSawStopped, vcOr(vcOr(len(method) == 0, len(method) > 127), vcOr(timeout <= 0, handler == nil)))
	vcEnsures("C05.a call with bad arguments or on an unusable client sends nothing", vcImp(bad, vcAnd(err != nil, vcAnd(spNothingSent(), gNewN == 0))))
	vcEnsures("C06.the request carries the method, the value and the kind", vcImp(gNewN != 0, vcAnd(gNewN == 1, vcAnd(gNewMethod == method, vcAnd(gNewCmd == CmdRequest, vcAnd(!gNewErr, vcAnd(gNewAsync, gNewV == req)))))))
	return err
}

// A message that cannot be sent because the connection is lost fails its own pending call at once.
//
//@ contract (*Client).dropMessage
//@ property C13 C05 C06 C08
//@ theory out
//@ panicfree
func ctDrop(c *Client, msg *Message, sess *rpcSession) {
	vcRequires(spOutPre(c))
	vcRequires(vcAnd(msg != nil, len(msg.Buffer) >= 16))
	vcRequires(vcAnd(sess != nil, sess.done != nil))
	spOutReset(c)
	gNew = msg
	gCur = msg
	gNewSeq = msg.Seq()
	gRegSess = true
	gSessN = sess
	req := msg.Cmd() == CmdRequest
	async := msg.IsAsync()
	c.dropMessage(msg)
	vcEnsures("C13.the call of a dropped request fails at once", vcImp(vcAnd(req, !async), vcAnd(!gRegSess, vcAnd(gCb == 0, vcImp(gSessFound, gSessClosed == 1)))))
	vcEnsures("C06.the callback of a dropped request is invoked, if it is still registered", vcImp(vcAnd(req, async), vcAnd(gSessClosed == 0, vcAnd(!gRegAh, gCb == gClaimed))))
	vcEnsures("C05.dropping another message cancels no call", vcImp(!req, vcAnd(gSessClosed == 0, vcAnd(gCb == 0, vcAnd(gRegSess, gDelN == 0)))))
	h := c.Handler.(*handler)
	vcEnsures("C08.a dropped message is reported and handed back once", vcAnd(vcImp(h.onMessageDropped != nil, gDropped == 1), vcImp(vcAnd(h.onMessageDropped != nil, h.onMessageDone != nil), gGone == 1)))
}
