package arpc

import (
	"io"
	"net"
	"github.com/lesismal/arpc/codec"
	"time"
)

// C13: a lost connection fails everything pending on it, and stopping raises the stop signal once.

// ghost: one arbitrary pending call, asynchronous call and stream of each kind
var gCK uint64
var gCSess *rpcSession
var gCSessOK bool
var gCSessClosed int
var gCAh *asyncHandler
var gCAhOK bool
var gCAhN int
var gCL *Stream
var gCLOK bool
var gCLS int
var gCLR int
var gCR *Stream
var gCROK bool
var gCRS int
var gCRR int
var gCLocked int
var gCSessStill, gCAhStill, gCLStill, gCRStill bool

//@ op lock arpc.Client.mux
//@ theory clear
func hkClearLock(c *Client) {
	gCLocked++
	if gCLocked == 1 {
		s, ok := c.sessionMap[gCK]
		gCSess = s
		gCSessOK = ok
		vcAssume(vcImp(ok, vcAnd(s != nil, s.seq == gCK)))
		ah, ok2 := c.asyncHandlerMap[gCK]
		gCAh = ah
		gCAhOK = ok2
		vcAssume(vcImp(ok2, ah != nil))
		l, ok3 := c.streamLocalMap[gCK]
		gCL = l
		gCLOK = ok3
		vcAssume(vcImp(ok3, vcAnd(l != nil, vcAnd(l.id == gCK, l.local))))
		r, ok4 := c.streamRemoteMap[gCK]
		gCR = r
		gCROK = ok4
		vcAssume(vcImp(ok4, vcAnd(r != nil, vcAnd(r.id == gCK, !r.local))))
	}
}

// what is registered under a number carries that number
//
//@ op rangenext arpc.Client.sessionMap
//@ theory clear
func hkClearSessNext(c *Client, k uint64, s *rpcSession) {
	vcAssume(vcAnd(s != nil, s.seq == k))
}

//@ op close arpc.rpcSession.done
//@ theory clear
func hkClearSessClose(s *rpcSession) {
	gCSessClosed = vcIteInt(s == gCSess, gCSessClosed+1, gCSessClosed)
}

//@ contract (*Client).clearSession
//@ property C13 C05
//@ theory clear
func ctClearSession(c *Client, k uint64) {
	gCK = k
	gCLocked = 0
	gCSessClosed = 0
	vcHint("pending", func() bool {
		return vcImp(gCSessOK, vcAnd(vcImp(vcVisited(k), gCSessClosed == 1), vcImp(!vcVisited(k), gCSessClosed == 0)))
	})
	c.clearSession()
	vcEnsures("C13.every call pending on the lost connection is failed, once", vcImp(gCSessOK, gCSessClosed == 1))
	vcEnsures("C13.no call of the lost connection stays registered", !gCSessStill)
}

//@ op rangenext arpc.Client.asyncHandlerMap
//@ theory clear
func hkClearAhNext(c *Client, k uint64, ah *asyncHandler) {
	vcAssume(vcAnd(ah != nil, ah.handler != nil))
	// an asynchronous call is registered under one number
	vcAssume(vcImp(gCAhOK, (k == gCK) == (ah == gCAh)))
}

//@ op call arpc.asyncHandler.handler
//@ theory clear
func hkClearCb(ah *asyncHandler, f AsyncHandlerFunc, ctx *Context, err error) {
	vcAssert("C13.a pending asynchronous call is failed with an error and no response", vcAnd(ctx == nil, err == ErrClientReconnecting))
	vcAssert("C13.callbacks of user code run without the client's lock", vcLocks() == 0)
	gCAhN = vcIteInt(ah == gCAh, gCAhN+1, gCAhN)
}

//@ op call arpc.handler.executor
//@ theory clear
func hkClearExecutor(h *handler, e func(func()), f func()) { go f() }

//@ extern (*time.Timer).Stop
//@ theory clear
func exClearTimerStop(t *time.Timer, b bool) bool { return b }

//@ contract (*Client).clearAsyncHandler
//@ property C13 C06
//@ theory clear
func ctClearAsync(c *Client, k uint64) {
	gCK = k
	gCLocked = 0
	gCAhN = 0
	vcHint("called", func() bool {
		return vcImp(gCAhOK, vcAnd(vcImp(vcVisited(k), gCAhN == 1), vcImp(!vcVisited(k), gCAhN == 0)))
	})
	c.clearAsyncHandler()
	vcEnsures("C13.every asynchronous call pending on the lost connection is failed, once", vcImp(gCAhOK, gCAhN == 1))
	vcEnsures("C13.no asynchronous call of the lost connection stays registered", !gCAhStill)
}

// ---- streams ----

//@ op rangenext arpc.Client.streamLocalMap
//@ theory clear
func hkClearLocalNext(c *Client, k uint64, s *Stream) {
	vcAssume(vcAnd(s != nil, vcAnd(s.id == k, s.local)))
	vcAssume(vcImp(gCLOK, (k == gCK) == (s == gCL)))
}

//@ op rangenext arpc.Client.streamRemoteMap
//@ theory clear
func hkClearRemoteNext(c *Client, k uint64, s *Stream) {
	vcAssume(vcAnd(s != nil, vcAnd(s.id == k, !s.local)))
	vcAssume(vcImp(gCROK, (k == gCK) == (s == gCR)))
}

//@ extern (*arpc.Stream).CloseRecv
//@ theory clear
func exClearCloseRecv(s *Stream) {
	gCLR = vcIteInt(s == gCL, 1, gCLR)
	gCRR = vcIteInt(s == gCR, 1, gCRR)
}

//@ extern (*arpc.Stream).halfClose
//@ theory clear
func exClearHalf(s *Stream) {}

//@ op unlock arpc.Client.mux
//@ theory clear
func hkClearUnlock(c *Client) {
	if gCLocked == 1 {
		_, a := c.sessionMap[gCK]
		_, b := c.asyncHandlerMap[gCK]
		_, d := c.streamLocalMap[gCK]
		_, e := c.streamRemoteMap[gCK]
		gCSessStill = a
		gCAhStill = b
		gCLStill = d
		gCRStill = e
	}
}

//@ op cas arpc.Stream.stateSend
//@ theory clear
func hkClearStateSend(s *Stream, old int32, new int32, ok bool) {
	vcAssert("C13.the state of a stream only goes from open to closed", vcAnd(old == 0, new == 1))
	gCLS = vcIteInt(s == gCL, 1, gCLS)
	gCRS = vcIteInt(s == gCR, 1, gCRS)
}

//@ contract (*Client).clearStream
//@ property C13 C11
//@ theory clear
func ctClearStream(c *Client, k uint64) {
	gCK = k
	gCLocked = 0
	gCLR = 0
	gCLS = 0
	gCRR = 0
	gCRS = 0
	vcHint("local", func() bool { return vcImp(vcAnd(gCLOK, vcVisited(k)), gCLR == 1) })
	vcHint("locals", func() bool { return vcImp(vcAnd(gCLOK, vcVisited(k)), gCLS == 1) })
	vcHint("remote", func() bool { return vcImp(vcAnd(gCROK, vcVisited(k)), gCRR == 1) })
	vcHint("remotes", func() bool { return vcImp(vcAnd(gCROK, vcVisited(k)), gCRS == 1) })
	vcHint("kept", func() bool { return vcImp(gCLOK, gCLR == 1) })
	vcHint("kepts", func() bool { return vcImp(gCLOK, gCLS == 1) })
	vcHint("kept2", func() bool { return vcImp(gCROK, gCRR == 1) })
	vcHint("kept2s", func() bool { return vcImp(gCROK, gCRS == 1) })
	c.clearStream()
	vcEnsures("C13.every stream pending on the lost connection is closed for receiving", vcAnd(vcImp(gCLOK, gCLR == 1), vcImp(gCROK, gCRR == 1)))
	vcEnsures("C13.every stream pending on the lost connection is closed for sending", vcAnd(vcImp(gCLOK, gCLS == 1), vcImp(gCROK, gCRS == 1)))
	vcEnsures("C13.no stream of the lost connection stays registered", vcAnd(!gCLStill, !gCRStill))
}

// ---- the receiving loop ----

// ghost: what was done since the connection was lost
var gRLost bool
var gRSess, gRAsync, gRStr bool
var gROldClosed bool
var gRConn bool
var gRReader bool
var gRClean int
var gRMsg *Message
var gRMsgOK bool
var gRDialed net.Conn
var gRDialOK bool

func spReconnReset() {
	gRLost = false
	gRConn = true
	gRReader = true
	gRClean = 0
	gRMsgOK = false
	gRDialOK = false
	spReconnHints()
}

func spReconnHints() {
	vcHint("conn", func() bool { return gRConn })
	vcHint("reader", func() bool { return gRReader })
	vcHint("cleared", func() bool { return vcImp(gRLost, vcAnd(gRSess, vcAnd(gRAsync, gRStr))) })
	vcHint("closed", func() bool { return vcImp(gRLost, gROldClosed) })
	vcHint("notlost", func() bool { return !gRLost })
	vcHint("lost", func() bool { return gRLost })
	vcHint("msg", func() bool { return !gRMsgOK })
	vcHint("clean", func() bool { return gRClean == 0 })
}

//@ extern (*arpc.handler).Recv
//@ theory reconn
func exReconnRecv(h *handler, c *Client, m *Message, err error) (*Message, error) {
	vcAssert("C13.a lost connection is given up before anything else is received", !gRLost)
	vcAssert("C13.messages are received from the current connection", vcAnd(gRConn, gRReader))
	vcAssert("C13.nothing is received after the client stopped", gRClean == 0)
	vcAssert("C03.a received message is handled before the next one is received", !gRMsgOK)
	if err != nil {
		gRLost = true
		gRSess = false
		gRAsync = false
		gRStr = false
		gROldClosed = false
		gRConn = false
		gRReader = false
		gRDialOK = false
		return nil, err
	}
	vcAssume(m != nil)
	gRMsg = m
	gRMsgOK = true
	return m, nil
}

//@ extern (*arpc.handler).OnMessage
//@ theory reconn
func exReconnOnMessage(h *handler, c *Client, m *Message) {
	vcAssert("C03.each received message is handled once", vcAnd(gRMsgOK, m == gRMsg))
	gRMsgOK = false
}

//@ extern (*arpc.handler).OnConnected
//@ theory reconn
func exReconnConnected(h *handler, c *Client) {}

//@ extern (*arpc.Client).clearSession
//@ theory reconn
func exReconnClear(c *Client) {
	vcAssert("C13.what is pending is failed once no new operation can join it", c.reconnecting)
	gRSess = true
}

//@ extern (*arpc.Client).clearAsyncHandler
//@ theory reconn
func exReconnClearA(c *Client) {
	vcAssert("C13.what is pending is failed once no new operation can join it", c.reconnecting)
	gRAsync = true
}

//@ extern (*arpc.Client).clearStream
//@ theory reconn
func exReconnClearS(c *Client) {
	vcAssert("C13.what is pending is failed once no new operation can join it", c.reconnecting)
	gRStr = true
}

//@ extern (net.Conn).Close
//@ theory reconn
func exReconnClose(c net.Conn, err error) error {
	gROldClosed = true
	return err
}

//@ op call arpc.Client.Dialer
//@ theory reconn
func hkReconnDial(c *Client, d DialerFunc, conn net.Conn, err error) (net.Conn, error) {
	vcAssume(vcImp(err == nil, conn != nil))
	vcAssert("C13.a connection is replaced only after it was lost", gRLost)
	gRDialed = conn
	gRDialOK = err == nil
	return conn, err
}

//@ op store arpc.Client.Conn
//@ theory reconn
func hkReconnConn(c *Client, conn net.Conn) {
	vcAssert("C13.everything pending on the lost connection is failed before a new one is used", vcAnd(gRLost, vcAnd(gRSess, vcAnd(gRAsync, gRStr))))
	vcAssert("C13.the lost connection is closed before a new one is used", gROldClosed)
	vcAssert("C13.only a connection that was established is used", vcAnd(gRDialOK, conn == gRDialed))
	gRConn = true
	gRLost = false
}

//@ op store arpc.Client.Reader
//@ theory reconn
func hkReconnReader(c *Client, r io.Reader) { gRReader = gRConn }

//@ op store arpc.Client.reconnecting
//@ theory reconn
func hkReconnFlag(c *Client, v bool) {
	vcAssert("C13.operations are let through only once a new connection is in place", vcImp(!v, gRConn))
	vcAssert("C13.operations are held back only while the connection is lost", vcImp(v, gRLost))
}

//@ extern (*arpc.Client).closeAndClean
//@ theory reconn
func exReconnClean(c *Client) {
	vcAssert("C13.the stop signal is raised once", gRClean == 0)
	gRClean++
}

//@ extern time.Sleep
//@ theory reconn
func exReconnSleep(d time.Duration) {}

//@ contract (*Client).recvLoop
//@ property C13 C03 C12
//@ theory reconn
//@ volatile arpc.Client.running
func ctRecvLoop(c *Client) {
	vcRequires(vcAnd(c.Conn != nil, c.Handler != nil))
	vcRequires(!c.reconnecting)
	spReconnReset()
	dial := c.Dialer != nil
	c.recvLoop()
	vcEnsures("C13.a receiving loop ends by raising the stop signal, once", gRClean == 1)
	vcEnsures("C13.a client that gives up has failed everything pending on its connection", vcImp(vcAnd(dial, gRLost), vcAnd(gRSess, vcAnd(gRAsync, gRStr))))
	vcEnsures("C03.every received message was handled", !gRMsgOK)
}

// ---- stopping ----

var gStopSig int
var gStopCb int
var gStopDisc int
var gStopConn int
var gStopCli *Client

//@ op close arpc.Client.chClose
//@ theory stop
func hkStopClose(c *Client) {
	vcAssert("C13.the stop signal is raised once", gStopSig == 0)
	vcAssert("C13.a client that raises its stop signal is no longer running", !c.running)
	vcAssert("C13.only the client's own stop signal is raised", c == gStopCli)
	gStopSig++
}

//@ op call arpc.Client.onStop
//@ theory stop
func hkStopCb(c *Client, f func(*Client), arg *Client) {
	vcAssert("C12.the server is told which connection ended", vcAnd(c == gStopCli, arg == c))
	vcAssert("C12.the server is told about the end of a connection without the client's lock", vcLocks() == 0)
	gStopCb++
}

//@ op call arpc.handler.onDisConnected
//@ theory stop
func hkStopDisc(h *handler, f func(*Client), c *Client) {
	vcAssert("C12.the disconnect of the client itself is reported", c == gStopCli)
	vcAssert("C12.the disconnect is reported after the connection ended", vcAnd(gStopConn > 0, !c.running))
	gStopDisc++
}

//@ extern (net.Conn).Close
//@ theory stop
func exStopConn(c net.Conn, err error) error {
	gStopConn++
	return err
}

//@ contract (*Client).closeAndClean
//@ property C13 C12
//@ theory stop
func ctCloseAndClean(c *Client) {
	vcRequires(vcAnd(c.Conn != nil, vcAnd(c.Handler != nil, c.chClose != nil)))
	gStopCli = c
	gStopSig = 0
	gStopCb = 0
	gStopDisc = 0
	gStopConn = 0
	cb := c.onStop != nil
	h := c.Handler.(*handler)
	disc := h.onDisConnected != nil
	c.closeAndClean()
	vcEnsures("C13.stopping raises the stop signal, once", gStopSig == 1)
	vcEnsures("C13.a stopped client does not run", !c.running)
	vcEnsures("C13.stopping closes the connection", gStopConn > 0)
	vcEnsures("C12.the end of a connection is told to its server exactly once", vcImp(cb, gStopCb == 1))
	vcEnsures("C12.a disconnect is reported exactly once", vcImp(disc, gStopDisc == 1))
}

//@ contract (*Client).Stop
//@ property C13
//@ theory stop
func ctStop(c *Client) {
	vcRequires(vcAnd(c.Conn != nil, c.Handler != nil))
	gStopCli = c
	gStopConn = 0
	gStopSig = 0
	c.Stop()
	vcEnsures("C13.a stopped client does not run", !c.running)
	vcEnsures("C13.stopping closes the connection, which ends the receiving loop", gStopConn > 0)
	vcEnsures("C13.the stop signal is left to the end of the receiving loop", gStopSig == 0)
}

// ---- starting ----

var gStartRecv int
var gStartSend int

//@ op go (*arpc.Client).recvLoop
//@ theory start
func hkGoRecv(f func()) { gStartRecv++ }

//@ op go (*arpc.Client).sendLoop
//@ theory start
func hkGoSend(f func()) { gStartSend++ }

func spStarted(c *Client) bool {
	h := c.Handler.(*handler)
	x := vcAnd(c.running, vcAnd(!c.reconnecting, c.chClose != nil))
	x = vcAnd(x, vcAnd(gStartRecv == 1, vcAnd(vcImp(h.asyncWrite, vcAnd(gStartSend == 1, c.chSend != nil)), vcImp(!h.asyncWrite, gStartSend == 0))))
	return x
}

func spEmptyMaps(c *Client, k uint64) bool {
	_, a := c.sessionMap[k]
	_, b := c.asyncHandlerMap[k]
	_, d := c.streamLocalMap[k]
	_, e := c.streamRemoteMap[k]
	return vcAnd(vcAnd(!a, !b), vcAnd(!d, !e))
}

func spMapsMade(c *Client) bool {
	return vcAnd(vcAnd(c.sessionMap != nil, c.asyncHandlerMap != nil), vcAnd(c.streamLocalMap != nil, c.streamRemoteMap != nil))
}

//@ contract newClientWithConn
//@ property C13 C12
//@ theory start
//@ opt seq
func ctNewClientWithConn(conn net.Conn, cc codec.Codec, h Handler, onStop func(*Client), k uint64) *Client {
	vcRequires(vcAnd(conn != nil, h != nil))
	gStartRecv = 0
	gStartSend = 0
	c := newClientWithConn(conn, cc, h, onStop)
	vcEnsures("C13.a new connection has its stop signal, in every write mode", c.chClose != nil)
	vcEnsures("C13.a new connection runs its loops", spStarted(c))
	vcEnsures("C13.a new connection has nothing pending", vcAnd(spEmptyMaps(c, k), spMapsMade(c)))
	vcEnsures("C12.a new connection tells its server when it ends", vcAnd(vcId(c.onStop) == vcId(onStop), c.Conn == conn))
	return c
}


//@ contract NewClient
//@ property C13
//@ theory start
//@ opt seq
func ctNewDialed(dialer DialerFunc, h Handler, k uint64) (*Client, error) {
	vcRequires(vcAnd(dialer != nil, h != nil))
	gStartRecv = 0
	gStartSend = 0
	c, err := NewClient(dialer, h)
	vcEnsures("C13.a client without a connection is not created", vcIff(err == nil, c != nil))
	if err == nil {
		vcEnsures("C13.a new client has its stop signal, in every write mode", c.chClose != nil)
		vcEnsures("C13.a new client runs its loops", spStarted(c))
		vcEnsures("C13.a new client has nothing pending", vcAnd(spEmptyMaps(c, k), spMapsMade(c)))
		vcEnsures("C13.a new client reconnects with its dialer", vcId(c.Dialer) == vcId(dialer))
	}
	return c, err
}

var gReDial net.Conn
var gReDialErr error

//@ op call arpc.Client.Dialer
//@ theory start
func hkRestartDial(c *Client, d DialerFunc, conn net.Conn, err error) (net.Conn, error) {
	vcAssume(vcImp(err == nil, conn != nil))
	gReDial = conn
	gReDialErr = err
	return conn, err
}

//@ contract (*Client).Restart
//@ property C13
//@ theory start
//@ opt seq
func ctRestart(c *Client, k uint64) error {
	vcRequires(vcAnd(c.Conn != nil, vcAnd(c.Handler != nil, c.Dialer != nil)))
	gStartRecv = 0
	gStartSend = 0
	old := c.chClose
	err := c.Restart()
	vcEnsures("C13.a failed restart is reported", err == gReDialErr)
	if err == nil {
		vcEnsures("C13.a restarted client runs its loops", spStarted(c))
		vcEnsures("C13.a restarted client has nothing pending", vcAnd(spEmptyMaps(c, k), spMapsMade(c)))
		vcEnsures("C13.a restarted client uses the new connection", c.Conn == gReDial)
		vcEnsures("C13.a restarted client has a stop signal of its own", c.chClose != old)
	}
	return err
}
