package listener

import (
	"net"
)

// C19: the split listener.

// ghost: the connection accepted last, whether it still has to be handed on, and where it went
var gCur net.Conn
var gPending bool
var gToA bool
var gGoneA int
var gGoneB int
var gClosed int

// ghost: whether the first side was seen below and at its limit since the connection came, and
// what this loop added to its count for the connection
var gBelow bool
var gFull bool
var gAdded int32

//@ extern (net.Listener).Accept
func exAccept(l net.Listener, c net.Conn, err error) (net.Conn, error) {
	vcAssert("C19.every accepted connection is handed on or closed", !gPending)
	vcAssert("C19.only a connection of the first side stays counted", gAdded == spIteI32(gToA, 1, 0))
	gAdded = 0
	gBelow = false
	gFull = false
	gToA = false
	if err == nil {
		vcAssume(c != nil)
		gCur = c
		gPending = true
	}
	return c, err
}

func spIteI32(c bool, a, b int32) int32 {
	if c {
		return a
	}
	return b
}

//@ extern (net.Conn).Close
func exClose(c net.Conn, err error) error {
	vcAssert("C19.only a connection that could not be delivered is closed", vcAnd(gPending, c == gCur))
	gPending = false
	gClosed++
	return err
}

//@ op atomicadd listener.Listener.onlineA
func hkAddA(l *Listener, d int32, v int32) {
	// there are far fewer connections than 2^31
	vcAssume(vcAnd(0 <= v-d, v-d < 1<<31-1))
	spSeen(l, v-d-gAdded)
	gAdded += d
}

func spSeen(l *Listener, n int32) {
	gBelow = vcOr(gBelow, n < l.maxOnlineA)
	gFull = vcOr(gFull, n >= l.maxOnlineA)
}

//@ op atomicload listener.Listener.onlineA
func hkLoadA(l *Listener, v int32) { spSeen(l, v-gAdded) }

// Connections of the first side end at any time.
//
//@ volatile listener.Listener.onlineA

//@ op send listener.Listener.chEventA
func hkSendA(l *Listener, e event) {
	if vcChoice() {
		// the listener was closed
		gToA = true
		panic("send on closed channel")
	}
	vcAssert("C19.an accepted connection goes to exactly one side", vcAnd(gPending, vcAnd(e.conn == gCur, e.err == nil)))
	vcAssert("C19.the first side is used only below its limit, and counted", vcAnd(gBelow, gAdded == 1))
	gPending = false
	gToA = true
	gGoneA++
}

//@ op send listener.Listener.chEventB
func hkSendB(l *Listener, e event) {
	vcAssert("C19.the second side is used only at the first side's limit", gFull)
	if vcChoice() {
		panic("send on closed channel")
	}
	vcAssert("C19.an accepted connection goes to exactly one side", vcAnd(gPending, vcAnd(e.conn == gCur, e.err == nil)))
	gPending = false
	gGoneB++
}

//@ contract (*Listener).Run
//@ property C19
func ctRun(l *Listener) {
	vcRequires(vcAnd(l.listener != nil, vcAnd(l.chEventA != nil, l.chEventB != nil)))
	vcRequires(l.maxOnlineA >= 0)
	gPending = false
	gAdded = 0
	gToA = false
	vcHint("nothing pending", func() bool { return !gPending })
	vcHint("counted", func() bool { return gAdded == spIteI32(gToA, 1, 0) })
	l.Run()
	vcEnsures("C19.nothing accepted is left behind", !gPending)
	vcEnsures("C19.Run ends without a crash", !vcPanicked())
}

//@ op recv listener.ChanListener.chEvent
func hkRecv(l *ChanListener, e event, ok bool) {
	gEv = e
	gEvOk = ok
	gRecvs++
}

var gEv event
var gEvOk bool
var gRecvs int

//@ contract (*ChanListener).Accept
//@ property C19
//@ panicfree
func ctChanAccept(l *ChanListener) (net.Conn, error) {
	vcRequires(net.ErrClosed != nil)
	gRecvs = 0
	c, err := l.Accept()
	vcEnsures("C19.one connection is taken per accept", gRecvs == 1)
	vcEnsures("C19.the delivered connection is returned", vcImp(gEvOk, vcAnd(c == gEv.conn, err == gEv.err)))
	vcEnsures("C19.a closed side returns an error and no connection", vcImp(!gEvOk, vcAnd(c == nil, err != nil)))
	return c, err
}

//@ contract (*Listener).Listeners
//@ property C19
func ctListeners(l *Listener) (net.Listener, net.Listener) {
	vcRequires(l.listener != nil)
	a, b := l.Listeners()
	ca, oka := a.(*ChanListener)
	cb, okb := b.(*ChanListener)
	vcEnsures("C19.the first listener is the first side", vcAnd(oka, ca.chEvent == l.chEventA))
	vcEnsures("C19.the second listener is the second side", vcAnd(okb, cb.chEvent == l.chEventB))
	return a, b
}

//@ contract (*Listener).OfflineA
//@ property C19
//@ opt seq
func ctOffline(l *Listener) {
	vcRequires(l.onlineA > 0)
	gAdded = 0
	l.OfflineA()
	vcEnsures("C19.an ended connection is uncounted once", gAdded == -1)
}

//@ extern net.Listen
func exListen(network, addr string, l net.Listener, err error) (net.Listener, error) {
	vcAssume(vcIff(l == nil, err != nil))
	return l, err
}

//@ contract Listen
//@ property C19
//@ panicfree
func ctListen(network string, addr string, maxOnlineA int, logtag string) (*Listener, error) {
	vcRequires(maxOnlineA <= 1<<31-1)
	l, err := Listen(network, addr, maxOnlineA, logtag)
	if err == nil {
		vcCover("listening")
		want := maxOnlineA
		if want < 0 {
			want = 0
		}
		vcEnsures("C19.the limit is the requested one", int(l.maxOnlineA) == want)
		vcEnsures("C19.no connection is counted at first", vcAnd(l.onlineA == 0, l.listener != nil))
		vcEnsures("C19.the sides are separate", vcAnd(l.chEventA != l.chEventB, vcAnd(l.chEventA != nil, l.chEventB != nil)))
	} else {
		vcEnsures("C19.no listener with an error", l == nil)
	}
	return l, err
}
