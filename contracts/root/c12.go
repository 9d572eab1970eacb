package arpc

import (
	"net"
	"time"

	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/util"
)

// C12: the load counts the accepted connections that were neither refused nor ended.

//@ guarded arpc.Server.mux clients

// ghost: the connection accepted last
var gAccConn net.Conn
var gAccOK bool
var gAccLoad int  // what it adds to the load
var gAccNew int64 // the load right after it was counted
var gAccClosed int
var gAccServed int
var gAccCli *Client
var gAccEnded bool // it ended before the server knew it
var gAccIn bool
var gAccSaw bool
var gAccAdded int
var gAccRep int
var gSrvStop int
var gSrvCleared int
var gAccFork bool

func spAccDone(s *Server) bool {
	served := vcAnd(gAccServed == 1, vcAnd(gAccLoad == 1, gAccClosed == 0))
	refused := vcAnd(gAccServed == 0, vcAnd(gAccLoad == 0, gAccClosed > 0))
	return vcImp(gAccOK, vcOr(served, refused))
}

func spAccKnown(s *Server) bool {
	return vcImp(vcAnd(gAccOK, gAccServed == 1), vcAnd(gAccAdded == 1, vcAnd(vcImp(gAccEnded, !gAccIn), vcImp(!gAccIn, gAccSaw))))
}

func spAccReset() {
	gAccOK = false
	gAccLoad = 0
	gSrvStop = 0
	gSrvCleared = 0
	gAccFork = false
}

//@ extern (net.Listener).Accept
//@ theory accept
func exAccept(l net.Listener, conn net.Conn, err error) (net.Conn, error) {
	vcAssert("C12.the load counts each accepted connection that is served, and no other", spAccDone(nil))
	vcAssert("C12.a served connection is known to the server until it ends", spAccKnown(nil))
	vcAssert("C12.the load changes only with a connection", vcImp(!gAccOK, gAccLoad == 0))
	gAccOK = err == nil
	gAccLoad = 0
	gAccClosed = 0
	gAccServed = 0
	gAccAdded = 0
	gAccRep = 0
	gAccEnded = false
	gAccSaw = false
	gAccIn = false
	gAccNew = 0
	gAccConn = conn
	vcAssume(vcImp(err == nil, conn != nil))
	return conn, err
}

//@ op atomicadd arpc.Server.CurrLoad
//@ theory accept
func hkLoad(s *Server, d int64, n int64) {
	vcAssume(vcAnd(n > -1<<62, n < 1<<62))
	gAccLoad = gAccLoad + int(d)
	gAccNew = n
}

//@ op atomicload arpc.Server.CurrLoad
//@ theory accept
func hkLoadRead(s *Server, n int64) {}

//@ extern (net.Conn).Close
//@ theory accept
func exAcceptClose(c net.Conn, err error) error {
	vcAssert("C12.only a connection beyond the limit is refused", vcAnd(gAccOK, c == gAccConn))
	vcAssert("C12.a connection within the limit is not refused", vcAnd(gAccMax > 0, gAccNew > gAccMax))
	gAccClosed++
	return err
}

var gAccMax int64
var gForkDel, gForkSub int

//@ extern arpc.newClientWithConn
//@ theory accept
func exAcceptServe(conn net.Conn, cc codec.Codec, h Handler, onStop func(*Client)) *Client {
	vcAssert("C12.a connection is served once, and not after it was refused", vcAnd(gAccOK, vcAnd(conn == gAccConn, vcAnd(gAccServed == 0, gAccClosed == 0))))
	vcAssert("C12.a connection is counted before it is served", gAccLoad == 1)
	vcAssert("C12.a connection beyond the limit is never served", vcOr(gAccMax <= 0, gAccNew <= gAccMax))
	c := &Client{Conn: conn, Handler: h, running: true, onStop: onStop}
	gAccServed++
	gAccCli = c
	if onStop != nil {
		vcFork(func() {
			gAccFork = true
			gForkDel = 0
			gAccLoad = 0
			onStop(c)
			vcAssert("C12.when a served connection ends the server forgets it", gForkDel == 1)
			vcAssert("C12.when a served connection ends the load falls by one, once", gAccLoad == -1)
			vcAssert("C12.the end of a connection leaves no lock held", vcLocks() == 0)
		})
	} else {
		vcAssert("C12.the server learns of the end of each served connection", false)
	}
	return c
}

//@ op mapset arpc.Server.clients
//@ theory accept
func hkAccAdd(s *Server, c *Client, e util.Empty, ended bool) {
	vcAssert("C12.what is added is the served connection, under the lock", vcAnd(c == gAccCli, vcAnd(gAccServed == 1, vcHeld(&s.mux))))
	gAccAdded++
	gAccIn = true
	gAccEnded = gAccAddedEnded
}

var gAccAddedEnded bool

//@ op load arpc.Client.running
//@ theory accept
func hkAccRunning(c *Client, v bool) {
	vcAssume(vcImp(vcAnd(c == gAccCli, gAccEnded), !v))
	gAccSaw = vcOr(gAccSaw, vcAnd(c == gAccCli, !v))
}

//@ op mapdelete arpc.Server.clients
//@ theory accept
func hkAccDel(s *Server, c *Client) {
	vcAssert("C12.a connection is forgotten under the lock", vcHeld(&s.mux))
	if gAccFork {
		vcAssert("C12.only the connection that ended is forgotten", c == gAccCli)
		gForkDel++
	} else {
		vcAssert("C12.only a connection that ended is forgotten", vcAnd(c == gAccCli, gAccIn))
		gAccIn = false
	}
}

//@ op call arpc.handler.onConnected
//@ theory accept
func hkAccConnected(h *handler, f func(*Client), c *Client) {
	vcAssert("C12.a served connection is reported once", vcAnd(c == gAccCli, vcAnd(gAccServed == 1, gAccRep == 0)))
	gAccRep++
}

//@ extern (*arpc.Server).clearClients
//@ theory accept
func exAccClear(s *Server) { gSrvCleared++ }

//@ op close arpc.Server.chStop
//@ theory accept
func hkAccStop(s *Server) {
	vcAssert("C12.the connections of a stopped server are ended before it reports its stop", gSrvCleared == 1)
	gSrvStop++
}

//@ extern time.Sleep
//@ theory accept
func exAccSleep(d time.Duration) {}

//@ extern (net.Error).Temporary
//@ theory accept
func exAccTemp(e net.Error, b bool) bool { return b }

//@ contract (*Server).runLoop
//@ property C12
//@ theory accept
//@ volatile arpc.Server.running arpc.Client.running
func ctRunLoop(s *Server, ended bool) error {
	vcRequires(vcAnd(s.Listener != nil, vcAnd(s.Handler != nil, vcAnd(s.clients != nil, s.chStop != nil))))
	spAccReset()
	gAccMax = s.MaxLoad
	gAccAddedEnded = ended
	vcHint("done", func() bool { return spAccDone(s) })
	vcHint("known", func() bool { return spAccKnown(s) })
	vcHint("none", func() bool { return vcImp(!gAccOK, gAccLoad == 0) })
	vcHint("max", func() bool { return gAccMax == s.MaxLoad })
	vcHint("fork", func() bool { return !gAccFork })
	vcHint("stop", func() bool { return vcAnd(gSrvStop == 0, gSrvCleared == 0) })
	err := s.runLoop()
	vcEnsures("C12.the load counts each accepted connection that is served, and no other", spAccDone(s))
	vcEnsures("C12.a served connection is known to the server until it ends", spAccKnown(s))
	vcEnsures("C12.the load changes only with a connection", vcImp(!gAccOK, gAccLoad == 0))
	vcEnsures("C12.a server that stops accepting ends its connections and says so, once", vcAnd(gSrvCleared == 1, gSrvStop == 1))
	return err
}
