package websocket

import (
	"net"
	"net/http"

	"github.com/gorilla/websocket"
)

// C19: the websocket adapter.

// ghost: the message the reader is in, how often one was read or written, and how the last read or
// write ended
var gIn []byte
var gReads int
var gInErr error
var gC *Conn
var gWrites int
var gOut []byte
var gOutType int
var gOutErr error

//@ extern (*websocket.Conn).ReadMessage
func exReadMessage(c *websocket.Conn, typ int, p []byte, err error) (int, []byte, error) {
	vcAssert("C19.a new message is read only after the last one was consumed", len(gC.buffer) == 0)
	vcAssert("C19.reading stops at an error", gInErr == nil)
	gReads++
	gInErr = err
	if err != nil {
		vcAssume(len(p) == 0)
	}
	gIn = p
	vcAssume(vcArrayId(p) != vcArrayId(gB))
	return typ, p, err
}

var gB []byte

//@ contract (*Conn).Read
//@ property C19
//@ panicfree
func ctRead(c *Conn, b []byte, i int) (int, error) {
	vcRequires(c.Conn != nil)
	vcRequires(vcArrayId(c.buffer) != vcArrayId(b))
	gC = c
	gB = b
	gIn = c.buffer
	gReads = 0
	gInErr = nil
	old := len(c.buffer)
	n, err := c.Read(b)
	vcEnsures("C19.buffered bytes are delivered before the next message", vcImp(old > 0, gReads == 0))
	if err != nil {
		vcCover("error")
		vcEnsures("C19.an error delivers nothing", vcAnd(n == 0, err == gInErr))
		return n, err
	}
	vcEnsures("C19.a failed read is reported", gInErr == nil)
	vcEnsures("C19.the read fits", vcAnd(0 <= n, vcAnd(n <= len(b), n <= len(gIn))))
	vcEnsures("C19.the read makes progress", vcOr(n > 0, vcOr(len(b) == 0, len(gIn) == 0)))
	vcEnsures("C19.the rest of the message stays", len(c.buffer) == len(gIn)-n)
	if vcAnd(0 <= i, i < n) {
		vcCover("byte")
		vcEnsures("C19.the next bytes of the message are delivered", b[i] == gIn[i])
	}
	if vcAnd(n <= i, i < len(gIn)) {
		vcCover("rest")
		vcEnsures("C19.the rest of the message is unchanged", c.buffer[i-n] == gIn[i])
	}
	return n, err
}

//@ extern (*websocket.Conn).WriteMessage
func exWriteMessage(c *websocket.Conn, typ int, data []byte, err error) error {
	gWrites++
	gOut = data
	gOutType = typ
	gOutErr = err
	return err
}

//@ contract (*Conn).Write
//@ property C19
//@ panicfree
func ctWrite(c *Conn, b []byte) (int, error) {
	vcRequires(c.Conn != nil)
	gWrites = 0
	n, err := c.Write(b)
	vcEnsures("C19.one message is written", gWrites == 1)
	vcEnsures("C19.it holds the caller's bytes", vcAnd(len(gOut) == len(b), vcBytesEq(gOut, b)))
	vcEnsures("C19.it is a binary message", gOutType == websocket.BinaryMessage)
	vcEnsures("C19.the write reports its outcome", vcAnd(err == gOutErr, n == vcIteInt(err == nil, len(b), 0)))
	return n, err
}

// ghost: what became of the upgraded connection
var gUp *websocket.Conn
var gDelivered int
var gClosed int

//@ extern (*websocket.Upgrader).Upgrade
func exUpgrade(u *websocket.Upgrader, w http.ResponseWriter, r *http.Request, h http.Header, c *websocket.Conn, err error) (*websocket.Conn, error) {
	vcAssume(vcIff(c != nil, err == nil))
	gUp = c
	return c, err
}

//@ extern (*websocket.Conn).Close
func exClose(c *websocket.Conn, err error) error {
	vcAssert("C19.only the undelivered connection is closed", vcAnd(c == gUp, gDelivered == 0))
	gClosed++
	return err
}

//@ op send websocket.Listener.chAccept
func hkSend(ln *Listener, c net.Conn) {
	wc, ok := c.(*Conn)
	vcAssert("C19.the accepted connection wraps the upgraded one", vcAnd(ok, vcAnd(wc.Conn == gUp, len(wc.buffer) == 0)))
	vcAssert("C19.a closed connection is not delivered", gClosed == 0)
	gDelivered++
}

//@ contract (*Listener).Handler
//@ property C19
//@ panicfree
func ctHandler(ln *Listener, w http.ResponseWriter, r *http.Request) {
	vcRequires(vcAnd(ln.upgrader != nil, vcAnd(w != nil, r != nil)))
	vcRequires(vcAnd(ln.chAccept != nil, ln.chClose != nil))
	gUp = nil
	gDelivered = 0
	gClosed = 0
	ln.Handler(w, r)
	vcEnsures("C19.an upgraded connection is delivered once or closed", vcImp(gUp != nil, gDelivered+gClosed == 1))
	vcEnsures("C19.nothing is delivered without a connection", vcImp(gUp == nil, gDelivered == 0))
}

var gTaken net.Conn
var gTakes int
var gLnClosed bool

//@ op recv websocket.Listener.chAccept
func hkTake(ln *Listener, c net.Conn, ok bool) {
	vcAssume(ok)
	gTaken = c
	gTakes++
}

//@ op recv websocket.Listener.chClose
func hkLnClosed(ln *Listener) { gLnClosed = true }

//@ contract (*Listener).Accept
//@ property C19
//@ panicfree
func ctAccept(ln *Listener) (net.Conn, error) {
	vcRequires(vcAnd(ln.chAccept != nil, ln.chClose != nil))
	gTakes = 0
	gLnClosed = false
	c, err := ln.Accept()
	vcEnsures("C19.accept returns a delivered connection or the closed error", vcOr(vcAnd(err == nil, vcAnd(gTakes == 1, c == gTaken)), vcAnd(err == ErrClosed, vcAnd(gTakes == 0, gLnClosed))))
	return c, err
}
