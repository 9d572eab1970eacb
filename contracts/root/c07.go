package arpc

import "net"

// C07, C08: the sending side of a connection.
//
// The sender owns the message it took from the queue until it has been written, copied into the
// batch, dropped or handed back.

// ghost: the message the sender holds, how far it got, and the batch
var gHold *Message
var gHoldOK bool // a message is held that was neither written nor copied nor dropped
var gHoldMine bool
var gHoldEnc int
var gBatch int
var gBatchBuf []byte
var gSendClosing bool
var gSendFailed bool
var gTakenN int

func spSenderReset(c *Client) {
	gHold = nil
	gHoldOK = false
	gHoldMine = false
	gHoldEnc = 0
	gBatch = 0
	gSendClosing = false
	gSendFailed = false
	gNCoders = len(c.Handler.(*handler).msgCoders)
}

//@ op recv arpc.Client.chSend
//@ theory sender
func hkTakeMsg(c *Client, m *Message, ok bool) {
	vcAssume(ok)
	vcAssume(m != nil)
	vcAssume(vcAnd(len(m.Buffer) >= 16, len(m.Buffer) <= 1<<34))
	vcAssert("C07.a message taken from the queue is sent before the next one is taken", vcOr(gSendClosing, !gHoldOK))
	vcAssert("C07.a connection whose write failed is closed", !gSendFailed)
	vcAssert("C08.a message taken from the queue is handed back before the next one is taken", vcOr(gSendClosing, vcOr(!gHoldMine, c.Handler.(*handler).onMessageDone == nil)))
	gHold = m
	gHoldOK = true
	gHoldMine = true
	gHoldEnc = 0
}

//@ op recv arpc.Client.chClose
//@ theory sender
func hkSenderClose(c *Client) {
	vcAssert("C07.everything taken from the queue was sent before the sender stops", vcAnd(!gHoldOK, gBatch == 0))
	gSendClosing = true
}

//@ op load arpc.handler.msgCoders[]
//@ theory sender
func hkSenderCoder(h *handler, m MessageCoder, i int) {
	vcAssume(m != nil)
	vcAssert("C07.outgoing messages pass the coders in registration order, each once", i == gHoldEnc)
}

//@ extern (arpc.MessageCoder).Encode
//@ theory sender
func exSenderEncode(m MessageCoder, c *Client, msg *Message, out *Message) *Message {
	vcAssert("C07.each coder gets what the one before it returned", vcAnd(msg == gHold, vcAnd(gHoldOK, gHoldMine)))
	vcAssume(out != nil)
	vcAssume(vcAnd(len(out.Buffer) >= 16, len(out.Buffer) <= 1<<34))
	gHoldEnc++
	gHold = out
	return out
}

// Append returns the old bytes followed by the new ones (C14).
//
//@ extern (*arpc.handler).Append
//@ theory sender
func exSenderAppend(h *handler, b []byte, more []byte, out []byte) []byte {
	vcAssert("C07.frames are added to the end of the batch", vcAnd(len(b) == gBatch, vcOr(gBatch == 0, vcAnd(vcSameArray(b, gBatchBuf), vcArrayOff(b) == vcArrayOff(gBatchBuf)))))
	vcAssert("C07.what is batched is the whole frame as the coders left it", vcAnd(vcSameArray(more, gHold.Buffer), vcAnd(vcArrayOff(more) == vcArrayOff(gHold.Buffer), len(more) == len(gHold.Buffer))))
	vcAssert("C07.a message is batched once, in queue order", vcAnd(gHoldOK, gHoldMine))
	vcAssert("C07.a message passes every coder before it is batched", gHoldEnc == gNCoders)
	vcAssume(len(out) == len(b)+len(more))
	gBatch = len(out)
	gBatchBuf = out
	gHoldOK = false
	return out
}

//@ extern (*arpc.handler).Malloc
//@ theory sender
func exSenderMalloc(h *handler, size int) []byte {
	b := make([]byte, size)
	vcHavoc(b)
	gBatchBuf = b
	return b
}

//@ extern (net.Conn).Write
//@ theory sender
func exSenderWrite(c net.Conn, b []byte, n int, err error) (int, error) {
	if gBatch == 0 {
		vcAssert("C07.what is written is the whole frame as the coders left it", vcAnd(vcSameArray(b, gHold.Buffer), vcAnd(vcArrayOff(b) == vcArrayOff(gHold.Buffer), len(b) == len(gHold.Buffer))))
		vcAssert("C07.a message is written once, in queue order", vcAnd(gHoldOK, gHoldMine))
		vcAssert("C07.a message passes every coder before it is written", gHoldEnc == gNCoders)
	} else {
		vcAssert("C07.what is written is the whole batch", vcAnd(vcSameArray(b, gBatchBuf), vcAnd(vcArrayOff(b) == vcArrayOff(gBatchBuf), len(b) == gBatch)))
		vcAssert("C07.no message is left out of the batch", !gHoldOK)
	}
	gHoldOK = false
	gBatch = 0
	if err != nil {
		gSendFailed = true
	}
	return n, err
}

//@ op call arpc.handler.beforeSend
//@ theory sender
func hkSenderBefore(h *handler, f func(net.Conn) error, c net.Conn, err error) error {
	if err != nil {
		// the connection is given up: what it was to carry is lost with it
		gSendFailed = true
		gHoldOK = false
		gBatch = 0
	}
	return err
}

//@ extern (net.Conn).Close
//@ theory sender
func exSenderClose(c net.Conn, err error) error {
	gSendFailed = false
	return err
}

//@ op call arpc.handler.onMessageDone
//@ theory sender
func hkSenderDone(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	vcAssert("C08.the sender hands back the message it holds, once", vcAnd(m == gHold, gHoldMine))
	vcAssert("C08.a message is handed back only after it was written or copied", vcOr(gSendClosing, !gHoldOK))
	gHoldMine = false
	gHoldOK = false
	m.Buffer = nil
}

// While the connection is lost messages are dropped (see ctDrop).
//
//@ extern (*arpc.Client).dropMessage
//@ theory sender
func exSenderDrop(c *Client, m *Message) {
	vcAssert("C07.a message is dropped only while the connection is lost", gSenderRecon)
	vcAssert("C08.the sender drops the message it holds, once", vcAnd(m == gHold, gHoldMine))
	gHoldMine = false
	gHoldOK = false
	m.Buffer = nil
}

var gSenderRecon bool

//@ op load arpc.Client.reconnecting
//@ theory sender
func hkSenderRecon(c *Client, v bool) { gSenderRecon = v }

func spSenderPre(c *Client) bool {
	return vcAnd(spCliOK(c), spCodersOK(c.Handler))
}

//@ contract (*Client).normalSendLoop
//@ property C07 C08
//@ theory sender
//@ volatile arpc.Client.reconnecting
//@ panicfree
func ctNormalSendLoop(c *Client) {
	vcRequires(spSenderPre(c))
	spSenderReset(c)
	vcHint("held", func() bool {
		return vcAnd(vcImp(gHoldMine, vcAnd(gHold != nil, vcAnd(len(gHold.Buffer) >= 16, len(gHold.Buffer) <= 1<<34))), vcImp(gHoldOK, gHoldMine))
	})
	vcHint("done", func() bool {
		return vcOr(!gHoldMine, c.Handler.(*handler).onMessageDone == nil)
	})
	c.normalSendLoop()
	vcEnsures("C07.the sender ends only when the client stops", gSendClosing)
}

//@ contract (*Client).batchSendLoop
//@ property C07 C08
//@ theory sender
//@ volatile arpc.Client.reconnecting
//@ panicfree
func ctBatchSendLoop(c *Client) {
	vcRequires(spSenderPre(c))
	spSenderReset(c)
	vcHint("held", func() bool {
		return vcAnd(vcImp(gHoldMine, vcAnd(gHold != nil, vcAnd(len(gHold.Buffer) >= 16, len(gHold.Buffer) <= 1<<34))), vcImp(gHoldOK, gHoldMine))
	})
	vcHint("batch not negative", func() bool { return 0 <= gBatch })
	vcHint("a held message is the first of its batch", func() bool { return vcImp(gHoldOK, gBatch == 0) })
	vcHint("nothing held means something batched", func() bool { return vcOr(gHoldOK, gBatch > 0) })
	vcHint("a held message is not encoded yet", func() bool { return vcImp(gHoldOK, gHoldEnc == 0) })
	vcHint("done", func() bool {
		return vcOr(!gHoldMine, vcOr(gHoldOK, c.Handler.(*handler).onMessageDone == nil))
	})
	c.batchSendLoop()
	vcEnsures("C07.the sender ends only when the client stops", gSendClosing)
}

// ghost: which loop ran
var gLoops int
var gLoopBatch bool

//@ extern (*arpc.Client).batchSendLoop
//@ theory sendloop
func exBatchLoop(c *Client) {
	gLoops++
	gLoopBatch = true
}

//@ extern (*arpc.Client).normalSendLoop
//@ theory sendloop
func exNormalLoop(c *Client) {
	gLoops++
	gLoopBatch = false
}

//@ contract (*Client).sendLoop
//@ property C07
//@ theory sendloop
func ctSendLoop(c *Client) {
	vcRequires(spCliOK(c))
	gLoops = 0
	c.sendLoop()
	vcEnsures("C07.one send loop runs, of the kind configured", vcAnd(gLoops == 1, gLoopBatch == c.Handler.(*handler).batchSend))
}
