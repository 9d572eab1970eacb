package arpc

import (
	"context"
	"io"

	"github.com/lesismal/arpc/codec"
)

// C11, C08: the receiving side of a stream.

// ghost: the frame taken from the queue, and what became of it
var gFrame *Message
var gFrameOK bool
var gFrames int
var gFrameDone int
var gFrameQueued int
var gFrameBuf []byte
var gDecoded int
var gDecodedData []byte
var gDecodedErr error
var gDecodedTo interface{}
var gRecvExpired bool
var gRecvStopped bool
var gRecvSawClosed bool
var gQueueEmpty bool

func spRecvReset() {
	gFrames = 0
	gFrameDone = 0
	gFrameQueued = 0
	gDecoded = 0
	gRecvExpired = false
	gRecvStopped = false
	gRecvSawClosed = false
	gQueueEmpty = false
}

//@ op recv arpc.Stream.chData
//@ theory srecv
func hkFrame(s *Stream, m *Message, ok bool) {
	vcAssume(ok == (m != nil))
	vcAssume(vcImp(ok, vcAnd(len(m.Buffer) >= 16, spValid(m))))
	gFrames++
	gFrame = m
	gFrameOK = ok
	if ok {
		gFrameBuf = m.Buffer
	}
}

//@ op send arpc.Stream.chData
//@ theory srecv
func hkFrameQueue(s *Stream, m *Message) {
	vcAssert("C11.a frame is queued once, as it came", vcAnd(m == gFrame, gFrameQueued+gFrameDone == 0))
	gFrameQueued++
	m.Buffer = nil
}

//@ op call arpc.handler.onMessageDone
//@ theory srecv
func hkFrameDone(h *handler, f func(*Client, *Message), c *Client, m *Message) {
	vcAssert("C08.a frame is handed back at most once, and not after it was queued", vcAnd(m == gFrame, gFrameDone+gFrameQueued == 0))
	gFrameDone++
	m.Buffer = nil
}

// The value is decoded from the bytes (see the contract of BytesToValue in package util).
//
//@ extern util.BytesToValue
//@ theory srecv
func exBytesToValue(c codec.Codec, data []byte, v interface{}, err error) error {
	vcAssert("C08.a frame is decoded before it is handed back", vcAnd(gFrameDone == 0, gFrames == 1))
	gDecoded++
	gDecodedData = data
	gDecodedErr = err
	gDecodedTo = v
	return err
}

//@ op len arpc.Stream.chData
//@ theory srecv
func hkQueueLen(s *Stream, n int) { gQueueEmpty = n == 0 }

//@ op atomicload arpc.Stream.stateRecv
//@ theory srecv
func hkRecvState(s *Stream, v int32) { gRecvSawClosed = v == 1 }

//@ op recv arpc.Client.chClose
//@ theory srecv
func hkRecvStopped(c *Client) { gRecvStopped = true }

//@ extern (context.Context).Done
//@ theory srecv
func exCtxDoneRecv(c context.Context) <-chan struct{} { return gTick.ch }

//@ op recv arpc.spTick.ch
//@ theory srecv
func hkRecvExpired(t *spTick) { gRecvExpired = true }

func spRecvPre(s *Stream) bool {
	return vcAnd(s.cli != nil, vcAnd(spCliOK(s.cli), vcAnd(spErrsOK(), vcAnd(gTick != nil, io.EOF != nil))))
}

func spRecvPost(s *Stream, v interface{}, err error) {
	got := vcAnd(gFrames == 1, gFrameOK)
	vcEnsures("C11.one receive takes at most one frame", gFrames <= 1)
	vcEnsures("C11.an ended stream reports the end and no data", vcImp(vcAnd(gFrames == 1, !gFrameOK), vcAnd(err == io.EOF, gDecoded == 0)))
	vcEnsures("C11.a frame received is decoded once into the caller's variable", vcImp(got, vcAnd(gDecoded == 1, vcAnd(gDecodedTo == v, err == gDecodedErr))))
	vcEnsures("C11.nothing is decoded without a frame", vcImp(!got, vcAnd(gDecoded == 0, err != nil)))
	vcEnsures("C11.the end is not reported while data is queued", vcImp(vcAnd(gFrames == 0, vcAnd(!gRecvStopped, !gRecvExpired)), gQueueEmpty))
	vcEnsures("C11.a stopped client is reported", vcImp(gRecvStopped, err == ErrClientStopped))
	vcEnsures("C11.an expired receive is reported", vcImp(gRecvExpired, err == ErrTimeout))
	vcEnsures("C08.a frame received is handed back once", vcImp(vcAnd(got, s.cli.Handler.(*handler).onMessageDone != nil), gFrameDone == 1))
	ml := 0
	if got {
		ml = int(gFrameBuf[HeaderIndexMethodLen])
		vcEnsures("C11.the data is exactly the payload of the frame", vcAnd(vcSameArray(gDecodedData, gFrameBuf), vcAnd(vcArrayOff(gDecodedData) == vcArrayOff(gFrameBuf)+16+ml, len(gDecodedData) == len(gFrameBuf)-16-ml)))
	}
}

//@ contract (*Stream).Recv
//@ property C11 C08
//@ theory srecv
//@ volatile arpc.Stream.stateRecv
//@ panicfree
func ctStreamRecv(s *Stream, v interface{}) error {
	vcRequires(spRecvPre(s))
	spRecvReset()
	err := s.Recv(v)
	spRecvPost(s, v, err)
	vcEnsures("C11.a receive ends with a frame, the end, or a stopped client", vcOr(gFrames == 1, vcOr(gRecvStopped, vcAnd(err == io.EOF, gRecvSawClosed))))
	return err
}

//@ contract (*Stream).RecvContext
//@ property C11 C08
//@ theory srecv
//@ volatile arpc.Stream.stateRecv
//@ panicfree
func ctStreamRecvContext(s *Stream, ctx context.Context, v interface{}) error {
	vcRequires(spRecvPre(s))
	vcRequires(ctx != nil)
	spRecvReset()
	err := s.RecvContext(ctx, v)
	spRecvPost(s, v, err)
	vcEnsures("C11.a receive ends with a frame, the end, the context or a stopped client", vcOr(gFrames == 1, vcOr(gRecvStopped, gRecvExpired)))
	return err
}

//@ contract (*Stream).RecvWith
//@ property C11 C08
//@ theory srecv
//@ volatile arpc.Stream.stateRecv
//@ panicfree
func ctStreamRecvWith(s *Stream, ctx context.Context, v interface{}) error {
	vcRequires(spRecvPre(s))
	vcRequires(ctx != nil)
	spRecvReset()
	err := s.RecvWith(ctx, v)
	spRecvPost(s, v, err)
	return err
}

//@ contract (*Stream).onMessage
//@ property C11 C08
//@ theory srecv
//@ volatile arpc.Stream.stateRecv
//@ panicfree
func ctStreamOnMessage(s *Stream, msg *Message) {
	vcRequires(spRecvPre(s))
	vcRequires(vcAnd(msg != nil, vcAnd(len(msg.Buffer) >= 16, spValid(msg))))
	ml := int(msg.Buffer[HeaderIndexMethodLen])
	empty := len(msg.Buffer) == 16+ml
	spRecvReset()
	gFrame = msg
	s.onMessage(msg)
	vcEnsures("C11.data for a stream that still receives is queued, once, unless the client stops", vcImp(vcAnd(!empty, !gRecvSawClosed), vcOr(gFrameQueued == 1, gRecvStopped)))
	vcEnsures("C11.nothing is queued on a closed receiving side", vcImp(gRecvSawClosed, gFrameQueued == 0))
	vcEnsures("C11.a frame without data is not queued", vcImp(empty, gFrameQueued == 0))
}

// ghost: the stream registered
var gMapped *Stream
var gMappedLocal bool
var gMappedN int

//@ op mapset arpc.Client.streamLocalMap
//@ theory snew
func hkMapLocal(c *Client, id uint64, s *Stream) {
	vcAssert("C11.a stream is registered under its number with the lock held", vcAnd(s != nil, vcAnd(id == s.id, vcHeld(&c.mux))))
	gMapped = s
	gMappedLocal = true
	gMappedN++
}

//@ op mapset arpc.Client.streamRemoteMap
//@ theory snew
func hkMapRemote(c *Client, id uint64, s *Stream) {
	vcAssert("C11.a stream is registered under its number with the lock held", vcAnd(s != nil, vcAnd(id == s.id, vcHeld(&c.mux))))
	gMapped = s
	gMappedLocal = false
	gMappedN++
}

//@ contract (*Client).newStream
//@ property C11 C03
//@ theory snew
//@ panicfree
func ctNewStream(c *Client, method string, id uint64, local bool) *Stream {
	vcRequires(vcAnd(spCliOK(c), spMapsOK(c)))
	gMappedN = 0
	s := c.newStream(method, id, local)
	vcEnsures("C11.a new stream is registered once, on its own side", vcAnd(gMappedN == 1, vcAnd(gMapped == s, gMappedLocal == local)))
	vcEnsures("C11.a new stream has the number, method and side asked for", vcAnd(vcImp(id != 0, s.id == id), vcAnd(s.method == method, vcAnd(s.local == local, s.cli == c))))
	vcEnsures("C11.a new stream is open in both directions", vcAnd(s.stateRecv == 0, vcAnd(s.stateSend == 0, vcAnd(s.stateCloseCnt == 0, s.chData != nil))))
	return s
}
