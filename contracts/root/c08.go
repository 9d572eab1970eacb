package arpc

import (
	"time"

	"github.com/lesismal/arpc/util"
)

// C08: references to messages and contexts.

var gRel *Message
var gRelBuf []byte
var gRelNew int32
var gRelAdds int
var gRelFreed int
var gRelPut int

//@ op atomicadd arpc.Message.ref
//@ theory refs
func hkRef(m *Message, d int32, n int32) {
	vcAssert("C08.a reference is counted on the message itself", m == gRel)
	vcAssert("C08.a message is not counted after it was recycled", vcAnd(gRelPut == 0, gRelFreed == 0))
	gRelNew = n
	gRelAdds = gRelAdds + int(d)
}

//@ op call arpc.handler.free
//@ theory refs
func hkRefFree(h *handler, f func([]byte), b []byte) {
	vcAssert("C08.bytes are recycled only with the last reference", vcAnd(gRelAdds == -1, gRelNew == -1))
	vcAssert("C08.exactly the bytes of the message are recycled, once", vcAnd(gRelFreed == 0, vcAnd(vcSameArray(b, gRelBuf), len(b) == len(gRelBuf))))
	gRelFreed++
}

//@ op poolput arpc.messagePool
//@ theory refs
func hkRefPut(v interface{}) {
	m, ok := v.(*Message)
	vcAssert("C08.a message is recycled only with its last reference, once", vcAnd(ok, vcAnd(m == gRel, vcAnd(gRelPut == 0, vcAnd(gRelAdds == -1, gRelNew == -1)))))
	vcAssert("C08.a recycled message keeps nothing of its last use", vcAnd(len(m.Buffer) == 0, vcAnd(m.Buffer == nil, vcAnd(m.handler == nil, vcAnd(m.ref == 0, m.values == nil)))))
	gRelPut++
}

func spRelReset(m *Message) {
	gRel = m
	gRelBuf = m.Buffer
	gRelNew = 0
	gRelAdds = 0
	gRelFreed = 0
	gRelPut = 0
}

//@ contract (*Message).Release
//@ property C08
//@ theory refs
//@ panicfree
func ctRelease(m *Message) int32 {
	vcRequires(m != nil)
	vcRequires(vcAnd(emptyMessage.Buffer == nil, vcAnd(emptyMessage.handler == nil, vcAnd(emptyMessage.ref == 0, emptyMessage.values == nil))))
	var h *handler
	if m.handler != nil {
		h = m.handler.(*handler)
		vcRequires(h != nil)
	}
	spRelReset(m)
	n := m.Release()
	vcEnsures("C08.giving up a reference takes off one, once", vcAnd(gRelAdds == -1, n == gRelNew))
	vcEnsures("C08.only the last reference recycles", vcImp(n != -1, vcAnd(gRelFreed == 0, gRelPut == 0)))
	vcEnsures("C08.the last reference recycles the message", vcImp(n == -1, vcAnd(gRelPut == 1, vcImp(vcAnd(h != nil, h.free != nil), gRelFreed == 1))))
	return n
}

//@ contract (*Message).Retain
//@ property C08
//@ theory refs
//@ panicfree
func ctRetain(m *Message) int32 {
	vcRequires(m != nil)
	spRelReset(m)
	n := m.Retain()
	vcEnsures("C08.taking a reference adds one, once", vcAnd(gRelAdds == 1, n == gRelNew))
	vcEnsures("C08.taking a reference recycles nothing", vcAnd(gRelFreed == 0, gRelPut == 0))
	return n
}

var gCtxRel *Context
var gCtxMsg *Message
var gCtxRelN int
var gCtxPut int

//@ extern (*arpc.Message).Release
//@ theory ctxrefs
func exCtxMsgRelease(m *Message, n int32) int32 {
	vcAssert("C08.a context gives up its own message, once", vcAnd(m == gCtxMsg, gCtxRelN == 0))
	gCtxRelN++
	return n
}

//@ op poolput arpc.contextPool
//@ theory ctxrefs
func hkCtxPut(v interface{}) {
	c, ok := v.(*Context)
	vcAssert("C08.a context is recycled once", vcAnd(ok, vcAnd(c == gCtxRel, gCtxPut == 0)))
	vcAssert("C08.a recycled context keeps nothing of its last use", vcAnd(c.Client == nil, vcAnd(c.Message == nil, vcAnd(c.index == 0, vcAnd(c.handlers == nil, c.responseErr == nil)))))
	gCtxPut++
}

//@ contract (*Context).Release
//@ property C08
//@ theory ctxrefs
//@ panicfree
func ctCtxRelease(ctx *Context) {
	vcRequires(vcAnd(ctx != nil, ctx.Message != nil))
	vcRequires(vcAnd(emptyContext.Client == nil, vcAnd(emptyContext.Message == nil, vcAnd(emptyContext.index == 0, vcAnd(emptyContext.handlers == nil, emptyContext.responseErr == nil)))))
	gCtxRel = ctx
	gCtxMsg = ctx.Message
	gCtxRelN = 0
	gCtxPut = 0
	ctx.Release()
	vcEnsures("C08.releasing a context gives up its message and recycles it, once", vcAnd(gCtxRelN == 1, gCtxPut == 1))
}

// ---- broadcasting ----

var gB *Message
var gBMade int
var gBOwn int // references the broadcast holds
var gBCli *Client
var gBCliIn bool
var gBPushed int
var gBWant bool
var gBFilter bool
var gBLocked int

//@ extern (*arpc.Server).NewMessage
//@ theory bcast
func exBNew(s *Server, cmd byte, method string, v interface{}, args []interface{}, m *Message) *Message {
	vcAssume(m != nil)
	vcAssert("C12.a broadcast makes one message, a notification", vcAnd(gBMade == 0, cmd == CmdNotify))
	gBMade++
	gB = m
	gBOwn = 1
	return m
}

//@ extern (*arpc.Message).Retain
//@ theory bcast
func exBRetain(m *Message, n int32) int32 {
	vcAssert("C08.a reference is taken only by a holder of one", vcAnd(m == gB, gBOwn >= 1))
	gBOwn++
	return n
}

//@ extern (*arpc.Message).Release
//@ theory bcast
func exBRelease(m *Message, n int32) int32 {
	vcAssert("C08.a broadcast gives up no reference it does not hold", vcAnd(m == gB, gBOwn >= 1))
	gBOwn--
	return n
}

//@ op rangenext arpc.Server.clients
//@ theory bcast
func hkBNext(s *Server, c *Client, e util.Empty) {
	vcAssume(c != nil)
	vcAssert("C21.the connections are walked under the lock", vcHeld(&s.mux))
	gBWant = true
}

//@ op lock arpc.Server.mux
//@ theory bcast
func hkBLock(s *Server) {
	_, ok := s.clients[gBCli]
	gBLocked++
	gBCliIn = ok
}

// PushMsg takes over one reference (see ctPushMsg), and may give it up at once.
//
//@ extern (*arpc.Client).PushMsg
//@ theory bcast
func exBPush(c *Client, m *Message, d time.Duration, err error) error {
	vcAssert("C08.each connection is handed a reference of its own", vcAnd(m == gB, gBOwn >= 2))
	vcAssert("C12.a broadcast does not wait for a connection", d == TimeZero)
	vcAssert("C12.a broadcast reaches only connections its filter selects", gBWant)
	gBOwn--
	gBPushed = vcIteInt(c == gBCli, gBPushed+1, gBPushed)
	return err
}

func spBReset(c *Client) {
	gBMade = 0
	gBOwn = 0
	gBPushed = 0
	gBCli = c
	gBFilter = true
	gBLocked = 0
	gBSel = true
	vcHint("one", func() bool { return gBOwn == 1 })
	vcHint("made", func() bool { return gBMade == 1 })
	vcHint("pushed", func() bool {
		return vcImp(gBCliIn, vcAnd(vcImp(vcVisited(gBCli), gBPushed == vcIteInt(gBSel, 1, 0)), vcImp(!vcVisited(gBCli), gBPushed == 0)))
	})
	vcHint("notin", func() bool { return vcImp(!gBCliIn, gBPushed == 0) })
}

var gBSel bool

//@ contract (*Server).Broadcast
//@ property C12 C08 C21
//@ theory bcast
//@ opt locks
func ctBroadcast(s *Server, method string, v interface{}, c *Client) {
	vcRequires(vcAnd(s.clients != nil, c != nil))
	spBReset(c)
	s.Broadcast(method, v)
	vcEnsures("C12.a broadcast is handed to each connection once", gBPushed == vcIteInt(gBCliIn, 1, 0))
	vcEnsures("C08.a broadcast gives up every reference it holds", gBOwn == 0)
	vcEnsures("C21.no lock stays held", vcLocks() == 0)
}

func spBUserFilter(c *Client) bool { return vcUF1("filter", uint64(vcId(c))) == 1 }

//@ contract (*Server).BroadcastWithFilter
//@ property C12 C08 C21
//@ theory bcast
//@ opt locks
func ctBroadcastFilter(s *Server, method string, v interface{}, c *Client, none bool) {
	vcRequires(vcAnd(s.clients != nil, c != nil))
	spBReset(c)
	var f func(*Client) bool
	if !none {
		gBSel = spBUserFilter(c)
		f = func(x *Client) bool {
			gBWant = spBUserFilter(x)
			return gBWant
		}
	}
	s.BroadcastWithFilter(method, v, f)
	vcEnsures("C12.a broadcast is handed to each selected connection once", gBPushed == vcIteInt(vcAnd(gBCliIn, gBSel), 1, 0))
	vcEnsures("C08.a broadcast gives up every reference it holds", gBOwn == 0)
	vcEnsures("C21.no lock stays held", vcLocks() == 0)
}

// ---- clearing a stopped server ----

//@ extern (*arpc.Client).Stop
//@ theory srvclear
func exSrvStop(c *Client) {
	gBPushed = vcIteInt(c == gBCli, gBPushed+1, gBPushed)
}

//@ op rangenext arpc.Server.clients
//@ theory srvclear
func hkSrvNext(s *Server, c *Client, e util.Empty) { vcAssume(c != nil) }

//@ op lock arpc.Server.mux
//@ theory srvclear
func hkSrvLock(s *Server) {
	_, ok := s.clients[gBCli]
	gBCliIn = ok
}

//@ contract (*Server).clearClients
//@ property C12 C21
//@ theory srvclear
//@ opt locks
func ctClearClients(s *Server, c *Client) {
	vcRequires(vcAnd(s.clients != nil, c != nil))
	spBReset(c)
	s.clearClients()
	vcEnsures("C12.a stopped server ends each of its connections", gBPushed == vcIteInt(gBCliIn, 1, 0))
	_, still := s.clients[c]
	vcEnsures("C12.a stopped server forgets its connections", !still)
	vcEnsures("C21.no lock stays held", vcLocks() == 0)
}
