package arpc

import (
	"context"
	"time"

	"github.com/lesismal/arpc/codec"
)

// C21: every operation that takes a lock gives it back on every path, also when code of the user
// panics (a callback, or a map key that cannot be hashed), and never takes a lock it holds.
// Everything an operation calls is explored in place (no modular contract is used), so a lock that
// a callee takes while the caller holds it is seen. Code of the user is not explored: it may
// return anything, or panic.

// newMessage has its own contract below.
//
//@ extern arpc.newMessage
//@ theory lk
func exLkNewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}, m *Message, b []byte) *Message {
	m = &Message{}
	vcAssume(len(b) >= 16)
	m.Buffer = b
	m.handler = h
	return m
}

// OnMessage has its own contract below.
//
//@ extern (*arpc.handler).OnMessage
//@ theory lkloop
func exLkOnMessage(h *handler, c *Client, msg *Message) {}

// PushMsg has its own contract below (it takes no lock of the server); a hook of the user that it
// calls may panic.
//
//@ extern (*arpc.Client).PushMsg
//@ theory lkb
func exLkPushMsg(c *Client, msg *Message, d time.Duration, bad bool, err error) error {
	if bad {
		panic("callback")
	}
	return err
}

//@ extern (*arpc.Server).NewMessage
//@ theory lkb
func exLkSrvNewMessage(s *Server, cmd byte, method string, v interface{}, args []interface{}, m *Message) *Message {
	m = &Message{}
	return m
}

//@ extern (*arpc.Message).Release
//@ theory lkb
func exLkRelease(m *Message, bad bool) {
	if bad {
		panic("free handler")
	}
}

// ghost: how often a server's lock was taken
var gLkSrv int

//@ op lock arpc.Server.mux
//@ theory lkp
func hkLkSrv(s *Server) { gLkSrv++ }

//@ extern (*arpc.handler).Recv
//@ theory lkloop
func exLkRecv(h *handler, c *Client, msg *Message, err error) (*Message, error) { return msg, err }

//@ contract (*Client).Get
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkGet(c *Client, key interface{}) {
	c.Get(key)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Set
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSet(c *Client, key interface{}, value interface{}) {
	c.Set(key, value)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Delete
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDelete(c *Client, key interface{}) {
	c.Delete(key)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Restart
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkRestart(c *Client) {
	c.Restart()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Stop
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStop(c *Client) {
	c.Stop()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Call
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCall(c *Client, method string, req interface{}, rsp interface{}, d time.Duration) {
	c.Call(method, req, rsp, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).CallContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCallContext(c *Client, ctx context.Context, method string, req interface{}, rsp interface{}) {
	c.CallContext(ctx, method, req, rsp)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).CallAsync
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCallAsync(c *Client, method string, req interface{}, h AsyncHandlerFunc, d time.Duration) {
	c.CallAsync(method, req, h, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).Notify
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkNotify(c *Client, method string, v interface{}, d time.Duration) {
	c.Notify(method, v, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).NotifyContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkNotifyContext(c *Client, ctx context.Context, method string, v interface{}) {
	c.NotifyContext(ctx, method, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).PushMsg
//@ property C21
//@ theory lkp
//@ nouse *
//@ opt locks cbpanic
func ctLkPushMsg(c *Client, msg *Message, d time.Duration) {
	gLkSrv = 0
	c.PushMsg(msg, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
	vcEnsures("C21.pushing a message takes no lock of the server", gLkSrv == 0)
}

//@ contract (*Client).NewStream
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkNewStream(c *Client, method string) {
	c.NewStream(method)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Stream).SendContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStreamSend(s *Stream, ctx context.Context, v interface{}) {
	s.SendContext(ctx, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Stream).SendAndCloseContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStreamSendClose(s *Stream, ctx context.Context, v interface{}) {
	s.SendAndCloseContext(ctx, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Stream).CloseSendContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStreamCloseSend(s *Stream, ctx context.Context) {
	s.CloseSendContext(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Stream).CloseRecvContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStreamCloseRecv(s *Stream, ctx context.Context) {
	s.CloseRecvContext(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Stream).RecvContext
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkStreamRecv(s *Stream, ctx context.Context, v interface{}) {
	s.RecvContext(ctx, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).dropMessage
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkDropMessage(c *Client, msg *Message) {
	c.dropMessage(msg)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).run
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkRun(c *Client) {
	c.run()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).closeAndClean
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCloseAndClean(c *Client) {
	c.closeAndClean()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Client).recvLoop
//@ property C21
//@ theory lkloop
//@ nouse *
//@ opt locks cbpanic
func ctLkRecvLoop(c *Client) {
	c.recvLoop()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*handler).OnMessage
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkOnMessage(h *handler, c *Client, msg *Message) {
	h.OnMessage(c, msg)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).ForEach
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkForEach(s *Server, h func(*Client)) {
	s.ForEach(h)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).ForEachWithFilter
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkForEachF(s *Server, h func(*Client), filter func(*Client) bool) {
	s.ForEachWithFilter(h, filter)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).Broadcast
//@ property C21
//@ theory lkb
//@ nouse *
//@ opt locks cbpanic
func ctLkBroadcast(s *Server, method string, v interface{}) {
	s.Broadcast(method, v)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).BroadcastWithFilter
//@ property C21
//@ theory lkb
//@ nouse *
//@ opt locks cbpanic
func ctLkBroadcastF(s *Server, method string, v interface{}, filter func(*Client) bool) {
	s.BroadcastWithFilter(method, v, filter)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).Stop
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSrvStop(s *Server) {
	s.Stop()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).Shutdown
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkSrvShutdown(s *Server, ctx context.Context) {
	s.Shutdown(ctx)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Server).runLoop
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkRunLoop(s *Server) {
	s.runLoop()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*Context).write
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkCtxWrite(ctx *Context, v interface{}, isErr bool, d time.Duration) {
	ctx.write(v, isErr, d)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).Malloc
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPMalloc(b *BufferPool, n int) {
	b.Malloc(n)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).Realloc
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPRealloc(b *BufferPool, buf []byte, n int) {
	b.Realloc(buf, n)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).Append
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPAppend(b *BufferPool, buf []byte, more []byte) {
	b.Append(buf, more...)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).AppendString
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPAppendString(b *BufferPool, buf []byte, more string) {
	b.AppendString(buf, more)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).Free
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPFree(b *BufferPool, buf []byte) {
	b.Free(buf)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*BufferPool).LogDebugInfo
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkBPLog(b *BufferPool) {
	b.LogDebugInfo()
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract newMessage
//@ property C21
//@ theory lkm
//@ nouse *
//@ opt locks cbpanic
func ctLkNewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, cd codec.Codec, values map[interface{}]interface{}) {
	newMessage(cmd, method, v, isError, isAsync, seq, h, cd, values)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}

//@ contract (*handler).Recv
//@ property C21
//@ theory lk
//@ nouse *
//@ opt locks cbpanic
func ctLkRecv(h *handler, c *Client) {
	h.Recv(c)
	vcEnsures("C21.no lock stays held", vcImp(vcPanicked(), vcLocks() == 0))
}
