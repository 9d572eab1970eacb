package arpc

import (
	"context"
	"time"
)

// C13: whatever an operation waits for, it also waits for the stop signal: every blocking channel
// operation on every path of these functions has the connection's stop signal among its cases.

//@ contract (*Client).Call
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeCall(c *Client, method string, req interface{}, rsp interface{}, d time.Duration) {
	vcCover("called")
	c.Call(method, req, rsp, d)
}

//@ contract (*Client).CallContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeCallContext(c *Client, ctx context.Context, method string, req interface{}, rsp interface{}) {
	vcCover("called")
	c.CallContext(ctx, method, req, rsp)
}

//@ contract (*Client).CallWith
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeCallWith(c *Client, ctx context.Context, method string, req interface{}, rsp interface{}) {
	vcCover("called")
	c.CallWith(ctx, method, req, rsp)
}

//@ contract (*Client).CallAsync
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeCallAsync(c *Client, method string, req interface{}, h AsyncHandlerFunc, d time.Duration) {
	vcCover("called")
	c.CallAsync(method, req, h, d)
}

//@ contract (*Client).Notify
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeNotify(c *Client, method string, v interface{}, d time.Duration) {
	vcCover("called")
	c.Notify(method, v, d)
}

//@ contract (*Client).NotifyContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeNotifyContext(c *Client, ctx context.Context, method string, v interface{}) {
	vcCover("called")
	c.NotifyContext(ctx, method, v)
}

//@ contract (*Client).NotifyWith
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeNotifyWith(c *Client, ctx context.Context, method string, v interface{}) {
	vcCover("called")
	c.NotifyWith(ctx, method, v)
}

//@ contract (*Client).PushMsg
//@ property C13
//@ theory lkp
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakePushMsg(c *Client, msg *Message, d time.Duration) {
	vcCover("called")
	c.PushMsg(msg, d)
}

//@ contract (*Stream).Recv
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamRecv(s *Stream, v interface{}) {
	vcCover("called")
	s.Recv(v)
}

//@ contract (*Stream).RecvContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamRecvCtx(s *Stream, ctx context.Context, v interface{}) {
	vcCover("called")
	s.RecvContext(ctx, v)
}

//@ contract (*Stream).Send
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamSend(s *Stream, v interface{}) {
	vcCover("called")
	s.Send(v)
}

//@ contract (*Stream).SendContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamSendCtx(s *Stream, ctx context.Context, v interface{}) {
	vcCover("called")
	s.SendContext(ctx, v)
}

//@ contract (*Stream).SendAndCloseContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamSendClose(s *Stream, ctx context.Context, v interface{}) {
	vcCover("called")
	s.SendAndCloseContext(ctx, v)
}

//@ contract (*Stream).CloseSendContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamCloseSend(s *Stream, ctx context.Context) {
	vcCover("called")
	s.CloseSendContext(ctx)
}

//@ contract (*Stream).CloseRecvContext
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamCloseRecv(s *Stream, ctx context.Context) {
	vcCover("called")
	s.CloseRecvContext(ctx)
}

//@ contract (*Stream).onMessage
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeStreamMsg(s *Stream, m *Message) {
	vcCover("called")
	s.onMessage(m)
}

//@ contract (*Context).write
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeCtxWrite(ctx *Context, v interface{}, isErr bool, d time.Duration) {
	vcCover("called")
	ctx.write(v, isErr, d)
}

//@ contract (*Client).normalSendLoop
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose
func ctWakeSendLoop(c *Client) {
	vcCover("called")
	c.normalSendLoop()
}

//@ contract (*Client).batchSendLoop
//@ thorough
//@ property C13
//@ theory lk
//@ nouse *
//@ wakes arpc.Client.chClose arpc.Client.chSend
func ctWakeBatchLoop(c *Client) {
	vcCover("called")
	c.batchSendLoop()
}
