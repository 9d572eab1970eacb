package arpc

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// what a handler answers carries the identity of its request
func TestVerif_C04_Response(t *testing.T) {
	for _, mode := range []bool{true, false} {
		var in []byte
		type exp struct {
			seq   uint64
			m     string
			err   bool
			async bool
			data  string
		}
		want := map[uint64]exp{}
		seq := uint64(1<<40 + 5)
		for _, async := range []bool{false, true} {
			for _, m := range []string{"w", "ws", "e", "en", "we", "wpe", "two", "tmo"} {
				seq += 1 << 33
				flag := byte(0)
				if async {
					flag = HeaderFlagMaskAsync
				}
				in = append(in, vfFrame(CmdRequest, flag, len(m), seq, []byte(m+"!"))...)
				want[seq] = exp{seq: seq, m: m, err: m == "e" || m == "we" || m == "wpe", async: async, data: "data-" + m}
				in = append(in, vfFrame(CmdNotify, flag, len(m), seq+1, []byte(m))...)
			}
		}
		sc := newVfScript(in)
		sc.hold = true
		var bad atomic.Value
		var notifyNil int64
		go func() {
			vfEventually(func() bool {
				sc.mux.Lock()
				defer sc.mux.Unlock()
				return len(vfFrames(sc.out)) >= len(want)
			})
			time.Sleep(20 * time.Millisecond)
			sc.Close()
		}()
		chk := func(ctx *Context, err error) {
			if ctx.Message.Cmd() == CmdNotify && err == nil {
				atomic.AddInt64(&notifyNil, 1)
			}
			if ctx.Message.Cmd() == CmdRequest && err != nil {
				bad.Store(fmt.Sprint("answering failed: ", err))
			}
		}
		vfServe(t, sc, func(h Handler) {
			h.SetAsyncWrite(mode)
			h.Handle("w", func(ctx *Context) { chk(ctx, ctx.Write("data-w")) })
			h.Handle("ws", func(ctx *Context) { chk(ctx, ctx.Write([]byte("data-ws"))) })
			h.Handle("e", func(ctx *Context) { chk(ctx, ctx.Error("data-e")) })
			h.Handle("en", func(ctx *Context) { chk(ctx, ctx.Error(nil)) })
			h.Handle("we", func(ctx *Context) { chk(ctx, ctx.Write(errors.New("data-we"))) })
			h.Handle("wpe", func(ctx *Context) { e := errors.New("data-wpe"); chk(ctx, ctx.Error(&e)) })
			h.Handle("two", func(ctx *Context) { chk(ctx, ctx.Write("data-two")) })
			h.Handle("tmo", func(ctx *Context) { chk(ctx, ctx.WriteWithTimeout("data-tmo", time.Second)) })
		})
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
		if notifyNil != 0 {
			t.Fatal("a notification was answered without an error")
		}
		got := vfFrames(sc.out)
		if len(got) != len(want) {
			t.Fatalf("%d responses for %d requests", len(got), len(want))
		}
		for _, f := range got {
			w, ok := want[vfSeq(f)]
			if !ok {
				t.Fatal("a response with a sequence number nobody sent:", vfSeq(f))
			}
			delete(want, w.seq)
			if f[5] != CmdResponse || int(f[7]) != len(w.m) || string(f[16:16+len(w.m)]) != w.m {
				t.Fatalf("response of %s: command %d method %q", w.m, f[5], f[16:16+int(f[7])])
			}
			if (f[6]&HeaderFlagMaskAsync != 0) != w.async {
				t.Fatalf("response of %s: async %v", w.m, !w.async)
			}
			if (f[6]&HeaderFlagMaskError != 0) != w.err {
				t.Fatalf("response of %s: error %v", w.m, !w.err)
			}
			if w.m == "en" {
				w.data = ""
			}
			if string(f[16+len(w.m):]) != w.data {
				t.Fatalf("response of %s: payload %q", w.m, f[16+len(w.m):])
			}
		}
	}
}

func vfFrames(b []byte) [][]byte {
	var out [][]byte
	for len(b) >= 16 {
		n := 16 + int(b[0]) + int(b[1])<<8 + int(b[2])<<16 + int(b[3])<<24
		if n > len(b) {
			break
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

// a response completes only the call of its sequence number and kind
func TestVerif_C04_Completion(t *testing.T) {
	for _, mode := range []bool{true, false} {
		c, _, conn := vfClient(t, mode)
		var miss int64
		c.Handler.HandleSessionMiss(func(*Client, *Message) { atomic.AddInt64(&miss, 1) })
		var mux sync.Mutex
		frames := map[string][]byte{}
		vfAnswer(conn, func(fr []byte) [][]byte {
			mux.Lock()
			frames[string(fr[16+int(fr[7]):])] = fr
			mux.Unlock()
			return nil
		})
		have := func(n int) bool { mux.Lock(); defer mux.Unlock(); return len(frames) == n }
		type res struct {
			who string
			v   string
			err error
		}
		out := make(chan res, 64)
		call := func(who string) {
			var v string
			err := c.Call("m", who, &v, 20*time.Second)
			out <- res{who, v, err}
		}
		acall := func(who string) {
			err := c.CallAsync("m", who, func(ctx *Context, err error) {
				v := ""
				if err == nil {
					v = string(ctx.Body())
				}
				out <- res{who, v, err}
			}, 20*time.Second)
			if err != nil {
				out <- res{who, "", err}
			}
		}
		for i := 0; i < 4; i++ {
			go call(fmt.Sprintf("s%d", i))
			acall(fmt.Sprintf("a%d", i))
		}
		if !vfEventually(func() bool { return have(8) }) {
			t.Fatal("requests missing")
		}
		send := func(f []byte) {
			conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
			if _, err := conn.Write(f); err != nil {
				t.Fatal("the connection is blocked:", err)
			}
		}
		none := func(what string) {
			send(vfFrame(CmdPing, 0, 0, 0, nil)) // handled after what went before
			if !vfEventually(func() bool { return atomic.LoadInt64(&miss) > 0 }) {
				t.Fatal(what, "is not reported as a miss")
			}
			time.Sleep(2 * time.Millisecond)
			select {
			case r := <-out:
				t.Fatal(what, "completed a call:", r)
			default:
			}
			atomic.StoreInt64(&miss, 0)
		}
		s0, a0 := frames["s0"], frames["a0"]
		send(vfRsp(s0, HeaderFlagMaskAsync, vfSeq(s0), "wrong kind"))
		none("an async response for a sync call")
		send(vfRsp(a0, 0, vfSeq(a0), "wrong kind"))
		none("a sync response for an async call")
		send(vfRsp(s0, 0, vfSeq(s0)+1<<32, "nobody"))
		none("a response nobody waits for")
		send(vfRsp(s0, 0, 1<<63, "nobody"))
		none("a response nobody waits for")
		for i := 3; i >= 0; i-- {
			for _, k := range []string{"s", "a"} {
				who := fmt.Sprintf("%s%d", k, i)
				fr := frames[who]
				flag := byte(0)
				if k == "a" {
					flag = HeaderFlagMaskAsync
				}
				send(vfRsp(fr, flag, vfSeq(fr), "for "+who))
				select {
				case r := <-out:
					if r.who != who || r.v != "for "+who || r.err != nil {
						t.Fatal("response of", who, "gave", r)
					}
				case <-time.After(5 * time.Second):
					t.Fatal("response of", who, "lost")
				}
				// duplicates block nothing and complete nothing
				for j := 0; j < 3; j++ {
					send(vfRsp(fr, flag, vfSeq(fr), "again"))
				}
				none("a duplicate response")
				time.Sleep(2 * time.Millisecond)
				atomic.StoreInt64(&miss, 0)
			}
		}
		if s, a := vfPending(c); s != 0 || a != 0 {
			t.Fatal("pending entries stay", s, a)
		}
		c.Stop()
		conn.Close()
	}
}

// duplicates arriving while the call is still pending do not block the connection
func TestVerif_C04_Burst(t *testing.T) {
	c, _, conn := vfClient(t, true)
	defer c.Stop()
	vfAnswer(conn, func(fr []byte) [][]byte {
		if fr[5] != CmdRequest {
			return nil
		}
		r := vfRsp(fr, fr[6]&HeaderFlagMaskAsync, vfSeq(fr), "x")
		var b []byte
		for i := 0; i < 50; i++ {
			b = append(b, r...)
		}
		return [][]byte{b}
	})
	for i := 0; i < 100; i++ {
		var v string
		if err := c.Call("m", "q", &v, 10*time.Second); err != nil || v != "x" {
			t.Fatal("call", i, err, v)
		}
	}
}

// whatever value a handler answers with, it is marked as an error exactly when it is one
func TestVerif_C04_Values(t *testing.T) {
	vals := []interface{}{
		ErrClientTimeout, ErrClientInvalidTimeoutZero, ErrClientInvalidTimeoutLessThanZero, ErrClientInvalidTimeoutZeroWithNonNilCallback,
		ErrClientOverstock, ErrClientReconnecting, ErrClientStopped, ErrClientInvalidPoolDialers, ErrInvalidRspMessage, ErrMethodNotFound,
		ErrInvalidFlagBitIndex, ErrContextResponseToNotify, ErrTimeout, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded,
		errors.New(""), errors.New("x"), &net.OpError{Op: "dial", Err: errors.New("y")}, fmt.Errorf("wrap %w", io.EOF),
		"", "x", []byte{}, []byte("x"), 7, map[string]int{"a": 1}, nil,
	}
	for _, mode := range []bool{true, false} {
		for _, asErr := range []bool{false, true} {
			for i, v := range vals {
				sc := newVfScript(vfFrame(CmdRequest, 0, 1, 77, []byte("m")))
				sc.hold = true
				go func() {
					vfEventually(func() bool { sc.mux.Lock(); defer sc.mux.Unlock(); return len(sc.out) >= 16 })
					sc.Close()
				}()
				vfServe(t, sc, func(h Handler) {
					h.SetAsyncWrite(mode)
					h.Handle("m", func(ctx *Context) {
						if asErr {
							ctx.Error(v)
						} else {
							ctx.Write(v)
						}
					})
				})
				fs := vfFrames(sc.out)
				if len(fs) != 1 {
					t.Fatalf("%d responses to one request answered with %v", len(fs), v)
				}
				_, isErr := v.(error)
				if got := fs[0][6]&HeaderFlagMaskError != 0; got != (isErr || asErr && v != nil) {
					t.Fatalf("value %d (%T %v), Error=%v, async write %v: marked as an error: %v", i, v, v, asErr, mode, got)
				}
			}
		}
	}
}

// a response that arrives at the very moment its call gives up does not block the connection: the
// response is looked up first, the call has already stopped waiting
func TestVerif_C04_GivesUp(t *testing.T) {
	c, _, conn := vfClient(t, true)
	defer c.Stop()
	first := make(chan []byte, 1)
	vfAnswer(conn, func(fr []byte) [][]byte {
		if string(fr[16+int(fr[7]):]) == "first" {
			first <- fr
			return nil
		}
		return [][]byte{vfRsp(fr, 0, vfSeq(fr), "y")}
	})
	ended := make(chan error, 1)
	go func() {
		var v string
		ended <- c.Call("m", "first", &v, 300*time.Millisecond)
	}()
	fr := <-first
	c.mux.Lock()
	conn.Write(vfRsp(fr, 0, vfSeq(fr), "x"))
	time.Sleep(time.Second)
	c.mux.Unlock()
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		t.Fatal("the call never ended")
	}
	var v string
	if err := c.Call("m", "second", &v, 10*time.Second); err != nil || v != "y" {
		t.Fatal("the connection is blocked by the response to a call that gave up:", err, v)
	}
}
