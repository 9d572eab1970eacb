package arpc

import (
	"context"
	"io"
	"net"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerif_C13_LossFailsPending(t *testing.T) {
	for _, async := range []bool{true, false} {
		c, p, peer := vfClient(t, async)
		go io.Copy(io.Discard, peer)
		var errs = make(chan error, 16)
		for i := 0; i < 3; i++ {
			go func() { errs <- c.Call("m", "x", nil, 20*time.Second) }()
			c.CallAsync("m", "x", func(ctx *Context, err error) { errs <- err }, 20*time.Second)
		}
		var streams []*Stream
		for i := 0; i < 2; i++ {
			s := c.NewStream("s")
			streams = append(streams, s)
			go func() {
				var v string
				errs <- s.Recv(&v)
			}()
		}
		for i := 0; i < 1000; i++ {
			c.mux.Lock()
			n := len(c.sessionMap)
			c.mux.Unlock()
			if n == 3 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		peer.Close()
		next := vfReconnected(t, c, p)
		for i := 0; i < 8; i++ {
			select {
			case err := <-errs:
				if err == nil {
					t.Fatal("a pending operation succeeded after the connection was lost")
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("async=%v: %d of 8 pending operations were failed", async, i)
			}
		}
		if f, err := vfReadFrame(next, 200*time.Millisecond); err == nil {
			t.Fatalf("async=%v: the new connection carries a frame of the lost one: % x", async, f)
		}
		next.SetReadDeadline(time.Time{})
		go io.Copy(io.Discard, next)
		for _, s := range streams {
			if err := s.Send("x"); err == nil {
				t.Fatal("a stream of the lost connection can still be sent on")
			}
		}
		c.mux.Lock()
		n := len(c.sessionMap) + len(c.asyncHandlerMap) + len(c.streamLocalMap) + len(c.streamRemoteMap)
		c.mux.Unlock()
		if n != 0 {
			t.Fatalf("%d operations survive", n)
		}
		if c.CheckState() != nil {
			t.Fatal("client is not usable after reconnecting")
		}
		p.mux.Lock()
		p.fail = true
		p.mux.Unlock()
		c.Stop()
		select {
		case <-c.chClose:
		case <-time.After(5 * time.Second):
			t.Fatalf("async=%v: the stop signal was not raised", async)
		}
	}
}

func TestVerif_C13_StopUnblocks(t *testing.T) {
	for _, async := range []bool{true, false} {
		c, p, peer := vfClient(t, async)
		go io.Copy(io.Discard, peer)
		p.mux.Lock()
		p.fail = true
		p.mux.Unlock()
		errs := make(chan error, 4)
		go func() { errs <- c.Call("m", "x", nil, 30*time.Second) }()
		s := c.NewStream("s")
		go func() {
			var v string
			errs <- s.Recv(&v)
		}()
		time.Sleep(20 * time.Millisecond)
		c.Stop()
		for i := 0; i < 2; i++ {
			select {
			case err := <-errs:
				if err == nil {
					t.Fatal("an operation on a stopped client succeeded")
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("async=%v: an operation stays blocked on a stopped client", async)
			}
		}
		select {
		case <-c.chClose:
		case <-time.After(5 * time.Second):
			t.Fatal("no stop signal")
		}
		if err := c.Call("m", "x", nil, time.Second); err != ErrClientStopped {
			t.Fatal(err)
		}
	}
}

// what is pending fails with the connection, even if the next one cannot be dialled yet, or ever
func TestVerif_C13_DialBlocked(t *testing.T) {
	for _, async := range []bool{true, false} {
		hold := make(chan struct{})
		conns := make(chan net.Conn, 4)
		var dials int32
		h := NewHandler()
		h.SetAsyncWrite(async)
		c, err := NewClient(func() (net.Conn, error) {
			if atomic.AddInt32(&dials, 1) > 1 {
				<-hold
			}
			a, b := net.Pipe()
			conns <- b
			return a, nil
		}, h)
		if err != nil {
			t.Fatal(err)
		}
		peer := <-conns
		go io.Copy(io.Discard, peer)
		errs := make(chan string, 16)
		say := func(what string, err error) {
			if err == nil {
				what += " succeeded"
			}
			errs <- what
		}
		go func() { say("call", c.Call("m", "x", nil, time.Minute)) }()
		go func() { say("callctx", c.CallContext(context.Background(), "m", "x", nil)) }()
		c.CallAsync("m", "x", func(ctx *Context, err error) { say("async", err) }, time.Minute)
		c.CallAsync("m", "x", func(ctx *Context, err error) { say("async", err) }, time.Minute)
		s := c.NewStream("s")
		go func() {
			var v string
			say("stream", s.Recv(&v))
		}()
		vfEventually(func() bool {
			c.mux.Lock()
			defer c.mux.Unlock()
			return len(c.sessionMap) == 2 && len(c.asyncHandlerMap) == 2
		})
		time.Sleep(20 * time.Millisecond)
		peer.Close()
		left := map[string]int{"call": 1, "callctx": 1, "async": 2, "stream": 1}
		for i := 0; i < 5; i++ {
			select {
			case w := <-errs:
				left[w]--
				if left[w] < 0 {
					t.Fatalf("async=%v: %s", async, w)
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("async=%v: the connection is lost and these are still pending: %v", async, left)
			}
		}
		c.Stop()
		close(hold)
	}
}

// everything that waits on a server's connection ends with it
func TestVerif_C13_ServerSide(t *testing.T) {
	for mode := 0; mode < 4; mode++ {
		async, batch, full := mode != 3, mode == 1, mode < 2
		a, b := net.Pipe()
		s := NewServer()
		s.Handler = NewHandler()
		s.Handler.SetAsyncWrite(async)
		s.Handler.SetBatchSend(batch)
		s.Handler.SetSendQueueSize(1)
		got := make(chan *Client, 1)
		s.Handler.HandleConnected(func(c *Client) { got <- c })
		l := &vfOne{c: a, end: make(chan struct{})}
		go s.Serve(l)
		c := <-got
		if !full {
			go io.Copy(io.Discard, b)
		} else {
			// nobody reads: the writer blocks and the queue fills
			vfEventually(func() bool { return c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), TimeZero) != nil })
			time.Sleep(10 * time.Millisecond)
			vfEventually(func() bool { return c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), TimeZero) != nil })
		}
		ops := map[string]func(){
			"Call":         func() { c.Call("m", "x", nil, time.Minute) },
			"CallContext":  func() { c.CallContext(context.Background(), "m", "x", nil) },
			"CallWith":     func() { c.CallWith(context.Background(), "m", "x", nil) },
			"Stream.Recv":  func() { var v string; c.NewStream("s").Recv(&v) },
			"RecvContext":  func() { var v string; c.NewStream("s").RecvContext(context.Background(), &v) },
			"RecvWith":     func() { var v string; c.NewStream("s").RecvWith(context.Background(), &v) },
		}
		if full {
			for name, f := range map[string]func(){
				"CallAsync":     func() { c.CallAsync("m", "x", func(*Context, error) {}, time.Minute) },
				"Notify":        func() { c.Notify("m", "x", time.Minute) },
				"NotifyForever": func() { c.Notify("m", "x", TimeForever) },
				"NotifyContext": func() { c.NotifyContext(context.Background(), "m", "x") },
				"NotifyWith":    func() { c.NotifyWith(context.Background(), "m", "x") },
				"PushMsg":       func() { c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), TimeForever) },
				"PushMsgMinute": func() { c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), time.Minute) },
				"Stream.Send":   func() { c.NewStream("s").Send("x") },
				"SendContext":   func() { c.NewStream("s").SendContext(context.Background(), "x") },
				"SendAndClose":  func() { c.NewStream("s").SendAndClose("x") },
				"CloseSend":     func() { c.NewStream("s").CloseSend() },
			} {
				ops[name] = f
			}
		}
		end := make(chan string, 32)
		for name, f := range ops {
			name, f := name, f
			go func() { f(); end <- name }()
		}
		time.Sleep(50 * time.Millisecond)
		b.Close()
		for n := len(ops); n > 0; n-- {
			select {
			case name := <-end:
				delete(ops, name)
			case <-time.After(8 * time.Second):
				var left []string
				for k := range ops {
					left = append(left, k)
				}
				t.Fatalf("async=%v batch=%v full=%v: the connection has ended and these are still blocked: %v", async, batch, full, left)
			}
		}
		l.Close()
	}
}

// an operation that starts while the loss of the connection is being dealt with is not left waiting:
// the loss has been noticed, what is pending is about to be failed
func TestVerif_C13_JoinsLate(t *testing.T) {
	p := &vfPeer{conns: make(chan net.Conn, 8)}
	n := 0
	hold := make(chan struct{})
	c, err := NewClient(func() (net.Conn, error) {
		if n++; n > 1 {
			<-hold
		}
		return p.dial()
	}, NewHandler())
	if err != nil {
		t.Fatal(err)
	}
	conn := <-p.conns
	c.mux.Lock()
	conn.Close()
	time.Sleep(200 * time.Millisecond)
	ended := make(chan error, 1)
	go func() {
		var v string
		ended <- c.Call("m", "q", &v, time.Minute)
	}()
	time.Sleep(200 * time.Millisecond)
	c.mux.Unlock()
	select {
	case err := <-ended:
		if err == nil {
			t.Fatal("a call that cannot have been answered succeeds")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("a call that joined while the connection was given up is left waiting")
	}
	close(hold)
	c.Stop()
}
