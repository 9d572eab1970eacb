package arpc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

// vfHeap hands out buffers that are never reused: a freed one is overwritten, so that whoever still
// reads it sees that, and a buffer freed twice or never allocated is noticed.
type vfHeap struct {
	mux  sync.Mutex
	live map[uintptr]bool
	keep [][]byte
	bad  []string
}

func (h *vfHeap) key(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}

func (h *vfHeap) fail(f string, a ...interface{}) {
	if len(h.bad) < 5 {
		h.bad = append(h.bad, fmt.Sprintf(f, a...))
	}
}

func (h *vfHeap) malloc(n int) []byte {
	b := make([]byte, n, n+1)
	for i := range b {
		b[i] = 0xAA
	}
	h.mux.Lock()
	h.live[h.key(b)] = true
	h.keep = append(h.keep, b)
	h.mux.Unlock()
	return b
}

func (h *vfHeap) free(b []byte) {
	h.mux.Lock()
	defer h.mux.Unlock()
	k := h.key(b)
	if k == 0 || !h.live[k] {
		h.fail("a buffer is given back twice, or was never taken")
		return
	}
	h.live[k] = false
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xDD
	}
}

func (h *vfHeap) app(b []byte, more ...byte) []byte {
	n := h.malloc(len(b) + len(more))
	copy(n, b)
	copy(n[len(b):], more)
	if cap(b) > 0 {
		h.free(b)
	}
	return n
}

func newVfHeap(h Handler) *vfHeap {
	p := &vfHeap{live: map[uintptr]bool{}}
	h.HandleMalloc(p.malloc)
	h.HandleFree(p.free)
	h.HandleAppend(p.app)
	chk := func(what string, m *Message) bool {
		p.mux.Lock()
		defer p.mux.Unlock()
		if m == nil {
			return true
		}
		if len(m.Buffer) < HeadLen {
			p.fail("%s: a message is finished that was already given back", what)
			return false
		}
		if !p.live[p.key(m.Buffer)] {
			p.fail("%s: a message is finished whose buffer was given back", what)
			return false
		}
		return true
	}
	h.HandleContextDone(func(ctx *Context) {
		if ctx.Message == nil || chk("context", ctx.Message) {
			ctx.Release()
		}
	})
	h.HandleMessageDone(func(c *Client, m *Message) {
		if chk("message", m) {
			m.Release()
		}
	})
	return p
}

func (h *vfHeap) check(t *testing.T, what string) {
	t.Helper()
	h.mux.Lock()
	defer h.mux.Unlock()
	if len(h.bad) > 0 {
		t.Fatal(what+":", strings.Join(h.bad, "; "))
	}
}

func vfPoisoned(s string) bool { return strings.Contains(s, "\xdd") || strings.Contains(s, "\xaa") }

func vfC08Pair(t *testing.T, async bool, setup func(sh, ch Handler)) (*Client, *Server, *vfHeap, *vfHeap, func()) {
	sh, ch := NewHandler(), NewHandler()
	sh.SetAsyncWrite(async)
	ch.SetAsyncWrite(async)
	hp, cp := newVfHeap(sh), newVfHeap(ch)
	setup(sh, ch)
	s := NewServer()
	s.Handler = sh
	a, b := net.Pipe()
	l := &vfOne{c: b, end: make(chan struct{})}
	go s.Serve(l)
	first := true
	c, err := NewClient(func() (net.Conn, error) {
		if !first {
			return nil, errors.New("refused")
		}
		first = false
		return a, nil
	}, ch)
	if err != nil {
		t.Fatal(err)
	}
	return c, s, hp, cp, func() {
		c.Stop()
		l.Close()
		time.Sleep(30 * time.Millisecond)
	}
}

func TestVerif_C08_Traffic(t *testing.T) {
	for _, async := range []bool{true, false} {
		// with synchronous writes over an unbuffered pipe, handlers answer from their own goroutines
		var mux sync.Mutex
		var seen []string
		c, s, sh, ch, stop := vfC08Pair(t, async, func(h, ch Handler) {
			h.Handle("echo", func(ctx *Context) {
				var v string
				ctx.Bind(&v)
				ctx.Write(v)
			})
			h.Handle("err", func(ctx *Context) { ctx.Error("bad " + string(ctx.Body())) })
			h.Handle("note", func(ctx *Context) {
				var v string
				ctx.Bind(&v)
				mux.Lock()
				seen = append(seen, v)
				mux.Unlock()
				if err := ctx.Write("no"); err == nil {
					t.Error("a notification was answered")
				}
			})
			h.HandleNotFound(func(ctx *Context) { ctx.Error("nf " + ctx.Message.Method()) })
			h.HandleStream("st", func(st *Stream) {
				for {
					var v string
					if err := st.Recv(&v); err != nil {
						break
					}
					mux.Lock()
					seen = append(seen, "s:"+v)
					mux.Unlock()
					st.Send("re:" + v)
				}
				st.CloseSend()
			}, true)
			ch.Handle("bc", func(ctx *Context) {
				mux.Lock()
				seen = append(seen, "bc:"+string(ctx.Body()))
				mux.Unlock()
			})
		})
		var kept []string
		var errs []string
		var raw [][]byte
		for i := 0; i < 30; i++ {
			var v string
			q := fmt.Sprintf("q%d-%s", i, strings.Repeat("x", i*13%97))
			if err := c.Call("echo", q, &v, 10*time.Second); err != nil || v != q {
				t.Fatal(err, v)
			}
			kept = append(kept, v)
			var b []byte
			if err := c.Call("echo", []byte(q), &b, 10*time.Second); err != nil || string(b) != q {
				t.Fatal(err, string(b))
			}
			raw = append(raw, b)
			if err := c.CallContext(context.Background(), "err", q, &v); err == nil || err.Error() != "bad "+q {
				t.Fatal("error", err)
			} else {
				errs = append(errs, err.Error())
			}
			if err := c.Call("zz", q, &v, 10*time.Second); err == nil || err.Error() != "nf zz" {
				t.Fatal("not found", err)
			}
			c.Notify("note", q, time.Second)
			done := make(chan string, 2)
			e := c.CallAsync("err", q, func(ctx *Context, err error) { done <- err.Error() }, 10*time.Second)
			if e != nil {
				t.Fatal(e)
			}
			if x := <-done; x != "bad "+q {
				t.Fatal("async error", x)
			}
			e = c.CallAsync("echo", q, func(ctx *Context, err error) {
				var v string
				if err == nil {
					ctx.Bind(&v)
				}
				done <- v
			}, 10*time.Second)
			if e != nil {
				t.Fatal(e)
			}
			if x := <-done; x != q {
				t.Fatal("async", x)
			}
		}
		for i := 0; i < 5; i++ {
			s.Broadcast("bc", fmt.Sprint("all", i))
			s.BroadcastWithFilter("bc", "none", func(*Client) bool { return false })
		}
		for i := 0; i < 5; i++ {
			st := c.NewStream("st")
			for k := 0; k < 4; k++ {
				q := fmt.Sprintf("%d.%d", i, k)
				if err := st.Send(q); err != nil {
					t.Fatal(err)
				}
				var v string
				if err := st.Recv(&v); err != nil || v != "re:"+q {
					t.Fatal("stream", err, v)
				}
			}
			st.CloseSend()
			var v string
			if err := st.Recv(&v); err == nil {
				t.Fatal("a closed stream delivers", v)
			}
		}
		vfEventually(func() bool { mux.Lock(); defer mux.Unlock(); return len(seen) >= 30+20+5 })
		stop()
		mux.Lock()
		for _, v := range append(append(kept, errs...), seen...) {
			if vfPoisoned(v) {
				t.Fatalf("a value aliases a buffer that was given back: %q", v)
			}
		}
		if len(seen) != 30+20+5 {
			t.Fatal("deliveries", len(seen))
		}
		mux.Unlock()
		for _, v := range raw {
			if vfPoisoned(string(v)) {
				t.Fatalf("a result aliases a buffer that was given back: %q", v)
			}
		}
		sh.check(t, fmt.Sprint("server, async writes ", async))
		ch.check(t, fmt.Sprint("client, async writes ", async))
	}
}

// misses, duplicates, overstock, drops while reconnecting, timeouts with a full queue, stop
func TestVerif_C08_Trouble(t *testing.T) {
	for _, async := range []bool{true, false} {
		p := &vfPeer{conns: make(chan net.Conn, 8)}
		h := NewHandler()
		h.SetAsyncWrite(async)
		h.SetSendQueueSize(2)
		hp := newVfHeap(h)
		var lostM []string
		var mux sync.Mutex
		rec := func(c *Client, m *Message) {
			mux.Lock()
			lostM = append(lostM, m.Method())
			mux.Unlock()
		}
		h.HandleOverstock(rec)
		h.HandleMessageDropped(rec)
		h.HandleSessionMiss(rec)
		c, err := NewClient(p.dial, h)
		if err != nil {
			t.Fatal(err)
		}
		conn := <-p.conns
		if async {
			// nobody reads: the queue fills up
			for i := 0; i < 12; i++ {
				c.PushMsg(c.NewMessage(CmdNotify, "over", "x"), 0)
				c.Notify("over", "x", 0)
				c.Notify("over", "x", time.Millisecond)
				c.Call("over", "x", nil, time.Millisecond)
				c.CallAsync("over", "x", func(*Context, error) {}, time.Millisecond)
				ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
				c.CallContext(ctx, "over", "x", nil)
				c.NotifyContext(ctx, "over", "x")
				c.NewStream("over").SendContext(ctx, "x")
				c.PushMsg(c.NewMessage(CmdNotify, "over", "x"), time.Millisecond)
				cancel()
			}
		}
		vfAnswer(conn, func(fr []byte) [][]byte {
			if fr[5] != CmdRequest {
				return nil
			}
			if bytes.IndexByte(fr, 0xDD) >= 0 || bytes.IndexByte(fr, 0xAA) >= 0 {
				t.Error("a sent frame was overwritten")
			}
			r := vfRsp(fr, fr[6]&HeaderFlagMaskAsync, vfSeq(fr), "re")
			return [][]byte{r, r, r}
		})
		for i := 0; i < 20; i++ {
			var v string
			if err := c.Call("m", "x", &v, 10*time.Second); err != nil || v != "re" {
				t.Fatal(err, v)
			}
			done := make(chan bool, 4)
			if c.CallAsync("m", "x", func(*Context, error) { done <- true }, 10*time.Second) == nil {
				<-done
			}
		}
		st := c.NewStream("st")
		st.Send("a")
		pend := make(chan error, 1)
		go func() { var v string; pend <- c.Call("silentclose", "x", &v, 10*time.Second) }()
		p.mux.Lock()
		p.fail = true
		p.mux.Unlock()
		time.Sleep(5 * time.Millisecond)
		conn.Close()
		<-pend
		vfEventually(func() bool { return c.CheckState() != nil })
		for i := 0; i < 5; i++ {
			c.PushMsg(c.NewMessage(CmdNotify, "re", "x"), 0)
			c.PushMsg(c.NewMessage(CmdNotify, "re", "x"), time.Millisecond)
			c.Notify("re", "x", time.Millisecond)
			c.Call("re", "x", nil, time.Millisecond)
			st.Send("b")
		}
		c.Stop()
		c.PushMsg(c.NewMessage(CmdNotify, "st", "x"), 0)
		p.mux.Lock()
		p.fail = false
		p.mux.Unlock()
		time.Sleep(20 * time.Millisecond)
		mux.Lock()
		for _, m := range lostM {
			if vfPoisoned(m) || m == "" {
				t.Fatalf("a hook sees a message that was given back: %q", m)
			}
		}
		mux.Unlock()
		hp.check(t, fmt.Sprint("async writes ", async))
	}
}

type vfMany struct {
	ch  chan net.Conn
	end chan struct{}
}

func (l *vfMany) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.end:
		return nil, errors.New("closed")
	}
}
func (l *vfMany) Close() error   { return nil }
func (l *vfMany) Addr() net.Addr { return &net.TCPAddr{} }

// a broadcast message lives until the last connection has written it
func TestVerif_C08_Broadcast(t *testing.T) {
	for _, async := range []bool{true, false} {
		const G, N = 4, 10
		s := NewServer()
		s.Handler = NewHandler()
		s.Handler.SetAsyncWrite(async)
		heap := newVfHeap(s.Handler)
		var up sync.WaitGroup
		up.Add(G)
		s.Handler.HandleConnected(func(*Client) { up.Done() })
		l := &vfMany{ch: make(chan net.Conn, G), end: make(chan struct{})}
		go s.Serve(l)
		var wg sync.WaitGroup
		var conns []net.Conn
		for g := 0; g < G; g++ {
			a, b := net.Pipe()
			l.ch <- b
			conns = append(conns, a)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < N; i++ {
					f, err := vfReadFrame(a, 10*time.Second)
					if err != nil || string(f[16:]) != fmt.Sprint("bcall", i) {
						t.Errorf("broadcast %d arrives as %q (%v)", i, f, err)
						return
					}
				}
			}()
		}
		up.Wait()
		vfEventually(func() bool { s.mux.Lock(); defer s.mux.Unlock(); return len(s.clients) == G })
		for i := 0; i < N; i++ {
			s.Broadcast("bc", fmt.Sprint("all", i))
		}
		wg.Wait()
		for _, c := range conns {
			c.Close()
		}
		close(l.end)
		time.Sleep(30 * time.Millisecond)
		heap.check(t, fmt.Sprint("broadcast, async writes ", async))
		if t.Failed() {
			return
		}
	}
}
