package arpc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"time"
)

// vfState describes everything observable of a handler.
func vfState(t *testing.T, h Handler) string {
	var b strings.Builder
	fmt.Fprintln(&b, "batch", h.BatchRecv(), h.BatchSend(), h.AsyncWrite(), h.AsyncResponse())
	fmt.Fprintln(&b, "sizes", h.SendBufferSize(), h.RecvBufferSize(), h.SendQueueSize(), h.StreamQueueSize(), h.MaxBodyLen(), h.MaxReconnectTimes())
	fmt.Fprintln(&b, "tag", h.LogTag())
	fmt.Fprintln(&b, "coders", len(h.Coders()))
	for _, c := range h.Coders() {
		fmt.Fprintf(&b, "%v ", c.(*vfNamed).name)
	}
	var ev []string
	vfCur = func(f string, a ...interface{}) { ev = append(ev, fmt.Sprintf(f, a...)) }
	a, bb := net.Pipe()
	defer a.Close()
	defer bb.Close()
	c := &Client{Conn: a, Handler: h, running: true}
	h.OnConnected(c)
	h.OnDisconnected(c)
	m := &Message{Buffer: make([]byte, 16)}
	h.OnOverstock(c, m)
	h.OnMessageDropped(c, m)
	h.OnMessageDone(c, m)
	h.OnSessionMiss(c, m)
	h.OnContextDone(&Context{Client: c, Message: m})
	if x := h.Malloc(3); len(x) != 3 {
		fmt.Fprintln(&b, "malloc", len(x))
	}
	h.Append([]byte("a"), 'b')
	h.Free(make([]byte, 3))
	h.AsyncExecute(func() { ev = append(ev, "run") })
	h.WrapReader(a)
	// routes, with their middlewares
	for _, m := range []string{"r1", "r2", "r3", "zz"} {
		msg := NewMessage(CmdNotify, m, "x", false, false, 1, h, nil, nil)
		ev = append(ev, "msg "+m)
		hh := h
		hh.OnMessage(c, msg)
	}
	for _, m := range []string{"s1", "s2", "s3"} {
		c.streamRemoteMap = map[uint64]*Stream{}
		c.streamLocalMap = map[uint64]*Stream{}
		c.chClose = nil
		msg := NewMessage(CmdStream, m, "x", false, false, 1, h, nil, nil)
		msg.SetStreamLocal(true)
		ev = append(ev, "stream "+m)
		h.OnMessage(c, msg)
	}
	fmt.Fprintln(&b, strings.Join(ev, "\n"))
	return b.String()
}

var vfCur func(string, ...interface{})

func vfEv(f string, a ...interface{}) {
	if vfCur != nil {
		vfCur(f, a...)
	}
}

type vfNamed struct{ name string }

func (k *vfNamed) Encode(c *Client, m *Message) *Message { return m }
func (k *vfNamed) Decode(c *Client, m *Message) *Message { return m }

// vfChanges: everything that can be set or registered, under a tag.
func vfChanges(tag string, x int) map[string]func(h Handler) {
	return map[string]func(h Handler){
		"SetLogTag":            func(h Handler) { h.SetLogTag("tag " + tag) },
		"SetBatchRecv":         func(h Handler) { h.SetBatchRecv(!h.BatchRecv()) },
		"SetBatchSend":         func(h Handler) { h.SetBatchSend(!h.BatchSend()) },
		"SetAsyncWrite":        func(h Handler) { h.SetAsyncWrite(!h.AsyncWrite()) },
		"SetAsyncResponse":     func(h Handler) { h.SetAsyncResponse(!h.AsyncResponse()) },
		"SetSendBufferSize":    func(h Handler) { h.SetSendBufferSize(1000 + x) },
		"SetRecvBufferSize":    func(h Handler) { h.SetRecvBufferSize(2000 + x) },
		"SetSendQueueSize":     func(h Handler) { h.SetSendQueueSize(3000 + x) },
		"SetStreamQueueSize":   func(h Handler) { h.SetStreamQueueSize(40 + x) },
		"SetMaxBodyLen":        func(h Handler) { h.SetMaxBodyLen(5000 + x) },
		"SetMaxReconnectTimes": func(h Handler) { h.SetMaxReconnectTimes(6 + x) },
		"HandleConnected":      func(h Handler) { h.HandleConnected(func(*Client) { vfEv("connected " + tag) }) },
		"HandleDisconnected":   func(h Handler) { h.HandleDisconnected(func(*Client) { vfEv("disconnected " + tag) }) },
		"HandleOverstock":      func(h Handler) { h.HandleOverstock(func(*Client, *Message) { vfEv("overstock " + tag) }) },
		"HandleMessageDropped": func(h Handler) { h.HandleMessageDropped(func(*Client, *Message) { vfEv("dropped " + tag) }) },
		"HandleMessageDone":    func(h Handler) { h.HandleMessageDone(func(*Client, *Message) { vfEv("done " + tag) }) },
		"HandleSessionMiss":    func(h Handler) { h.HandleSessionMiss(func(*Client, *Message) { vfEv("miss " + tag) }) },
		"HandleContextDone":    func(h Handler) { h.HandleContextDone(func(*Context) { vfEv("ctxdone " + tag) }) },
		"SetReaderWrapper": func(h Handler) {
			h.SetReaderWrapper(func(c net.Conn) io.Reader { vfEv("reader " + tag); return c })
		},
		"SetAsyncExecutor": func(h Handler) { h.SetAsyncExecutor(func(f func()) { vfEv("exec " + tag); f() }) },
		"HandleMalloc":     func(h Handler) { h.HandleMalloc(func(n int) []byte { vfEv("malloc " + tag); return make([]byte, n) }) },
		"HandleAppend": func(h Handler) {
			h.HandleAppend(func(b []byte, m ...byte) []byte { vfEv("append " + tag); return append(b, m...) })
		},
		"HandleFree":   func(h Handler) { h.HandleFree(func([]byte) { vfEv("free " + tag) }) },
		"Use":          func(h Handler) { h.Use(func(*Context) { vfEv("mw " + tag) }) },
		"UseCoder":     func(h Handler) { h.UseCoder(&vfNamed{tag}) },
		"Handle":       func(h Handler) { h.Handle("r3", func(*Context) { vfEv("r3 " + tag) }, false) },
		"NotFound":     func(h Handler) { h.HandleNotFound(func(*Context) { vfEv("nf " + tag) }) },
		"HandleStream": func(h Handler) { h.HandleStream("s3", func(*Stream) { vfEv("s3 " + tag) }, false) },
	}
}

func vfBase() Handler {
	h := NewHandler()
	h.SetAsyncExecutor(func(f func()) { f() })
	h.HandleConnected(func(*Client) { vfEv("c0") })
	h.HandleDisconnected(func(*Client) { vfEv("d0") })
	h.Use(func(*Context) { vfEv("mw0") })
	h.Handle("r1", func(*Context) { vfEv("r1") }, false)
	h.HandleStream("s1", func(*Stream) { vfEv("s1") }, false)
	h.Use(func(*Context) { vfEv("mw1") })
	h.Handle("r2", func(*Context) { vfEv("r2") }, true)
	h.HandleStream("s2", func(*Stream) { vfEv("s2") }, true)
	h.UseCoder(&vfNamed{"k0"})
	h.UseCoder(&vfNamed{"k1"})
	h.Use(func(*Context) { vfEv("mw2") })
	return h
}

func TestVerif_C10_Clone(t *testing.T) {
	names := vfChanges("", 0)
	for name := range names {
		// a changed handler clones to an equal one
		h := vfBase()
		vfChanges("x", 1)[name](h)
		want := vfState(t, h)
		c := h.Clone()
		if got := vfState(t, c); got != want {
			t.Fatalf("after %s the clone differs:\n%s\nfrom\n%s", name, got, want)
		}
		// changing either leaves the other
		for dir := 0; dir < 2; dir++ {
			h := vfBase()
			if dir == 1 {
				vfChanges("x", 1)[name](h)
				if name == "Handle" || name == "HandleStream" {
					continue
				}
			}
			c := h.Clone()
			hs, cs := vfState(t, h), vfState(t, c)
			vfChanges("clone", 2)[name](c)
			if got := vfState(t, h); got != hs {
				t.Fatalf("%s on the clone changes the original:\n%s\nwas\n%s", name, got, hs)
			}
			c2 := h.Clone()
			vfChanges("orig", 3)[name](h)
			if got := vfState(t, c2); got != cs {
				t.Fatalf("%s on the original changes the clone:\n%s\nwas\n%s", name, got, cs)
			}
		}
	}
	// repeated middlewares and coders on both, in turn
	h := vfBase()
	c := h.Clone()
	for i := 0; i < 5; i++ {
		hs := vfState(t, h)
		c.Use(func(*Context) { vfEv("cm") })
		c.UseCoder(&vfNamed{"cc"})
		if vfState(t, h) != hs {
			t.Fatal("the clone's middlewares reach the original")
		}
		cs := vfState(t, c)
		h.Use(func(*Context) { vfEv("hm") })
		h.UseCoder(&vfNamed{"hc"})
		if vfState(t, c) != cs {
			t.Fatal("the original's middlewares reach the clone")
		}
	}
}

type vfDeadlineConn struct {
	vfScript
	rd, wd int
}

func (c *vfDeadlineConn) SetReadDeadline(time.Time) error  { c.rd++; return nil }
func (c *vfDeadlineConn) SetWriteDeadline(time.Time) error { c.wd++; return nil }

// timeouts, hooks around reading and writing, and the context are part of the configuration
func TestVerif_C10_Rest(t *testing.T) {
	h := vfBase()
	h.SetReadTimeout(time.Second)
	h.SetWriteTimeout(2 * time.Second)
	h.BeforeRecv(func(net.Conn) error { return errors.New("recv hook") })
	h.BeforeSend(func(net.Conn) error { return errors.New("send hook") })
	type key struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), key{}, "v"))
	h.SetContext(ctx, cancel)
	c := h.Clone()
	if c.ReadTimeout() != time.Second || c.WriteTimeout() != 2*time.Second {
		t.Fatal("timeouts differ", c.ReadTimeout(), c.WriteTimeout())
	}
	conn := &vfDeadlineConn{}
	conn.closed = make(chan struct{})
	if _, err := c.Send(conn, []byte("x")); err == nil || err.Error() != "send hook" {
		t.Fatal("the send hook is lost:", err)
	}
	if _, err := c.Recv(&Client{Conn: conn, Reader: bytes.NewReader(nil), Head: make([]byte, 4)}); err == nil || err.Error() != "recv hook" {
		t.Fatal("the recv hook is lost:", err)
	}
	c.SetReadTimeout(5 * time.Second)
	c.SetWriteTimeout(6 * time.Second)
	c.BeforeSend(nil)
	c.BeforeRecv(nil)
	if h.ReadTimeout() != time.Second || h.WriteTimeout() != 2*time.Second {
		t.Fatal("the clone's timeouts reach the original")
	}
	if _, err := h.Send(conn, []byte("x")); err == nil {
		t.Fatal("the clone's hooks reach the original")
	}
}

// a clone and its original may both grow after any number of registrations
func TestVerif_C10_Grow(t *testing.T) {
	for n := 0; n < 18; n++ {
		for k := 1; k <= 3; k++ {
			h := NewHandler()
			h.SetAsyncExecutor(func(f func()) { f() })
			for i := 0; i < n; i++ {
				h.UseCoder(&vfNamed{"base"})
				h.Use(func(*Context) { vfEv("base") })
			}
			h.Handle("r1", func(*Context) { vfEv("r1") }, false)
			c := h.Clone()
			for i := 0; i < k; i++ {
				h.UseCoder(&vfNamed{"orig"})
				h.Use(func(*Context) { vfEv("orig") })
				c.UseCoder(&vfNamed{"clone"})
				c.Use(func(*Context) { vfEv("clone") })
			}
			h.Handle("r2", func(*Context) { vfEv("r2") }, false)
			c.Handle("r2", func(*Context) { vfEv("r2") }, false)
			for tag, x := range map[string]Handler{"orig": h, "clone": c} {
				cs := x.Coders()
				if len(cs) != n+k {
					t.Fatalf("%v coders, want %v", len(cs), n+k)
				}
				for i, cd := range cs {
					want := "base"
					if i >= n {
						want = tag
					}
					if got := cd.(*vfNamed).name; got != want {
						t.Fatalf("%v+%v coders: coder %v of the %s is that of the %s", n, k, i, tag, got)
					}
				}
				a, b := net.Pipe()
				cl := &Client{Conn: a, Handler: x, running: true}
				for _, m := range []string{"r1", "r2"} {
					var ev []string
					vfCur = func(f string, a ...interface{}) { ev = append(ev, f) }
					body := NewMessage(CmdNotify, m, "x", false, false, 1, x, nil, nil)
					x.OnMessage(cl, body)
					nb, nt, nr := 0, 0, 0
					for _, e := range ev {
						switch e {
						case "base":
							nb++
						case tag:
							nt++
						case m:
							nr++
						}
					}
					if nb != n || nt != k || nr != 1 || len(ev) != n+k+1 {
						t.Fatalf("%v+%v middlewares: a message to %s of the %s runs %v", n, k, m, tag, ev)
					}
				}
				a.Close()
				b.Close()
			}
		}
	}
}
