package arpc

import (
	"context"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lesismal/arpc/log"
)

// vf21Try runs f in a goroutine of its own, survives its panic, and reports
// whether it came back.
func vf21Try(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(8 * time.Second):
		return false
	}
}

func vf21ClientFree(c *Client) bool {
	return vf21Try(func() {
		c.Get("k")
		c.Set("k", 1)
		c.Delete("k")
		c.deleteSession(1 << 60)
	})
}

func vf21ServerFree(s *Server) bool {
	return vf21Try(func() { s.ForEach(func(*Client) {}) })
}

type vf21Addr struct{ net.Conn }

// TestVerif_C21_ClientOperations: every client operation, in a running, a
// reconnecting and a stopped client, leaves the client usable.
func TestVerif_C21_ClientOperations(t *testing.T) {
	log.SetLevel(log.LevelNone)
	type op struct {
		name string
		f    func(c *Client)
	}
	bg := context.Background()
	gone, cancel := context.WithCancel(bg)
	cancel()
	var bad interface{} = func() {}
	ops := []op{
		{"Get unhashable", func(c *Client) { c.Get([]int{1}) }},
		{"Get after Set", func(c *Client) { c.Set("a", 1); c.Get("a"); c.Get("b") }},
		{"Set unhashable", func(c *Client) { c.Set([]int{1}, 1) }},
		{"Set nil", func(c *Client) { c.Set("a", nil) }},
		{"Delete unhashable", func(c *Client) { c.Delete(map[int]int{}) }},
		{"Call", func(c *Client) { var s string; c.Call("/echo", "x", &s, time.Second) }},
		{"Call no method", func(c *Client) { c.Call("", "x", nil, time.Second) }},
		{"Call timeout", func(c *Client) { c.Call("/none", "x", nil, 20*time.Millisecond) }},
		{"Call negative timeout", func(c *Client) { c.Call("/echo", "x", nil, -1) }},
		{"Call bad value", func(c *Client) { c.Call("/echo", bad, nil, time.Second) }},
		{"CallContext", func(c *Client) { var s string; c.CallContext(bg, "/echo", "x", &s) }},
		{"CallContext gone", func(c *Client) { c.CallContext(gone, "/none", "x", nil) }},
		{"CallContext nil", func(c *Client) { c.CallContext(nil, "/none", "x", nil) }},
		{"CallAsync", func(c *Client) { c.CallAsync("/echo", "x", func(*Context, error) {}, time.Second) }},
		{"CallAsync timeout", func(c *Client) {
			c.CallAsync("/none", "x", func(*Context, error) {}, 5*time.Millisecond)
			time.Sleep(30 * time.Millisecond)
		}},
		{"CallAsync panic", func(c *Client) {
			ch := make(chan bool, 1)
			c.CallAsync("/echo", "x", func(*Context, error) { ch <- true; panic("user") }, time.Second)
			select {
			case <-ch:
			case <-time.After(2 * time.Second):
			}
		}},
		{"CallAsync timeout panic", func(c *Client) {
			c.CallAsync("/none", "x", func(*Context, error) { c.Get("k") }, 5*time.Millisecond)
			time.Sleep(30 * time.Millisecond)
		}},
		{"CallAsync nil", func(c *Client) { c.CallAsync("/echo", "x", nil, time.Second) }},
		{"Notify", func(c *Client) { c.Notify("/none", "x", time.Second) }},
		{"NotifyContext", func(c *Client) { c.NotifyContext(gone, "/none", "x") }},
		{"Notify bad", func(c *Client) { c.Notify("/none", bad, time.Second) }},
		{"PushMsg nil", func(c *Client) { c.PushMsg(nil, time.Second) }},
		{"PushMsg", func(c *Client) { c.PushMsg(c.NewMessage(CmdNotify, "/none", "x"), TimeZero) }},
		{"Ping", func(c *Client) { c.Ping(); c.Pong() }},
		{"NewStream", func(c *Client) { s := c.NewStream("/stream"); s.Send("x"); s.CloseSend(); s.CloseRecv() }},
		{"NewStream bad", func(c *Client) { s := c.NewStream("/stream"); s.Send(bad); s.CloseRecv(); s.CloseRecv() }},
		{"NewStream gone", func(c *Client) { s := c.NewStream("/stream"); s.SendContext(gone, "x"); s.RecvContext(gone, nil) }},
		{"SetState", func(c *Client) { c.SetState(true) }},
		{"Restart dialer panics", func(c *Client) {
			old := c.Dialer
			c.Dialer = func() (net.Conn, error) { panic("user") }
			defer func() { c.Dialer = old }()
			c.Restart()
		}},
		{"Restart dialer returns nothing", func(c *Client) {
			old := c.Dialer
			c.Dialer = func() (net.Conn, error) { return nil, nil }
			defer func() { c.Dialer = old }()
			c.Restart()
		}},
		{"Stop", func(c *Client) { c.Stop(); c.Stop() }},
		{"Restart", func(c *Client) { c.Restart() }},
	}
	for _, async := range []bool{true, false} {
		for _, o := range ops {
			for _, state := range []string{"running", "stopped"} {
				c, p, n := vfClient(t, async)
				vfAnswer(n, func(fr []byte) [][]byte {
					if fr[5] == CmdRequest && string(fr[16:16+int(fr[7])]) == "/echo" {
						return [][]byte{vfRsp(fr, fr[6], vfSeq(fr), "x")}
					}
					return nil
				})
				if state == "stopped" {
					c.Stop()
				}
				if !vf21Try(func() { o.f(c) }) {
					t.Fatalf("%v on a %v client (async %v) does not come back", o.name, state, async)
				}
				if !vf21ClientFree(c) {
					t.Fatalf("%v on a %v client (async %v) leaves the client locked", o.name, state, async)
				}
				p.mux.Lock()
				p.fail = true
				p.mux.Unlock()
				if !vf21Try(c.Stop) {
					t.Fatalf("after %v on a %v client (async %v) Stop does not come back", o.name, state, async)
				}
				n.Close()
			}
		}
	}
}

type vf21Listener struct {
	ch  chan net.Conn
	end chan struct{}
	n   int32
}

func (l *vf21Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.end:
		return nil, net.ErrClosed
	}
}
func (l *vf21Listener) Close() error {
	if atomic.AddInt32(&l.n, 1) == 1 {
		close(l.end)
	}
	return nil
}
func (l *vf21Listener) Addr() net.Addr { return &net.TCPAddr{} }

// TestVerif_C21_ServerOperations: callbacks that panic leave the server usable.
func TestVerif_C21_ServerOperations(t *testing.T) {
	log.SetLevel(log.LevelNone)
	boom := func(*Client) { panic("user") }
	type op struct {
		name string
		f    func(s *Server)
	}
	var bad interface{} = func() {}
	ops := []op{
		{"ForEach", func(s *Server) { s.ForEach(boom) }},
		{"ForEachWithFilter", func(s *Server) { s.ForEachWithFilter(boom, nil) }},
		{"ForEachWithFilter filter", func(s *Server) { s.ForEachWithFilter(func(*Client) {}, func(*Client) bool { panic("user") }) }},
		{"ForEachWithFilter none", func(s *Server) { s.ForEachWithFilter(boom, func(*Client) bool { return false }) }},
		{"Broadcast", func(s *Server) { s.Broadcast("/x", "v") }},
		{"Broadcast bad", func(s *Server) { s.Broadcast("/x", bad) }},
		{"BroadcastWithFilter", func(s *Server) { s.BroadcastWithFilter("/x", "v", func(*Client) bool { panic("user") }) }},
		{"BroadcastWithFilter none", func(s *Server) { s.BroadcastWithFilter("/x", "v", func(*Client) bool { return false }) }},
		{"BroadcastWithFilter nil", func(s *Server) { s.BroadcastWithFilter("/x", "v", nil) }},
		{"Broadcast, free panics", func(s *Server) {
			s.Handler.HandleFree(func([]byte) { panic("user") })
			defer s.Handler.HandleFree(func([]byte) {})
			s.Broadcast("/x", "v")
		}},
		{"BroadcastWithFilter, free panics", func(s *Server) {
			s.Handler.HandleFree(func([]byte) { panic("user") })
			defer s.Handler.HandleFree(func([]byte) {})
			s.BroadcastWithFilter("/x", "v", nil)
		}},
		{"Broadcast, malloc panics", func(s *Server) {
			s.Handler.HandleMalloc(func(n int) []byte { panic("user") })
			defer s.Handler.HandleMalloc(func(n int) []byte { return make([]byte, n) })
			s.Broadcast("/x", "v")
		}},
		{"Broadcast, overstock panics", func(s *Server) {
			s.Handler.HandleOverstock(func(*Client, *Message) { panic("user") })
			for i := 0; i < 12; i++ {
				s.Broadcast("/x", "v")
			}
		}},
	}
	for _, o := range ops {
		s := NewServer()
		s.Handler = NewHandler()
		s.Handler.SetSendQueueSize(4)
		var n int32
		s.Handler.HandleConnected(func(*Client) { atomic.AddInt32(&n, 1) })
		l := &vf21Listener{ch: make(chan net.Conn), end: make(chan struct{})}
		go s.Serve(l)
		for i := 0; i < 3; i++ {
			a, b := net.Pipe()
			defer b.Close()
			l.ch <- a
		}
		if !vfEventually(func() bool { return atomic.LoadInt32(&n) == 3 }) {
			t.Fatal("the clients do not connect")
		}
		if !vf21Try(func() { o.f(s) }) {
			t.Fatalf("%v does not come back", o.name)
		}
		if !vf21ServerFree(s) {
			t.Fatalf("%v leaves the server locked", o.name)
		}
		// a new connection is still served
		a, b := net.Pipe()
		defer b.Close()
		if !vf21Try(func() { l.ch <- a }) || !vfEventually(func() bool { return atomic.LoadInt32(&n) == 4 }) {
			t.Fatalf("after %v the server takes no connection", o.name)
		}
		var locked bool
		vf21Try(func() {
			s.ForEach(func(c *Client) {
				if !vf21ClientFree(c) {
					locked = true
				}
			})
		})
		if locked {
			t.Fatalf("%v leaves a connection locked", o.name)
		}
		l.Close()
	}
}

// TestVerif_C21_ConnectionCallbacks: callbacks of the connection's life that
// panic leave the client and the server usable.
func TestVerif_C21_ConnectionEnd(t *testing.T) {
	log.SetLevel(log.LevelNone)
	for _, async := range []bool{true, false} {
		for _, what := range []string{"disconnected", "session miss", "message", "async end"} {
			h := NewHandler()
			h.SetAsyncWrite(async)
			boom := func() { panic("user") }
			switch what {
			case "disconnected":
				h.HandleDisconnected(func(*Client) { boom() })
			case "session miss":
				h.HandleSessionMiss(func(*Client, *Message) { boom() })
			case "message":
				h.Handle("/m", func(*Context) { boom() })
			}
			p := &vfPeer{conns: make(chan net.Conn, 8)}
			c, err := NewClient(p.dial, h)
			if err != nil {
				t.Fatal(err)
			}
			n := <-p.conns
			if what == "async end" {
				go c.CallAsync("/x", "v", func(*Context, error) { boom() }, time.Minute)
				vfReadFrame(n, 5*time.Second)
				st := c.NewStream("/s")
				_ = st
			}
			body := []byte("/m")
			n.SetWriteDeadline(time.Now().Add(2 * time.Second))
			n.Write(vfFrame(CmdRequest, 0, 2, 1, body))
			n.Write(vfFrame(CmdResponse, 0, 2, 77, body))
			n.Write(vfFrame(CmdNotify, 0, 2, 2, body))
			if !vf21ClientFree(c) {
				t.Fatalf("%v (async %v): the client is locked", what, async)
			}
			n.Close()
			time.Sleep(20 * time.Millisecond)
			if !vf21ClientFree(c) {
				t.Fatalf("%v (async %v): the client is locked after its connection ended", what, async)
			}
			vf21Try(c.Stop)
			time.Sleep(5 * time.Millisecond)
			if !vf21ClientFree(c) || !vf21Try(c.Stop) {
				t.Fatalf("%v (async %v): the client is locked after Stop", what, async)
			}
		}
	}
}

func TestVerif_C21_DebugAllocator(t *testing.T) {
	bp := New(64, 256).(*BufferPool)
	bp.Debug = true
	for _, f := range []func(){
		func() { bp.Free(make([]byte, 10)) },
		func() { bp.Free(nil) },
		func() { bp.Realloc(nil, 10) },
		func() { bp.Realloc(make([]byte, 10), 100) },
		func() { bp.Realloc(make([]byte, 10), 1000) },
		func() { bp.AppendString(nil, "x") },
		func() { bp.AppendString(make([]byte, 1, 1), "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx") },
		func() { bp.AppendString(make([]byte, 1, 1), string(make([]byte, 1000))) },
		func() { bp.Append(bp.Malloc(10), make([]byte, 1000)...) },
		func() { bp.Realloc(bp.Malloc(10), 1000) },
		func() { bp.Malloc(-1) },
	} {
		if !vf21Try(f) {
			t.Fatal("an operation of the allocator does not come back")
		}
		if !vf21Try(func() { bp.Free(bp.Malloc(10)) }) {
			t.Fatal("an operation leaves the allocator locked")
		}
	}
}
