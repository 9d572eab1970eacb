package router

import (
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
)

func verifPair(t *testing.T, reg func(s *arpc.Server)) (*arpc.Server, *arpc.Client) {
	log.SetLevel(log.LevelNone)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback")
	}
	s := arpc.NewServer()
	reg(s)
	go s.Serve(ln)
	c, err := arpc.NewClient(func() (net.Conn, error) { return net.Dial("tcp", ln.Addr().String()) })
	if err != nil {
		t.Skip("no dial")
	}
	return s, c
}

func TestVerif_C20_shutdown(t *testing.T) {
	for round := 0; round < 3; round++ {
		g := &Graceful{}
		var ran, late int32
		block := make(chan struct{})
		started := make(chan struct{}, 16)
		s, c := verifPair(t, func(s *arpc.Server) {
			s.Handler.Use(g.Handler())
			s.Handler.Handle("/block", func(ctx *arpc.Context) {
				started <- struct{}{}
				<-block
				atomic.AddInt32(&ran, 1)
				ctx.Write("ok")
			}, true)
			s.Handler.Handle("/quick", func(ctx *arpc.Context) { atomic.AddInt32(&late, 1); ctx.Write("ok") }, true)
			s.Handler.Handle("/panic", func(ctx *arpc.Context) { panic("x") }, true)
			s.Handler.Use(func(ctx *arpc.Context) { atomic.AddInt32(&late, 1); ctx.Next() })
		})
		// a panicking request must be uncounted
		if round > 0 {
			c.Call("/panic", "x", nil, time.Millisecond*100)
		}
		const k = 3
		res := make(chan error, k)
		for i := 0; i < k; i++ {
			go func() { res <- c.Call("/block", "x", nil, time.Second*5) }()
		}
		for i := 0; i < k; i++ {
			<-started
		}
		done := make(chan struct{})
		go func() { g.Shutdown(); close(done) }()
		time.Sleep(50 * time.Millisecond)
		atomic.StoreInt32(&late, 0)
		for i := 0; i < 3; i++ {
			err := c.Call("/quick", "x", nil, time.Second*3)
			if err == nil || err.Error() != ErrShutdown.Error() {
				t.Fatalf("request after shutdown began: %v", err)
			}
		}
		for i := 0; i < 3; i++ {
			// a notification has no answer, but is refused all the same
			if err := c.Notify("/quick", "x", time.Second); err != nil {
				t.Fatal(err)
			}
			if err := c.Call("/quick", "x", nil, time.Second*3); err == nil {
				t.Fatal("a request after shutdown began is served")
			}
			time.Sleep(10 * time.Millisecond)
		}
		if atomic.LoadInt32(&late) != 0 {
			t.Fatal("a later handler ran for a refused request")
		}
		select {
		case <-done:
			t.Fatal("shutdown did not wait for running requests")
		case <-time.After(250 * time.Millisecond):
		}
		close(block)
		for i := 0; i < k; i++ {
			if err := <-res; err != nil {
				t.Fatal(err)
			}
		}
		select {
		case <-done:
		case <-time.After(4 * time.Second):
			t.Fatal("shutdown hangs after all requests ended")
		}
		if atomic.LoadInt32(&ran) != k {
			t.Fatal("running requests were cut short")
		}
		c.Stop()
		s.Stop()
	}
}

func TestVerif_C20_race(t *testing.T) {
	for round := 0; round < 20; round++ {
		g := &Graceful{}
		var inflight, over int32
		var stopped int32
		s, c := verifPair(t, func(s *arpc.Server) {
			s.Handler.Use(g.Handler())
			s.Handler.Handle("/x", func(ctx *arpc.Context) {
				if atomic.LoadInt32(&stopped) == 1 {
					atomic.AddInt32(&over, 1)
				}
				atomic.AddInt32(&inflight, 1)
				ctx.Write("ok")
				atomic.AddInt32(&inflight, -1)
			}, true)
		})
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 50; j++ {
					c.Call("/x", "x", nil, time.Second)
				}
			}()
		}
		g.Shutdown()
		atomic.StoreInt32(&stopped, 1)
		wg.Wait()
		if over != 0 || inflight != 0 {
			t.Fatalf("%d requests ran after shutdown returned", over)
		}
		c.Stop()
		s.Stop()
	}
}
