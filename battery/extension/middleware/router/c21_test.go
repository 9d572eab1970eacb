package router

import (
	"net"
	"testing"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
)

// A handler that panics leaves the middleware able to take requests and to shut down.
func TestVerif_C21_Graceful(t *testing.T) {
	log.SetLevel(log.LevelNone)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback")
	}
	g := &Graceful{}
	s := arpc.NewServer()
	s.Handler = arpc.NewHandler()
	s.Handler.Use(g.Handler())
	s.Handler.Handle("/panic", func(ctx *arpc.Context) { panic("x") }, true)
	s.Handler.Handle("/ok", func(ctx *arpc.Context) { ctx.Write("ok") }, true)
	go s.Serve(ln)
	defer ln.Close()
	c, err := arpc.NewClient(func() (net.Conn, error) { return net.Dial("tcp", ln.Addr().String()) })
	if err != nil {
		t.Skip("no dial")
	}
	defer c.Stop()
	for i := 0; i < 4; i++ {
		c.Call("/panic", "x", nil, 50*time.Millisecond)
		if err := c.Call("/ok", "x", nil, 8*time.Second); err != nil {
			t.Fatalf("a request after a panic: %v", err)
		}
	}
	done := make(chan struct{})
	go func() { g.Shutdown(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Shutdown does not come back")
	}
	if err := c.Call("/ok", "x", nil, 8*time.Second); err == nil || err.Error() != ErrShutdown.Error() {
		t.Fatalf("a request after Shutdown: %v", err)
	}
}
