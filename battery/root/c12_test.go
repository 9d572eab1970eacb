package arpc

import (
	"errors"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vfListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func newVfListener() *vfListener {
	return &vfListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *vfListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errors.New("closed")
	}
}
func (l *vfListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *vfListener) Addr() net.Addr { return &net.TCPAddr{} }

func (l *vfListener) connect(t *testing.T) net.Conn {
	a, b := net.Pipe()
	select {
	case l.ch <- b:
	case <-time.After(5 * time.Second):
		t.Fatal("the server does not accept")
	}
	return a
}

func vfWait(f func() bool) bool {
	for i := 0; i < 3000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func vfRefused(c net.Conn) bool {
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	var b [1]byte
	_, err := c.Read(b[:])
	ne, ok := err.(net.Error)
	return err != nil && !(ok && ne.Timeout())
}

func TestVerif_C12_LoadAndLimit(t *testing.T) {
	for _, async := range []bool{true, false} {
		s := NewServer()
		s.Handler.SetAsyncWrite(async)
		s.MaxLoad = 3
		var conn, disc int64
		s.Handler.HandleConnected(func(c *Client) { atomic.AddInt64(&conn, 1) })
		s.Handler.HandleDisconnected(func(c *Client) { atomic.AddInt64(&disc, 1) })
		l := newVfListener()
		go s.Serve(l)
		load := func() int64 { return atomic.LoadInt64(&s.CurrLoad) }
		known := func() int {
			n := 0
			s.ForEach(func(*Client) { n++ })
			return n
		}
		var cs []net.Conn
		for i := 0; i < 3; i++ {
			cs = append(cs, l.connect(t))
			n := int64(i + 1)
			if !vfWait(func() bool { return load() == n && known() == int(n) && atomic.LoadInt64(&conn) == n }) {
				t.Fatalf("load %d, known %d, connected %d after %d connections", load(), known(), conn, n)
			}
		}
		for i := 0; i < 2; i++ {
			c := l.connect(t)
			if !vfRefused(c) {
				t.Fatal("a connection beyond the limit is not refused")
			}
			if !vfWait(func() bool { return load() == 3 }) {
				t.Fatalf("load %d after a refused connection", load())
			}
		}
		if atomic.LoadInt64(&conn) != 3 {
			t.Fatal("a refused connection was served")
		}
		for i, c := range cs {
			c.Close()
			n := 2 - i
			if !vfWait(func() bool { return load() == int64(n) && known() == n && atomic.LoadInt64(&disc) == int64(i+1) }) {
				t.Fatalf("load %d, known %d, disconnects %d when %d connections are left", load(), known(), disc, n)
			}
		}
		time.Sleep(5 * time.Millisecond)
		if load() != 0 || disc != 3 {
			t.Fatalf("load %d, disconnects %d", load(), disc)
		}
		c := l.connect(t)
		if !vfWait(func() bool { return load() == 1 && known() == 1 }) {
			t.Fatal("a connection below the limit is not served")
		}
		// a broadcast reaches each connection once
		c2 := l.connect(t)
		if !vfWait(func() bool { return known() == 2 }) {
			t.Fatal("a connection below the limit is not served")
		}
		go s.Broadcast("b", "x")
		got := make(chan error, 2)
		for _, x := range []net.Conn{c, c2} {
			x := x
			go func() {
				_, err := vfReadFrame(x, 5*time.Second)
				got <- err
			}()
		}
		for i := 0; i < 2; i++ {
			if err := <-got; err != nil {
				t.Fatal("a broadcast does not reach a connection")
			}
		}
		n := 0
		s.BroadcastWithFilter("b", "x", func(c *Client) bool { n++; return false })
		if n != 2 {
			t.Fatal("filter calls", n)
		}
		go io.Copy(io.Discard, c)
		l.Close()
		if !vfRefused(c2) {
			t.Fatal("a stopped server keeps its connections")
		}
		if !vfWait(func() bool { return load() == 0 && known() == 0 && atomic.LoadInt64(&disc) == 5 }) {
			t.Fatalf("load %d, known %d, disconnects %d after the stop", load(), known(), disc)
		}
	}
}

func TestVerif_C12_EveryLimit(t *testing.T) {
	for _, max := range []int64{-1, 0, 1, 2, 5} {
		s := NewServer()
		s.MaxLoad = max
		var conn, disc int64
		s.Handler.HandleConnected(func(c *Client) { atomic.AddInt64(&conn, 1) })
		s.Handler.HandleDisconnected(func(c *Client) { atomic.AddInt64(&disc, 1) })
		l := newVfListener()
		go s.Serve(l)
		load := func() int64 { return atomic.LoadInt64(&s.CurrLoad) }
		n := max
		if max <= 0 {
			n = 7
		}
		for round := int64(1); round <= 3; round++ {
			var cs []net.Conn
			for i := int64(0); i < n; i++ {
				cs = append(cs, l.connect(t))
			}
			if !vfWait(func() bool { return load() == n && atomic.LoadInt64(&conn) == n*round }) {
				t.Fatalf("limit %d round %d: load %d, connected %d of %d", max, round, load(), conn, n*round)
			}
			if max > 0 {
				for i := 0; i < 3; i++ {
					if !vfRefused(l.connect(t)) {
						t.Fatalf("limit %d: a connection beyond the limit is not refused", max)
					}
				}
				if !vfWait(func() bool { return load() == n }) {
					t.Fatalf("limit %d: load %d after refused connections", max, load())
				}
			}
			for _, c := range cs {
				c.Close()
			}
			if !vfWait(func() bool { return load() == 0 && atomic.LoadInt64(&disc) == n*round }) {
				t.Fatalf("limit %d round %d: load %d, disconnects %d", max, round, load(), disc)
			}
			k := 0
			s.ForEach(func(*Client) { k++ })
			if k != 0 {
				t.Fatalf("limit %d: %d ended connections are remembered", max, k)
			}
		}
		l.Close()
	}
}

// stopping a server ends every connection, however many there are
func TestVerif_C12_StopMany(t *testing.T) {
	const N = 1500
	s := NewServer()
	var disc int64
	s.Handler.HandleDisconnected(func(c *Client) { atomic.AddInt64(&disc, 1) })
	l := newVfListener()
	go s.Serve(l)
	var cs []net.Conn
	for i := 0; i < N; i++ {
		cs = append(cs, l.connect(t))
	}
	load := func() int64 { return atomic.LoadInt64(&s.CurrLoad) }
	if !vfWait(func() bool { return load() == N }) {
		t.Fatalf("load %d with %d connections", load(), N)
	}
	l.Close()
	if !vfWait(func() bool { return load() == 0 && atomic.LoadInt64(&disc) == N }) {
		t.Fatalf("load %d, %d of %d disconnects after the stop", load(), atomic.LoadInt64(&disc), N)
	}
	for _, c := range cs {
		if !vfRefused(c) {
			t.Fatal("a stopped server keeps a connection")
		}
	}
}
