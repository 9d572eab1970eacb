package listener

import (
	"errors"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lesismal/arpc/log"
)

type vConn struct {
	net.Conn
	id     int
	closed int32
}

func (c *vConn) Close() error { atomic.AddInt32(&c.closed, 1); return nil }

type vTemp struct{}

func (vTemp) Error() string   { return "temp" }
func (vTemp) Temporary() bool { return true }
func (vTemp) Timeout() bool   { return false }

type vLn struct {
	ch  chan interface{}
	end chan struct{}
}

func (l *vLn) Accept() (net.Conn, error) {
	select {
	case v := <-l.ch:
		if e, ok := v.(error); ok {
			return nil, e
		}
		return v.(net.Conn), nil
	case <-l.end:
		return nil, errors.New("closed")
	}
}
func (l *vLn) Close() error   { return nil }
func (l *vLn) Addr() net.Addr { return &net.TCPAddr{} }

func verifListener(max int) (*Listener, *vLn) {
	log.SetLevel(log.LevelNone)
	f := &vLn{ch: make(chan interface{}, 100), end: make(chan struct{})}
	return &Listener{listener: f, maxOnlineA: int32(max), chEventA: make(chan event, 100), chEventB: make(chan event, 100)}, f
}

func verifTake(t *testing.T, l net.Listener) *vConn {
	type r struct {
		c   net.Conn
		err error
	}
	ch := make(chan r, 1)
	go func() { c, err := l.Accept(); ch <- r{c, err} }()
	select {
	case x := <-ch:
		if x.err != nil {
			return nil
		}
		return x.c.(*vConn)
	case <-time.After(200 * time.Millisecond):
		return nil
	}
}

func TestVerif_C19_split(t *testing.T) {
	for max := 0; max <= 3; max++ {
		l, f := verifListener(max)
		a, b := l.Listeners()
		fin := make(chan struct{})
		go func() { l.Run(); close(fin) }()
		online := 0
		id := 0
		give := func() {
			id++
			c := &vConn{id: id}
			f.ch <- c
			side, name := b, "B"
			if online < max {
				side, name = a, "A"
				online++
			}
			got := verifTake(t, side)
			if got != c {
				t.Fatalf("max %d: connection %d expected on side %s, got %v", max, id, name, got)
			}
			if c.closed != 0 {
				t.Fatal("delivered connection was closed")
			}
		}
		for i := 0; i < max+2; i++ {
			give()
		}
		f.ch <- error(vTemp{})
		for i := 0; i < 2 && online > 0; i++ {
			l.OfflineA()
			online--
			give()
			give()
			give()
		}
		// close: connections that cannot be delivered are closed
		l.Close()
		for i := 0; i < max+2; i++ {
			c := &vConn{id: -i}
			f.ch <- c
			for k := 0; k < 100 && atomic.LoadInt32(&c.closed) == 0; k++ {
				time.Sleep(2 * time.Millisecond)
			}
			if atomic.LoadInt32(&c.closed) != 1 {
				t.Fatalf("undeliverable connection closed %d times", c.closed)
			}
		}
		for _, s := range []net.Listener{a, b} {
			if c, err := s.Accept(); c != nil || err == nil {
				t.Fatal("closed side delivered a connection")
			}
		}
		close(f.end)
		select {
		case <-fin:
		case <-time.After(3 * time.Second):
			t.Fatal("Run does not end")
		}
	}
}

func TestVerif_C19_listen(t *testing.T) {
	log.SetLevel(log.LevelNone)
	l, err := Listen("tcp", "127.0.0.1:0", 2, "")
	if err != nil {
		t.Skip(err)
	}
	a, b := l.Listeners()
	go l.Run()
	var cs []net.Conn
	for i := 0; i < 5; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Skip(err)
		}
		side := b
		if i < 2 {
			side = a
		}
		s, err := side.Accept()
		if err != nil || s.RemoteAddr().String() != c.LocalAddr().String() {
			t.Fatalf("connection %d not delivered to its side: %v", i, err)
		}
		cs = append(cs, c, s)
	}
	for _, c := range cs {
		c.Close()
	}
	l.Close()
}
