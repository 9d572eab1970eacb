package pubsub

import (
	"errors"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/lesismal/arpc/log"
)

type vfListener struct {
	ch   chan net.Conn
	once sync.Once
	done chan struct{}
}

func (l *vfListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, errors.New("closed")
	}
}
func (l *vfListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *vfListener) Addr() net.Addr { return &net.TCPAddr{} }
func (l *vfListener) dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, errors.New("closed")
	}
}

func vfWait(f func() bool) bool {
	for i := 0; i < 5000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func vfStart(t *testing.T, pw string) (*Server, *vfListener) {
	log.SetLevel(log.LevelNone)
	s := NewServer()
	s.Password = pw
	l := &vfListener{ch: make(chan net.Conn), done: make(chan struct{})}
	go s.Serve(l)
	return s, l
}

func vfClient(t *testing.T, l *vfListener, pw string) *Client {
	c, err := NewClient(l.dial)
	if err != nil {
		t.Fatal(err)
	}
	c.Password = pw
	return c
}
