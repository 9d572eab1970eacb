package arpc

import (
	"errors"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

// vfPeer is the other end of a connection made of in-memory pipes.
type vfPeer struct {
	mux   sync.Mutex
	conns chan net.Conn
	fail  bool
}

func (p *vfPeer) dial() (net.Conn, error) {
	p.mux.Lock()
	defer p.mux.Unlock()
	if p.fail {
		return nil, errors.New("refused")
	}
	a, b := net.Pipe()
	p.conns <- b
	return a, nil
}

func vfReadFrame(c net.Conn, d time.Duration) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(d))
	head := make([]byte, HeadLen)
	if _, err := io.ReadFull(c, head); err != nil {
		return nil, err
	}
	n := Header(head).BodyLen()
	buf := append(head, make([]byte, n)...)
	_, err := io.ReadFull(c, buf[HeadLen:])
	return buf, err
}

func vfClient(t *testing.T, async bool) (*Client, *vfPeer, net.Conn) {
	p := &vfPeer{conns: make(chan net.Conn, 8)}
	h := NewHandler()
	h.SetAsyncWrite(async)
	c, err := NewClient(p.dial, h)
	if err != nil {
		t.Fatal(err)
	}
	return c, p, <-p.conns
}

func vfReconnected(t *testing.T, c *Client, p *vfPeer) net.Conn {
	select {
	case n := <-p.conns:
		for i := 0; i < 500 && c.CheckState() != nil; i++ {
			time.Sleep(time.Millisecond)
		}
		return n
	case <-time.After(5 * time.Second):
		t.Fatal("did not reconnect")
	}
	return nil
}


// vfScript is a connection that reads a fixed byte sequence in chunks and records what is written.
type vfScript struct {
	mux    sync.Mutex
	in     []byte
	chunk  func() int
	read   int
	out    []byte
	closed chan struct{}
	once   sync.Once
	hold   bool // block at the end instead of reporting EOF
	writes int
}

func newVfScript(in []byte) *vfScript { return &vfScript{in: in, closed: make(chan struct{})} }

func (s *vfScript) Read(b []byte) (int, error) {
	s.mux.Lock()
	n := len(s.in) - s.read
	if n == 0 {
		s.mux.Unlock()
		if s.hold {
			<-s.closed
			return 0, io.ErrClosedPipe
		}
		return 0, io.EOF
	}
	if s.chunk != nil {
		if m := s.chunk(); m < n {
			n = m
		}
	}
	n = copy(b, s.in[s.read:s.read+n])
	s.read += n
	s.mux.Unlock()
	return n, nil
}

func (s *vfScript) Write(b []byte) (int, error) {
	s.mux.Lock()
	defer s.mux.Unlock()
	s.out = append(s.out, b...)
	s.writes++
	return len(b), nil
}

func (s *vfScript) Close() error                     { s.once.Do(func() { close(s.closed) }); return nil }
func (s *vfScript) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (s *vfScript) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (s *vfScript) SetDeadline(time.Time) error      { return nil }
func (s *vfScript) SetReadDeadline(time.Time) error  { return nil }
func (s *vfScript) SetWriteDeadline(time.Time) error { return nil }

// vfFrame builds a frame by hand.
func vfFrame(cmd, flag byte, ml int, seq uint64, body []byte) []byte {
	b := make([]byte, 16+len(body))
	n := len(body)
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	b[5], b[6], b[7] = cmd, flag, byte(ml)
	for i := 0; i < 8; i++ {
		b[8+i] = byte(seq >> (8 * uint(i)))
	}
	copy(b[16:], body)
	return b
}

// vfServe serves one connection the way a server does and returns when it has ended.
type vfOne struct {
	c    net.Conn
	once sync.Once
	end  chan struct{}
	used bool
}

func (l *vfOne) Accept() (net.Conn, error) {
	if !l.used {
		l.used = true
		return l.c, nil
	}
	<-l.end
	return nil, errors.New("closed")
}
func (l *vfOne) Close() error   { l.once.Do(func() { close(l.end) }); return nil }
func (l *vfOne) Addr() net.Addr { return &net.TCPAddr{} }

func vfServe(t *testing.T, conn net.Conn, setup func(h Handler)) *Server {
	s := NewServer()
	s.Handler = NewHandler()
	done := make(chan struct{})
	var once sync.Once
	setup(s.Handler)
	s.Handler.HandleDisconnected(func(*Client) { once.Do(func() { close(done) }) })
	l := &vfOne{c: conn, end: make(chan struct{})}
	go s.Serve(l)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the connection does not end")
	}
	l.Close()
	return s
}

// vfAnswer reads frames from a connection and writes what f returns for each.
func vfAnswer(c net.Conn, f func(frame []byte) [][]byte) {
	go func() {
		for {
			fr, err := vfReadFrame(c, time.Hour)
			if err != nil {
				return
			}
			for _, o := range f(fr) {
				c.SetWriteDeadline(time.Now().Add(10 * time.Second))
				if _, err := c.Write(o); err != nil {
					return
				}
			}
		}
	}()
}

func vfSeq(fr []byte) uint64 {
	var s uint64
	for i := 0; i < 8; i++ {
		s |= uint64(fr[8+i]) << (8 * uint(i))
	}
	return s
}

// vfRsp answers a request frame.
func vfRsp(fr []byte, flag byte, seq uint64, data string) []byte {
	ml := int(fr[7])
	return vfFrame(CmdResponse, flag, ml, seq, append(append([]byte{}, fr[16:16+ml]...), data...))
}

func vfPending(c *Client) (int, int) {
	c.mux.Lock()
	defer c.mux.Unlock()
	return len(c.sessionMap), len(c.asyncHandlerMap)
}

func vfEventually(f func() bool) bool {
	for i := 0; i < 5000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
