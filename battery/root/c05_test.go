package arpc

import (
	"context"
	"errors"
	"net"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

type vfCaller struct {
	name string
	f    func(c *Client, method string, req, rsp interface{}, d time.Duration) error
}

func vfCallers() []vfCaller {
	return []vfCaller{
		{"Call", func(c *Client, m string, q, p interface{}, d time.Duration) error { return c.Call(m, q, p, d) }},
		{"CallContext", func(c *Client, m string, q, p interface{}, d time.Duration) error {
			ctx, cancel := context.WithTimeout(context.Background(), d)
			defer cancel()
			return c.CallContext(ctx, m, q, p)
		}},
		{"CallWith", func(c *Client, m string, q, p interface{}, d time.Duration) error {
			ctx, cancel := context.WithTimeout(context.Background(), d)
			defer cancel()
			return c.CallWith(ctx, m, q, p)
		}},
	}
}

func vfClean(t *testing.T, c *Client, what string) {
	t.Helper()
	if s, _ := vfPending(c); s != 0 {
		t.Fatal(what, "leaves a pending entry")
	}
}

type vfVal struct {
	A int
	B string
}

func TestVerif_C05_Outcomes(t *testing.T) {
	for _, mode := range []bool{true, false} {
		for _, k := range vfCallers() {
			c, p, conn := vfClient(t, mode)
			var sent int64
			vfAnswer(conn, func(fr []byte) [][]byte {
				atomic.AddInt64(&sent, 1)
				m := string(fr[16 : 16+int(fr[7])])
				q := string(fr[16+int(fr[7]):])
				switch m {
				case "ok":
					return [][]byte{vfRsp(fr, 0, vfSeq(fr), "re:"+q)}
				case "err":
					return [][]byte{vfRsp(fr, HeaderFlagMaskError, vfSeq(fr), "bad "+q)}
				case "noerr":
					return [][]byte{vfRsp(fr, HeaderFlagMaskError, vfSeq(fr), "")}
				case "json":
					return [][]byte{vfRsp(fr, 0, vfSeq(fr), `{"A":7,"B":"x"}`)}
				case "broken":
					return [][]byte{vfRsp(fr, 0, vfSeq(fr), `{"A":`)}
				case "other":
					// the answer to another call first
					return [][]byte{vfRsp(fr, 0, vfSeq(fr)+1000, "stranger"), vfRsp(fr, 0, vfSeq(fr), "mine")}
				case "close":
					conn.Close()
				}
				return nil
			})
			tag := k.name
			if mode {
				tag += " async"
			}
			var s string
			if err := k.f(c, "ok", "q", &s, 10*time.Second); err != nil || s != "re:q" {
				t.Fatal(tag, "ok:", err, s)
			}
			vfClean(t, c, tag+" ok")
			var b []byte
			if err := k.f(c, "ok", []byte("q2"), &b, 10*time.Second); err != nil || string(b) != "re:q2" {
				t.Fatal(tag, "bytes:", err, string(b))
			}
			if err := k.f(c, "ok", "q", nil, 10*time.Second); err != nil {
				t.Fatal(tag, "no result wanted:", err)
			}
			var v vfVal
			if err := k.f(c, "json", &vfVal{1, "y"}, &v, 10*time.Second); err != nil || v.A != 7 || v.B != "x" {
				t.Fatal(tag, "json:", err, v)
			}
			if err := k.f(c, "broken", "q", &v, 10*time.Second); err == nil {
				t.Fatal(tag, "an undecodable response is a success")
			}
			vfClean(t, c, tag+" broken")
			if err := k.f(c, "other", "q", &s, 10*time.Second); err != nil || s != "mine" {
				t.Fatal(tag, "other:", err, s)
			}
			s = "untouched"
			if err := k.f(c, "err", "thing", &s, 10*time.Second); err == nil || err.Error() != "bad thing" || s != "untouched" {
				t.Fatal(tag, "remote error:", err, s)
			}
			if err := k.f(c, "noerr", "thing", &s, 10*time.Second); err == nil || err.Error() != "" || s != "untouched" {
				t.Fatal(tag, "remote error without a text:", err, s)
			}
			if err := k.f(c, "noerr", "thing", nil, 10*time.Second); err == nil {
				t.Fatal(tag, "remote error without a text is a success")
			}
			vfClean(t, c, tag+" error")
			if err := k.f(c, "silent", "q", &s, 30*time.Millisecond); err != ErrClientTimeout || s != "untouched" {
				t.Fatal(tag, "silence:", err, s)
			}
			vfClean(t, c, tag+" timeout")
			// rejected calls send nothing
			n := atomic.LoadInt64(&sent)
			for _, m := range []string{"", strings.Repeat("x", 128), strings.Repeat("x", 300)} {
				if err := k.f(c, m, "q", &s, 10*time.Second); err == nil {
					t.Fatal(tag, "method of length", len(m), "accepted")
				}
			}
			if k.name == "Call" {
				if err := c.Call("ok", "q", &s, 0); err != ErrClientInvalidTimeoutZero {
					t.Fatal(tag, "timeout 0:", err)
				}
				if err := c.Call("ok", "q", &s, -time.Second); err != ErrClientInvalidTimeoutLessThanZero {
					t.Fatal(tag, "negative timeout:", err)
				}
			}
			vfClean(t, c, tag+" rejected")
			if err := k.f(c, strings.Repeat("x", 127), "q", &s, 20*time.Millisecond); err != ErrClientTimeout {
				t.Fatal(tag, "longest method:", err)
			}
			if atomic.LoadInt64(&sent) != n+1 {
				t.Fatal(tag, "a rejected call was sent")
			}
			// the connection is lost while waiting
			p.mux.Lock()
			p.fail = true
			p.mux.Unlock()
			t0 := time.Now()
			if err := k.f(c, "close", "q", &s, 20*time.Second); err == nil || err == ErrClientTimeout || time.Since(t0) > 15*time.Second {
				t.Fatal(tag, "lost connection:", err, time.Since(t0))
			}
			vfClean(t, c, tag+" lost")
			if !vfEventually(func() bool { return c.CheckState() != nil }) {
				t.Fatal(tag, "a lost connection goes unnoticed")
			}
			if err := k.f(c, "ok", "q", &s, 5*time.Second); err != ErrClientReconnecting {
				t.Fatal(tag, "while reconnecting:", err)
			}
			vfClean(t, c, tag+" reconnecting")
			p.mux.Lock()
			p.fail = false
			p.mux.Unlock()
			conn = vfReconnected(t, c, p)
			vfAnswer(conn, func(fr []byte) [][]byte { return [][]byte{vfRsp(fr, 0, vfSeq(fr), "back")} })
			if err := k.f(c, "ok", "q", &s, 10*time.Second); err != nil || s != "back" {
				t.Fatal(tag, "after reconnecting:", err, s)
			}
			c.Stop()
			if err := k.f(c, "ok", "q", &s, 5*time.Second); err != ErrClientStopped {
				t.Fatal(tag, "stopped:", err)
			}
			vfClean(t, c, tag+" stopped")
		}
	}
}

// a late response is not taken for the answer of the next call
func TestVerif_C05_Late(t *testing.T) {
	for _, mode := range []bool{true, false} {
		for _, k := range vfCallers() {
			c, _, conn := vfClient(t, mode)
			var prev []byte
			vfAnswer(conn, func(fr []byte) [][]byte {
				if string(fr[16+int(fr[7]):]) == "first" {
					prev = fr
					return nil
				}
				return [][]byte{vfRsp(prev, 0, vfSeq(prev), "late"), vfRsp(fr, 0, vfSeq(fr), "right")}
			})
			var s string
			if err := k.f(c, "m", "first", &s, 20*time.Millisecond); err != ErrClientTimeout {
				t.Fatal(k.name, err)
			}
			if err := k.f(c, "m", "second", &s, 10*time.Second); err != nil || s != "right" {
				t.Fatal(k.name, "a late response answered the next call:", err, s)
			}
			vfClean(t, c, k.name)
			c.Stop()
			conn.Close()
		}
	}
}

type vfFailWrite struct {
	net.Conn
	err error
}

func (f *vfFailWrite) Write(b []byte) (int, error) {
	if f.err != nil {
		return 0, f.err
	}
	return f.Conn.Write(b)
}

// a failed write is reported as such when writing is synchronous
func TestVerif_C05_WriteFails(t *testing.T) {
	for _, k := range vfCallers() {
		a, b := net.Pipe()
		defer b.Close()
		fw := &vfFailWrite{Conn: a, err: errors.New("disk on fire")}
		h := NewHandler()
		h.SetAsyncWrite(false)
		first := true
		c, err := NewClient(func() (net.Conn, error) {
			if first {
				first = false
				return fw, nil
			}
			return nil, errors.New("refused")
		}, h)
		if err != nil {
			t.Fatal(err)
		}
		if err := k.f(c, "m", "q", nil, 5*time.Second); err == nil || err.Error() != "disk on fire" {
			t.Fatal(k.name, "a failed write gives", err)
		}
		vfClean(t, c, k.name)
		c.Stop()
	}
}

// a full send queue: the call times out, and leaves nothing
func TestVerif_C05_QueueFull(t *testing.T) {
	for _, k := range vfCallers() {
		p := &vfPeer{conns: make(chan net.Conn, 8)}
		h := NewHandler()
		h.SetSendQueueSize(1)
		c, err := NewClient(p.dial, h)
		if err != nil {
			t.Fatal(err)
		}
		conn := <-p.conns // nobody reads
		done := make(chan error, 16)
		for i := 0; i < 8; i++ {
			go func() { done <- k.f(c, "m", "q", nil, 50*time.Millisecond) }()
		}
		for i := 0; i < 8; i++ {
			select {
			case err := <-done:
				if err != ErrClientTimeout {
					t.Fatal(k.name, err)
				}
			case <-time.After(10 * time.Second):
				t.Fatal(k.name, "does not return")
			}
		}
		vfClean(t, c, k.name)
		// stopping unblocks a call that waits for room
		go func() { done <- k.f(c, "m", "q", nil, time.Minute) }()
		time.Sleep(10 * time.Millisecond)
		c.Stop()
		select {
		case err := <-done:
			if err == nil || err == ErrClientTimeout {
				t.Fatal(k.name, "stopped:", err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal(k.name, "does not return when the client stops")
		}
		vfClean(t, c, k.name)
		conn.Close()
	}
}

// calls made by the accepting side: the connection ends, or the client is stopped, while they wait
func TestVerif_C05_ServerSide(t *testing.T) {
	for _, mode := range []bool{true, false} {
		for _, k := range vfCallers() {
			for _, stop := range []bool{true, false} {
				a, b := net.Pipe()
				done := make(chan error, 1)
				got := make(chan *Client, 1)
				go func() {
					vfReadFrame(b, 10*time.Second)
					if stop {
						(<-got).Stop()
					} else {
						b.Close()
					}
				}()
				var cli *Client
				vfServe(t, a, func(h Handler) {
					h.SetAsyncWrite(mode)
					h.HandleConnected(func(c *Client) {
						cli = c
						got <- c
						go func() { done <- k.f(c, "m", "q", nil, 20*time.Second) }()
					})
				})
				select {
				case err := <-done:
					if err == nil || err == ErrClientTimeout {
						t.Fatal(k.name, "the connection ended:", err)
					}
				case <-time.After(10 * time.Second):
					t.Fatal(k.name, "does not return when the connection ends")
				}
				vfClean(t, cli, k.name+" server side")
				b.Close()
			}
		}
	}
}
