package arpc

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"testing"
	"time"
)

func vfStreams(c *Client) int {
	c.mux.Lock()
	defer c.mux.Unlock()
	return len(c.streamLocalMap) + len(c.streamRemoteMap)
}

type vfRecv struct {
	name string
	f    func(s *Stream, v interface{}) error
}

func vfRecvs() []vfRecv {
	ctx := context.Background()
	return []vfRecv{
		{"Recv", func(s *Stream, v interface{}) error { return s.Recv(v) }},
		{"RecvContext", func(s *Stream, v interface{}) error { return s.RecvContext(ctx, v) }},
		{"RecvWith", func(s *Stream, v interface{}) error { return s.RecvWith(ctx, v) }},
	}
}

// data arrives in order, whole, and the end is reported for good
func TestVerif_C11_Receive(t *testing.T) {
	r := rand.New(rand.NewSource(11))
	for round := 0; round < 40; round++ {
		for _, rv := range vfRecvs() {
			c, _, conn := vfClient(t, round%2 == 0)
			go io.Copy(io.Discard, conn)
			c.Handler.SetStreamQueueSize(32)
			a, b := c.NewStream("st"), c.NewStream("st")
			n := r.Intn(12)
			last := r.Intn(2) == 0
			go func() {
				for i := 0; i <= n; i++ {
					for _, s := range []*Stream{a, b} {
						cmd := CmdStream
						data := fmt.Sprintf("%d:%d", s.Id(), i)
						if i == n {
							cmd |= HeaderStreamEOFBit
							if !last {
								data = ""
							}
						}
						conn.Write(vfFrame(cmd, 0, 2, s.Id(), []byte("st"+data)))
					}
				}
				conn.Write(vfFrame(CmdPing, 0, 0, 0, nil))
			}()
			for _, s := range []*Stream{a, b} {
				k := n
				if last {
					k++
				}
				for i := 0; i < k; i++ {
					var v string
					done := make(chan error, 1)
					go func() { done <- rv.f(s, &v) }()
					select {
					case err := <-done:
						if err != nil || v != fmt.Sprintf("%d:%d", s.Id(), i) {
							t.Fatalf("%s: item %d of %d: %v %q", rv.name, i, k, err, v)
						}
					case <-time.After(10 * time.Second):
						t.Fatalf("%s: item %d of %d is lost", rv.name, i, k)
					}
				}
				for i := 0; i < 3; i++ {
					for _, rv := range vfRecvs() {
						v := "untouched"
						done := make(chan error, 1)
						go func() {
							defer func() {
								if e := recover(); e != nil {
									done <- fmt.Errorf("crash: %v", e)
								}
							}()
							done <- rv.f(s, &v)
						}()
						select {
						case err := <-done:
							if err != io.EOF || v != "untouched" {
								t.Fatalf("%s on an ended stream: %v %q", rv.name, err, v)
							}
						case <-time.After(10 * time.Second):
							t.Fatal(rv.name, "on an ended stream blocks")
						}
					}
				}
				s.CloseSendContext(context.Background())
			}
			if !vfEventually(func() bool { return vfStreams(c) == 0 }) {
				t.Fatal("streams closed both ways are remembered")
			}
			c.Stop()
			conn.Close()
		}
	}
}

type vfSendKind struct {
	name string
	f    func(s *Stream, v interface{}) error
}

func TestVerif_C11_Send(t *testing.T) {
	ctx := context.Background()
	sends := []vfSendKind{
		{"Send", func(s *Stream, v interface{}) error { return s.Send(v) }},
		{"SendContext", func(s *Stream, v interface{}) error { return s.SendContext(ctx, v) }},
		{"SendWith", func(s *Stream, v interface{}) error { return s.SendWith(ctx, v) }},
	}
	closes := []vfSendKind{
		{"SendAndClose", func(s *Stream, v interface{}) error { return s.SendAndClose(v) }},
		{"SendAndCloseContext", func(s *Stream, v interface{}) error { return s.SendAndCloseContext(ctx, v) }},
		{"SendAndCloseWith", func(s *Stream, v interface{}) error { return s.SendAndCloseWith(ctx, v) }},
		{"CloseSend", func(s *Stream, v interface{}) error { s.CloseSend(); return nil }},
		{"CloseSendContext", func(s *Stream, v interface{}) error { s.CloseSendContext(ctx); return nil }},
	}
	for _, async := range []bool{true, false} {
		for _, sk := range sends {
			for _, ck := range closes {
				tag := fmt.Sprint(sk.name, "/", ck.name, " async ", async)
				c, _, conn := vfClient(t, async)
				frames := make(chan []byte, 100)
				vfAnswer(conn, func(f []byte) [][]byte { frames <- f; return nil })
				get := func() []byte {
					select {
					case f := <-frames:
						return f
					case <-time.After(10 * time.Second):
						t.Fatal(tag, "a frame is missing")
					}
					return nil
				}
				s := c.NewStream("st")
				if vfStreams(c) != 1 {
					t.Fatal(tag, "a new stream is not registered")
				}
				for i := 0; i < 5; i++ {
					v := strings.Repeat(fmt.Sprint(i), 1+i*50)
					if err := sk.f(s, v); err != nil {
						t.Fatal(tag, err)
					}
					f := get()
					if f[5] != CmdStream|HeaderStreamLocalBit || vfSeq(f) != s.Id() || string(f[16:]) != "st"+v {
						t.Fatalf("%s: frame % x", tag, f[:18])
					}
				}
				if err := ck.f(s, "last"); err != nil {
					t.Fatal(tag, err)
				}
				f := get()
				want := "st"
				if strings.HasPrefix(ck.name, "SendAnd") {
					want = "stlast"
				}
				if f[5] != CmdStream|HeaderStreamLocalBit|HeaderStreamEOFBit || vfSeq(f) != s.Id() || string(f[16:]) != want {
					t.Fatalf("%s: closing frame % x %q", tag, f[:16], f[16:])
				}
				for _, k := range append(sends, closes[:3]...) {
					if err := k.f(s, "late"); err != ErrStreamClosedSend {
						t.Fatal(tag, k.name, "after closing:", err)
					}
				}
				for _, k := range closes {
					k.f(s, "again")
				}
				time.Sleep(3 * time.Millisecond)
				if vfStreams(c) != 1 {
					t.Fatal(tag, "a half closed stream is forgotten")
				}
				s.CloseRecv()
				s.CloseRecv()
				s.CloseRecvContext(ctx)
				if !vfEventually(func() bool { return vfStreams(c) == 0 }) {
					t.Fatal(tag, "a closed stream is remembered")
				}
				c.Notify("end", "", time.Second)
				if f := get(); f[5] != CmdNotify {
					t.Fatalf("%s: sent after closing: % x", tag, f[:16])
				}
				c.Stop()
				conn.Close()
			}
		}
	}
}

// the peer's stream: the answers carry its number and not the local mark
func TestVerif_C11_Remote(t *testing.T) {
	for _, async := range []bool{true, false} {
		var in []byte
		for i := 0; i < 4; i++ {
			in = append(in, vfFrame(CmdStream|HeaderStreamLocalBit, 0, 2, 9, []byte(fmt.Sprintf("st%d", i)))...)
		}
		in = append(in, vfFrame(CmdStream|HeaderStreamLocalBit|HeaderStreamEOFBit, 0, 2, 9, []byte("st"))...)
		sc := newVfScript(in)
		sc.hold = true
		res := make(chan string, 1)
		var cli *Client
		go func() {
			vfEventually(func() bool {
				sc.mux.Lock()
				defer sc.mux.Unlock()
				n := 0
				for b := sc.out; len(b) >= 16; n++ {
					b = b[16+int(b[0]):]
				}
				return n >= 5
			})
			time.Sleep(5 * time.Millisecond)
			if cli != nil && !vfEventually(func() bool { return vfStreams(cli) == 0 }) {
				t.Error("a closed stream is remembered")
			}
			sc.Close()
		}()
		vfServe(t, sc, func(h Handler) {
			h.SetAsyncWrite(async)
			h.HandleConnected(func(c *Client) { cli = c })
			h.HandleStream("st", func(s *Stream) {
				var all []string
				for {
					var v string
					if err := s.Recv(&v); err != nil {
						all = append(all, err.Error())
						break
					}
					all = append(all, v)
					s.Send("re" + v)
				}
				s.CloseSendContext(context.Background())
				res <- strings.Join(all, ",")
			}, true)
		})
		if r := <-res; r != "0,1,2,3,EOF" {
			t.Fatal("received", r)
		}
		b := sc.out
		for i := 0; i < 5; i++ {
			n := 16 + int(b[0])
			f := b[:n]
			b = b[n:]
			cmd, d := CmdStream, fmt.Sprintf("stre%d", i)
			if i == 4 {
				cmd, d = CmdStream|HeaderStreamEOFBit, "st"
			}
			if f[5] != cmd || vfSeq(f) != 9 || string(f[16:]) != d {
				t.Fatalf("answer %d: % x %q", i, f[:16], f[16:])
			}
		}
		if len(b) != 0 {
			t.Fatal("more than one end of stream")
		}
	}
}

// a stream and a stream of the other side may have the same number
func TestVerif_C11_SameNumber(t *testing.T) {
	for _, async := range []bool{true, false} {
		a, b := net.Pipe()
		var in [][]byte
		got := make(chan string, 4)
		ready := make(chan *Client, 1)
		ended := make(chan struct{})
		go func() {
			defer b.Close()
			c := <-ready
			mine := c.NewStream("mine")
			id := mine.Id()
			go func() {
				for {
					var v string
					err := mine.Recv(&v)
					if err != nil {
						got <- err.Error()
						return
					}
					got <- v
				}
			}()
			go func() {
				for {
					if _, err := vfReadFrame(b, time.Minute); err != nil {
						return
					}
				}
			}()
			in = [][]byte{
				vfFrame(CmdStream|HeaderStreamLocalBit, 0, 2, id, []byte("stx")),
				vfFrame(CmdStream, 0, 4, id, []byte("mine1")),
			}
			for _, f := range in {
				b.SetWriteDeadline(time.Now().Add(8 * time.Second))
				b.Write(f)
			}
			<-ended // the peer's stream is closed in both directions
			if vfStreams(c) != 1 {
				t.Errorf("%d streams are remembered, not the open one", vfStreams(c))
			}
			b.SetWriteDeadline(time.Now().Add(8 * time.Second))
			b.Write(vfFrame(CmdStream, 0, 4, id, []byte("mine2")))
			b.Write(vfFrame(CmdStream|HeaderStreamEOFBit, 0, 4, id, []byte("mine")))
			for _, want := range []string{"1", "2", "EOF"} {
				select {
				case v := <-got:
					if v != want {
						t.Errorf("received %q, not %q", v, want)
					}
				case <-time.After(8 * time.Second):
					t.Errorf("%q does not arrive", want)
				}
			}
			mine.CloseSendContext(context.Background())
			if !vfEventually(func() bool { return vfStreams(c) == 0 }) {
				t.Errorf("closed streams are remembered")
			}
		}()
		vfServe(t, a, func(h Handler) {
			h.SetAsyncWrite(async)
			h.HandleConnected(func(c *Client) { ready <- c })
			h.HandleStream("st", func(s *Stream) {
				var v string
				if err := s.Recv(&v); err != nil || v != "x" {
					t.Errorf("the peer's stream: %v %q", err, v)
				}
				s.CloseRecv()
				s.CloseSendContext(context.Background())
				close(ended)
			}, true)
		})
	}
}
