package arpc

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfSeen struct {
	mux sync.Mutex
	ev  []string
}

func (s *vfSeen) add(f string, a ...interface{}) {
	s.mux.Lock()
	s.ev = append(s.ev, fmt.Sprintf(f, a...))
	s.mux.Unlock()
}

func (s *vfSeen) all() string {
	s.mux.Lock()
	defer s.mux.Unlock()
	return strings.Join(s.ev, ";")
}

// every frame reaches exactly the handler of its method and kind, malformed ones reach none, and the
// frames after a malformed one are still dispatched
func TestVerif_C03_Dispatch(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	long := strings.Repeat("L", 127)
	for round := 0; round < 300; round++ {
		seen := &vfSeen{}
		var stream []byte
		var want []string
		notFound := r.Intn(2) == 0
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			seq := uint64(1000 + i)
			cmd := []byte{CmdRequest, CmdNotify, CmdRequest, CmdNotify, CmdResponse, CmdStream | HeaderStreamLocalBit, CmdStream}[r.Intn(7)]
			flag := byte(r.Intn(4))
			switch r.Intn(5) {
			case 0:
				// malformed method lengths
				body := vfC03Bytes(r, r.Intn(200))
				ml := 0
				switch r.Intn(3) {
				case 0:
					ml = 128 + r.Intn(128)
				case 1:
					ml = len(body) + 1 + r.Intn(3)
					if ml > 255 {
						ml = 255
					}
				}
				if ml > 0 && ml <= 127 && ml <= len(body) {
					ml = 0
				}
				stream = append(stream, vfFrame(cmd, flag, ml, seq, body)...)
				continue
			}
			method := []string{"a", "ab", "abc", long, "as", "st", "zz", "abcd"}[r.Intn(8)]
			data := fmt.Sprintf("%d", i)
			if r.Intn(4) == 0 {
				data = ""
			}
			stream = append(stream, vfFrame(cmd, flag, len(method), seq, []byte(method+data))...)
			switch cmd {
			case CmdRequest, CmdNotify:
				switch method {
				case "a", "ab", "abc", long:
					want = append(want, fmt.Sprintf("h:%s:%s:%d", method, data, seq))
				case "as":
					want = append(want, fmt.Sprintf("as:%s:%d", data, seq))
				default:
					if notFound {
						want = append(want, fmt.Sprintf("nf:%s:%s:%d", method, data, seq))
					}
				}
			case CmdResponse:
				want = append(want, fmt.Sprintf("miss:%d", seq))
			case CmdStream | HeaderStreamLocalBit:
				if method == "st" {
					want = append(want, fmt.Sprintf("st:%d", seq))
				}
			}
		}
		unknown := r.Intn(3) == 0
		if unknown {
			cmds := []byte{0, 7, 8, 20, 63}
			stream = append(stream, vfFrame(cmds[r.Intn(5)], 0, 2, 77, []byte("ab!"))...)
		}
		sc := newVfScript(stream)
		vfServe(t, sc, func(h Handler) {
			for _, m := range []string{"a", "ab", "abc", long} {
				m := m
				h.Handle(m, func(ctx *Context) {
					seen.add("h:%s:%s:%d", m, string(ctx.Body()), ctx.Message.Seq())
					if ctx.Message.Method() != m {
						seen.add("wrong method %q in %q", ctx.Message.Method(), m)
					}
				})
			}
			h.SetAsyncExecutor(func(f func()) { f() })
			h.Handle("as", func(ctx *Context) { seen.add("as:%s:%d", string(ctx.Body()), ctx.Message.Seq()) }, true)
			h.HandleStream("st", func(s *Stream) { seen.add("st:%d", s.Id()) })
			h.HandleSessionMiss(func(c *Client, m *Message) { seen.add("miss:%d", m.Seq()) })
			if notFound {
				h.HandleNotFound(func(ctx *Context) {
					seen.add("nf:%s:%s:%d", ctx.Message.Method(), string(ctx.Body()), ctx.Message.Seq())
				})
			}
		})
		if w := strings.Join(want, ";"); seen.all() != w {
			t.Fatalf("round %d: dispatched\n%s\nwant\n%s", round, seen.all(), w)
		}
	}
}

func vfC03Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// an unknown command ends the connection
func TestVerif_C03_UnknownCommand(t *testing.T) {
	for _, cmd := range []byte{0, 7, 30, 63} {
		seen := &vfSeen{}
		sc := newVfScript(vfFrame(cmd, 0, 2, 1, []byte("ab")))
		sc.hold = true
		t0 := time.Now()
		vfServe(t, sc, func(h Handler) {
			h.Handle("ab", func(ctx *Context) { seen.add("handled") })
			h.HandleNotFound(func(ctx *Context) { seen.add("not found") })
		})
		if seen.all() != "" {
			t.Fatal("an unknown command reached a handler:", cmd, seen.all())
		}
		if time.Since(t0) > 10*time.Second {
			t.Fatal("an unknown command keeps the connection")
		}
	}
}

// frames of a known stream go to that stream only
func TestVerif_C03_StreamFrames(t *testing.T) {
	var stream []byte
	add := func(cmd byte, seq uint64, m, d string) {
		stream = append(stream, vfFrame(cmd, 0, len(m), seq, []byte(m+d))...)
	}
	rl := CmdStream | HeaderStreamLocalBit
	for i := 0; i < 3; i++ {
		add(rl, 1, "st", fmt.Sprintf("a%d", i))
		add(rl, 2, "st", fmt.Sprintf("b%d", i))
		add(rl, 3, "other", "x")
		add(CmdStream, 1, "st", "not ours")
	}
	add(rl|HeaderStreamEOFBit, 1, "st", "")
	add(rl|HeaderStreamEOFBit, 2, "st", "end")
	var mux sync.Mutex
	got := map[uint64]string{}
	n := 0
	all := make(chan struct{}, 10)
	sc := newVfScript(stream)
	sc.hold = true
	ok := make(chan bool, 1)
	go func() {
		good := true
		for i := 0; i < 2; i++ {
			select {
			case <-all:
			case <-time.After(10 * time.Second):
				good = false
			}
		}
		ok <- good
		sc.Close()
	}()
	vfServe(t, sc, func(h Handler) {
		h.HandleStream("st", func(s *Stream) {
			mux.Lock()
			n++
			mux.Unlock()
			go func() {
				for {
					var d string
					if err := s.Recv(&d); err != nil {
						break
					}
					mux.Lock()
					got[s.Id()] += d + ";"
					mux.Unlock()
				}
				all <- struct{}{}
			}()
		})
	})
	if !<-ok {
		t.Fatal("a stream does not end")
	}
	mux.Lock()
	defer mux.Unlock()
	if n != 2 || got[1] != "a0;a1;a2;" || got[2] != "b0;b1;b2;end;" {
		t.Fatal("stream frames mixed up:", n, got)
	}
}

// vfCut is a coder whose Decode changes the frame: the decoded frame is what counts.
type vfCut struct{ f func(m *Message) }

func (k vfCut) Encode(c *Client, m *Message) *Message { return m }
func (k vfCut) Decode(c *Client, m *Message) *Message { k.f(m); return m }

// what the coders leave decides where a message goes
func TestVerif_C03_Decoded(t *testing.T) {
	for _, k := range []struct {
		name string
		f    func(m *Message)
		want string
	}{
		{"method too long", func(m *Message) { m.Buffer = m.Buffer[:HeadLen+1] }, ""},
		{"no method", func(m *Message) { m.SetMethodLen(0) }, ""},
		{"method overlong", func(m *Message) { m.Buffer[HeaderIndexMethodLen] = 200 }, ""},
		{"another method", func(m *Message) { copy(m.Buffer[HeadLen:], "cd") }, "cd:x"},
		{"as it came", func(m *Message) {}, "ab:x"},
	} {
		seen := &vfSeen{}
		sc := newVfScript(append(vfFrame(CmdNotify, 0, 2, 1, []byte("abx")), vfFrame(CmdNotify, 0, 3, 2, []byte("endz"))...))
		vfServe(t, sc, func(h Handler) {
			h.SetAsyncExecutor(func(f func()) { f() })
			h.UseCoder(vfCut{func(m *Message) {
				if string(m.Buffer[HeadLen:HeadLen+2]) == "ab" {
					k.f(m)
				}
			}})
			for _, n := range []string{"ab", "cd"} {
				n := n
				h.Handle(n, func(ctx *Context) { seen.add(n + ":" + string(ctx.Body())) })
			}
			h.Handle("end", func(ctx *Context) { seen.add("end") })
			h.HandleNotFound(func(ctx *Context) { seen.add("not found") })
		})
		want := "end"
		if k.want != "" {
			want = k.want + ",end"
		}
		if got := strings.Replace(seen.all(), ";", ",", -1); got != want {
			t.Fatalf("%s: reached %q, want %q", k.name, got, want)
		}
	}
}
