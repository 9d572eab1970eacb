package arpc

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"
)

// vfTag is a coder that appends a byte to what goes out and takes it off what comes in.
type vfTag struct {
	b   byte
	mux *sync.Mutex
	log *[]string
}

func (k *vfTag) Encode(c *Client, m *Message) *Message {
	m.Buffer = append(m.Buffer, k.b)
	m.SetBodyLen(len(m.Buffer) - HeadLen)
	return m
}

func (k *vfTag) Decode(c *Client, m *Message) *Message {
	n := len(m.Buffer)
	k.mux.Lock()
	*k.log = append(*k.log, string(m.Buffer[n-1:n]))
	k.mux.Unlock()
	if m.Buffer[n-1] == k.b {
		m.Buffer = m.Buffer[:n-1]
		m.SetBodyLen(n - 1 - HeadLen)
	}
	return m
}

// vfSlow reads in small steps.
func vfDrain(c net.Conn, r *rand.Rand, want int, d time.Duration) []byte {
	var out []byte
	c.SetReadDeadline(time.Now().Add(d))
	for len(out) < want {
		n := 1 + r.Intn(2000)
		b := make([]byte, n)
		k, err := c.Read(b)
		out = append(out, b[:k]...)
		if err != nil {
			break
		}
		if r.Intn(30) == 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	// nothing beyond what was queued
	c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
	b := make([]byte, 100)
	k, _ := c.Read(b)
	return append(out, b[:k]...)
}

func TestVerif_C07_Out(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	var mux sync.Mutex
	var log []string
	for round := 0; round < 60; round++ {
		async, batch := r.Intn(4) != 0, r.Intn(2) == 0
		tags := r.Intn(4)
		p := &vfPeer{conns: make(chan net.Conn, 8)}
		h := NewHandler()
		h.SetAsyncWrite(async)
		h.SetBatchSend(batch)
		if r.Intn(3) == 0 {
			h.SetSendQueueSize(1 + r.Intn(5))
		}
		if r.Intn(3) == 0 {
			h.SetSendBufferSize([]int{16, 64, 300, 4096}[r.Intn(4)])
		}
		if r.Intn(2) == 0 {
			h.EnablePool(true)
		}
		for i := 0; i < tags; i++ {
			h.UseCoder(&vfTag{byte('1' + i), &mux, &log})
		}
		c, err := NewClient(p.dial, h)
		if err != nil {
			t.Fatal(err)
		}
		conn := <-p.conns
		n := 1 + r.Intn(60)
		var want []byte
		var msgs []*Message
		for i := 0; i < n; i++ {
			sz := r.Intn(50)
			switch r.Intn(12) {
			case 0:
				sz = r.Intn(9000)
			case 1:
				sz = 0
			case 2:
				sz = 2000 + r.Intn(100)
			}
			pl := bytes.Repeat([]byte{byte(i)}, sz)
			m := c.NewMessage(CmdNotify, fmt.Sprintf("m%d", i), pl)
			msgs = append(msgs, m)
			f := append([]byte{}, m.Buffer...)
			for k := 0; k < tags; k++ {
				f = append(f, byte('1'+k))
			}
			nb := len(f) - HeadLen
			f[0], f[1], f[2], f[3] = byte(nb), byte(nb>>8), byte(nb>>16), byte(nb>>24)
			want = append(want, f...)
		}
		go func() {
			for i, m := range msgs {
				if err := c.PushMsg(m, TimeForever); err != nil {
					t.Error("push", i, err)
				}
			}
		}()
		got := vfDrain(conn, r, len(want), 10*time.Second)
		if !bytes.Equal(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			t.Fatalf("round %d (async %v, batch %v, %d coders): %d bytes written, %d expected, first difference at %d", round, async, batch, tags, len(got), len(want), i)
		}
		c.Stop()
		conn.Close()
	}
}

// many senders: every frame comes out whole and once, those of one sender in order
func TestVerif_C07_Concurrent(t *testing.T) {
	for _, batch := range []bool{true, false} {
		p := &vfPeer{conns: make(chan net.Conn, 8)}
		h := NewHandler()
		h.SetBatchSend(batch)
		c, err := NewClient(p.dial, h)
		if err != nil {
			t.Fatal(err)
		}
		conn := <-p.conns
		const G, N = 8, 150
		for g := 0; g < G; g++ {
			g := g
			go func() {
				for i := 0; i < N; i++ {
					c.Notify(fmt.Sprintf("g%d", g), bytes.Repeat([]byte{byte(i)}, 1+(i*37)%700), time.Minute)
				}
			}()
		}
		next := map[string]int{}
		for k := 0; k < G*N; k++ {
			f, err := vfReadFrame(conn, 10*time.Second)
			if err != nil {
				t.Fatal("frames missing:", k, err)
			}
			if f[5] != CmdNotify || f[7] != 2 {
				t.Fatalf("a damaged frame: % x", f[:16])
			}
			m := string(f[16:18])
			i := next[m]
			next[m]++
			if !bytes.Equal(f[18:], bytes.Repeat([]byte{byte(i)}, 1+(i*37)%700)) {
				t.Fatalf("%s: frame %d lost, repeated, reordered or altered", m, i)
			}
		}
		c.Stop()
		conn.Close()
	}
}

// large frames of several senders that write themselves
func TestVerif_C07_Large(t *testing.T) {
	c, _, conn := vfClient(t, false)
	defer c.Stop()
	const G, N = 4, 6
	for g := 0; g < G; g++ {
		g := g
		go func() {
			for i := 0; i < N; i++ {
				c.Notify(fmt.Sprintf("g%d", g), bytes.Repeat([]byte{byte('a' + g)}, 1000+i*90000), time.Minute)
			}
		}()
	}
	for k := 0; k < G*N; k++ {
		f, err := vfReadFrame(conn, 10*time.Second)
		if err != nil {
			t.Fatal("frames missing:", k, err)
		}
		if len(f) < 18 || f[5] != CmdNotify || f[7] != 2 || f[16] != 'g' {
			t.Fatalf("frames are mixed up: % x", f[:16])
		}
		if d := f[18:]; len(bytes.Trim(d, string(rune('a'+f[17]-'0')))) != 0 {
			t.Fatal("a frame carries bytes of another one")
		}
	}
	conn.Close()
}

func TestVerif_C07_In(t *testing.T) {
	var mux sync.Mutex
	var log []string
	var in []byte
	for i := 0; i < 5; i++ {
		in = append(in, vfFrame(CmdNotify, 0, 1, uint64(i), []byte(fmt.Sprintf("m%d123", i)))...)
		in = append(in, vfFrame(CmdPing, 0, 0, 0, nil)...)
		in = append(in, vfFrame(CmdPong, 0, 0, 0, nil)...)
	}
	var got []string
	sc := newVfScript(in)
	vfServe(t, sc, func(h Handler) {
		h.SetAsyncWrite(false)
		for i := 0; i < 3; i++ {
			h.UseCoder(&vfTag{byte('1' + i), &mux, &log})
		}
		h.SetAsyncExecutor(func(f func()) { f() })
		h.Handle("m", func(ctx *Context) { got = append(got, string(ctx.Body())) })
	})
	if fmt.Sprint(got) != "[0 1 2 3 4]" {
		t.Fatal("decoded", got)
	}
	if s := fmt.Sprint(log); s != "[3 2 1 3 2 1 3 2 1 3 2 1 3 2 1]" {
		t.Fatal("coders ran in order", s)
	}
}

// every way of sending passes every coder once, in order
func TestVerif_C07_Ways(t *testing.T) {
	for _, async := range []bool{true, false} {
		var mux sync.Mutex
		var log []string
		p := &vfPeer{conns: make(chan net.Conn, 8)}
		h := NewHandler()
		h.SetAsyncWrite(async)
		h.UseCoder(&vfTag{'1', &mux, &log})
		h.UseCoder(&vfTag{'2', &mux, &log})
		c, err := NewClient(p.dial, h)
		if err != nil {
			t.Fatal(err)
		}
		conn := <-p.conns
		ways := map[string]func(){
			"Call":      func() { c.Call("m", "x", nil, 20*time.Millisecond) },
			"CallAsync": func() { c.CallAsync("m", "x", func(*Context, error) {}, 20*time.Millisecond) },
			"Notify":    func() { c.Notify("m", "x", time.Second) },
			"Notify0":   func() { c.Notify("m", "x", 0) },
			"NotifyContext": func() {
				ctx := newVfCtx()
				c.NotifyContext(ctx, "m", "x")
			},
			"CallContext": func() { c.CallContext(newVfCtx(), "m", "x", nil) },
			"PushMsg":     func() { c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), time.Second) },
			"PushMsg0":    func() { c.PushMsg(c.NewMessage(CmdNotify, "m", "x"), 0) },
			"Stream":      func() { c.NewStream("m").Send("x") },
		}
		for name, f := range ways {
			go f()
			fr, err := vfReadFrame(conn, 5*time.Second)
			if err == io.EOF || err != nil {
				t.Fatal(async, name, err)
			}
			if string(fr[16:]) != "mx12" {
				t.Fatalf("async %v, %s: sent %q", async, name, fr[16:])
			}
			time.Sleep(time.Millisecond)
		}
		c.Stop()
		conn.Close()
	}
}

type vfCtx struct{ ch chan struct{} }

func newVfCtx() *vfCtx {
	c := &vfCtx{make(chan struct{})}
	time.AfterFunc(100*time.Millisecond, func() { close(c.ch) })
	return c
}
func (c *vfCtx) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (c *vfCtx) Done() <-chan struct{}             { return c.ch }
func (c *vfCtx) Err() error                        { return nil }
func (c *vfCtx) Value(interface{}) interface{}     { return nil }
