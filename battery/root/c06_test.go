package arpc

import (
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vfCb struct {
	mux sync.Mutex
	ev  []string
}

func (k *vfCb) f(ctx *Context, err error) {
	k.mux.Lock()
	defer k.mux.Unlock()
	if err != nil {
		k.ev = append(k.ev, "err:"+err.Error())
		return
	}
	k.ev = append(k.ev, "ok:"+string(ctx.Body()))
}

func (k *vfCb) get() string {
	k.mux.Lock()
	defer k.mux.Unlock()
	return strings.Join(k.ev, ";")
}

func TestVerif_C06_Outcomes(t *testing.T) {
	for _, mode := range []bool{true, false} {
		c, p, conn := vfClient(t, mode)
		vfAnswer(conn, func(fr []byte) [][]byte {
			m := string(fr[16 : 16+int(fr[7])])
			q := string(fr[16+int(fr[7]):])
			if fr[6]&HeaderFlagMaskAsync == 0 {
				return nil
			}
			switch m {
			case "ok":
				r := vfRsp(fr, HeaderFlagMaskAsync, vfSeq(fr), "re:"+q)
				return [][]byte{r, r, r}
			case "err":
				return [][]byte{vfRsp(fr, HeaderFlagMaskAsync|HeaderFlagMaskError, vfSeq(fr), "bad "+q)}
			}
			return nil
		})
		expect := func(what string, k *vfCb, want string) {
			t.Helper()
			if !vfEventually(func() bool { return k.get() != "" }) {
				t.Fatal(mode, what, "callback not run")
			}
			time.Sleep(15 * time.Millisecond)
			if k.get() != want {
				t.Fatal(mode, what, "callback got", k.get(), "want", want)
			}
		}
		k := &vfCb{}
		if err := c.CallAsync("ok", "q", k.f, 10*time.Second); err != nil {
			t.Fatal(err)
		}
		expect("response", k, "ok:re:q")
		k = &vfCb{}
		if err := c.CallAsync("ok", "short", k.f, 100*time.Millisecond); err != nil {
			t.Fatal(err)
		}
		expect("response", k, "ok:re:short")
		time.Sleep(120 * time.Millisecond)
		if k.get() != "ok:re:short" {
			t.Fatal("the timer ran the callback again:", k.get())
		}
		k = &vfCb{}
		if err := c.CallAsync("err", "q", k.f, 10*time.Second); err != nil {
			t.Fatal(err)
		}
		expect("remote error", k, "err:bad q")
		k = &vfCb{}
		if err := c.CallAsync("silent", "q", k.f, 30*time.Millisecond); err != nil {
			t.Fatal(err)
		}
		if _, a := vfPending(c); a != 1 {
			t.Fatal("the callback of an accepted call is not registered")
		}
		expect("timeout", k, "err:"+ErrTimeout.Error())
		if _, a := vfPending(c); a != 0 {
			t.Fatal("a timed out call stays registered")
		}
		// rejected
		k = &vfCb{}
		for _, m := range []string{"", strings.Repeat("x", 128)} {
			if err := c.CallAsync(m, "q", k.f, time.Second); err == nil {
				t.Fatal("a bad method is accepted")
			}
		}
		if err := c.CallAsync("m", "q", k.f, 0); err == nil {
			t.Fatal("timeout 0 is accepted")
		}
		if err := c.CallAsync("m", "q", k.f, -1); err == nil {
			t.Fatal("a negative timeout is accepted")
		}
		if err := c.CallAsync("m", "q", nil, time.Second); err == nil {
			t.Fatal("no callback is accepted")
		}
		if _, a := vfPending(c); a != 0 {
			t.Fatal("a rejected call stays registered")
		}
		// connection lost
		lost := []*vfCb{{}, {}, {}}
		for _, l := range lost {
			if err := c.CallAsync("silent", "q", l.f, 20*time.Second); err != nil {
				t.Fatal(err)
			}
		}
		p.mux.Lock()
		p.fail = true
		p.mux.Unlock()
		conn.Close()
		for _, l := range lost {
			expect("lost connection", l, "err:"+ErrClientReconnecting.Error())
		}
		vfEventually(func() bool { return c.CheckState() != nil })
		if err := c.CallAsync("ok", "q", k.f, 50*time.Millisecond); err != ErrClientReconnecting {
			t.Fatal("while reconnecting:", err)
		}
		p.mux.Lock()
		p.fail = false
		p.mux.Unlock()
		vfReconnected(t, c, p)
		c.Stop()
		if err := c.CallAsync("ok", "q", k.f, 50*time.Millisecond); err != ErrClientStopped {
			t.Fatal("stopped:", err)
		}
		time.Sleep(150 * time.Millisecond)
		if k.get() != "" {
			t.Fatal("the callback of a rejected call ran:", k.get())
		}
		if _, a := vfPending(c); a != 0 {
			t.Fatal("a rejected call stays registered")
		}
	}
}

// a failed write rejects the call: the callback does not run, not even at its timeout
func TestVerif_C06_WriteFails(t *testing.T) {
	a, b := net.Pipe()
	defer b.Close()
	h := NewHandler()
	h.SetAsyncWrite(false)
	first := true
	c, err := NewClient(func() (net.Conn, error) {
		if first {
			first = false
			return &vfFailConn{a}, nil
		}
		return nil, errors.New("refused")
	}, h)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	k := &vfCb{}
	if err := c.CallAsync("m", "q", k.f, 100*time.Millisecond); err == nil {
		t.Fatal("a failed write is not reported")
	}
	if _, a := vfPending(c); a != 0 {
		t.Fatal("a rejected call stays registered")
	}
	time.Sleep(200 * time.Millisecond)
	// losing the connection may have claimed the callback first, but nothing runs it twice
	if e := k.get(); e != "" && e != "err:"+ErrClientReconnecting.Error() {
		t.Fatal("the callback of a rejected call ran:", e)
	}
}

type vfFailConn struct{ net.Conn }

func (f *vfFailConn) Write(b []byte) (int, error) { return 0, errors.New("no") }

// a full queue: the call is rejected or its callback runs, never both, never twice
func TestVerif_C06_QueueFull(t *testing.T) {
	p := &vfPeer{conns: make(chan net.Conn, 8)}
	h := NewHandler()
	h.SetSendQueueSize(1)
	c, err := NewClient(p.dial, h)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	conn := <-p.conns // nobody reads
	defer conn.Close()
	var wg sync.WaitGroup
	var errs [12]error
	var cbs [12]vfCb
	for i := range errs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = c.CallAsync("m", "q", cbs[i].f, 60*time.Millisecond)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("a call does not return")
	}
	time.Sleep(150 * time.Millisecond)
	for i := range errs {
		n := cbs[i].get()
		if strings.Contains(n, ";") {
			t.Fatal("a callback ran twice:", n)
		}
		if errs[i] == nil && n != "err:"+ErrTimeout.Error() {
			t.Fatal("an accepted call without its callback:", n)
		}
	}
	if _, a := vfPending(c); a != 0 {
		t.Fatal("calls stay registered:", a)
	}
}

// responses racing the timeout
func TestVerif_C06_Race(t *testing.T) {
	c, _, conn := vfClient(t, true)
	defer c.Stop()
	var n int64
	vfAnswer(conn, func(fr []byte) [][]byte {
		if atomic.AddInt64(&n, 1)%2 == 0 {
			time.Sleep(400 * time.Microsecond)
		}
		return [][]byte{vfRsp(fr, HeaderFlagMaskAsync, vfSeq(fr), "x")}
	})
	const N = 600
	var cnt [N]int64
	var rejected [N]bool
	for i := 0; i < N; i++ {
		i := i
		err := c.CallAsync("m", fmt.Sprint(i), func(*Context, error) { atomic.AddInt64(&cnt[i], 1) }, time.Duration(100+i%8*100)*time.Microsecond)
		rejected[i] = err != nil
	}
	vfEventually(func() bool { _, a := vfPending(c); return a == 0 })
	time.Sleep(30 * time.Millisecond)
	for i := range cnt {
		k := atomic.LoadInt64(&cnt[i])
		if k > 1 {
			t.Fatal("a callback ran", k, "times")
		}
		if k == 0 && !rejected[i] {
			t.Fatal("a callback never ran")
		}
	}
}

// responses handed in twice at the same instant
func TestVerif_C06_TwoClaims(t *testing.T) {
	c, _, conn := vfClient(t, false)
	defer c.Stop()
	go io.Copy(io.Discard, conn)
	end := time.Now().Add(2 * time.Second)
	for round := 0; round < 60 && time.Now().Before(end); round++ {
		const N = 1000
		var cnt [N]int32
		var seqs [N]uint64
		for i := 0; i < N; i++ {
			i := i
			seqs[i] = atomic.LoadUint64(&c.seq) + 1
			if err := c.CallAsync("m", "x", func(*Context, error) { atomic.AddInt32(&cnt[i], 1) }, time.Minute); err != nil {
				t.Fatal(err)
			}
		}
		if atomic.LoadUint64(&c.seq) != seqs[N-1] {
			t.Skip("numbered differently")
		}
		var at [2]int64
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := 0; i < N; i++ {
					m := &Message{Buffer: vfFrame(CmdResponse, HeaderFlagMaskAsync, 1, seqs[i], []byte("mx")), handler: c.Handler}
					atomic.StoreInt64(&at[k], int64(i+1))
					for n := 0; atomic.LoadInt64(&at[1-k]) < int64(i+1); n++ {
						if n > 5000 {
							runtime.Gosched()
						}
					}
					c.Handler.OnMessage(c, m)
				}
			}(k)
		}
		wg.Wait()
		for i := range cnt {
			if n := atomic.LoadInt32(&cnt[i]); n != 1 {
				t.Fatalf("a callback ran %d times for a response and its duplicate", n)
			}
		}
	}
}
