package pubsub

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
)

// a published message lives until the last subscriber's connection has written it
func TestVerif_C08_Publish(t *testing.T) {
	for _, async := range []bool{true, false} {
		log.SetLevel(log.LevelNone)
		s := NewServer()
		var mux sync.Mutex
		live := map[uintptr]bool{}
		var keep [][]byte
		bad := 0
		key := func(b []byte) uintptr { return uintptr(unsafe.Pointer(&b[:1][0])) }
		s.Handler.SetAsyncWrite(async)
		s.Handler.HandleMalloc(func(n int) []byte {
			b := make([]byte, n, n+1)
			mux.Lock()
			live[key(b)] = true
			keep = append(keep, b)
			mux.Unlock()
			return b
		})
		s.Handler.HandleFree(func(b []byte) {
			mux.Lock()
			defer mux.Unlock()
			if cap(b) == 0 || !live[key(b)] {
				bad++
				return
			}
			live[key(b)] = false
			b = b[:cap(b)]
			for i := range b {
				b[i] = 0xDD
			}
		})
		s.Handler.HandleMessageDone(func(c *arpc.Client, m *arpc.Message) { m.Release() })
		s.Handler.HandleContextDone(func(ctx *arpc.Context) { ctx.Release() })
		l := &vfListener{ch: make(chan net.Conn), done: make(chan struct{})}
		go s.Serve(l)
		const G, N = 4, 10
		got := map[string]int{}
		var cs []*Client
		for g := 0; g < G; g++ {
			g := g
			c := vfClient(t, l, "")
			cs = append(cs, c)
			if err := c.Authenticate(); err != nil {
				t.Fatal(err)
			}
			if err := c.Subscribe("tp", func(tp *Topic) {
				mux.Lock()
				got[fmt.Sprint(g, tp.Name, string(tp.Data))]++
				mux.Unlock()
			}, 10*time.Second); err != nil {
				t.Fatal(err)
			}
		}
		for i := 0; i < N; i++ {
			if i%2 == 0 {
				if err := s.Publish("tp", fmt.Sprint("d", i)); err != nil {
					t.Fatal(err)
				}
			} else if err := cs[i%G].Publish("tp", fmt.Sprint("d", i), 10*time.Second); err != nil {
				t.Fatal(err)
			}
		}
		vfWait(func() bool { mux.Lock(); defer mux.Unlock(); return len(got) >= G*N })
		mux.Lock()
		for g := 0; g < G; g++ {
			for i := 0; i < N; i++ {
				if got[fmt.Sprint(g, "tp", "d", i)] != 1 {
					t.Fatalf("subscriber %d, publication %d: %d times, of %v", g, i, got[fmt.Sprint(g, "tp", "d", i)], got)
				}
			}
		}
		if bad > 0 {
			t.Fatal("buffers given back twice:", bad)
		}
		mux.Unlock()
		for _, c := range cs {
			c.Stop()
		}
		l.Close()
	}
}
