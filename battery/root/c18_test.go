package arpc

import (
	"errors"
	"net"
	"sync"
	"testing"

	"github.com/lesismal/arpc/log"
)

type vf18Peer struct {
	mux   sync.Mutex
	fail  bool
	conns []net.Conn
}

func (p *vf18Peer) dial() (net.Conn, error) {
	p.mux.Lock()
	defer p.mux.Unlock()
	if p.fail {
		return nil, errors.New("refused")
	}
	a, b := net.Pipe()
	p.conns = append(p.conns, b)
	return a, nil
}

func (p *vf18Peer) kill() {
	p.mux.Lock()
	defer p.mux.Unlock()
	p.fail = true
	for _, c := range p.conns {
		c.Close()
	}
}

func vf18Pool(t *testing.T, n int) (*ClientPool, []*vf18Peer) {
	log.SetLevel(log.LevelNone)
	var peers []*vf18Peer
	var ds []DialerFunc
	for i := 0; i < n; i++ {
		p := &vf18Peer{}
		peers = append(peers, p)
		ds = append(ds, p.dial)
	}
	pool, err := NewClientPoolFromDialers(ds)
	if err != nil {
		t.Fatal(err)
	}
	return pool, peers
}

func TestVerif_C18_Get(t *testing.T) {
	for n := 1; n <= 7; n++ {
		pool, _ := vf18Pool(t, n)
		if pool.Size() != n {
			t.Fatalf("a pool of %v has size %v", n, pool.Size())
		}
		seen := map[*Client]bool{}
		for i := 0; i < n; i++ {
			seen[pool.Get(i)] = true
		}
		if len(seen) != n {
			t.Fatalf("a pool of %v hands out %v members by index", n, len(seen))
		}
		for i := 0; i < 50; i++ {
			if pool.Get(i) != pool.Get(i%n) {
				t.Fatalf("Get(%v) of a pool of %v is not member %v", i, n, i%n)
			}
		}
		pool.Stop()
		for i := 0; i < n; i++ {
			if pool.Get(i).CheckState() != ErrClientStopped {
				t.Fatalf("member %v of a pool of %v is not stopped", i, n)
			}
		}
	}
	p := &vf18Peer{}
	pool, err := NewClientPool(p.dial, 3)
	if err != nil {
		t.Fatal(err)
	}
	defer pool.Stop()
	if pool.Size() != 3 || pool.Get(0) == pool.Get(1) || pool.Get(1) == pool.Get(2) || pool.Get(0) == pool.Get(2) || pool.Get(3) != pool.Get(0) {
		t.Fatal("a pool of three does not have three members")
	}
}

func TestVerif_C18_RoundRobin(t *testing.T) {
	for n := 1; n <= 7; n++ {
		pool, _ := vf18Pool(t, n)
		prev := pool.Next()
		idx := -1
		for i := 0; i < n; i++ {
			if pool.Get(i) == prev {
				idx = i
			}
		}
		for k := 1; k < 4*n; k++ {
			if c := pool.Next(); c != pool.Get(idx+k) {
				t.Fatalf("call %v on a pool of %v does not return the next member", k, n)
			}
		}
		// concurrent calls share the members out evenly
		var mux sync.Mutex
		got := map[*Client]int{}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 25*n; i++ {
					c := pool.Next()
					mux.Lock()
					got[c]++
					mux.Unlock()
				}
			}()
		}
		wg.Wait()
		for i := 0; i < n; i++ {
			if got[pool.Get(i)] != 100 {
				t.Fatalf("member %v of %v was handed out %v times of %v", i, n, got[pool.Get(i)], 100*n)
			}
		}
		pool.Stop()
	}
}

// Next returns a usable member whichever of the members are down, and
// whatever the position of the round robin.
func TestVerif_C18_NextIsUsable(t *testing.T) {
	for n := 1; n <= 4; n++ {
		for mask := 1; mask < 1<<uint(n); mask++ {
			for _, stop := range []bool{true, false} {
				pool, peers := vf18Pool(t, n)
				for i := 0; i < n; i++ {
					if mask>>uint(i)&1 == 0 {
						if stop {
							pool.Get(i).Stop()
						} else {
							peers[i].kill()
						}
						c := pool.Get(i)
						if !vfEventually(func() bool { return c.CheckState() != nil }) {
							t.Fatal("a member does not notice its lost connection")
						}
					}
				}
				for k := 0; k < 3*n; k++ {
					if c := pool.Next(); c == nil || c.CheckState() != nil {
						t.Fatalf("call %v on a pool of %v with usable members %b returns one that is not (stopped: %v)", k, n, mask, stop)
					}
				}
				pool.Stop()
			}
		}
	}
}

func TestVerif_C18_FailedPool(t *testing.T) {
	log.SetLevel(log.LevelNone)
	for n := 1; n <= 4; n++ {
		for bad := 0; bad < n; bad++ {
			var peers []*vf18Peer
			var ds []DialerFunc
			for i := 0; i < n; i++ {
				p := &vf18Peer{fail: i == bad}
				peers = append(peers, p)
				ds = append(ds, p.dial)
			}
			if pool, err := NewClientPoolFromDialers(ds); err == nil || pool != nil {
				t.Fatalf("a pool with an unreachable member is handed out")
			}
		}
	}
}
