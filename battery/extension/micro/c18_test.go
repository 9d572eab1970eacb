package micro

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
)

type vfNet struct {
	mux   sync.Mutex
	down  map[string]bool
	conns map[string][]net.Conn
	last  string
}

type vfConn struct {
	net.Conn
	addr string
}

func (n *vfNet) dial(addr string) (net.Conn, error) {
	n.mux.Lock()
	defer n.mux.Unlock()
	if n.down[addr] {
		return nil, errors.New("refused")
	}
	a, b := net.Pipe()
	n.conns[addr] = append(n.conns[addr], b)
	return &vfConn{a, addr}, nil
}

func (n *vfNet) set(addr string, down bool) {
	n.mux.Lock()
	defer n.mux.Unlock()
	n.down[addr] = down
	if down {
		for _, c := range n.conns[addr] {
			c.Close()
		}
		n.conns[addr] = nil
	}
}

func vfAddr(c *arpc.Client) string {
	if v, ok := c.Conn.(*vfConn); ok {
		return v.addr
	}
	return "?"
}

func vfManager() (ServiceManager, *vfNet) {
	log.SetLevel(log.LevelNone)
	n := &vfNet{down: map[string]bool{}, conns: map[string][]net.Conn{}}
	return NewServiceManager(n.dial), n
}

func vfWait(f func() bool) bool {
	for i := 0; i < 8000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

func vfSeen(t *testing.T, m ServiceManager, name string, n int) map[string]int {
	got := map[string]int{}
	for i := 0; i < n; i++ {
		c, err := m.ClientBy(name)
		if err != nil {
			t.Fatalf("%v: %v", name, err)
		}
		if c == nil || c.CheckState() != nil {
			t.Fatalf("%v: a client that is not usable", name)
		}
		got[vfAddr(c)]++
	}
	return got
}

func TestVerif_C18_Services(t *testing.T) {
	m, _ := vfManager()
	if c, err := m.ClientBy("a"); c != nil || err != ErrServiceNotFound {
		t.Fatalf("an unknown service gives %v %v", c, err)
	}
	m.AddServiceNodes("app/a/1.1.1.1:1", "")
	m.AddServiceNodes("app/a/1.1.1.1:2", "x")
	m.AddServiceNodes("app/a/1.1.1.1:3", "-4")
	m.AddServiceNodes("app/b/1.1.1.1:4", "1")
	m.AddServiceNodes("app/b", "1")
	m.AddServiceNodes("c", "1")
	m.AddServiceNodes("", "1")
	if _, err := m.ClientBy("c"); err != ErrServiceNotFound {
		t.Fatalf("a service that was never added gives %v", err)
	}
	got := vfSeen(t, m, "a", 9)
	if len(got) != 3 || got["1.1.1.1:1"] != 3 || got["1.1.1.1:2"] != 3 || got["1.1.1.1:3"] != 3 {
		t.Fatalf("nine lookups of three nodes give %v", got)
	}
	if got := vfSeen(t, m, "b", 4); got["1.1.1.1:4"] != 4 {
		t.Fatalf("service b gives %v", got)
	}
	// deleting one address of one service leaves every other node
	m.DeleteServiceNodes("app/b/1.1.1.1:1")
	m.DeleteServiceNodes("app/zz/1.1.1.1:1")
	m.DeleteServiceNodes("app/a")
	if got := vfSeen(t, m, "a", 9); len(got) != 3 {
		t.Fatalf("nine lookups of three nodes give %v", got)
	}
	m.DeleteServiceNodes("app/a/1.1.1.1:2")
	if got := vfSeen(t, m, "a", 8); len(got) != 2 || got["1.1.1.1:2"] != 0 {
		t.Fatalf("a deleted address is handed out: %v", got)
	}
	m.DeleteServiceNodes("app/a/1.1.1.1:1")
	m.DeleteServiceNodes("app/a/1.1.1.1:3")
	if c, err := m.ClientBy("a"); c != nil || err != ErrServiceNotFound {
		t.Fatalf("a service without nodes gives %v %v", c, err)
	}
	m.AddServiceNodes("app/a/1.1.1.1:2", "")
	if got := vfSeen(t, m, "a", 2); got["1.1.1.1:2"] != 2 {
		t.Fatalf("a node added again gives %v", got)
	}
}

func TestVerif_C18_WeightsAndDelete(t *testing.T) {
	for del := 0; del < 4; del++ {
		m, _ := vfManager()
		for i := 0; i < 4; i++ {
			m.AddServiceNodes(fmt.Sprintf("app/a/h:%d", i), fmt.Sprint(i+1))
		}
		m.AddServiceNodes("app/a/h:1", "3") // already there: no effect
		got := vfSeen(t, m, "a", 30)
		for i := 0; i < 4; i++ {
			if got[fmt.Sprintf("h:%d", i)] != 3*(i+1) {
				t.Fatalf("weights 1 to 4 give %v", got)
			}
		}
		var gone *arpc.Client
		for gone == nil {
			c, _ := m.ClientBy("a")
			if vfAddr(c) == fmt.Sprintf("h:%d", del) {
				gone = c
			}
		}
		m.DeleteServiceNodes(fmt.Sprintf("app/a/h:%d", del))
		if gone.CheckState() != arpc.ErrClientStopped {
			t.Fatal("the client of a deleted address is not stopped")
		}
		left := 10 - (del + 1)
		got = vfSeen(t, m, "a", 2*left)
		for i := 0; i < 4; i++ {
			want := 2 * (i + 1)
			if i == del {
				want = 0
			}
			if got[fmt.Sprintf("h:%d", i)] != want {
				t.Fatalf("after deleting h:%d: %v", del, got)
			}
		}
	}
}

func TestVerif_C18_Reachability(t *testing.T) {
	m, n := vfManager()
	for i := 0; i < 3; i++ {
		m.AddServiceNodes(fmt.Sprintf("app/a/h:%d", i), "1")
	}
	cs := map[string]*arpc.Client{}
	for len(cs) < 3 {
		c, _ := m.ClientBy("a")
		cs[vfAddr(c)] = c
	}
	for mask := 6; mask >= 0; mask-- {
		for i := 0; i < 3; i++ {
			addr := fmt.Sprintf("h:%d", i)
			up := mask>>uint(i)&1 == 1
			if up != (cs[addr].CheckState() == nil) {
				n.set(addr, !up)
				if !vfWait(func() bool { return (cs[addr].CheckState() == nil) == up }) {
					t.Fatal("a node does not follow its connection")
				}
			}
		}
		if mask == 0 {
			for k := 0; k < 5; k++ {
				if c, err := m.ClientBy("a"); c != nil || err != ErrServiceUnreachable {
					t.Fatalf("a service with no reachable node gives %v %v", c, err)
				}
			}
			continue
		}
		got := vfSeen(t, m, "a", 12)
		for i := 0; i < 3; i++ {
			if up := mask>>uint(i)&1 == 1; up != (got[fmt.Sprintf("h:%d", i)] > 0) {
				t.Fatalf("with nodes %b up the lookups give %v", mask, got)
			}
		}
	}
}

// A node that cannot be reached when it is added is handed out once it can,
// and never when it was deleted before that.
func TestVerif_C18_LateNodes(t *testing.T) {
	m, n := vfManager()
	n.set("h:1", true)
	n.set("h:2", true)
	m.AddServiceNodes("app/a/h:1", "2")
	m.AddServiceNodes("app/b/h:2", "2")
	if c, err := m.ClientBy("a"); c != nil || err != ErrServiceUnreachable {
		t.Fatalf("an unreachable node gives %v %v", c, err)
	}
	m.DeleteServiceNodes("app/b/h:2")
	n.set("h:1", false)
	n.set("h:2", false)
	if !vfWait(func() bool { _, err := m.ClientBy("a"); return err == nil }) {
		t.Fatal("a node that became reachable is never handed out")
	}
	time.Sleep(50 * time.Millisecond)
	vfSeen(t, m, "a", 4)
	if c, err := m.ClientBy("b"); c != nil || err != ErrServiceNotFound {
		t.Fatalf("a deleted node gives %v %v", c, err)
	}
}

// addresses that begin like others are different addresses
func TestVerif_C18_SimilarAddresses(t *testing.T) {
	addrs := []string{"h:12", "h:1", "h:123", "h", "H:1", "h:1 ", "xh:1"}
	m, _ := vfManager()
	for _, a := range addrs {
		m.AddServiceNodes("app/a/"+a, "1")
		m.AddServiceNodes("app/"+a+"/"+a, "1")
	}
	for i, a := range addrs {
		got := vfSeen(t, m, "a", len(addrs)-i)
		if len(got) != len(addrs)-i {
			t.Fatalf("%v nodes, handed out %v", len(addrs)-i, got)
		}
		if got := vfSeen(t, m, a, 3); got[a] != 3 {
			t.Fatalf("service %q gives %v", a, got)
		}
		m.DeleteServiceNodes("app/a/" + a)
		if i < len(addrs)-1 {
			if got := vfSeen(t, m, "a", 2*len(addrs)); got[a] != 0 {
				t.Fatalf("after deleting %q: %v", a, got)
			}
		}
	}
}
