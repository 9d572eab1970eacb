package pubsub

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lesismal/arpc"
)

func vfReceivers(s *Server, topic string) int {
	ta := s.getOrMakeTopic(topic)
	ta.mux.RLock()
	defer ta.mux.RUnlock()
	return len(ta.clients)
}

func TestVerif_C16_OnlyAdmitted(t *testing.T) {
	s, l := vfStart(t, "right")
	defer l.Close()
	ok := vfClient(t, l, "right")
	defer ok.Stop()
	if ok.Authenticate() != nil {
		t.Fatal("the right password is refused")
	}
	var got int64
	if err := ok.Subscribe("T", func(*Topic) { atomic.AddInt64(&got, 1) }, time.Second); err != nil {
		t.Fatal(err)
	}
	if n := vfReceivers(s, "T"); n != 1 {
		t.Fatalf("%d receivers after a successful subscribe", n)
	}
	for _, pw := range []string{"", "wrong", "righ", "right "} {
		bad := vfClient(t, l, pw)
		if bad.Authenticate() == nil {
			t.Fatalf("password %q is accepted", pw)
		}
		for _, f := range []func() error{
			func() error { return bad.Subscribe("T", func(*Topic) {}, 50*time.Millisecond) },
			func() error { return bad.Publish("T", "x", 50*time.Millisecond) },
			func() error { return bad.PublishToOne("T", "x", 50*time.Millisecond) },
			func() error { return bad.Unsubscribe("T", 50*time.Millisecond) },
		} {
			if f() == nil {
				t.Fatalf("a request of a connection that was not admitted succeeds")
			}
		}
		if n := vfReceivers(s, "T"); n != 1 {
			t.Fatalf("%d receivers after requests of a connection that was not admitted", n)
		}
		bad.Stop()
	}
	time.Sleep(20 * time.Millisecond)
	if atomic.LoadInt64(&got) != 0 {
		t.Fatal("a publish of a connection that was not admitted is delivered")
	}
	if err := ok.Publish("T", "x", time.Second); err != nil {
		t.Fatal(err)
	}
	if !vfWait(func() bool { return atomic.LoadInt64(&got) == 1 }) {
		t.Fatal("a publish is not delivered")
	}
}

func TestVerif_C16_Subscriptions(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	const n = 3
	var got, other [n]int64
	var cs []*Client
	for i := 0; i < n; i++ {
		i := i
		c := vfClient(t, l, "pw")
		cs = append(cs, c)
		if c.Authenticate() != nil {
			t.Fatal("refused")
		}
		for j := 0; j < 2; j++ { // subscribing twice is subscribing once
			if err := c.Subscribe("T", func(tp *Topic) {
				if tp.Name != "T" || string(tp.Data) != "hello" {
					atomic.AddInt64(&got[i], 100)
				}
				atomic.AddInt64(&got[i], 1)
			}, time.Second); err != nil {
				t.Fatal(err)
			}
		}
		if err := c.Subscribe("O", func(tp *Topic) { atomic.AddInt64(&other[i], 1) }, time.Second); err != nil {
			t.Fatal(err)
		}
		if c.Authenticate() != nil || vfReceivers(s, "T") != i+1 {
			t.Fatal("re-authenticating loses a subscription")
		}
	}
	sum := func(a *[n]int64) (r int64) {
		for i := range a {
			r += atomic.LoadInt64(&a[i])
		}
		return
	}
	settle := func() { time.Sleep(20 * time.Millisecond) }
	if err := s.Publish("T", "hello"); err != nil {
		t.Fatal(err)
	}
	if err := cs[0].Publish("T", "hello", time.Second); err != nil {
		t.Fatal(err)
	}
	if !vfWait(func() bool { return sum(&got) >= 2*n }) {
		t.Fatal("a publish does not reach every receiver")
	}
	settle()
	for i := range got {
		if atomic.LoadInt64(&got[i]) != 2 || atomic.LoadInt64(&other[i]) != 0 {
			t.Fatalf("receiver %d got %d of 2 publishes, and %d of another topic", i, got[i], other[i])
		}
	}
	s.PublishToOne("T", "hello")
	cs[1].PublishToOne("T", "hello", time.Second)
	vfWait(func() bool { return sum(&got) >= 2*n+2 })
	settle()
	if sum(&got) != 2*n+2 {
		t.Fatalf("two publishes to one are delivered %d times", sum(&got)-2*n)
	}
	if err := cs[0].Unsubscribe("T", time.Second); err != nil {
		t.Fatal(err)
	}
	if k := vfReceivers(s, "T"); k != n-1 {
		t.Fatalf("%d receivers after one of %d unsubscribed", k, n)
	}
	if k := vfReceivers(s, "O"); k != n {
		t.Fatalf("unsubscribing one topic leaves %d of %d receivers of another", k, n)
	}
	before := sum(&got)
	s.Publish("T", "hello")
	vfWait(func() bool { return sum(&got) >= before+n-1 })
	settle()
	if sum(&got) != before+n-1 {
		t.Fatal("a publish after an unsubscribe does not reach exactly the others")
	}
	l.Close() // the others cannot come back
	for i, c := range cs {
		c.Stop()
		if !vfWait(func() bool { return vfReceivers(s, "O") <= n-1-i }) {
			t.Fatal("a disconnected connection stays a receiver")
		}
	}
	if vfReceivers(s, "T")+vfReceivers(s, "O") != 0 {
		t.Fatal("a disconnected connection stays a receiver")
	}
}

func TestVerif_C16_Reconnect(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	c := vfClient(t, l, "pw")
	defer c.Stop()
	c.Authenticate()
	var a, b int64
	c.Subscribe("A", func(*Topic) { atomic.AddInt64(&a, 1) }, time.Second)
	c.Subscribe("B", func(*Topic) { atomic.AddInt64(&b, 1) }, time.Second)
	s.ForEach(func(x *arpc.Client) { x.Conn.Close() })
	vfWait(func() bool { return vfReceivers(s, "A")+vfReceivers(s, "B") < 2 })
	if !vfWait(func() bool { return vfReceivers(s, "A") == 1 && vfReceivers(s, "B") == 1 }) {
		t.Fatal("a client that reconnected is not subscribed again")
	}
	s.Publish("A", "x")
	s.Publish("B", "x")
	if !vfWait(func() bool { return atomic.LoadInt64(&a) == 1 && atomic.LoadInt64(&b) == 1 }) {
		t.Fatal("a publish is lost after reconnecting")
	}
}

// a client that takes every publish itself is subscribed again as well
func TestVerif_C16_ReconnectOnPublish(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	c := vfClient(t, l, "pw")
	defer c.Stop()
	c.Authenticate()
	var all, a int64
	c.OnPublish(func(*Topic) { atomic.AddInt64(&all, 1) })
	if err := c.Subscribe("A", func(*Topic) { atomic.AddInt64(&a, 1) }, 5*time.Second); err != nil {
		t.Fatal(err)
	}
	s.ForEach(func(x *arpc.Client) { x.Conn.Close() })
	vfWait(func() bool { return vfReceivers(s, "A") == 0 })
	if !vfWait(func() bool { return vfReceivers(s, "A") == 1 }) {
		t.Fatal("a client that reconnected is not subscribed again")
	}
	s.Publish("A", "x")
	if !vfWait(func() bool { return atomic.LoadInt64(&all)+atomic.LoadInt64(&a) == 1 }) {
		t.Fatal("a publish is lost after reconnecting")
	}
}

func TestVerif_C16_ReconnectMany(t *testing.T) {
	const N = 150
	s, l := vfStart(t, "pw")
	defer l.Close()
	c := vfClient(t, l, "pw")
	defer c.Stop()
	c.Authenticate()
	var got [N]int64
	name := func(i int) string { return string(rune('a'+i%26)) + string(rune('a'+i/26)) }
	for i := 0; i < N; i++ {
		i := i
		if err := c.Subscribe(name(i), func(*Topic) { atomic.AddInt64(&got[i], 1) }, 5*time.Second); err != nil {
			t.Fatal(err)
		}
	}
	// two of them are given up again
	for _, i := range []int{7, 140} {
		if err := c.Unsubscribe(name(i), 5*time.Second); err != nil {
			t.Fatal(err)
		}
	}
	all := func() int {
		n := 0
		for i := 0; i < N; i++ {
			n += vfReceivers(s, name(i))
		}
		return n
	}
	if all() != N-2 {
		t.Fatalf("%d subscriptions", all())
	}
	s.ForEach(func(x *arpc.Client) { x.Conn.Close() })
	vfWait(func() bool { return all() < N-2 })
	if !vfWait(func() bool { return all() == N-2 }) {
		t.Fatalf("a client that reconnected has %d of %d subscriptions", all(), N-2)
	}
	for i := 0; i < N; i++ {
		s.Publish(name(i), "x")
	}
	if !vfWait(func() bool {
		for i := 0; i < N; i++ {
			if i != 7 && i != 140 && atomic.LoadInt64(&got[i]) != 1 {
				return false
			}
		}
		return true
	}) {
		t.Fatal("a publish is lost after reconnecting")
	}
	if got[7]+got[140] != 0 {
		t.Fatal("a publish is handed to the handler of a topic given up")
	}
}

// a publish to one tries the next receiver when one cannot take it
func TestVerif_C16_OneTakesIt(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	dead, err := arpc.NewClient(func() (net.Conn, error) { a, _ := net.Pipe(); return a, nil })
	if err != nil {
		t.Fatal(err)
	}
	dead.Stop()
	c := vfClient(t, l, "pw")
	defer c.Stop()
	if err := c.Authenticate(); err != nil {
		t.Fatal(err)
	}
	var got int64
	const N = 12
	for i := 0; i < N; i++ {
		name := string(rune('A' + i))
		s.getOrMakeTopic(name).Add(dead)
		if err := c.Subscribe(name, func(*Topic) { atomic.AddInt64(&got, 1) }, 5*time.Second); err != nil {
			t.Fatal(err)
		}
		s.PublishToOne(name, "x")
	}
	if !vfWait(func() bool { return atomic.LoadInt64(&got) == N }) {
		t.Fatalf("%d of %d publishes to one found the receiver that could take them", atomic.LoadInt64(&got), N)
	}
}

// clients that are first to subscribe to a topic at the same time all become receivers
func TestVerif_C16_SameTime(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	const G, N = 8, 400
	for i := 0; i < N; i++ {
		name := fmt.Sprint("topic", i)
		var made [G]*TopicAgent
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < G; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				made[g] = s.getOrMakeTopic(name)
			}()
		}
		close(start)
		wg.Wait()
		for g := range made {
			if made[g] != made[0] {
				t.Fatal("a topic exists twice: those who joined one of them receive nothing")
			}
		}
	}
}
