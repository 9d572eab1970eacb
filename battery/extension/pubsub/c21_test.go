package pubsub

import (
	"errors"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
)

func vf21Try(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(8 * time.Second):
		return false
	}
}

// vf21Works: subscribing, publishing and unsubscribing still work.
func vf21Works(t *testing.T, s *Server, l *vfListener, what string) {
	c := vfClient(t, l, "pw")
	if err := c.Authenticate(); err != nil {
		t.Fatalf("after %v: authenticate: %v", what, err)
	}
	var got int64
	if err := c.Subscribe("T", func(*Topic) { atomic.AddInt64(&got, 1) }, 6*time.Second); err != nil {
		t.Fatalf("after %v: subscribe: %v", what, err)
	}
	if err := c.Publish("T", "x", 6*time.Second); err != nil {
		t.Fatalf("after %v: publish: %v", what, err)
	}
	if !vf21Try(func() { s.Publish("T", "y") }) {
		t.Fatalf("after %v: the server's publish does not come back", what)
	}
	if !vf21Try(func() { s.PublishToOne("T", "y") }) {
		t.Fatalf("after %v: the server's publish does not come back", what)
	}
	if !vfWait(func() bool { return atomic.LoadInt64(&got) >= 2 }) {
		t.Fatalf("after %v: publications do not arrive", what)
	}
	if err := c.Unsubscribe("T", 6*time.Second); err != nil {
		t.Fatalf("after %v: unsubscribe: %v", what, err)
	}
	c.Stop()
}

func TestVerif_C21_Pubsub(t *testing.T) {
	s, l := vfStart(t, "pw")
	defer l.Close()
	sub := vfClient(t, l, "pw")
	if err := sub.Authenticate(); err != nil {
		t.Fatal(err)
	}
	var panics int64
	boom := func(*Topic) { atomic.AddInt64(&panics, 1); panic("user") }
	if err := sub.Subscribe("T", boom, 6*time.Second); err != nil {
		t.Fatal(err)
	}
	type op struct {
		name string
		f    func()
	}
	var bad interface{} = func() {}
	for _, o := range []op{
		{"a panicking topic handler", func() { s.Publish("T", "x"); s.PublishToOne("T", "x") }},
		{"publishing what cannot be encoded", func() { s.Publish("T", bad) }},
		{"publishing without a topic", func() { s.Publish("", "x"); s.PublishToOne("", "x") }},
		{"publishing an unknown topic", func() { s.Publish("none", "x"); s.PublishToOne("none", "x") }},
		{"client errors", func() {
			sub.Subscribe("", boom, time.Second)
			sub.Publish("", "x", time.Second)
			sub.PublishToOne("", "x", time.Second)
			sub.Unsubscribe("", time.Second)
			sub.Unsubscribe("none", time.Second)
			sub.Publish("none", "x", time.Second)
			sub.PublishToOne("none", "x", time.Second)
		}},
		{"a panicking free handler", func() {
			s.Handler.HandleFree(func([]byte) { panic("user") })
			defer s.Handler.HandleFree(func([]byte) {})
			s.Publish("T", "x")
		}},
		{"a panicking free handler (one)", func() {
			s.Handler.HandleFree(func([]byte) { panic("user") })
			defer s.Handler.HandleFree(func([]byte) {})
			s.PublishToOne("T", "x")
		}},
		{"a panicking general handler", func() {
			sub.OnPublish(boom)
			s.Publish("T", "x")
			time.Sleep(20 * time.Millisecond)
			sub.OnPublish(func(*Topic) {})
		}},
		{"a password that is wrong", func() {
			w := vfClient(t, l, "wrong")
			w.Authenticate()
			w.Subscribe("T", boom, 100*time.Millisecond)
			w.Stop()
		}},
	} {
		if !vf21Try(o.f) {
			t.Fatalf("%v: does not come back", o.name)
		}
		vf21Works(t, s, l, o.name)
	}
	// topics that were published to before anybody subscribed
	for _, name := range []string{"none", "early"} {
		if !vf21Try(func() { s.Publish(name, "x"); s.PublishToOne(name, "x") }) {
			t.Fatal("publishing to nobody does not come back")
		}
		if err := sub.Subscribe(name, func(*Topic) {}, 6*time.Second); err != nil {
			t.Fatalf("after publishing to nobody: subscribe: %v", err)
		}
		if err := sub.Unsubscribe(name, 6*time.Second); err != nil {
			t.Fatalf("after publishing to nobody: unsubscribe: %v", err)
		}
	}
	// a subscriber that goes away is dropped
	sub.Stop()
	vf21Works(t, s, l, "the end of a connection")
	var _ = errors.New
	var _ sync.Mutex
	var _ *arpc.Client
	var _ net.Conn
	var _ = log.LevelNone
}
