package pubsub

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"strings"
	"testing"
	"time"
)

func TestVerif_C15_RoundTrip(t *testing.T) {
	r := rand.New(rand.NewSource(15))
	names := []string{"a", "ab", "topic", strings.Repeat("n", 9), strings.Repeat("n", 10), strings.Repeat("x", 127), strings.Repeat("x", 128),
		strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("y", 257), strings.Repeat("z", 1023), strings.Repeat("z", 1024), "\x00\xff\x00", "日本"}
	stamps := []int64{0, 1, -1, 255, 256, 1 << 32, 1<<63 - 1, -1 << 63, time.Now().UnixNano()}
	for _, name := range names {
		for _, n := range []int{0, 1, 9, 10, 11, 100, 255, 256, 1024, 1034, 65536} {
			for _, spare := range []int{0, 3, 12, 2000} {
				all := make([]byte, n+spare)
				r.Read(all)
				keep := append([]byte{}, all...)
				st := stamps[r.Intn(len(stamps))]
				tp, err := newTopic(name, all[:n])
				if err != nil {
					t.Fatalf("a topic with a %v-byte name is refused: %v", len(name), err)
				}
				tp.Timestamp = st
				for round := 0; round < 2; round++ {
					raw, err := tp.toBytes()
					if err != nil {
						t.Fatal(err)
					}
					if !bytes.Equal(all, keep) {
						t.Fatalf("encoding changed the caller's bytes (payload %v, spare %v)", n, spare)
					}
					if tp.Name != name || !bytes.Equal(tp.Data, keep[:n]) || tp.Timestamp != st {
						t.Fatalf("encoding changed the topic (name %v, payload %v)", len(name), n)
					}
					got := &Topic{}
					if err := got.fromBytes(raw); err != nil {
						t.Fatalf("a topic (name %v, payload %v) does not decode: %v", len(name), n, err)
					}
					if got.Name != name || !bytes.Equal(got.Data, keep[:n]) || got.Timestamp != st {
						t.Fatalf("a topic (name %v, payload %v, time %v) decodes as (name %v, payload %v, time %v)", len(name), n, st, len(got.Name), len(got.Data), got.Timestamp)
					}
				}
			}
		}
	}
	for _, name := range []string{"", strings.Repeat("x", 1025), strings.Repeat("x", 65536), strings.Repeat("x", 65537)} {
		if tp, err := newTopic(name, []byte("d")); err == nil {
			raw, err := tp.toBytes()
			if err != nil {
				continue
			}
			got := &Topic{}
			if err := got.fromBytes(raw); err == nil && got.Name != name {
				t.Fatalf("a topic with a %v-byte name decodes with another one", len(name))
			}
		}
	}
}

func vf15Decode(t *testing.T, data []byte) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("decoding %x crashes: %v", data, e)
		}
	}()
	keep := append([]byte{}, data...)
	tp := &Topic{}
	err := tp.fromBytes(data)
	if !bytes.Equal(keep, data) {
		t.Fatalf("decoding changed its input")
	}
	if err != nil {
		return
	}
	if len(tp.Name) == 0 || len(tp.Name) > MaxTopicNameLen || len(tp.Name)+len(tp.Data)+10 != len(data) {
		t.Fatalf("%v bytes decode to a name of %v and a payload of %v bytes", len(data), len(tp.Name), len(tp.Data))
	}
	n := len(tp.Data)
	if !bytes.Equal(tp.Data, data[:n]) || tp.Name != string(data[n:n+len(tp.Name)]) || tp.Timestamp != int64(binary.LittleEndian.Uint64(data[len(data)-8:])) {
		t.Fatalf("the decoded topic is not in the bytes")
	}
}

func TestVerif_C15_HostileBytes(t *testing.T) {
	r := rand.New(rand.NewSource(16))
	for n := 0; n < 40; n++ {
		vf15Decode(t, make([]byte, n))
		vf15Decode(t, bytes.Repeat([]byte{0xff}, n))
	}
	for i := 0; i < 40000; i++ {
		b := make([]byte, r.Intn(64))
		r.Read(b)
		if n := len(b); n >= 10 && i%4 != 0 {
			l := r.Intn(n + 4)
			b[n-10], b[n-9] = byte(l), byte(l>>8)
		}
		vf15Decode(t, b)
	}
	for _, l := range []int{0, 1, 1023, 1024, 1025, 2000, 2990, 2991, 32767, 32768, 65535, 65526} {
		for _, size := range []int{10, 1033, 1034, 1035, 3000, 70000} {
			b := make([]byte, size)
			b[size-10], b[size-9] = byte(l), byte(l>>8)
			vf15Decode(t, b)
		}
	}
}
