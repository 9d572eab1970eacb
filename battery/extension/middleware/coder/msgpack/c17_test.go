package msgpack

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/lesismal/arpc"
)

func verifBodyLen(t *testing.T, m *arpc.Message) {
	b := m.Buffer
	if n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24; n != len(b)-arpc.HeadLen {
		t.Fatalf("announced body length %d, actual %d", n, len(b)-arpc.HeadLen)
	}
}

func TestVerif_C17_msgpack(t *testing.T) {
	mp := New()
	rnd := rand.New(rand.NewSource(1))
	for _, method := range []string{"", "a", "/echo", string(bytes.Repeat([]byte("m"), 127))} {
		for _, n := range []int{0, 1, 2, 49, 255, 256, 1024, 65535, 65536, 100000} {
			for nv := 0; nv < 5; nv++ {
				body := make([]byte, n)
				rnd.Read(body)
				m := arpc.NewMessage(arpc.CmdRequest, method, body, nv == 1, true, 0x0102030405060708, nil, nil, nil)
				for i := 0; i < nv; i++ {
					m.Set("key"+string(rune('a'+i)), "value"+string(rune('a'+i)))
				}
				orig := append([]byte{}, m.Buffer...)
				m = mp.Encode(nil, m)
				verifBodyLen(t, m)
				in := mp.Decode(nil, &arpc.Message{Buffer: append([]byte{}, m.Buffer...)})
				verifBodyLen(t, in)
				if !bytes.Equal(in.Buffer, orig) {
					t.Fatalf("round trip changed the message (method %d, body %d, values %d)", len(method), n, nv)
				}
				for i := 0; i < nv; i++ {
					v, ok := in.Get("key" + string(rune('a'+i)))
					if !ok || v != "value"+string(rune('a'+i)) {
						t.Fatalf("value %d of %d lost", i, nv)
					}
				}
			}
		}
	}
	for i := 0; i < 5000; i++ {
		n := 16 + rnd.Intn(60)
		b := make([]byte, n)
		rnd.Read(b)
		b[0], b[1], b[2], b[3] = byte(n-16), 0, 0, 0
		// method bytes beyond the message, or a payload that starts with a reserved code
		ml := rnd.Intn(60)
		b[arpc.HeaderIndexMethodLen] = byte(ml)
		if 16+ml < n {
			b[16+ml] = 0xc1
		} else if 16+ml == n {
			continue
		}
		orig := append([]byte{}, b...)
		m := mp.Decode(nil, &arpc.Message{Buffer: b})
		verifBodyLen(t, m)
		if !bytes.Equal(m.Buffer, orig) {
			t.Fatalf("message without encoding changed: %x -> %x", orig, m.Buffer)
		}
	}
}
