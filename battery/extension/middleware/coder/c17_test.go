package coder

import (
	"bytes"
	"errors"
	"math/rand"
	"testing"

	"github.com/lesismal/arpc"
)

func verifMsg(method string, body []byte) *arpc.Message {
	return arpc.NewMessage(arpc.CmdRequest, method, body, false, true, 0x0102030405060708, nil, nil, nil)
}

func verifBodyLen(t *testing.T, m *arpc.Message) {
	b := m.Buffer
	if n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24; n != len(b)-arpc.HeadLen {
		t.Fatalf("announced body length %d, actual %d", n, len(b)-arpc.HeadLen)
	}
}

func TestVerif_C17_appender(t *testing.T) {
	key := "verif-key"
	toB := func(v interface{}) ([]byte, error) {
		if b, ok := v.([]byte); ok {
			return b, nil
		}
		return nil, errors.New("type")
	}
	toV := func(b []byte) (interface{}, error) { return append([]byte{}, b...), nil }
	for flag := -1; flag <= 9; flag++ {
		ap := NewAppender(key, flag, toB, toV)
		for _, n := range []int{0, 1, 2, 5, 255, 256, 300, 65535 - len(key) - 2, 65535 - len(key) - 1, 65536, 70000} {
			for _, bl := range []int{0, 1, 7, 300, 5000} {
				val := bytes.Repeat([]byte{0xA5}, n)
				body := bytes.Repeat([]byte{0x5A}, bl)
				m := verifMsg("/m", body)
				m.Set(key, val)
				orig := append([]byte{}, m.Buffer...)
				m = ap.Encode(nil, m)
				verifBodyLen(t, m)
				fits := len(key)+n+2 <= 0xFFFF && flag >= 0 && flag <= 7
				if !fits && !bytes.Equal(m.Buffer, orig) {
					t.Fatalf("a value that does not fit changed the message (value %d, flag %d)", n, flag)
				}
				if fits && len(m.Buffer) != len(orig)+len(key)+n+2 {
					t.Fatalf("value of %d bytes not attached", n)
				}
				in := &arpc.Message{Buffer: append([]byte{}, m.Buffer...)}
				in = ap.Decode(nil, in)
				verifBodyLen(t, in)
				if !bytes.Equal(in.Buffer, orig) {
					t.Fatalf("round trip changed the message (value %d, body %d, flag %d)", n, bl, flag)
				}
				v, ok := in.Get(key)
				if ok != fits {
					t.Fatalf("value present %v, expected %v (value %d)", ok, fits, n)
				}
				if ok && !bytes.Equal(v.([]byte), val) {
					t.Fatalf("value changed (%d)", n)
				}
			}
		}
		// without a value nothing changes
		m := verifMsg("/m", []byte("abc"))
		orig := append([]byte{}, m.Buffer...)
		if m = ap.Encode(nil, m); !bytes.Equal(m.Buffer, orig) {
			t.Fatalf("message without value changed")
		}
	}
	// hostile bytes
	rnd := rand.New(rand.NewSource(1))
	for i := 0; i < 30000; i++ {
		n := 16 + rnd.Intn(40)
		b := make([]byte, n)
		rnd.Read(b)
		b[0], b[1], b[2], b[3] = byte(n-16), 0, 0, 0
		if i%3 == 0 {
			b[n-2], b[n-1] = 0, byte(rnd.Intn(60))
		}
		if i%6 == 0 && n >= 16+len(key)+2 {
			copy(b[n-len(key)-2:], key)
			b[n-1] = byte(len(key) + 2 + rnd.Intn(3) - 1)
		}
		orig := append([]byte{}, b...)
		ap := NewAppender(key, rnd.Intn(8), toB, toV)
		m := ap.Decode(nil, &arpc.Message{Buffer: b})
		verifBodyLen(t, m)
		if _, ok := m.Get(key); !ok && !bytes.Equal(m.Buffer, orig) {
			t.Fatalf("message without encoding changed: %x -> %x", orig, m.Buffer)
		}
	}
}
