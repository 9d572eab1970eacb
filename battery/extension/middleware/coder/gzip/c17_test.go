package gzip

import (
	"bytes"
	"math/rand"
	"testing"

	"github.com/lesismal/arpc"
)

func verifBodyLen(t *testing.T, m *arpc.Message) {
	b := m.Buffer
	if n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24; n != len(b)-arpc.HeadLen {
		t.Fatalf("announced body length %d, actual %d", n, len(b)-arpc.HeadLen)
	}
}

func TestVerif_C17_gzip(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for _, crit := range []int{0, 1, 50, 1024, 2000} {
		g := New(crit)
		for _, method := range []string{"", "a", "/echo", string(bytes.Repeat([]byte("m"), 127))} {
			for _, n := range []int{0, 1, 2, 49, 50, 51, 1023, 1024, 1025, 5000, 100000} {
				for kind := 0; kind < 2; kind++ {
					body := bytes.Repeat([]byte("x"), n)
					if kind == 1 {
						rnd.Read(body)
					}
					m := arpc.NewMessage(arpc.CmdRequest, method, body, kind == 1, true, 0x0102030405060708, nil, nil, nil)
					orig := append([]byte{}, m.Buffer...)
					m = g.Encode(nil, m)
					verifBodyLen(t, m)
					in := g.Decode(nil, &arpc.Message{Buffer: append([]byte{}, m.Buffer...)})
					verifBodyLen(t, in)
					if !bytes.Equal(in.Buffer, orig) {
						t.Fatalf("round trip changed the message (threshold %d, method %d, body %d, kind %d)", crit, len(method), n, kind)
					}
				}
			}
		}
	}
	g := New(16)
	for i := 0; i < 20000; i++ {
		n := 16 + rnd.Intn(60)
		b := make([]byte, n)
		rnd.Read(b)
		b[0], b[1], b[2], b[3] = byte(n-16), 0, 0, 0
		if i%2 == 0 {
			b[arpc.HeaderIndexMethodLen] = byte(rnd.Intn(60))
		}
		orig := append([]byte{}, b...)
		m := g.Decode(nil, &arpc.Message{Buffer: b})
		verifBodyLen(t, m)
		if !bytes.Equal(m.Buffer, orig) {
			t.Fatalf("message without encoding changed: %x -> %x", orig, m.Buffer)
		}
	}
	// a well-formed encoding cut short or damaged
	src := arpc.NewMessage(arpc.CmdRequest, "/m", bytes.Repeat([]byte("x"), 5000), false, true, 7, nil, nil, nil)
	src = g.Encode(nil, src)
	enc := append([]byte{}, src.Buffer...)
	for i := 16; i < len(enc); i++ {
		b := append([]byte{}, enc[:i]...)
		b[0], b[1], b[2], b[3] = byte(i-16), byte((i-16)>>8), 0, 0
		orig := append([]byte{}, b...)
		m := g.Decode(nil, &arpc.Message{Buffer: b})
		verifBodyLen(t, m)
		if !bytes.Equal(m.Buffer, orig) {
			t.Fatalf("truncated encoding changed the message")
		}
	}
}
