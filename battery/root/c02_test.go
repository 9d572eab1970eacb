package arpc

import (
	"bytes"
	"math/rand"
	"sync"
	"testing"
)

type vfRecorder struct {
	mux sync.Mutex
	got [][]byte
}

func (r *vfRecorder) Encode(c *Client, m *Message) *Message { return m }
func (r *vfRecorder) Decode(c *Client, m *Message) *Message {
	r.mux.Lock()
	r.got = append(r.got, append([]byte{}, m.Buffer...))
	r.mux.Unlock()
	return m
}

// whatever the peer sends: frames within the limit arrive byte for byte, a frame beyond it ends the
// connection undelivered, and nothing beyond the limit is allocated
func TestVerif_C02_Frames(t *testing.T) {
	r := rand.New(rand.NewSource(2))
	for round := 0; round < 120; round++ {
		max := []int{0, 1, 16, 17, 100, 1000, 5000}[r.Intn(7)]
		var stream []byte
		var want [][]byte
		frames := 1 + r.Intn(6)
		bad := -1
		if r.Intn(2) == 0 {
			bad = r.Intn(frames)
		}
		cut := 0
		for i := 0; i < frames; i++ {
			if i == bad {
				f := vfFrame(CmdNotify, 0, 1, uint64(i), nil)
				n := uint32(max + 1)
				switch r.Intn(5) {
				case 0:
					n = uint32(max) + uint32(r.Intn(40)+1)
				case 1:
					n = 1 << 31
				case 2:
					n = 1<<32 - 1
				case 3:
					n = 1<<30 - 1
				}
				f[0], f[1], f[2], f[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
				stream = append(stream, f...)
				// bytes that must not be taken for another frame
				stream = append(stream, vfFrame(CmdNotify, 0, 0, 99, nil)...)
				break
			}
			n := 0
			switch r.Intn(4) {
			case 0:
				n = max
			case 1:
				n = r.Intn(max + 1)
			case 2:
				n = 0
			case 3:
				if max > 0 {
					n = 1 + r.Intn(max)
				}
			}
			f := vfFrame(CmdNotify, byte(r.Intn(256)), r.Intn(200), r.Uint64(), vfC02Bytes(r, n))
			f[4] = byte(r.Intn(256))
			stream = append(stream, f...)
			want = append(want, f)
		}
		if bad < 0 && r.Intn(2) == 0 {
			// the peer breaks off inside a last frame
			f := vfFrame(CmdNotify, 0, 1, 7, vfC02Bytes(r, max))
			cut = r.Intn(len(f))
			stream = append(stream, f[:cut]...)
		}
		rec := &vfRecorder{}
		sc := newVfScript(stream)
		sc.chunk = func() int { return 1 + r.Intn(40) }
		var mux sync.Mutex
		big := 0
		batch := r.Intn(2) == 0
		vfServe(t, sc, func(h Handler) {
			h.SetMaxBodyLen(max)
			h.SetAsyncWrite(false)
			h.SetBatchRecv(batch)
			h.UseCoder(rec)
			h.HandleMalloc(func(n int) []byte {
				mux.Lock()
				if n > big {
					big = n
				}
				mux.Unlock()
				b := make([]byte, n)
				for i := range b {
					b[i] = 0xA5
				}
				return b
			})
		})
		if len(rec.got) != len(want) {
			t.Fatalf("round %d: %d messages delivered, %d sent within the limit %d (bad frame %d, cut %d)", round, len(rec.got), len(want), max, bad, cut)
		}
		for i := range want {
			if !bytes.Equal(rec.got[i], want[i]) {
				t.Fatalf("round %d: message %d differs: got % x want % x", round, i, vfHead(rec.got[i]), vfHead(want[i]))
			}
		}
		if big > 16+max {
			t.Fatalf("round %d: allocated %d bytes, limit %d", round, big, max)
		}
		if !batch && bad >= 0 && sc.read > len(stream)-16 {
			t.Fatalf("round %d: read on after an oversized frame", round)
		}
	}
}

func vfHead(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func vfC02Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
