package arpc

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math"
	"math/rand"
	"strings"
	"testing"

	"github.com/lesismal/arpc/codec"
)

// vfMirror is what a message is expected to hold, attribute by attribute.
type vfMirror struct {
	body            int
	bits            [8]bool
	cmd             byte
	local, eof      bool
	isErr, isAsync  bool
	ml              int
	seq             uint64
	method, payload string
}

func vfMatches(t *testing.T, what string, m *Message, w *vfMirror) {
	t.Helper()
	if m.Len() != len(m.Buffer) || len(m.Buffer) != 16+len(w.method)+len(w.payload) {
		t.Fatalf("%s: message of %d bytes for method %d and payload %d", what, len(m.Buffer), len(w.method), len(w.payload))
	}
	if m.BodyLen() != w.body || Header(m.Buffer[:16]).BodyLen() != w.body || int(binary.LittleEndian.Uint32(m.Buffer[0:4])) != w.body {
		t.Fatalf("%s: body length %d want %d", what, m.BodyLen(), w.body)
	}
	for i := range w.bits {
		if m.IsFlagBitSet(i) != w.bits[i] || (m.Buffer[4]&(1<<uint(i)) != 0) != w.bits[i] {
			t.Fatalf("%s: flag bit %d", what, i)
		}
	}
	if m.Cmd() != w.cmd || m.Buffer[5]&0x3f != w.cmd {
		t.Fatalf("%s: command %d want %d", what, m.Cmd(), w.cmd)
	}
	if m.IsStreamLocal() != w.local || (m.Buffer[5]&0x80 != 0) != w.local || m.IsStreamEOF() != w.eof || (m.Buffer[5]&0x40 != 0) != w.eof {
		t.Fatalf("%s: stream flags %v %v want %v %v", what, m.IsStreamLocal(), m.IsStreamEOF(), w.local, w.eof)
	}
	if m.IsError() != w.isErr || (m.Buffer[6]&1 != 0) != w.isErr || m.IsAsync() != w.isAsync || (m.Buffer[6]&2 != 0) != w.isAsync {
		t.Fatalf("%s: error/async %v %v want %v %v", what, m.IsError(), m.IsAsync(), w.isErr, w.isAsync)
	}
	if m.MethodLen() != w.ml || int(m.Buffer[7]) != w.ml {
		t.Fatalf("%s: method length %d want %d", what, m.MethodLen(), w.ml)
	}
	if m.Seq() != w.seq || binary.LittleEndian.Uint64(m.Buffer[8:16]) != w.seq {
		t.Fatalf("%s: seq %d want %d", what, m.Seq(), w.seq)
	}
	if string(m.Buffer[16:]) != w.method+w.payload {
		t.Fatalf("%s: body bytes differ", what)
	}
	if w.ml == len(w.method) {
		if m.Method() != w.method || string(m.Data()) != w.payload {
			t.Fatalf("%s: method %q or payload differ", what, m.Method())
		}
	}
	if w.isErr {
		if err := m.Error(); err == nil || (w.ml == len(w.method) && err.Error() != w.payload) {
			t.Fatalf("%s: error %v want %q", what, err, w.payload)
		}
	} else if m.Error() != nil {
		t.Fatalf("%s: error of a message without one", what)
	}
}

func vfBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func TestVerif_C01_BuildAndSet(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	lens := []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 126, 127, 255, 256, 1023, 1024, 4096, 65535, 65536}
	mls := []int{0, 1, 2, 5, 16, 63, 64, 65, 126, 127}
	seqs := []uint64{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}
	for i := 0; i < 4000; i++ {
		w := &vfMirror{}
		ml := mls[r.Intn(len(mls))]
		pl := lens[r.Intn(len(lens))]
		if i%20 != 0 && pl > 1024 {
			pl = r.Intn(300)
		}
		method := string(vfBytes(r, ml))
		payload := vfBytes(r, pl)
		w.method, w.payload, w.ml, w.body = method, string(payload), ml, ml+pl
		w.cmd = byte(r.Intn(64))
		w.isErr, w.isAsync = r.Intn(2) == 0, r.Intn(2) == 0
		w.seq = seqs[r.Intn(len(seqs))]
		if r.Intn(2) == 0 {
			w.seq = r.Uint64()
		}
		var v interface{}
		switch r.Intn(6) {
		case 0:
			v = payload
		case 1:
			v = &payload
		case 2:
			v = string(payload)
		case 3:
			s := string(payload)
			v = &s
		case 4:
			v = errors.New(string(payload))
		case 5:
			e := errors.New(string(payload))
			v = &e
		}
		m := NewMessage(w.cmd, method, v, w.isErr, w.isAsync, w.seq, nil, codec.DefaultCodec, nil)
		vfMatches(t, "built", m, w)
		for j := 0; j < 12; j++ {
			b := r.Intn(2) == 0
			what := ""
			switch r.Intn(9) {
			case 0:
				w.cmd = byte(r.Intn(64))
				m.SetCmd(w.cmd)
				what = "SetCmd"
			case 1:
				w.local = b
				m.SetStreamLocal(b)
				what = "SetStreamLocal"
			case 2:
				w.eof = b
				m.SetStreamEOF(b)
				what = "SetStreamEOF"
			case 3:
				w.isErr = b
				m.SetError(b)
				what = "SetError"
			case 4:
				w.isAsync = b
				m.SetAsync(b)
				what = "SetAsync"
			case 5:
				k := r.Intn(12) - 2
				err := m.SetFlagBit(k, b)
				if k >= 0 && k < 8 {
					w.bits[k] = b
				}
				if (err == nil) != (k >= 0 && k < 8) {
					t.Fatalf("SetFlagBit(%d): %v", k, err)
				}
				if (k < 0 || k > 7) && m.IsFlagBitSet(k) {
					t.Fatalf("IsFlagBitSet(%d)", k)
				}
				what = "SetFlagBit"
			case 6:
				w.seq = r.Uint64()
				m.SetSeq(w.seq)
				what = "SetSeq"
			case 7:
				w.body = int(r.Uint32())
				m.SetBodyLen(w.body)
				what = "SetBodyLen"
			case 8:
				if r.Intn(4) == 0 {
					m.ResetAttrs()
					w.bits, w.cmd, w.local, w.eof, w.isErr, w.isAsync, w.ml = [8]bool{}, 0, false, false, false, false, 0
					what = "ResetAttrs"
				} else {
					w.ml = ml
					m.SetMethodLen(ml)
					what = "SetMethodLen"
				}
			}
			vfMatches(t, what, m, w)
		}
	}
}

func TestVerif_C01_Values(t *testing.T) {
	m := NewMessage(CmdRequest, "m", nil, false, false, 1, nil, codec.DefaultCodec, nil)
	if _, ok := m.Get("k"); ok {
		t.Fatal("a value nobody set")
	}
	m.Set("k", 1)
	m.Set("l", "x")
	if v, ok := m.Get("k"); !ok || v != 1 {
		t.Fatal("value lost", v, ok)
	}
	if v, ok := m.Get("l"); !ok || v != "x" {
		t.Fatal("value lost", v, ok)
	}
	if m.Method() != "m" || m.Seq() != 1 || !bytes.Equal(m.Data(), nil) {
		t.Fatal("a value changes the message")
	}
}

// every message of a client is a well-formed frame with its own sequence number
func TestVerif_C01_Client(t *testing.T) {
	c, _, conn := vfClient(t, true)
	defer c.Stop()
	last := uint64(0)
	for i := 0; i < 20; i++ {
		m := c.NewMessage(CmdRequest, "method", "payload")
		w := &vfMirror{body: 13, cmd: CmdRequest, ml: 6, seq: m.Seq(), method: "method", payload: "payload"}
		vfMatches(t, "client", m, w)
		if m.Seq() == last {
			t.Fatal("a sequence number is used twice")
		}
		last = m.Seq()
	}
	conn.Close()
}

// whatever the allocated memory held before, the frame is the documented one
func TestVerif_C01_DirtyMemory(t *testing.T) {
	h := NewHandler()
	h.HandleMalloc(func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xFF
		}
		return b
	})
	for _, cmd := range []byte{CmdRequest, CmdResponse, CmdNotify} {
		for f := 0; f < 4; f++ {
			for _, m := range []string{"m", strings.Repeat("k", 127)} {
				for _, d := range []string{"", "data"} {
					msg := newMessage(cmd, m, d, f&1 != 0, f&2 != 0, 0x0102030405060708, h, nil, nil)
					want := vfFrame(cmd, byte(f), len(m), 0x0102030405060708, []byte(m+d))
					if f&1 != 0 {
						want[6] = HeaderFlagMaskError
					} else {
						want[6] = 0
					}
					if f&2 != 0 {
						want[6] |= HeaderFlagMaskAsync
					}
					if !bytes.Equal(msg.Buffer, want) {
						t.Fatalf("frame % x, want % x", msg.Buffer, want)
					}
				}
			}
		}
	}
}
