package arpc

import (
	"bytes"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"
)

func vf14Fill(b []byte, seed int) {
	for i := range b {
		b[i] = byte(seed*31 + i*7 + 1)
	}
}

func vf14Overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	pa, pb := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return pa < pb+uintptr(len(b)) && pb < pa+uintptr(len(a))
}

var vf14Sizes = []int{1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 79, 80, 127, 128, 129, 130, 255, 256, 257, 1000, 1024, 1025, 5000}

func vf14Pools() map[string]func(debug bool) Allocator {
	mk := func(s, b int) func(bool) Allocator {
		return func(debug bool) Allocator {
			a := New(s, b)
			if bp, ok := a.(*BufferPool); ok {
				bp.Debug = debug
			}
			return a
		}
	}
	return map[string]func(bool) Allocator{
		"64/64": mk(64, 64), "16/256": mk(16, 256), "0/0": mk(0, 0), "128/32": mk(128, 32), "1/2": mk(1, 2), "64/1024": mk(64, 1024),
	}
}

func TestVerif_C14_Lengths(t *testing.T) {
	for name, mk := range vf14Pools() {
		for _, debug := range []bool{false, true} {
			for round := 0; round < 2; round++ {
				a := mk(debug)
				for _, n := range vf14Sizes {
					b := a.Malloc(n)
					if len(b) != n {
						t.Fatalf("%v debug=%v: Malloc(%v) has length %v", name, debug, n, len(b))
					}
					vf14Fill(b, n)
					if round == 1 {
						a.Free(b)
					}
				}
			}
			for _, n := range vf14Sizes {
				for _, m := range vf14Sizes {
					a := mk(debug)
					b := a.Malloc(n)
					vf14Fill(b, n)
					old := append([]byte{}, b...)
					b = a.Realloc(b, m)
					if len(b) != m {
						t.Fatalf("%v debug=%v: Realloc(%v -> %v) has length %v", name, debug, n, m, len(b))
					}
					k := n
					if m < k {
						k = m
					}
					if !bytes.Equal(b[:k], old[:k]) {
						t.Fatalf("%v debug=%v: Realloc(%v -> %v) lost the contents", name, debug, n, m)
					}
					more := make([]byte, m)
					vf14Fill(more, 99)
					for _, str := range []bool{false, true} {
						b := a.Malloc(n)
						vf14Fill(b, n)
						old := append([]byte{}, b...)
						if str {
							b = a.AppendString(b, string(more))
						} else {
							b = a.Append(b, more...)
						}
						if !bytes.Equal(b, append(old, more...)) {
							t.Fatalf("%v debug=%v: appending %v to %v bytes (string: %v) gives other bytes", name, debug, m, n, str)
						}
					}
				}
			}
		}
	}
}

func TestVerif_C14_LiveBuffersAreDisjoint(t *testing.T) {
	for name, mk := range vf14Pools() {
		for _, debug := range []bool{false, true} {
			r := rand.New(rand.NewSource(14))
			a := mk(debug)
			type live struct{ buf, want []byte }
			var ls []live
			for step := 0; step < 3000; step++ {
				var moved *live
				switch k := r.Intn(6); {
				case k == 0 || len(ls) == 0:
					n := vf14Sizes[r.Intn(len(vf14Sizes))]
					b := a.Malloc(n)
					vf14Fill(b, step)
					ls = append(ls, live{b, append([]byte{}, b...)})
					moved = &ls[len(ls)-1]
				case k == 1:
					i := r.Intn(len(ls))
					a.Free(ls[i].buf)
					ls = append(ls[:i], ls[i+1:]...)
				case k == 2:
					l := &ls[r.Intn(len(ls))]
					n := vf14Sizes[r.Intn(len(vf14Sizes))]
					l.buf = a.Realloc(l.buf, n)
					if len(l.buf) != n {
						t.Fatalf("%v: Realloc length %v, not %v", name, len(l.buf), n)
					}
					m := len(l.want)
					if n < m {
						m = n
					}
					if !bytes.Equal(l.buf[:m], l.want[:m]) {
						t.Fatalf("%v debug=%v: Realloc lost the contents", name, debug)
					}
					vf14Fill(l.buf, step)
					l.want = append([]byte{}, l.buf...)
					moved = l
				default:
					l := &ls[r.Intn(len(ls))]
					more := make([]byte, vf14Sizes[r.Intn(12)])
					vf14Fill(more, step)
					if k == 3 {
						l.buf = a.Append(l.buf, more...)
					} else {
						l.buf = a.AppendString(l.buf, string(more))
					}
					l.want = append(l.want, more...)
					if len(l.want) > 20000 {
						l.buf = a.Realloc(l.buf, 10)
						l.want = l.want[:10]
					}
					moved = l
				}
				if moved != nil {
					for i := range ls {
						if &ls[i] != moved && vf14Overlap(ls[i].buf, moved.buf) {
							t.Fatalf("%v debug=%v step %v: a returned buffer overlaps another live one", name, debug, step)
						}
					}
				}
				for i := range ls {
					if !bytes.Equal(ls[i].buf, ls[i].want) {
						t.Fatalf("%v debug=%v step %v: a live buffer's contents changed", name, debug, step)
					}
				}
				if len(ls) > 24 {
					a.Free(ls[0].buf)
					ls = ls[1:]
				}
			}
		}
	}
}

func TestVerif_C14_Native(t *testing.T) {
	a := &NativeAllocator{}
	for _, n := range append([]int{0}, vf14Sizes...) {
		if b := a.Malloc(n); len(b) != n {
			t.Fatalf("Malloc(%v) has length %v", n, len(b))
		}
		for _, m := range append([]int{0}, vf14Sizes...) {
			b := a.Malloc(n)
			vf14Fill(b, n)
			old := append([]byte{}, b...)
			b = a.Realloc(b, m)
			k := n
			if m < k {
				k = m
			}
			if len(b) != m || !bytes.Equal(b[:k], old[:k]) {
				t.Fatalf("Realloc(%v -> %v) is wrong", n, m)
			}
		}
	}
}

func TestVerif_C14_Package(t *testing.T) {
	for _, debug := range []bool{false, true} {
		SetDebug(debug)
		for _, n := range vf14Sizes {
			b := Malloc(n)
			if len(b) != n {
				t.Fatalf("Malloc(%v) has length %v", n, len(b))
			}
			vf14Fill(b, n)
			want := append([]byte{}, b...)
			b = Append(b, 1, 2, 3)
			b = AppendString(b, "abcdef")
			want = append(append(want, 1, 2, 3), "abcdef"...)
			if !bytes.Equal(b, want) {
				t.Fatalf("appending to %v bytes gives other bytes", n)
			}
			b = Realloc(b, 3*n+20)
			if len(b) != 3*n+20 || !bytes.Equal(b[:len(want)], want) {
				t.Fatalf("Realloc of %v bytes is wrong", n)
			}
			Free(b)
		}
	}
	SetDebug(false)
}

// buffers used by many goroutines at once
func TestVerif_C14_Concurrent(t *testing.T) {
	for name, mk := range vf14Pools() {
		a := mk(false)
		var wg sync.WaitGroup
		var bad int32
		end := time.Now().Add(400 * time.Millisecond)
		for g := 0; g < 16; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; time.Now().Before(end) && atomic.LoadInt32(&bad) == 0; k++ {
					v := byte(g*16 + k%16)
					n := 1 << uint(8+k%10)
					b := a.Malloc(n)
					for i := range b {
						b[i] = v
					}
					if k%3 == 0 {
						runtime.Gosched()
					}
					more := bytes.Repeat([]byte{v}, n)
					if k%2 == 0 {
						b = a.Append(b, more...)
					} else {
						b = a.AppendString(b, string(more))
					}
					if k%5 == 0 {
						b = a.Realloc(b, 2*n)
					}
					if len(b) != 2*n {
						atomic.AddInt32(&bad, 1)
					}
					for _, x := range b {
						if x != v {
							atomic.AddInt32(&bad, 1)
							break
						}
					}
					a.Free(b)
				}
			}()
		}
		wg.Wait()
		if bad > 0 {
			t.Fatalf("%v: a buffer in use was changed by another user", name)
		}
	}
}
