package arpc

import (
	"fmt"
	"math/rand"
	"testing"
)

// chains of any length, with middlewares that call Next themselves or not and abort or not
func TestVerif_C09_Chains(t *testing.T) {
	r := rand.New(rand.NewSource(9))
	for round := 0; round < 400; round++ {
		before, after := r.Intn(6), r.Intn(5)
		switch r.Intn(20) {
		case 0:
			before = 100 + r.Intn(60)
		case 1:
			after = 120 + r.Intn(30)
		case 2:
			before, after = 64, 64
		case 3:
			before = 300
		}
		total := before + 1 + after
		next := make([]int, total)  // how often it calls Next itself
		abort := make([]int, total) // 1: aborts before Next, 2: after
		answer := make([]int, total)
		for i := range next {
			next[i] = r.Intn(3)
			if r.Intn(6) == 0 || (i == before && r.Intn(2) == 0) {
				answer[i] = 1 + r.Intn(2)
			}
			if r.Intn(8) == 0 && r.Intn(4) == 0 {
				abort[i] = 1 + r.Intn(2)
			}
		}
		if r.Intn(2) == 0 {
			abort[r.Intn(total)] = 1
		}
		var ran []int
		mk := func(i int) HandlerFunc {
			return func(ctx *Context) {
				ran = append(ran, i)
				if abort[i] == 1 {
					ctx.Abort()
				}
				switch answer[i] {
				case 1:
					ctx.Write("x")
				case 2:
					ctx.Error("no")
				}
				for k := 0; k < next[i]; k++ {
					ctx.Next()
				}
				if abort[i] == 2 {
					ctx.Abort()
				}
			}
		}
		method := "m"
		nf := r.Intn(5) == 0
		if nf {
			method = "unknown"
		}
		cmd := []byte{CmdRequest, CmdNotify}[r.Intn(2)]
		in := vfFrame(cmd, 0, len(method), 1, []byte(method+"x"))
		async := r.Intn(2) == 0
		vfServe(t, newVfScript(in), func(h Handler) {
			h.SetAsyncExecutor(func(f func()) { f() })
			for i := 0; i < before; i++ {
				h.Use(mk(i))
			}
			if nf {
				h.HandleNotFound(mk(before))
			} else {
				h.Handle("other", func(*Context) { ran = append(ran, -1) }, async)
				h.Handle("m", mk(before), async)
			}
			for i := 0; i < after; i++ {
				h.Use(mk(before + 1 + i))
			}
		})
		var want []int
		for i := 0; i < total; i++ {
			want = append(want, i)
			if abort[i] == 1 || (abort[i] == 2 && next[i] == 0) {
				break
			}
		}
		if fmt.Sprint(ran) != fmt.Sprint(want) {
			t.Fatalf("round %d: %d middlewares, handler, %d middlewares, next %v abort %v:\nran  %v\nwant %v", round, before, after, next, abort, ran, want)
		}
	}
}

// the default not-found handler runs behind the middlewares and answers
func TestVerif_C09_NotFound(t *testing.T) {
	var ran []string
	sc := newVfScript(vfFrame(CmdRequest, 0, 2, 5, []byte("zz")))
	vfServe(t, sc, func(h Handler) {
		h.SetAsyncWrite(false)
		h.Use(func(ctx *Context) { ran = append(ran, "a") })
		h.Handle("m", func(ctx *Context) { ran = append(ran, "m") })
		h.Use(func(ctx *Context) { ran = append(ran, "b") })
	})
	if fmt.Sprint(ran) != "[a b]" {
		t.Fatal(ran)
	}
	f := vfFrame(CmdResponse, HeaderFlagMaskError, 2, 5, []byte("zz"+ErrMethodNotFound.Error()))
	if string(sc.out) != string(f) {
		t.Fatalf("answered %q", sc.out)
	}
}
