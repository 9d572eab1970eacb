package router

import (
	"sync"

	"github.com/lesismal/arpc"
)

// C20: graceful shutdown.

// ghost: the balance of counted requests, how often Next/Abort/Error ran, whether the request was
// counted while the later handlers ran, and whether Shutdown waited
var gCount int
var gNext int
var gCountInNext int
var gAborted bool
var gErrors int
var gErr interface{}
var gWaited int
var gG *Graceful

//@ extern (*sync.WaitGroup).Add
func exWgAdd(wg *sync.WaitGroup, n int) {
	gCount += n
}

//@ extern (*sync.WaitGroup).Done
func exWgDone(wg *sync.WaitGroup) {
	gCount--
}

//@ extern (*sync.WaitGroup).Wait
func exWgWait(wg *sync.WaitGroup) {
	gWaited++
}

// A request is admitted and counted in one step with respect to Shutdown: the flag is still false
// under the lock that Shutdown needs to set it.
//
//@ extern (*sync.WaitGroup).Add
//@ theory atomic
func exWgAddAtomic(wg *sync.WaitGroup, n int) {
	vcAssert("C20.a request is counted before shutdown can begin", vcAnd(vcHeld(&gG.mux), !gG.shutdown))
	gCount += n
}

//@ extern (*arpc.Context).Next
func exNext(ctx *arpc.Context) {
	gNext++
	gCountInNext = gCount
	if vcChoice() {
		panic("handler")
	}
}

//@ extern (*arpc.Context).Abort
func exAbort(ctx *arpc.Context) { gAborted = true }

//@ extern (*arpc.Context).Error
func exError(ctx *arpc.Context, v interface{}, err error) error {
	gErrors++
	gErr = v
	return err
}

//@ guarded router.Graceful.mux shutdown

func spReset() {
	gCount = 0
	gNext = 0
	gCountInNext = 0
	gAborted = false
	gErrors = 0
	gErr = nil
	gWaited = 0
}

//@ contract (*Graceful).Handler
//@ property C20
//@ opt seq
//@ panicfree
func ctHandle(g *Graceful, ctx *arpc.Context) arpc.HandlerFunc {
	vcRequires(ctx != nil)
	spReset()
	h := g.Handler()
	shut := g.shutdown
	h(ctx)
	vcEnsures("C20.every admitted request is uncounted exactly once", gCount == 0)
	if shut {
		vcCover("refused")
		vcEnsures("C20.a refused request is answered with the shutdown error", vcAnd(gErrors == 1, gErr == interface{}(ErrShutdown)))
		vcEnsures("C20.no later handler runs for a refused request", vcAnd(gNext == 0, gAborted))
		vcEnsures("C20.a refused request does not crash", !vcPanicked())
	} else {
		vcCover("admitted")
		vcEnsures("C20.an admitted request runs the later handlers", vcAnd(gNext == 1, !gAborted))
		vcEnsures("C20.an admitted request is counted while it runs", gCountInNext == 1)
		vcEnsures("C20.an admitted request is not refused", gErrors == 0)
	}
	return h
}

//@ contract (*Graceful).Shutdown
//@ property C20
//@ opt seq
//@ panicfree
func ctShutdown(g *Graceful, ctx *arpc.Context) {
	vcRequires(ctx != nil)
	spReset()
	g.Shutdown()
	vcEnsures("C20.shutdown waits for the counted requests", vcAnd(gWaited >= 1, gCount == 0))
	h := g.Handler()
	h(ctx)
	vcEnsures("C20.after shutdown a request is answered with the shutdown error", vcAnd(gErrors == 1, gErr == interface{}(ErrShutdown)))
	vcEnsures("C20.after shutdown no later handler runs", vcAnd(gNext == 0, gAborted))
}

// Shutdown may begin at any moment.
//
//@ contract (*Graceful).Handler
//@ property C20
//@ theory atomic
func ctHandleAtomic(g *Graceful, ctx *arpc.Context) arpc.HandlerFunc {
	vcRequires(ctx != nil)
	spReset()
	gG = g
	h := g.Handler()
	h(ctx)
	vcEnsures("C20.a request is either admitted or refused", gNext+gErrors == 1)
	vcEnsures("C20.a refused request is aborted", gErrors == 1 == gAborted)
	vcEnsures("C20.every admitted request is uncounted exactly once", gCount == 0)
	vcEnsures("C20.locks released", vcLocks() == 0)
	return h
}

// The flag is raised before waiting: a request that is not refused was counted before.
//
//@ extern (*sync.WaitGroup).Wait
//@ theory atomic
func exWgWaitAtomic(wg *sync.WaitGroup) {
	vcAssert("C20.shutdown waits only after refusing new requests", gG.shutdown)
	vcAssert("C20.shutdown waits without holding its lock", !vcHeld(&gG.mux))
	gWaited++
}

//@ op store router.Graceful.shutdown
//@ theory atomic
func hkShutdown(g *Graceful, v bool) {
	vcAssert("C20.the shutdown flag is only raised, under its lock", vcAnd(v, vcHeld(&g.mux)))
}

//@ contract (*Graceful).Shutdown
//@ property C20
//@ theory atomic
//@ panicfree
func ctShutdownAtomic(g *Graceful) {
	spReset()
	gG = g
	g.Shutdown()
	vcEnsures("C20.shutdown waits once", gWaited == 1)
	vcEnsures("C20.shutdown leaves the count alone", gCount == 0)
}
