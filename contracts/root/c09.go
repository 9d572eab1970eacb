package arpc

// C09: middlewares and handlers.
//
// A chain is the list of handlers of a context. The contract of Next is proved by induction: while
// a handler of the chain runs it may itself call Next, whose effect on the rest of the chain is the
// one this contract states.

// ghost: how many handlers of the chain have run, which element of the chain was loaded last,
// whether Abort was called, and how many handlers ran after that
var gRun int
var gIdx int
var gAborted bool
var gRanAborted int
var gWrongArg bool

//@ op load arpc.Context.handlers[]
//@ theory chain
func hkChainLoad(ctx *Context, f HandlerFunc, i int) {
	// registered handlers are functions (ctUse, ctHandle)
	vcAssume(f != nil)
	gIdx = i
}

// spRest: the effect of Next on the rest of the chain, seen from inside a handler.
func spRest(ctx *Context) {
	if ctx.index < len(ctx.handlers) {
		if vcChoice() {
			gAborted = true
		} else {
			gRun = len(ctx.handlers)
		}
		ctx.index = len(ctx.handlers)
	}
}

// Every element of a chain runs its callback, which may call Next and Abort, and then calls Next
// (see ctUse, ctHandle).
//
//@ op call arpc.Context.handlers[]
//@ theory chain
func hkChainCall(ctx *Context, f HandlerFunc, arg *Context) {
	vcAssert("C09.handlers run in registration order, once each", gIdx == gRun)
	vcAssert("C09.a handler is given its own context", arg == ctx)
	vcAssert("C09.no handler runs after Abort", !gAborted)
	gRun++
	if vcChoice() {
		spRest(ctx)
	}
	if vcChoice() {
		ctx.Abort()
		gAborted = true
	}
	if vcChoice() {
		spRest(ctx)
	}
	spRest(ctx)
}

//@ contract (*Context).Next
//@ property C09
//@ theory chain
//@ panicfree
func ctNext(ctx *Context) {
	vcRequires(vcAnd(0 <= ctx.index, vcAnd(ctx.index <= len(ctx.handlers), len(ctx.handlers) <= 1<<40)))
	gRun = ctx.index
	gAborted = false
	ctx.Next()
	vcEnsures("C09.after Next the chain is used up", ctx.index >= len(ctx.handlers))
	vcEnsures("C09.every handler has run unless the chain was aborted", vcOr(gAborted, gRun == len(ctx.handlers)))
}

// After Abort the index is at the end, so Next runs nothing (ctNextDone).
//
//@ contract (*Context).Abort
//@ property C09
//@ panicfree
func ctAbort(ctx *Context) {
	vcRequires(vcAnd(0 <= ctx.index, vcAnd(ctx.index <= len(ctx.handlers), len(ctx.handlers) <= 1<<40)))
	n := len(ctx.handlers)
	ctx.Abort()
	vcEnsures("C09.Abort keeps the chain", len(ctx.handlers) == n)
	vcEnsures("C09.Abort ends the chain", ctx.index >= n)
}

//@ op call arpc.Context.handlers[]
//@ theory done
func hkChainNever(ctx *Context, f HandlerFunc, arg *Context) { gRanAborted++ }

//@ contract (*Context).Next
//@ property C09
//@ theory done
//@ panicfree
func ctNextDone(ctx *Context) {
	vcRequires(vcAnd(0 <= ctx.index, vcAnd(ctx.index <= len(ctx.handlers), len(ctx.handlers) <= 1<<40)))
	gRanAborted = 0
	ctx.Abort()
	ctx.Next()
	ctx.Next()
	vcEnsures("C09.no handler runs after Abort", gRanAborted == 0)
	vcEnsures("C09.the chain stays ended", ctx.index >= len(ctx.handlers))
}

// ghost: calls of the user's callback and of Next, in order
var gUser int
var gNexts int
var gUserFn HandlerFunc
var gUserCtx *Context

//@ extern (*arpc.Context).Next
//@ theory wrap
func exNextWrap(ctx *Context) {
	vcAssert("C09.a callback runs before the next one", gUser == gNexts+1)
	gNexts++
}

func spChainOK(h *handler, method string) bool {
	rh, ok := h.routes[method]
	return vcAnd(vcImp(ok, vcAnd(rh != nil, len(rh.handlers) <= 1<<20)), len(h.middles) <= 1<<20)
}

// spUserCb: a callback of the user, counted.
func spUserCb(ctx *Context) {
	gUser++
	gUserCtx = ctx
}

//@ contract (*handler).Use
//@ property C09
//@ theory wrap
//@ opt seq
func ctUse(h *handler, method string, i int, ctx *Context) {
	vcRequires(spChainOK(h, method))
	vcRequires(ctx != nil)
	rh, ok := h.routes[method]
	vcRequires(vcImp(ok, vcOr(vcId(rh.handlers) != vcId(h.middles), len(rh.handlers) == 0)))
	n := len(h.middles)
	m := spAt(h.middles, i)
	hn := len(rh.handlers)
	f := spAt(rh.handlers, i)
	async := rh.async
	vcHint("a route already reached is extended", func() bool {
		r, k := h.routes[method]
		old := vcAnd(r == rh, vcImp(ok, vcAnd(len(r.handlers) == hn, vcAnd(vcImp(vcAnd(0 <= i, i < hn), vcId(spAt(r.handlers, i)) == vcId(f)), r.async == async))))
		ext := vcAnd(vcAnd(r != nil, r.async == async), vcAnd(len(r.handlers) == hn+1, vcId(spAt(r.handlers, hn)) == vcId(spAt(h.middles, n))))
		ext = vcAnd(ext, vcImp(vcAnd(0 <= i, i < hn), vcId(spAt(r.handlers, i)) == vcId(f)))
		return vcAnd(k == ok, vcImp(ok, vcAnd(vcImp(vcVisited(method), ext), vcImp(!vcVisited(method), old))))
	})
	h.Use(spUserCb)
	vcEnsures("C09.a middleware is added at the end", len(h.middles) == n+1)
	vcEnsures("C09.earlier middlewares stay", vcImp(vcAnd(0 <= i, i < n), vcId(spAt(h.middles, i)) == vcId(m)))
	r2, ok2 := h.routes[method]
	vcEnsures("C09.routes stay registered", ok2 == ok)
	if ok {
		vcCover("route")
		vcEnsures("C09.a later middleware covers earlier routes", len(r2.handlers) == hn+1)
		vcEnsures("C09.a later middleware comes after the handler", vcId(spAt(r2.handlers, hn)) == vcId(spAt(h.middles, n)))
		vcEnsures("C09.the handlers before it stay", vcImp(vcAnd(0 <= i, i < hn), vcId(spAt(r2.handlers, i)) == vcId(f)))
		vcEnsures("C09.a route keeps its mode", r2.async == async)
	}
	gUser = 0
	gNexts = 0
	h.middles[n](ctx)
	vcEnsures("C09.a middleware runs once and then the rest", vcAnd(vcAnd(gUser == 1, gNexts == 1), gUserCtx == ctx))
}

//@ contract (*handler).Use
//@ property C09
//@ opt seq
func ctUseNil(h *handler) {
	n := len(h.middles)
	h.Use(nil)
	vcEnsures("C09.no middleware, nothing added", len(h.middles) == n)
}

//@ contract (*handler).handle
//@ property C09
//@ theory wrap
//@ opt seq
func ctHandle(h *handler, method string, args []interface{}, other string, i int, ctx *Context) {
	vcRequires(vcAnd(spChainOK(h, method), spChainOK(h, other)))
	vcRequires(ctx != nil)
	n := len(h.middles)
	m := spAt(h.middles, i)
	orh, ook := h.routes[other]
	nf := vcOr(method == "", other != "")
	h.handle(method, spUserCb, args...)
	rh, ok := h.routes[method]
	vcEnsures("C09.a registered method has a route", vcAnd(ok, rh != nil))
	vcEnsures("C09.a route has all middlewares and its handler", len(rh.handlers) == n+1)
	vcEnsures("C09.a route has the middlewares first, in order", vcImp(vcAnd(0 <= i, i < n), vcId(spAt(rh.handlers, i)) == vcId(m)))
	r2, ok2 := h.routes[other]
	vcEnsures("C09.other routes stay", vcOr(other == method, vcOr(vcAnd(!nf, !ook), vcAnd(ok2 == ook, r2 == orh))))
	gUser = 0
	gNexts = 0
	rh.handlers[n](ctx)
	vcEnsures("C09.a handler runs once and then the rest", vcAnd(vcAnd(gUser == 1, gNexts == 1), gUserCtx == ctx))
}
