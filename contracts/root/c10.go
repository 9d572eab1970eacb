package arpc

import "context"

// C10: cloning.

//@ extern context.WithCancel
func exWithCancel(p context.Context, c context.Context, f context.CancelFunc) (context.Context, context.CancelFunc) {
	vcAssume(vcAnd(c != nil, f != nil))
	return c, f
}

// spSameConf: everything but middlewares, coders, routes and the context is equal.
func spSameConf(a, b *handler) bool {
	x := vcAnd(vcAnd(a.logtag == b.logtag, a.batchRecv == b.batchRecv), vcAnd(a.batchSend == b.batchSend, a.asyncWrite == b.asyncWrite))
	x = vcAnd(x, vcAnd(a.asyncResponse == b.asyncResponse, a.recvBufferSize == b.recvBufferSize))
	x = vcAnd(x, vcAnd(a.sendBufferSize == b.sendBufferSize, a.readTimeout == b.readTimeout))
	x = vcAnd(x, vcAnd(a.writeTimeout == b.writeTimeout, a.sendQueueSize == b.sendQueueSize))
	x = vcAnd(x, vcAnd(a.streamQueueSize == b.streamQueueSize, a.maxBodyLen == b.maxBodyLen))
	x = vcAnd(x, a.maxReconnectTimes == b.maxReconnectTimes)
	x = vcAnd(x, vcAnd(vcId(a.onConnected) == vcId(b.onConnected), vcId(a.onDisConnected) == vcId(b.onDisConnected)))
	x = vcAnd(x, vcAnd(vcId(a.onOverstock) == vcId(b.onOverstock), vcId(a.onMessageDone) == vcId(b.onMessageDone)))
	x = vcAnd(x, vcAnd(vcId(a.onMessageDropped) == vcId(b.onMessageDropped), vcId(a.onSessionMiss) == vcId(b.onSessionMiss)))
	x = vcAnd(x, vcAnd(vcId(a.onContextDone) == vcId(b.onContextDone), vcId(a.beforeRecv) == vcId(b.beforeRecv)))
	x = vcAnd(x, vcAnd(vcId(a.beforeSend) == vcId(b.beforeSend), vcId(a.malloc) == vcId(b.malloc)))
	x = vcAnd(x, vcAnd(vcId(a.append) == vcId(b.append), vcId(a.free) == vcId(b.free)))
	x = vcAnd(x, vcAnd(vcId(a.wrapReader) == vcId(b.wrapReader), vcId(a.executor) == vcId(b.executor)))
	return x
}

// spSameRoute: b is a copy of a that shares no memory with it; i is an arbitrary index.
func spSameRoute(a, b *routerHandler, i int) bool {
	x := vcAnd(vcAnd(b != nil, a != b), vcAnd(a.async == b.async, len(a.handlers) == len(b.handlers)))
	x = vcAnd(x, vcOr(len(a.handlers) == 0, vcId(a.handlers) != vcId(b.handlers)))
	return vcAnd(x, vcOr(vcOr(i < 0, i >= len(a.handlers)), vcId(spAt(a.handlers, i)) == vcId(spAt(b.handlers, i))))
}

func spSameStream(a, b *streamHandler) bool {
	return vcAnd(vcAnd(b != nil, a != b), vcAnd(a.async == b.async, vcId(a.handler) == vcId(b.handler)))
}

// spAt: element i, for an index within bounds.
func spAt(hs []HandlerFunc, i int) HandlerFunc { return hs[i] }

//@ contract (*handler).Clone
//@ property C10
//@ opt seq
func ctClone(h *handler, i int) Handler {
	vcRequires(vcAnd(len(h.middles) <= 1<<20, len(h.msgCoders) <= 1<<20))
	r := h.Clone()
	cp, isH := r.(*handler)
	vcEnsures("C10.a clone is a handler of its own", vcAnd(isH, vcAnd(cp != nil, cp != h)))
	vcEnsures("C10.a clone has the same configuration", spSameConf(h, cp))
	vcEnsures("C10.a clone has as many middlewares", len(h.middles) == len(cp.middles))
	vcEnsures("C10.a clone has its own middleware list", vcOr(len(h.middles) == 0, vcIsFresh(cp.middles)))
	if vcAnd(0 <= i, i < len(h.middles)) {
		vcCover("middleware")
		vcEnsures("C10.a clone has the same middlewares", vcId(h.middles[i]) == vcId(cp.middles[i]))
	}
	vcEnsures("C10.a clone has as many coders", len(h.msgCoders) == len(cp.msgCoders))
	vcEnsures("C10.a clone has its own coder list", vcOr(len(h.msgCoders) == 0, vcIsFresh(cp.msgCoders)))
	if vcAnd(0 <= i, i < len(h.msgCoders)) {
		vcCover("coder")
		vcEnsures("C10.a clone has the same coders", h.msgCoders[i] == cp.msgCoders[i])
	}
	vcEnsures("C10.a clone has its own route table", vcAnd(vcIsFresh(cp.routes), vcIsFresh(cp.streams)))
	return r
}

//@ contract (*handler).Clone
//@ property C10
//@ theory clone
//@ opt seq
func ctCloneRoutes(h *handler, method string, i int) Handler {
	vcRequires(vcAnd(len(h.middles) <= 1<<20, len(h.msgCoders) <= 1<<20))
	rh, ok := h.routes[method]
	vcRequires(vcImp(ok, vcAnd(rh != nil, len(rh.handlers) <= 1<<20)))
	hf := spAt(rh.handlers, i)
	gCp = h
	vcHint("routes visited so far", func() bool {
		_, cok := gCp.routes[method]
		return vcIff(cok, vcAnd(ok, vcVisited(method)))
	})
	vcHint("route copied", func() bool {
		cr, cok := gCp.routes[method]
		return vcImp(cok, spSameRoute(rh, cr, i))
	})
	r := h.Clone()
	cp := r.(*handler)
	cr, cok := cp.routes[method]
	vcEnsures("C10.a clone has the same routes", vcIff(ok, cok))
	if ok {
		vcCover("route")
		vcEnsures("C10.a cloned route is a copy of its own", spSameRoute(rh, cr, i))
		vcEnsures("C10.cloning leaves the original's routes alone", vcId(spAt(rh.handlers, i)) == vcId(hf))
	}
	return r
}

//@ contract (*handler).Clone
//@ property C10
//@ theory clone
//@ opt seq
func ctCloneStreams(h *handler, method string) Handler {
	vcRequires(vcAnd(len(h.middles) <= 1<<20, len(h.msgCoders) <= 1<<20))
	sh, sok := h.streams[method]
	vcRequires(vcImp(sok, sh != nil))
	gCp = h
	vcHint("stream route copied", func() bool {
		cs, csok := gCp.streams[method]
		return vcAnd(vcIff(csok, vcAnd(sok, vcVisited(method))), vcImp(csok, spSameStream(sh, cs)))
	})
	r := h.Clone()
	cp := r.(*handler)
	cs, csok := cp.streams[method]
	vcEnsures("C10.a clone has the same stream routes", vcIff(sok, csok))
	if sok {
		vcCover("stream route")
		vcEnsures("C10.a cloned stream route is a copy of its own", spSameStream(sh, cs))
	}
	return r
}

// ghost: the handler whose routes were set last
var gCp *handler

//@ op store arpc.handler.routes
//@ theory clone
func hkRoutes(h *handler, m map[string]*routerHandler) { gCp = h }

//@ op mapset arpc.handler.routes
//@ theory clone
func hkRoutesSet(h *handler, k string, v *routerHandler) {
	vcAssert("C10.a cloned route shares nothing with any other", vcAnd(vcIsFresh(v), vcOr(len(v.handlers) == 0, vcIsFresh(v.handlers))))
}

// spApart: two handlers that share nothing, as a clone and its original (see above); rh is an
// arbitrary route of the second one.
func spApart(h, o *handler, method string) bool {
	x := vcAnd(vcAnd(o != nil, h != o), vcAnd(len(o.middles) <= 1<<20, len(h.middles) <= 1<<20))
	x = vcAnd(x, vcAnd(vcId(h.routes) != vcId(o.routes), vcId(h.streams) != vcId(o.streams)))
	x = vcAnd(x, vcOr(vcId(o.middles) != vcId(h.middles), len(o.middles) == 0))
	x = vcAnd(x, vcOr(vcId(o.msgCoders) != vcId(h.msgCoders), len(o.msgCoders) == 0))
	rh, ok := o.routes[method]
	sh, sok := o.streams[method]
	x = vcAnd(x, vcAnd(vcImp(ok, rh != nil), vcImp(sok, sh != nil)))
	x = vcAnd(x, vcImp(ok, vcOr(vcId(rh.handlers) != vcId(h.middles), len(rh.handlers) == 0)))
	return x
}

// spSnap: what there is to see of a handler at one method and one index.
type spSnap struct {
	ok, sok   bool
	rh        *routerHandler
	sh        *streamHandler
	async     bool
	n, nm, nc int
	f, m      HandlerFunc
	mc        MessageCoder
	sasync    bool
	sf        StreamHandlerFunc
}

func spSnapOf(o *handler, method string, i int) *spSnap {
	s := &spSnap{}
	s.rh, s.ok = o.routes[method]
	s.async = s.rh.async
	s.n = len(s.rh.handlers)
	s.f = spAt(s.rh.handlers, i)
	s.sh, s.sok = o.streams[method]
	s.sasync = s.sh.async
	s.sf = s.sh.handler
	s.nm = len(o.middles)
	s.m = spAt(o.middles, i)
	s.nc = len(o.msgCoders)
	s.mc = o.msgCoders[i]
	return s
}

func spSnapSame(a, b *spSnap, i int) bool {
	x := vcAnd(vcAnd(a.ok == b.ok, a.rh == b.rh), vcImp(a.ok, vcAnd(a.async == b.async, a.n == b.n)))
	x = vcAnd(x, vcImp(vcAnd(a.ok, vcAnd(0 <= i, i < a.n)), vcId(a.f) == vcId(b.f)))
	x = vcAnd(x, vcAnd(a.nm == b.nm, vcImp(vcAnd(0 <= i, i < a.nm), vcId(a.m) == vcId(b.m))))
	x = vcAnd(x, vcAnd(a.nc == b.nc, vcImp(vcAnd(0 <= i, i < a.nc), a.mc == b.mc)))
	return vcAnd(x, vcAnd(vcAnd(a.sok == b.sok, a.sh == b.sh), vcImp(a.sok, vcAnd(a.sasync == b.sasync, vcId(a.sf) == vcId(b.sf)))))
}

// ghost: the route of the other handler
var gApRh *routerHandler
var gApOK bool

// The routes of a clone and the lists in them are its own (ctCloneRoutes), so none of the routes
// walked here is the route of the other handler.
//@ op rangenext arpc.handler.routes
//@ theory apart
func hkApNext(h *handler, k string, v *routerHandler) {
	vcAssume(v != nil)
	vcAssume(vcImp(gApOK, vcAnd(v != gApRh, vcOr(len(gApRh.handlers) == 0, vcId(v.handlers) != vcId(gApRh.handlers)))))
}

//@ contract (*handler).Use
//@ property C10
//@ theory apart
//@ opt seq
func ctUseApart(h *handler, cb HandlerFunc, o *handler, method string, i int) {
	vcRequires(spApart(h, o, method))
	gApRh, gApOK = o.routes[method]
	a := spSnapOf(o, method, i)
	h.Use(cb)
	vcEnsures("C10.a middleware of one handler does not reach its clone", spSnapSame(a, spSnapOf(o, method, i), i))
}

//@ contract (*handler).UseCoder
//@ property C10
//@ opt seq
func ctUseCoderApart(h *handler, mc MessageCoder, o *handler, method string, i int) {
	vcRequires(spApart(h, o, method))
	a := spSnapOf(o, method, i)
	h.UseCoder(mc)
	vcEnsures("C10.a coder of one handler does not reach its clone", spSnapSame(a, spSnapOf(o, method, i), i))
}

//@ contract (*handler).handle
//@ property C10
//@ opt seq
func ctHandleApart(h *handler, m string, cb HandlerFunc, args []interface{}, o *handler, method string, i int) {
	vcRequires(spApart(h, o, method))
	a := spSnapOf(o, method, i)
	h.handle(m, cb, args...)
	vcEnsures("C10.a route of one handler does not reach its clone", spSnapSame(a, spSnapOf(o, method, i), i))
}

//@ contract (*handler).HandleStream
//@ property C10
//@ opt seq
func ctHandleStreamApart(h *handler, m string, cb StreamHandlerFunc, args []interface{}, o *handler, method string, i int) {
	vcRequires(spApart(h, o, method))
	a := spSnapOf(o, method, i)
	h.HandleStream(m, cb, args...)
	vcEnsures("C10.a stream route of one handler does not reach its clone", spSnapSame(a, spSnapOf(o, method, i), i))
}
