package arpc

import "sync"

// C14: buffer allocation.

type gmapPut map[uint64]bool

// ghost: arrays handed to a pool during the operation
var gPut gmapPut

// A pool returns a buffer that nobody uses (only given-up buffers are handed back, C08), of any
// length, capacity and contents.
//
//@ extern (*sync.Pool).Get
//@ theory alloc
func exPoolGet(p *sync.Pool, length int, capacity int) interface{} {
	vcAssume(vcAnd(0 <= length, vcAnd(length <= capacity, capacity <= 1<<36)))
	b := make([]byte, length, capacity)
	vcHavoc(b[:capacity])
	return &b
}

//@ extern (*sync.Pool).Put
//@ theory alloc
func exPoolPut(p *sync.Pool, x interface{}) {
	b, ok := x.(*[]byte)
	vcAssert("C14.only buffers are handed to the pool", vcAnd(ok, b != nil))
	gPut[uint64(vcArrayId(*b))] = true
	// another goroutine may take it out at once and overwrite it
	vcHavoc((*b)[:cap(*b)])
}

//@ extern arpc.getStack
//@ theory alloc
func exGetStack(s string) string { return s }

func spBufferPoolOK(bp *BufferPool) bool {
	return vcAnd(vcAnd(bp.smallPool != nil, bp.bigPool != nil), bp.allocStacks != nil)
}

//@ guarded arpc.BufferPool.mux allocStacks

//@ contract (*BufferPool).Malloc
//@ property C14
//@ theory alloc
//@ panicfree
func ctBPMalloc(bp *BufferPool, size int) []byte {
	vcRequires(spBufferPoolOK(bp))
	gPut = make(gmapPut)
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	// debug mode records the address of the buffer, which needs one
	vcRequires(vcImp(bp.Debug, size > 0))
	b := bp.Malloc(size)
	vcEnsures("C14.the requested length", len(b) == size)
	vcEnsures("C14.a buffer handed to the pool is not returned", vcImp(len(b) > 0, !gPut[uint64(vcArrayId(b))]))
	return b
}

//@ contract (*BufferPool).Realloc
//@ property C14
//@ theory alloc
//@ panicfree
func ctBPRealloc(bp *BufferPool, buf []byte, size int, i int) []byte {
	vcRequires(spBufferPoolOK(bp))
	gPut = make(gmapPut)
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	vcRequires(cap(buf) <= 1<<36)
	n := len(buf)
	if size < n {
		n = size
	}
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = buf[i]
	}
	b := bp.Realloc(buf, size)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", bp.Debug)
		vcStop()
	}
	vcEnsures("C14.the requested length", len(b) == size)
	vcEnsures("C14.a buffer handed to the pool is not returned", vcImp(len(b) > 0, !gPut[uint64(vcArrayId(b))]))
	if vcAnd(0 <= i, i < n) {
		vcCover("kept byte")
		vcEnsures("C14.leading bytes are preserved", b[i] == old)
	}
	return b
}

//@ contract (*BufferPool).AppendString
//@ property C14
//@ theory alloc
//@ panicfree
func ctBPAppendString(bp *BufferPool, buf []byte, more string, i int, j int) []byte {
	vcRequires(spBufferPoolOK(bp))
	gPut = make(gmapPut)
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	// the appended text is not part of the buffer's own array
	vcRequires(vcArrayId(buf) != vcStrArrayId(more))
	n := len(buf)
	var oi, oj byte
	if vcAnd(0 <= i, i < n) {
		oi = buf[i]
	}
	if vcAnd(0 <= j, j < len(more)) {
		oj = more[j]
	}
	b := bp.AppendString(buf, more)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", bp.Debug)
		vcStop()
	}
	vcEnsures("C14.the old length plus the appended one", len(b) == n+len(more))
	vcEnsures("C14.a buffer handed to the pool is not returned", vcImp(len(b) > 0, !gPut[uint64(vcArrayId(b))]))
	if vcAnd(0 <= i, i < n) {
		vcCover("old byte")
		vcEnsures("C14.the old bytes come first", b[i] == oi)
	}
	if vcAnd(0 <= j, j < len(more)) {
		vcCover("new byte")
		vcEnsures("C14.the new bytes follow", b[n+j] == oj)
	}
	return b
}

//@ contract (*BufferPool).Append
//@ property C14
//@ theory alloc
//@ panicfree
func ctBPAppend(bp *BufferPool, buf []byte, more []byte, i int, j int) []byte {
	vcRequires(spBufferPoolOK(bp))
	gPut = make(gmapPut)
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	vcRequires(!vcSameArray(buf, more))
	n := len(buf)
	var oi, oj byte
	if vcAnd(0 <= i, i < n) {
		oi = buf[i]
	}
	if vcAnd(0 <= j, j < len(more)) {
		oj = more[j]
	}
	b := bp.Append(buf, more...)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", bp.Debug)
		vcStop()
	}
	vcEnsures("C14.the old length plus the appended one", len(b) == n+len(more))
	vcEnsures("C14.a buffer handed to the pool is not returned", vcImp(len(b) > 0, !gPut[uint64(vcArrayId(b))]))
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.the old bytes come first", b[i] == oi)
	}
	if vcAnd(0 <= j, j < len(more)) {
		vcCover("new byte")
		vcEnsures("C14.the new bytes follow", b[n+j] == oj)
	}
	return b
}

//@ contract (*BufferPool).Free
//@ property C14
//@ theory alloc
//@ panicfree
func ctBPFree(bp *BufferPool, buf []byte) {
	vcRequires(spBufferPoolOK(bp))
	gPut = make(gmapPut)
	vcRequires(cap(buf) <= 1<<36)
	bp.Free(buf)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", bp.Debug)
		vcStop()
	}
	vcEnsures("C14.the buffer is handed to the pool", gPut[uint64(vcArrayId(buf))])
}

//@ contract New
//@ property C14
//@ theory alloc
//@ panicfree
func ctAllocNew(small, big int) Allocator {
	vcRequires(vcAnd(small <= 1<<36, big <= 1<<36))
	a := New(small, big)
	bp, ok := a.(*BufferPool)
	vcEnsures("C14.a new allocator is usable", vcAnd(vcAnd(ok, bp != nil), vcAnd(spBufferPoolOK(bp), bp.bigSize >= bp.smallSize)))
	vcEnsures("C14.its pools can make buffers", vcAnd(bp.smallPool.New != nil, bp.bigPool.New != nil))
	s := bp.smallPool.New()
	pb, ok2 := s.(*[]byte)
	vcEnsures("C14.the small pool makes buffers", vcAnd(ok2, pb != nil))
	g := bp.bigPool.New()
	qb, ok3 := g.(*[]byte)
	vcEnsures("C14.the big pool makes buffers", vcAnd(ok3, qb != nil))
	return a
}

//@ contract (*NativeAllocator).Malloc
//@ property C14
//@ panicfree
func ctNativeMalloc(a *NativeAllocator, size int) []byte {
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	b := a.Malloc(size)
	vcEnsures("C14.the requested length", len(b) == size)
	return b
}

//@ contract (*NativeAllocator).Realloc
//@ property C14
//@ panicfree
func ctNativeRealloc(a *NativeAllocator, buf []byte, size int, i int) []byte {
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	vcRequires(cap(buf) <= 1<<36)
	n := len(buf)
	if size < n {
		n = size
	}
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = buf[i]
	}
	b := a.Realloc(buf, size)
	vcEnsures("C14.the requested length", len(b) == size)
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.leading bytes are preserved", b[i] == old)
	}
	return b
}

//@ contract (*handler).Malloc
//@ property C14
//@ panicfree
func ctHandlerMalloc(h *handler, size int) []byte {
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	b := h.Malloc(size)
	vcEnsures("C14.the requested length", len(b) == size)
	return b
}

// The appender configured with HandleAppend behaves as documented (for the default allocator
// this is the contract of Append).
//
//@ op call arpc.handler.append
func hkAppend(h *handler, f func([]byte, ...byte) []byte, b []byte, more []byte) []byte {
	out := make([]byte, len(b)+len(more))
	copy(out, b)
	copy(out[len(b):], more)
	return out
}

//@ contract (*handler).Append
//@ property C14
//@ panicfree
func ctHandlerAppend(h *handler, buf []byte, more []byte, i int, j int) []byte {
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	vcRequires(!vcSameArray(buf, more))
	n := len(buf)
	var oi, oj byte
	if vcAnd(0 <= i, i < n) {
		oi = buf[i]
	}
	if vcAnd(0 <= j, j < len(more)) {
		oj = more[j]
	}
	b := h.Append(buf, more...)
	vcEnsures("C14.the old length plus the appended one", len(b) == n+len(more))
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.the old bytes come first", b[i] == oi)
	}
	if vcAnd(0 <= j, j < len(more)) {
		vcEnsures("C14.the new bytes follow", b[n+j] == oj)
	}
	return b
}

// The package-level functions use the default allocator, a BufferPool unless replaced.
//
//@ iface arpc.Allocator *BufferPool

func spDefaultAllocOK() bool {
	bp, ok := DefaultAllocator.(*BufferPool)
	if !ok {
		return false
	}
	return vcAnd(bp != nil, spBufferPoolOK(bp))
}

//@ contract Malloc
//@ property C14
//@ theory alloc
//@ panicfree
func ctPkgMalloc(size int) []byte {
	vcRequires(spDefaultAllocOK())
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	b := Malloc(size)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", DefaultAllocator.(*BufferPool).Debug)
		vcStop()
	}
	vcEnsures("C14.the requested length", len(b) == size)
	return b
}

//@ contract Realloc
//@ property C14
//@ theory alloc
//@ panicfree
func ctPkgRealloc(buf []byte, size int, i int) []byte {
	vcRequires(spDefaultAllocOK())
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	vcRequires(cap(buf) <= 1<<36)
	n := len(buf)
	if size < n {
		n = size
	}
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = buf[i]
	}
	b := Realloc(buf, size)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", DefaultAllocator.(*BufferPool).Debug)
		vcStop()
	}
	vcEnsures("C14.the requested length", len(b) == size)
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.leading bytes are preserved", b[i] == old)
	}
	return b
}

//@ contract Append
//@ property C14
//@ theory alloc
//@ panicfree
func ctPkgAppend(buf []byte, more []byte, i int, j int) []byte {
	vcRequires(spDefaultAllocOK())
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	vcRequires(!vcSameArray(buf, more))
	n := len(buf)
	var oi, oj byte
	if vcAnd(0 <= i, i < n) {
		oi = buf[i]
	}
	if vcAnd(0 <= j, j < len(more)) {
		oj = more[j]
	}
	b := Append(buf, more...)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", DefaultAllocator.(*BufferPool).Debug)
		vcStop()
	}
	vcEnsures("C14.the old length plus the appended one", len(b) == n+len(more))
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.the old bytes come first", b[i] == oi)
	}
	if vcAnd(0 <= j, j < len(more)) {
		vcEnsures("C14.the new bytes follow", b[n+j] == oj)
	}
	return b
}

//@ contract AppendString
//@ property C14
//@ theory alloc
//@ panicfree
func ctPkgAppendString(buf []byte, more string, i int, j int) []byte {
	vcRequires(spDefaultAllocOK())
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	vcRequires(vcArrayId(buf) != vcStrArrayId(more))
	n := len(buf)
	var oi, oj byte
	if vcAnd(0 <= i, i < n) {
		oi = buf[i]
	}
	if vcAnd(0 <= j, j < len(more)) {
		oj = more[j]
	}
	b := AppendString(buf, more)
	if vcPanicked() {
		vcEnsures("C14.no crash in normal mode", DefaultAllocator.(*BufferPool).Debug)
		vcStop()
	}
	vcEnsures("C14.the old length plus the appended one", len(b) == n+len(more))
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.the old bytes come first", b[i] == oi)
	}
	if vcAnd(0 <= j, j < len(more)) {
		vcEnsures("C14.the new bytes follow", b[n+j] == oj)
	}
	return b
}

//@ contract (*handler).EnablePool
//@ property C14
//@ theory alloc
//@ panicfree
func ctEnablePool(h *handler, enable bool, size int, buf []byte, more []byte, i int) {
	vcRequires(spDefaultAllocOK())
	vcRequires(!DefaultAllocator.(*BufferPool).Debug)
	vcRequires(vcAnd(0 <= size, size <= 1<<36))
	vcRequires(vcAnd(cap(buf) <= 1<<36, len(more) <= 1<<36))
	vcRequires(!vcSameArray(buf, more))
	h.EnablePool(enable)
	vcEnsures("C14.an allocator is configured", vcAnd(h.malloc != nil, vcAnd(h.append != nil, h.free != nil)))
	b := h.Malloc(size)
	vcEnsures("C14.the configured allocator returns the requested length", len(b) == size)
	var oi byte
	if vcAnd(0 <= i, i < len(buf)) {
		oi = buf[i]
	}
	if vcAnd(len(buf) <= i, i < len(buf)+len(more)) {
		oi = more[i-len(buf)]
	}
	n := len(buf) + len(more)
	g := h.Append(buf, more...)
	vcEnsures("C14.the configured appender returns old plus new length", len(g) == n)
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C14.the configured appender keeps old and new bytes", g[i] == oi)
	}
}
