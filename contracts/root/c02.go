package arpc

import "net"

// C02: receiving a frame is bounded, exact and keeps the connection in sync.

// The hook configured with BeforeRecv fails or not as it likes.
//
//@ op call arpc.handler.beforeRecv
func hkBeforeRecv(h *handler, f func(net.Conn) error, c net.Conn, err error) error {
	if err != nil {
		gReadFailed = true
	}
	return err
}

// ghost: the largest buffer asked for
var gMaxAlloc int

//@ op call arpc.handler.malloc
//@ theory recv
func hkMallocRecv(h *handler, f func(int) []byte, size int) []byte {
	if size > gMaxAlloc {
		gMaxAlloc = size
	}
	b := make([]byte, size)
	vcHavoc(b)
	return b
}

//@ contract (*handler).Recv
//@ property C02
//@ theory recv
//@ panicfree
func ctRecv(h *handler, c *Client, i int) (*Message, error) {
	vcRequires(vcAnd(c != nil, c.Conn != nil))
	vcRequires(len(c.Head) == 4)
	vcRequires(!vcSameArray(gWire, c.Head))
	vcRequires(vcAnd(0 <= gPos, gPos <= len(gWire)))
	vcRequires(h.maxBodyLen <= 1<<32)
	vcRequires(!gReadFailed)
	pos := gPos
	gMaxAlloc = 0
	max := h.maxBodyLen
	m, err := h.Recv(c)
	wl := 0
	if len(gWire)-pos >= 4 {
		wl = int(spLe32(gWire, pos))
	}
	vcEnsures("C02.a failed read is reported as an error", vcImp(gReadFailed, err != nil))
	vcEnsures("C02.an oversized body is refused after its length was read", vcImp(vcAnd(gPos-pos == 4, wl > max), err != nil))
	vcEnsures("C02.an oversized body is never read", vcImp(vcAnd(gPos-pos > 4, len(gWire)-pos >= 4), wl <= max))
	vcEnsures("C02.no buffer beyond the maximum is allocated", vcImp(max >= 0, gMaxAlloc <= max+16))
	vcEnsures("C02.no buffer for a negative maximum", vcImp(max < 0, gMaxAlloc == 0))
	if err == nil {
		vcCover("delivered")
		vcEnsures("C02.a message comes with no error", m != nil)
		vcEnsures("C02.exactly header plus body is consumed", gPos == pos+16+wl)
		vcEnsures("C02.the body length is within the maximum", wl <= max)
		vcEnsures("C02.the message has exactly the announced length", len(m.Buffer) == 16+wl)
		if vcAnd(0 <= i, i < 16+wl) {
			vcCover("byte")
			vcEnsures("C02.the message holds exactly the bytes read", m.Buffer[i] == gWire[pos+i])
		}
	} else {
		vcCover("failed")
		vcEnsures("C02.an error means a failed read or an oversized body", vcOr(gReadFailed, wl > max))
	}
	return m, err
}

//@ contract (Header).message
//@ property C02
//@ theory recv
//@ panicfree
func ctHeaderMessage(h Header, handler_ Handler) (*Message, error) {
	vcRequires(len(h) >= 4)
	vcRequires(spHandlerOK(handler_))
	hp := handler_.(*handler)
	max := hp.maxBodyLen
	gMaxAlloc = 0
	n := int(spLe32(h, 0))
	m, err := h.message(handler_)
	vcEnsures("C02.exactly the lengths up to the maximum are accepted", vcIff(err == nil, n <= max))
	vcEnsures("C02.nothing is allocated for a refused length", vcImp(err != nil, gMaxAlloc == 0))
	if err == nil {
		vcEnsures("C02.room for header and body", len(m.Buffer) == 16+n)
		vcEnsures("C02.body length kept", int(spLe32(m.Buffer, 0)) == n)
	}
	return m, err
}
