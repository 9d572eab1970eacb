package arpc

import (
	"io"

	"github.com/lesismal/arpc/codec"
)

// Shared model of the environment of package arpc.
//
// The loops of a connection run as goroutines of their own; each is verified by its own contract.
//
//@ nospawn (*arpc.Client).sendLoop (*arpc.Client).recvLoop
//@ iface arpc.Handler *handler

// A pooled message comes back in its zero state (see C08: it is cleared before Put).
//
//@ op poolget arpc.messagePool
func hkMsgGet() interface{} { return &Message{} }

// A pooled context comes back in its zero state.
//
//@ op poolget arpc.contextPool
func hkCtxGet() interface{} { return &Context{} }

// The allocator configured with HandleMalloc returns a buffer of the requested length that
// nobody else refers to, with arbitrary contents (for the default allocator this is C14).
//
//@ op call arpc.handler.malloc
func hkMalloc(h *handler, f func(int) []byte, size int) []byte {
	b := make([]byte, size)
	vcHavoc(b)
	return b
}

//@ extern (codec.Codec).Marshal
func exMarshal(c codec.Codec, v interface{}, out []byte, err error) ([]byte, error) {
	vcAssume(len(out) <= spMaxData)
	gMarshalled = out
	return out, err
}

// ghost: what the codec produced last
var gMarshalled []byte

//@ extern (error).Error
func exErrorError(e error, out string) string {
	vcAssume(len(out) <= spMaxData)
	gErrText = out
	return out
}

// ghost: the text of the last error asked for
var gErrText string

// A frame's body length is a 32-bit field: longer payloads cannot be represented.
const spMaxData = 1<<32 - 1 - 127

// spHandlerOK: the handler is a real one.
func spHandlerOK(h Handler) bool {
	p, ok := h.(*handler)
	return vcAnd(ok, p != nil)
}

func spEnvOK() bool {
	return vcAnd(spHandlerOK(DefaultHandler), codec.DefaultCodec != nil)
}

// spValueOK: v is a value that has an encoding at all.
func spValueOK(v interface{}) bool {
	switch vt := v.(type) {
	case []byte:
		return len(vt) <= spMaxData
	case *[]byte:
		return vcAnd(vt != nil, len(*vt) <= spMaxData)
	case string:
		return len(vt) <= spMaxData
	case *string:
		return vcAnd(vt != nil, len(*vt) <= spMaxData)
	case *error:
		return vcAnd(vt != nil, *vt != nil)
	}
	return true
}

//@ extern fmt.Errorf
func exErrorf(format string, args []interface{}, e error) error {
	vcAssume(e != nil)
	return e
}

// ghost: everything the peer will ever send on the connection, and how much of it has been read
var gWire []byte
var gPos int

// ghost: some read or hook on the receiving side failed
var gReadFailed bool

// io.ReadFull either fills the buffer with the next bytes of the connection or fails.
//
//@ extern io.ReadFull
func exReadFull(r io.Reader, buf []byte, n int, err error) (int, error) {
	if err == nil {
		vcAssume(gPos+len(buf) <= len(gWire))
		copy(buf, gWire[gPos:gPos+len(buf)])
		gPos += len(buf)
		return len(buf), nil
	}
	vcHavoc(buf)
	gReadFailed = true
	vcAssume(0 <= n)
	vcAssume(n < len(buf))
	return n, err
}
