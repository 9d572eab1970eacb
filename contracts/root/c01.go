package arpc

import "github.com/lesismal/arpc/codec"

// spPayloadIs: the bytes p are the encoding of v.
func spPayloadIs(p []byte, v interface{}) bool {
	if v == nil {
		return len(p) == 0
	}
	switch vt := v.(type) {
	case []byte:
		return vcBytesEq(p, vt)
	case *[]byte:
		return vcBytesEq(p, *vt)
	case string:
		return vcBytesStr(p, vt)
	case *string:
		return vcBytesStr(p, *vt)
	case error:
		return vcBytesStr(p, gErrText)
	case *error:
		return vcBytesStr(p, gErrText)
	}
	return vcBytesEq(p, gMarshalled)
}

func spLe32(b []byte, o int) uint32 {
	return uint32(b[o]) | uint32(b[o+1])<<8 | uint32(b[o+2])<<16 | uint32(b[o+3])<<24
}

func spLe64(b []byte, o int) uint64 {
	return uint64(spLe32(b, o)) | uint64(spLe32(b, o+4))<<32
}

func spB(b bool, v byte) byte {
	r := byte(0)
	if b {
		r = v
	}
	return r
}

// spFrame: the bytes of a message built from these attributes.
func spFrame(m *Message, cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64) {
	b := m.Buffer
	vcEnsures("C01.message holds header and method", len(b) >= 16+len(method))
	vcEnsures("C01.body length field equals the bytes after the header", int(spLe32(b, 0)) == len(b)-16)
	vcEnsures("C01.reserved byte is zero", b[4] == 0)
	vcEnsures("C01.command byte", b[5] == cmd)
	vcEnsures("C01.flag byte", b[6] == spB(isError, 1)|spB(isAsync, 2))
	vcEnsures("C01.method length byte", int(b[7]) == len(method))
	vcEnsures("C01.sequence bytes", spLe64(b, 8) == seq)
	vcEnsures("C01.method bytes", vcBytesStr(b[16:16+len(method)], method))
	vcEnsures("C01.payload bytes", spPayloadIs(b[16+len(method):], v))
}

//@ contract newMessage
//@ property C01
//@ panicfree
func ctNewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(vcOr(h == nil, spHandlerOK(h)))
	vcRequires(spValueOK(v))
	m := newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
	spFrame(m, cmd, method, v, isError, isAsync, seq)
	return m
}

//@ contract NewMessage
//@ property C01
//@ panicfree
func ctPkgNewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(vcOr(h == nil, spHandlerOK(h)))
	vcRequires(spValueOK(v))
	m := NewMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
	spFrame(m, cmd, method, v, isError, isAsync, seq)
	return m
}

//@ contract (*handler).NewMessage
//@ property C01
//@ panicfree
func ctHandlerNewMessage(h *handler, cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(spValueOK(v))
	m := h.NewMessage(cmd, method, v, isError, isAsync, seq, codec, values)
	spFrame(m, cmd, method, v, isError, isAsync, seq)
	return m
}

//@ contract (*Client).NewMessage
//@ property C01
//@ panicfree
func ctClientNewMessage(c *Client, cmd byte, method string, v interface{}, args ...interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(spHandlerOK(c.Handler))
	vcRequires(spValueOK(v))
	vcRequires(spArgsOK(args))
	seq := c.seq
	m := c.NewMessage(cmd, method, v, args...)
	spFrame(m, cmd, method, v, false, false, seq+1)
	vcEnsures("C01.the next message gets another sequence number", c.seq == seq+1)
	return m
}

//@ contract (*Client).newRequestMessage
//@ property C01
//@ panicfree
func ctClientNewRequestMessage(c *Client, cmd byte, method string, v interface{}, isError bool, isAsync bool, args ...interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(spHandlerOK(c.Handler))
	vcRequires(spValueOK(v))
	vcRequires(spArgsOK(args))
	seq := c.seq
	m := c.newRequestMessage(cmd, method, v, isError, isAsync, args...)
	spFrame(m, cmd, method, v, isError, isAsync, seq+1)
	vcEnsures("C01.the next message gets another sequence number", c.seq == seq+1)
	return m
}

//@ contract (*Server).NewMessage
//@ property C01
//@ panicfree
func ctServerNewMessage(s *Server, cmd byte, method string, v interface{}, args ...interface{}) *Message {
	vcRequires(len(method) <= 127)
	vcRequires(cmd < 64)
	vcRequires(spEnvOK())
	vcRequires(spHandlerOK(s.Handler))
	vcRequires(spValueOK(v))
	vcRequires(spArgsOK(args))
	seq := s.seq
	m := s.NewMessage(cmd, method, v, args...)
	spFrame(m, cmd, method, v, false, false, seq+1)
	vcEnsures("C01.the next message gets another sequence number", s.seq == seq+1)
	return m
}

//@ contract (*Stream).newMessage
//@ property C01
//@ panicfree
func ctStreamNewMessage(s *Stream, v interface{}, args ...interface{}) *Message {
	vcRequires(len(s.method) <= 127)
	vcRequires(spEnvOK())
	vcRequires(s.cli != nil)
	vcRequires(spHandlerOK(s.cli.Handler))
	vcRequires(spValueOK(v))
	vcRequires(spArgsOK(args))
	m := s.newMessage(v, args...)
	spFrame(m, 6, s.method, v, false, false, s.id)
	return m
}

// spArgsOK: the optional argument, if present, is the values map.
func spArgsOK(args []interface{}) bool {
	if len(args) == 0 {
		return true
	}
	_, ok := args[0].(map[interface{}]interface{})
	return ok
}

//@ contract checkMethod
//@ property C01
func ctCheckMethod(method string) error {
	err := checkMethod(method)
	vcEnsures("C01.exactly the methods of 1 to 127 bytes are accepted", vcIff(err == nil, vcAnd(len(method) >= 1, len(method) <= 127)))
	return err
}

// ---- attribute readers ----

//@ contract (*Message).Cmd
//@ property C01
//@ panicfree
func ctCmd(m *Message) byte {
	vcRequires(len(m.Buffer) >= 16)
	r := m.Cmd()
	vcEnsures("C01.Cmd reads byte 5 without the stream bits", r == m.Buffer[5]&0x3f)
	return r
}

//@ contract (*Message).IsError
//@ property C01
//@ panicfree
func ctIsError(m *Message) bool {
	vcRequires(len(m.Buffer) >= 16)
	r := m.IsError()
	vcEnsures("C01.IsError reads bit 0 of byte 6", r == (m.Buffer[6]&1 == 1))
	return r
}

//@ contract (*Message).IsAsync
//@ property C01
//@ panicfree
func ctIsAsync(m *Message) bool {
	vcRequires(len(m.Buffer) >= 16)
	r := m.IsAsync()
	vcEnsures("C01.IsAsync reads bit 1 of byte 6", r == (m.Buffer[6]&2 == 2))
	return r
}

//@ contract (*Message).IsStreamLocal
//@ property C01
//@ panicfree
func ctIsStreamLocal(m *Message) bool {
	vcRequires(len(m.Buffer) >= 16)
	r := m.IsStreamLocal()
	vcEnsures("C01.IsStreamLocal reads bit 7 of byte 5", r == (m.Buffer[5]&0x80 == 0x80))
	return r
}

//@ contract (*Message).IsStreamEOF
//@ property C01
//@ panicfree
func ctIsStreamEOF(m *Message) bool {
	vcRequires(len(m.Buffer) >= 16)
	r := m.IsStreamEOF()
	vcEnsures("C01.IsStreamEOF reads bit 6 of byte 5", r == (m.Buffer[5]&0x40 == 0x40))
	return r
}

//@ contract (*Message).MethodLen
//@ property C01
//@ panicfree
func ctMethodLen(m *Message) int {
	vcRequires(len(m.Buffer) >= 16)
	r := m.MethodLen()
	vcEnsures("C01.MethodLen reads byte 7", r == int(m.Buffer[7]))
	return r
}

//@ contract (*Message).BodyLen
//@ property C01
//@ panicfree
func ctBodyLen(m *Message) int {
	vcRequires(len(m.Buffer) >= 16)
	r := m.BodyLen()
	vcEnsures("C01.BodyLen reads bytes 0..3 little endian", r == int(spLe32(m.Buffer, 0)))
	return r
}

//@ contract (Header).BodyLen
//@ property C01 C02 C02
//@ panicfree
func ctHeaderBodyLen(h Header) int {
	vcRequires(len(h) >= 4)
	r := h.BodyLen()
	vcEnsures("C01.Header.BodyLen reads bytes 0..3 little endian", r == int(spLe32(h, 0)))
	return r
}

//@ contract (*Message).Seq
//@ property C01
//@ panicfree
func ctSeq(m *Message) uint64 {
	vcRequires(len(m.Buffer) >= 16)
	r := m.Seq()
	vcEnsures("C01.Seq reads bytes 8..15 little endian", r == spLe64(m.Buffer, 8))
	return r
}

//@ contract (*Message).Len
//@ property C01
//@ panicfree
func ctLen(m *Message) int {
	r := m.Len()
	vcEnsures("C01.Len is the frame length", r == len(m.Buffer))
	return r
}

//@ contract (*Message).Method
//@ property C01
//@ panicfree
func ctMethod(m *Message) string {
	vcRequires(len(m.Buffer) >= 16)
	vcRequires(len(m.Buffer) >= 16+int(m.Buffer[7]))
	r := m.Method()
	vcEnsures("C01.Method returns the method bytes", vcBytesStr(m.Buffer[16:16+int(m.Buffer[7])], r))
	return r
}

//@ contract (*Message).method
//@ property C01
//@ panicfree
func ctMethodAlias(m *Message) string {
	vcRequires(len(m.Buffer) >= 16)
	vcRequires(len(m.Buffer) >= 16+int(m.Buffer[7]))
	r := m.method()
	vcEnsures("C01.method returns the method bytes", vcBytesStr(m.Buffer[16:16+int(m.Buffer[7])], r))
	return r
}

//@ contract (*Message).Data
//@ property C01
//@ panicfree
func ctData(m *Message) []byte {
	vcRequires(len(m.Buffer) >= 16)
	vcRequires(len(m.Buffer) >= 16+int(m.Buffer[7]))
	r := m.Data()
	vcEnsures("C01.Data is everything after the method", vcBytesEq(r, m.Buffer[16+int(m.Buffer[7]):]))
	return r
}

//@ contract (*Message).Error
//@ property C01
//@ panicfree
func ctError(m *Message) error {
	vcRequires(len(m.Buffer) >= 16)
	vcRequires(len(m.Buffer) >= 16+int(m.Buffer[7]))
	r := m.Error()
	vcEnsures("C01.Error is nil exactly without the error flag", vcIff(r == nil, m.Buffer[6]&1 == 0))
	return r
}

//@ contract (*Message).IsFlagBitSet
//@ property C01 C17
//@ panicfree
func ctIsFlagBitSet(m *Message, index int) bool {
	vcRequires(len(m.Buffer) >= 16)
	r := m.IsFlagBitSet(index)
	if index >= 0 && index < 8 {
		vcEnsures("C01.IsFlagBitSet reads that bit of byte 4", r == ((m.Buffer[4]>>uint(index))&1 == 1))
	} else {
		vcEnsures("C01.IsFlagBitSet of an invalid index is false", !r)
	}
	return r
}

// ---- attribute writers: k stands for every byte position of the frame ----

//@ contract (*Message).SetCmd
//@ property C01
//@ panicfree
func ctSetCmd(m *Message, cmd byte, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	vcRequires(cmd < 64)
	n, o, b5 := len(m.Buffer), m.Buffer[k], m.Buffer[5]
	m.SetCmd(cmd)
	vcEnsures("C01.SetCmd sets the command and keeps the stream bits", m.Buffer[5] == b5&0xc0|cmd)
	vcEnsures("C01.SetCmd changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 5, m.Buffer[k] == o)))
}

//@ contract (*Message).SetStreamLocal
//@ property C01 C11
//@ panicfree
func ctSetStreamLocal(m *Message, v bool, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o, b5 := len(m.Buffer), m.Buffer[k], m.Buffer[5]
	m.SetStreamLocal(v)
	vcEnsures("C01.SetStreamLocal sets bit 7 of byte 5 only", m.Buffer[5] == b5&0x7f|spB(v, 0x80))
	vcEnsures("C01.SetStreamLocal changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 5, m.Buffer[k] == o)))
}

//@ contract (*Message).SetStreamEOF
//@ property C01 C11
//@ panicfree
func ctSetStreamEOF(m *Message, v bool, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o, b5 := len(m.Buffer), m.Buffer[k], m.Buffer[5]
	m.SetStreamEOF(v)
	vcEnsures("C01.SetStreamEOF sets bit 6 of byte 5 only", m.Buffer[5] == b5&0xbf|spB(v, 0x40))
	vcEnsures("C01.SetStreamEOF changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 5, m.Buffer[k] == o)))
}

//@ contract (*Message).SetError
//@ property C01
//@ panicfree
func ctSetError(m *Message, v bool, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o, b6 := len(m.Buffer), m.Buffer[k], m.Buffer[6]
	m.SetError(v)
	vcEnsures("C01.SetError sets bit 0 of byte 6 only", m.Buffer[6] == b6&0xfe|spB(v, 1))
	vcEnsures("C01.SetError changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 6, m.Buffer[k] == o)))
}

//@ contract (*Message).SetAsync
//@ property C01
//@ panicfree
func ctSetAsync(m *Message, v bool, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o, b6 := len(m.Buffer), m.Buffer[k], m.Buffer[6]
	m.SetAsync(v)
	vcEnsures("C01.SetAsync sets bit 1 of byte 6 only", m.Buffer[6] == b6&0xfd|spB(v, 2))
	vcEnsures("C01.SetAsync changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 6, m.Buffer[k] == o)))
}

//@ contract (*Message).SetFlagBit
//@ property C01 C17
//@ panicfree
func ctSetFlagBit(m *Message, index int, v bool, k int) error {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o, b4 := len(m.Buffer), m.Buffer[k], m.Buffer[4]
	err := m.SetFlagBit(index, v)
	if index >= 0 && index < 8 {
		bit := byte(1) << uint(index)
		vcEnsures("C01.SetFlagBit accepts bits 0 to 7", err == nil)
		vcEnsures("C01.SetFlagBit sets exactly that bit of byte 4", m.Buffer[4] == b4&^bit|spB(v, bit))
		vcEnsures("C01.SetFlagBit changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 4, m.Buffer[k] == o)))
	} else {
		vcEnsures("C01.SetFlagBit rejects other indexes", err == ErrInvalidFlagBitIndex)
		vcEnsures("C01.rejected SetFlagBit changes nothing", vcAnd(len(m.Buffer) == n, m.Buffer[k] == o))
	}
	return err
}

//@ contract (*Message).SetMethodLen
//@ property C01
//@ panicfree
func ctSetMethodLen(m *Message, l int, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	vcRequires(vcAnd(l >= 0, l <= 127))
	n, o := len(m.Buffer), m.Buffer[k]
	m.SetMethodLen(l)
	vcEnsures("C01.SetMethodLen writes byte 7", int(m.Buffer[7]) == l)
	vcEnsures("C01.SetMethodLen changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k == 7, m.Buffer[k] == o)))
}

//@ contract (*Message).SetBodyLen
//@ property C01 C17
//@ panicfree
func ctSetBodyLen(m *Message, l int, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	vcRequires(vcAnd(l >= 0, l <= 1<<32-1))
	n, o := len(m.Buffer), m.Buffer[k]
	m.SetBodyLen(l)
	vcEnsures("C01.SetBodyLen writes bytes 0..3 little endian", int(spLe32(m.Buffer, 0)) == l)
	vcEnsures("C01.SetBodyLen changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(k < 4, m.Buffer[k] == o)))
}

//@ contract (*Message).SetSeq
//@ property C01
//@ panicfree
func ctSetSeq(m *Message, seq uint64, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o := len(m.Buffer), m.Buffer[k]
	m.SetSeq(seq)
	vcEnsures("C01.SetSeq writes bytes 8..15 little endian", spLe64(m.Buffer, 8) == seq)
	vcEnsures("C01.SetSeq changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(vcAnd(k >= 8, k < 16), m.Buffer[k] == o)))
}

//@ contract (*Message).ResetAttrs
//@ property C01
//@ panicfree
func ctResetAttrs(m *Message, k int) {
	vcRequires(vcAnd(len(m.Buffer) >= 16, vcAnd(k >= 0, k < len(m.Buffer))))
	n, o := len(m.Buffer), m.Buffer[k]
	m.ResetAttrs()
	vcEnsures("C01.ResetAttrs clears bytes 4..7", spLe32(m.Buffer, 4) == 0)
	vcEnsures("C01.ResetAttrs changes nothing else", vcAnd(len(m.Buffer) == n, vcOr(vcAnd(k >= 4, k < 8), m.Buffer[k] == o)))
}
