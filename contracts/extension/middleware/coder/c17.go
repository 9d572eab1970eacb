package coder

import "github.com/lesismal/arpc"

// C17: the appender coder.

func spBodyLen(b []byte) int {
	return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
}

// spMsgOK: a message whose announced body length is the actual one.
func spMsgOK(m *arpc.Message) bool {
	n := len(m.Buffer)
	return vcAnd(vcAnd(arpc.HeadLen <= n, n <= 1<<31), vcAnd(cap(m.Buffer) <= 1<<36, vcOr(n < arpc.HeadLen, spBodyLen(m.Buffer) == n-arpc.HeadLen)))
}

// Flag bits, as proved of the real functions by ctIsFlagBitSet and ctSetFlagBit (root package).
//
//@ extern (*arpc.Message).IsFlagBitSet
func exIsFlag(m *arpc.Message, index int) bool {
	vcAssert("C17.flags are read within the header", len(m.Buffer) >= arpc.HeadLen)
	return vcAnd(vcAnd(0 <= index, index < 8), (m.Buffer[4]>>uint(index&7))&1 == 1)
}

//@ extern (*arpc.Message).SetFlagBit
func exSetFlag(m *arpc.Message, index int, v bool) error {
	vcAssert("C17.flags are written within the header", len(m.Buffer) >= arpc.HeadLen)
	if vcAnd(0 <= index, index < 8) {
		bit := byte(1) << uint(index&7)
		b := m.Buffer[4] &^ bit
		if v {
			b |= bit
		}
		m.Buffer[4] = b
		return nil
	}
	return arpc.ErrInvalidFlagBitIndex
}

// ghost: the value converted last, its bytes, and whether the conversions failed
var gVal interface{}
var gBytes []byte
var gEncErr error
var gEncoded int
var gDecoded int

//@ op call coder.Appender.valueToBytes
func hkToBytes(ap *Appender, f func(interface{}) ([]byte, error), v interface{}, out []byte, err error) ([]byte, error) {
	vcAssume(len(out) <= 1<<36)
	gVal = v
	gEncErr = err
	gBytes = make([]byte, len(out))
	copy(gBytes, out)
	gEncoded++
	b := make([]byte, len(out))
	copy(b, out)
	return b, err
}

// The two conversions are inverse to each other.
//
//@ op call coder.Appender.bytesToValue
func hkToValue(ap *Appender, f func([]byte) (interface{}, error), b []byte, v interface{}, err error) (interface{}, error) {
	gDecoded++
	if gEncoded > 0 {
		if vcAnd(len(b) == len(gBytes), vcBytesEq(b, gBytes)) {
			return gVal, nil
		}
	}
	return v, err
}

//@ contract (*Appender).Encode
//@ property C17
//@ panicfree
func ctAppenderEncode(ap *Appender, client *arpc.Client, msg *arpc.Message, i int, j int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	// the flag bit belongs to the coder
	vcRequires(!msg.IsFlagBitSet(ap.FlagBitIndex))
	key := ap.AppenderName
	vcRequires(vcArrayId(msg.Buffer) != vcStrArrayId(key))
	n := len(msg.Buffer)
	val, has := msg.Get(key)
	flags := msg.Buffer[4]
	var old byte
	if vcAnd(5 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gEncoded = 0
	gEncErr = nil
	m := ap.Encode(client, msg)
	want := vcAnd(vcAnd(key != "", ap.valueToBytes != nil), vcAnd(0 <= ap.FlagBitIndex, ap.FlagBitIndex <= 7))
	want = vcAnd(vcAnd(want, has), vcAnd(gEncErr == nil, len(key)+len(gBytes)+2 <= 0xFFFF))
	vcEnsures("C17.after encoding the announced body length is the actual one", spBodyLen(m.Buffer) == len(m.Buffer)-arpc.HeadLen)
	if vcAnd(5 <= i, i < n) {
		vcCover("byte")
		vcEnsures("C17.encoding keeps header, method and payload", m.Buffer[i] == old)
	}
	if want {
		vcCover("value")
		vcEnsures("C17.the attached value is encoded", vcAnd(gEncoded == 1, gVal == val))
		vcEnsures("C17.an encoded message is extended by key, value and their length", len(m.Buffer) == n+len(key)+len(gBytes)+2)
		vcEnsures("C17.an encoded message is flagged", m.Buffer[4] == flags|1<<uint(ap.FlagBitIndex))
		vcEnsures("C17.the key follows the payload", vcBytesStr(m.Buffer[n:n+len(key)], key))
		if vcAnd(0 <= j, j < len(gBytes)) {
			vcEnsures("C17.the value follows the key", m.Buffer[n+len(key)+j] == gBytes[j])
		}
		vcEnsures("C17.the length comes last", int(m.Buffer[len(m.Buffer)-2])<<8|int(m.Buffer[len(m.Buffer)-1]) == len(key)+len(gBytes)+2)
	} else {
		vcCover("nothing to encode")
		vcEnsures("C17.a message without attached value is unchanged", vcAnd(len(m.Buffer) == n, m.Buffer[4] == flags))
	}
	return m
}

// Decoding what encoding produced (its postcondition above), for a message of n bytes.
//
//@ contract (*Appender).Decode
//@ property C17
//@ panicfree
func ctAppenderDecodeEncoded(ap *Appender, client *arpc.Client, msg *arpc.Message, val interface{}, i int) *arpc.Message {
	vcRequires(vcAnd(msg != nil, vcAnd(ap.bytesToValue != nil, val != nil)))
	vcRequires(spMsgOK(msg))
	key := ap.AppenderName
	vcRequires(vcAnd(vcArrayId(msg.Buffer) != vcStrArrayId(key), key != ""))
	l := len(msg.Buffer)
	al := int(msg.Buffer[l-2])<<8 | int(msg.Buffer[l-1])
	n := l - al
	vcRequires(vcAnd(al >= len(key)+2, n >= arpc.HeadLen))
	vcRequires(vcAnd(0 <= ap.FlagBitIndex, ap.FlagBitIndex <= 7))
	vcRequires(msg.IsFlagBitSet(ap.FlagBitIndex))
	vcRequires(vcBytesStr(msg.Buffer[n:n+len(key)], key))
	gEncoded = 1
	gBytes = msg.Buffer[n+len(key) : l-2]
	gVal = val
	flags := msg.Buffer[4]
	var old byte
	if vcAnd(5 <= i, i < n) {
		old = msg.Buffer[i]
	}
	r := ap.Decode(client, msg)
	vcEnsures("C17.decoding restores the length", len(r.Buffer) == n)
	vcEnsures("C17.after decoding the announced body length is the actual one", spBodyLen(r.Buffer) == n-arpc.HeadLen)
	vcEnsures("C17.decoding restores the flags", r.Buffer[4] == flags&^(1<<uint(ap.FlagBitIndex)))
	if vcAnd(5 <= i, i < n) {
		vcCover("byte")
		vcEnsures("C17.decoding restores header, method and payload", r.Buffer[i] == old)
	}
	rv, ok := r.Get(key)
	vcEnsures("C17.decoding restores the attached value", vcAnd(ok, rv == val))
	return r
}

//@ contract (*Appender).Decode
//@ property C17
//@ panicfree
func ctAppenderDecode(ap *Appender, client *arpc.Client, msg *arpc.Message, i int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	key := ap.AppenderName
	n := len(msg.Buffer)
	flag := msg.IsFlagBitSet(ap.FlagBitIndex)
	al := int(msg.Buffer[n-2])<<8 | int(msg.Buffer[n-1])
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gEncoded = 0
	gDecoded = 0
	r := ap.Decode(client, msg)
	vcEnsures("C17.after decoding the announced body length is the actual one", vcAnd(len(r.Buffer) >= arpc.HeadLen, spBodyLen(r.Buffer) == len(r.Buffer)-arpc.HeadLen))
	vcEnsures("C17.decoding never changes a message without the flag", vcImp(!flag, vcAnd(len(r.Buffer) == n, gDecoded == 0)))
	vcEnsures("C17.decoding removes a whole encoding or nothing", vcOr(len(r.Buffer) == n, vcAnd(len(r.Buffer) == n-al, al >= len(key)+2)))
	if len(r.Buffer) == n {
		vcEnsures("C17.no value comes out of nothing", gDecoded == 0)
		if vcAnd(0 <= i, i < n) {
			vcCover("unchanged")
			vcEnsures("C17.a message without encoding is unchanged", r.Buffer[i] == old)
		}
	} else if vcAnd(arpc.HeadLen <= i, i < len(r.Buffer)) {
		vcCover("decoded")
		vcEnsures("C17.decoding keeps the payload", r.Buffer[i] == old)
	}
	return r
}
