package msgpack

import "github.com/lesismal/arpc"

// C17: the msgpack coder.

func spBodyLen(b []byte) int {
	return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
}

func spMsgOK(m *arpc.Message) bool {
	n := len(m.Buffer)
	return vcAnd(vcAnd(arpc.HeadLen <= n, n <= 1<<31), vcAnd(cap(m.Buffer) <= 1<<36, vcOr(n < arpc.HeadLen, spBodyLen(m.Buffer) == n-arpc.HeadLen)))
}

// ghost: what was marshalled last, and to what
var gBody []byte
var gValues map[interface{}]interface{}
var gData []byte
var gHave bool
var gEncErr error
var gDecErr error
var gTried bool
var gMsg *arpc.Message
var gGotBody []byte

//@ extern msgpack.Marshal
func exMarshal(v interface{}, out []byte, err error) ([]byte, error) {
	vcAssume(len(out) <= 1<<31)
	var p *mpkv
	if pp, ok := v.(**mpkv); ok {
		p = *pp
	} else {
		p = v.(*mpkv)
	}
	gEncErr = err
	gBody = make([]byte, len(p.Body))
	copy(gBody, p.Body)
	gValues = p.Values
	gData = make([]byte, len(out))
	copy(gData, out)
	gHave = true
	b := make([]byte, len(out))
	copy(b, out)
	return b, err
}

// Unmarshalling what was marshalled yields the original; anything else yields anything. The
// decoded body is a copy.
//
//@ extern msgpack.Unmarshal
func exUnmarshal(data []byte, v interface{}, body []byte, vals map[interface{}]interface{}, err error) error {
	p := v.(*mpkv)
	gTried = true
	if vcAnd(gHave, vcAnd(len(data) == len(gData), vcBytesEq(data, gData))) {
		p.Body = make([]byte, len(gBody))
		copy(p.Body, gBody)
		p.Values = gValues
		gDecErr = nil
		return nil
	}
	vcAssume(len(body) <= 1<<31)
	p.Body = make([]byte, len(body))
	copy(p.Body, body)
	p.Values = vals
	gGotBody = p.Body
	gDecErr = err
	return err
}

//@ contract (*MsgPack).Encode
//@ property C17
//@ panicfree
func ctMsgPackRoundTrip(mp *MsgPack, client *arpc.Client, msg *arpc.Message, i int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	n := len(msg.Buffer)
	vcRequires(arpc.HeadLen+msg.MethodLen() <= n)
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gHave = false
	m := mp.Encode(client, msg)
	vcEnsures("C17.after encoding the announced body length is the actual one", spBodyLen(m.Buffer) == len(m.Buffer)-arpc.HeadLen)
	if gEncErr != nil {
		vcCover("not encoded")
		vcEnsures("C17.a failed encoding leaves the message alone", len(m.Buffer) == n)
		if vcAnd(0 <= i, i < n) {
			vcEnsures("C17.a failed encoding changes nothing", m.Buffer[i] == old)
		}
		vcStop()
	}
	in := &arpc.Message{Buffer: m.Buffer}
	r := mp.Decode(client, in)
	vcEnsures("C17.decoding restores the length", len(r.Buffer) == n)
	if vcAnd(0 <= i, i < n) {
		vcCover("byte")
		vcEnsures("C17.decoding restores header, method and payload", r.Buffer[i] == old)
	}
	return m
}

// The attached values: key is an arbitrary one.
//
//@ contract (*MsgPack).Encode
//@ property C17
func ctMsgPackValues(mp *MsgPack, client *arpc.Client, msg *arpc.Message, key interface{}) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	vcRequires(arpc.HeadLen+msg.MethodLen() <= len(msg.Buffer))
	val, has := msg.Get(key)
	vcRequires(vcImp(has, vcAnd(key != nil, val != nil)))
	gHave = false
	m := mp.Encode(client, msg)
	if gEncErr != nil {
		vcStop()
	}
	in := &arpc.Message{Buffer: m.Buffer}
	vcHint("restored", func() bool {
		rv, ok := in.Values()[key]
		return vcImp(vcAnd(has, vcVisited(key)), vcAnd(ok, rv == val))
	})
	vcHint("apart", func() bool { return vcOr(in.Values() == nil, vcId(in.Values()) != vcId(gValues)) })
	vcHint("source", func() bool {
		v, ok := gValues[key]
		return vcAnd(ok == has, vcImp(has, v == val))
	})
	r := mp.Decode(client, in)
	if has {
		vcCover("value")
		rv, ok := r.Get(key)
		vcEnsures("C17.decoding restores the attached values", vcAnd(ok, rv == val))
	}
	return m
}

//@ contract (*MsgPack).Decode
//@ property C17
//@ panicfree
func ctMsgPackDecode(mp *MsgPack, client *arpc.Client, msg *arpc.Message, i int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	n := len(msg.Buffer)
	ml := msg.MethodLen()
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gHave = false
	gTried = false
	r := mp.Decode(client, msg)
	vcEnsures("C17.after decoding the announced body length is the actual one", vcAnd(len(r.Buffer) >= arpc.HeadLen, spBodyLen(r.Buffer) == len(r.Buffer)-arpc.HeadLen))
	if vcOr(!gTried, gDecErr != nil) {
		vcEnsures("C17.a message without encoding keeps its length", len(r.Buffer) == n)
		if vcAnd(0 <= i, i < n) {
			vcCover("unchanged")
			vcEnsures("C17.a message without encoding is unchanged", r.Buffer[i] == old)
		}
	} else {
		vcCover("decoded")
		vcEnsures("C17.decoding yields the decoded body", vcAnd(len(r.Buffer) == arpc.HeadLen+ml+len(gGotBody), vcBytesEq(r.Buffer[arpc.HeadLen+ml:], gGotBody)))
		if vcAnd(4 <= i, i < arpc.HeadLen+ml) {
			vcEnsures("C17.decoding keeps header and method", r.Buffer[i] == old)
		}
	}
	return r
}

