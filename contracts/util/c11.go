package util

import (
	acodec "github.com/lesismal/arpc/codec"
)

// ghost: what the codec was asked to decode
var gUn int
var gUnData []byte
var gUnErr error
var gUnTo interface{}

//@ extern (codec.Codec).Unmarshal
func exUnmarshal(c acodec.Codec, data []byte, v interface{}, err error) error {
	gUn++
	gUnData = data
	gUnErr = err
	gUnTo = v
	return err
}

// ghost: the text of the last error made
var gNewText string
var gNewErr error

//@ extern errors.New
func exErrorsNew(text string, e error) error {
	vcAssume(e != nil)
	gNewText = text
	gNewErr = e
	return e
}

// The value decoded is the caller's own: it shares no memory with the bytes, which are recycled.
//
//@ contract BytesToValue
//@ property C11 C08
//@ panicfree
func ctBytesToValue(c acodec.Codec, data []byte, v interface{}) error {
	vcRequires(acodec.DefaultCodec != nil)
	a, ok := v.(*string)
	b, ok2 := v.(*[]byte)
	d, ok3 := v.(*error)
	vcRequires(vcAnd(vcImp(ok, a != nil), vcAnd(vcImp(ok2, b != nil), vcImp(ok3, d != nil))))
	gUn = 0
	err := BytesToValue(c, data, v)
	if v == nil {
		vcEnsures("C11.without a variable nothing is decoded", vcAnd(err == nil, gUn == 0))
		return err
	}
	if ok {
		vcEnsures("C11.a string is decoded exactly", vcAnd(err == nil, vcBytesStr(data, *a)))
		vcEnsures("C08.a decoded string does not alias the frame", vcOr(len(*a) == 0, vcStrArrayId(*a) != vcArrayId(data)))
		return err
	}
	if ok2 {
		vcEnsures("C11.bytes are decoded exactly", vcAnd(err == nil, vcBytesEq(*b, data)))
		vcEnsures("C08.decoded bytes do not alias the frame", vcOr(len(*b) == 0, vcArrayId(*b) != vcArrayId(data)))
		return err
	}
	if ok3 {
		vcEnsures("C11.an error is decoded exactly", vcAnd(err == nil, vcAnd(*d == gNewErr, vcBytesStr(data, gNewText))))
		vcEnsures("C08.a decoded error does not alias the frame", vcOr(len(gNewText) == 0, vcStrArrayId(gNewText) != vcArrayId(data)))
		return err
	}
	vcEnsures("C11.other values are decoded by the codec from the payload", vcAnd(gUn == 1, vcAnd(gUnTo == v, vcAnd(err == gUnErr, vcAnd(vcSameArray(gUnData, data), vcAnd(vcArrayOff(gUnData) == vcArrayOff(data), len(gUnData) == len(data)))))))
	return err
}
