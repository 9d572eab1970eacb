package gzip

import (
	"bytes"
	"compress/gzip"
	"io"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
)

// C17: the gzip coder.

func spBodyLen(b []byte) int {
	return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
}

func spMsgOK(m *arpc.Message) bool {
	n := len(m.Buffer)
	return vcAnd(vcAnd(arpc.HeadLen <= n, n <= 1<<31), vcAnd(cap(m.Buffer) <= 1<<36, vcOr(n < arpc.HeadLen, spBodyLen(m.Buffer) == n-arpc.HeadLen)))
}

// Flag bits, as proved of the real functions by ctIsFlagBitSet and ctSetFlagBit (root package).
//
//@ extern (*arpc.Message).IsFlagBitSet
func exIsFlag(m *arpc.Message, index int) bool {
	vcAssert("C17.flags are read within the header", len(m.Buffer) >= arpc.HeadLen)
	return vcAnd(vcAnd(0 <= index, index < 8), (m.Buffer[4]>>uint(index&7))&1 == 1)
}

//@ extern (*arpc.Message).SetFlagBit
func exSetFlag(m *arpc.Message, index int, v bool) error {
	vcAssert("C17.flags are written within the header", len(m.Buffer) >= arpc.HeadLen)
	if vcAnd(0 <= index, index < 8) {
		bit := byte(1) << uint(index&7)
		b := m.Buffer[4] &^ bit
		if v {
			b |= bit
		}
		m.Buffer[4] = b
		return nil
	}
	return arpc.ErrInvalidFlagBitIndex
}

// ghost: what was compressed last, and to what
var gPlain []byte
var gComp []byte
var gHave bool

// gzip output is never shorter than its header and trailer.
//
//@ extern gzip.gzipCompress
//@ theory zip
func exCompress(data []byte, out []byte) []byte {
	vcAssume(vcAnd(18 <= len(out), len(out) <= 1<<36))
	b := make([]byte, len(out))
	copy(b, out)
	gPlain = make([]byte, len(data))
	copy(gPlain, data)
	gComp = make([]byte, len(out))
	copy(gComp, out)
	gHave = true
	return b
}

// Decompressing what was compressed yields the original; anything else yields anything.
//
//@ extern gzip.gzipUnCompress
//@ theory zip
func exUnCompress(data []byte, out []byte, err error) ([]byte, error) {
	if vcAnd(gHave, vcAnd(len(data) == len(gComp), vcBytesEq(data, gComp))) {
		b := make([]byte, len(gPlain))
		copy(b, gPlain)
		return b, nil
	}
	vcAssume(len(out) <= 1<<31)
	if err != nil {
		return nil, err
	}
	b := make([]byte, len(out))
	copy(b, out)
	gUnzipped = b
	return b, nil
}

var gUnzipped []byte

//@ contract (*Gzip).Encode
//@ property C17
//@ theory zip
//@ panicfree
func ctGzipRoundTrip(g *Gzip, client *arpc.Client, msg *arpc.Message, i int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	vcRequires(!msg.IsFlagBitSet(coder.FlagBitGZip))
	n := len(msg.Buffer)
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gHave = false
	m := g.Encode(client, msg)
	vcEnsures("C17.after encoding the announced body length is the actual one", vcAnd(len(m.Buffer) >= arpc.HeadLen, spBodyLen(m.Buffer) == len(m.Buffer)-arpc.HeadLen))
	vcEnsures("C17.encoding never makes the message longer", len(m.Buffer) <= n)
	r := g.Decode(client, &arpc.Message{Buffer: m.Buffer})
	vcEnsures("C17.decoding restores the length", len(r.Buffer) == n)
	if vcAnd(0 <= i, i < n) {
		vcCover("byte")
		vcEnsures("C17.decoding restores header, method and payload", r.Buffer[i] == old)
	}
	return m
}

//@ contract (*Gzip).Decode
//@ property C17
//@ theory zip
//@ panicfree
func ctGzipDecode(g *Gzip, client *arpc.Client, msg *arpc.Message, i int) *arpc.Message {
	vcRequires(msg != nil)
	vcRequires(spMsgOK(msg))
	n := len(msg.Buffer)
	flag := msg.IsFlagBitSet(coder.FlagBitGZip)
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = msg.Buffer[i]
	}
	gHave = false
	gUnzipped = nil
	r := g.Decode(client, msg)
	vcEnsures("C17.after decoding the announced body length is the actual one", vcAnd(len(r.Buffer) >= arpc.HeadLen, spBodyLen(r.Buffer) == len(r.Buffer)-arpc.HeadLen))
	vcEnsures("C17.an encoding shorter than a message is refused", vcImp(len(gUnzipped) < arpc.HeadLen-arpc.HeaderIndexReserved-1, len(r.Buffer) == n))
	dec := vcAnd(flag, vcAnd(gUnzipped != nil, len(gUnzipped) >= arpc.HeadLen-arpc.HeaderIndexReserved-1))
	if !dec {
		vcEnsures("C17.a message without encoding keeps its length", len(r.Buffer) == n)
		if vcAnd(0 <= i, i < n) {
			vcCover("unchanged")
			vcEnsures("C17.a message without encoding is unchanged", r.Buffer[i] == old)
		}
	} else {
		vcCover("decoded")
		vcEnsures("C17.a decoded message is no longer flagged", !r.IsFlagBitSet(coder.FlagBitGZip))
		vcEnsures("C17.decoding yields the unzipped bytes", vcAnd(len(r.Buffer) == len(gUnzipped)+5, vcBytesEq(r.Buffer[5:], gUnzipped)))
	}
	return r
}

// The helpers hand all bytes to the library and take all of its output.

var gIn []byte
var gState int // 1 created, 2 written, 3 closed
var gOutErr error

//@ extern gzip.NewWriter
func exNewWriter(w io.Writer) *gzip.Writer {
	gState = 1
	return &gzip.Writer{}
}

//@ extern (*gzip.Writer).Write
func exWrite(w *gzip.Writer, p []byte) (int, error) {
	vcAssert("C17.the data is written once, before closing", gState == 1)
	gState = 2
	gIn = p
	return len(p), nil
}

//@ extern (*gzip.Writer).Close
func exWClose(w *gzip.Writer) error {
	vcAssert("C17.closed after writing", gState == 2)
	gState = 3
	return nil
}

//@ extern (*bytes.Buffer).Bytes
func exBytes(b *bytes.Buffer, out []byte) []byte {
	vcAssert("C17.the output is taken after closing", gState == 3)
	gComp = out
	return out
}

//@ contract gzipCompress
//@ property C17
//@ panicfree
func ctCompress(data []byte) []byte {
	gState = 0
	out := gzipCompress(data)
	vcEnsures("C17.all of the data is compressed", vcAnd(gState == 3, vcAnd(len(gIn) == len(data), vcBytesEq(gIn, data))))
	vcEnsures("C17.all of the output is returned", vcAnd(len(out) == len(gComp), vcBytesEq(out, gComp)))
	return out
}

//@ extern bytes.NewReader
func exNewBytesReader(b []byte) *bytes.Reader {
	gIn = b
	return &bytes.Reader{}
}

//@ extern gzip.NewReader
func exNewReader(r io.Reader, err error) (*gzip.Reader, error) {
	if err != nil {
		gOutErr = err
		return nil, err
	}
	return &gzip.Reader{}, nil
}

//@ extern (*gzip.Reader).Close
func exRClose(r *gzip.Reader, err error) error { return err }

//@ extern ioutil.ReadAll
func exReadAllOld(r io.Reader, out []byte, err error) ([]byte, error) {
	return spReadAll(out, err)
}

//@ extern io.ReadAll
func exReadAll(r io.Reader, out []byte, err error) ([]byte, error) {
	return spReadAll(out, err)
}

func spReadAll(out []byte, err error) ([]byte, error) {
	gState++
	gOutErr = err
	gUnzipped = out
	return out, err
}

//@ contract gzipUnCompress
//@ property C17
//@ panicfree
func ctUnCompress(data []byte) ([]byte, error) {
	gState = 0
	gOutErr = nil
	out, err := gzipUnCompress(data)
	vcEnsures("C17.all of the data is given to the library", vcAnd(len(gIn) == len(data), vcBytesEq(gIn, data)))
	vcEnsures("C17.a failure is reported", vcIff(gOutErr != nil, err != nil))
	if err == nil {
		vcCover("ok")
		vcEnsures("C17.all of the output is returned", vcAnd(gState == 1, vcAnd(len(out) == len(gUnzipped), vcBytesEq(out, gUnzipped))))
	}
	return out, err
}
