package tracing

import (
	"github.com/gogo/protobuf/proto"
	"github.com/opentracing/basictracer-go"
	"github.com/opentracing/basictracer-go/wire"
	opentracing "github.com/opentracing/opentracing-go"
)

// C17: the tracing coder converts a span context to bytes and back.

var gState wire.TracerState
var gErr error

//@ extern proto.Marshal
func exMarshal(m proto.Message, out []byte, err error) ([]byte, error) {
	st := m.(*wire.TracerState)
	gState.TraceId = st.TraceId
	gState.SpanId = st.SpanId
	gState.Sampled = st.Sampled
	gState.BaggageItems = st.BaggageItems
	gErr = err
	return out, err
}

// Unmarshalling what was marshalled yields the original; other bytes any state or an error.
//
//@ extern proto.Unmarshal
func exUnmarshal(b []byte, m proto.Message, a uint64, c uint64, s bool, err error) error {
	st := m.(*wire.TracerState)
	if gErr == nil {
		st.TraceId = gState.TraceId
		st.SpanId = gState.SpanId
		st.Sampled = gState.Sampled
		st.BaggageItems = gState.BaggageItems
		return nil
	}
	st.TraceId = a
	st.SpanId = c
	st.Sampled = s
	gErr = err
	return err
}

//@ contract (*Tracer).ValueToBytes
//@ property C17
//@ panicfree
func ctValueToBytes(t *Tracer, value interface{}) ([]byte, error) {
	vcRequires(opentracing.ErrInvalidSpanContext != nil)
	gErr = nil
	sc, ok := value.(basictracer.SpanContext)
	b, err := t.ValueToBytes(value)
	vcEnsures("C17.only span contexts are encoded", vcOr(err != nil, ok))
	if err == nil {
		vcCover("encoded")
		v, err := t.BytesToValue(b)
		vcEnsures("C17.an encoded span context decodes", err == nil)
		sc2, ok2 := v.(basictracer.SpanContext)
		vcEnsures("C17.a span context decodes to a span context", ok2)
		vcEnsures("C17.a span context keeps its trace id", sc2.TraceID == sc.TraceID)
		vcEnsures("C17.a span context keeps its span id", sc2.SpanID == sc.SpanID)
		vcEnsures("C17.a span context keeps its sampling", sc2.Sampled == sc.Sampled)
	}
	return b, err
}

//@ contract (*Tracer).BytesToValue
//@ property C17
//@ panicfree
func ctBytesToValue(t *Tracer, b []byte, bad error) (interface{}, error) {
	vcRequires(bad != nil)
	vcRequires(opentracing.ErrSpanContextCorrupted != nil)
	gErr = bad
	v, err := t.BytesToValue(b)
	vcEnsures("C17.bytes that do not decode yield no value", vcImp(gErr != nil, vcAnd(err != nil, v == nil)))
	vcCover("any")
	return v, err
}
