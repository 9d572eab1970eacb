package tracing

import (
	"bytes"
	"reflect"
	"testing"

	"github.com/lesismal/arpc"
	"github.com/opentracing/basictracer-go"
)

func TestVerif_C17_tracing(t *testing.T) {
	tr := NewTracer(nil)
	for _, sc := range []basictracer.SpanContext{
		{},
		{TraceID: 1, SpanID: 2, Sampled: true},
		{TraceID: 1 << 63, SpanID: 1<<64 - 1},
		{TraceID: 5, SpanID: 6, Sampled: true, Baggage: map[string]string{"a": "b", "c": ""}},
	} {
		m := arpc.NewMessage(arpc.CmdRequest, "/m", []byte("body"), false, true, 77, nil, nil, Values(sc))
		orig := append([]byte{}, m.Buffer...)
		m = tr.Encode(nil, m)
		in := tr.Decode(nil, &arpc.Message{Buffer: append([]byte{}, m.Buffer...)})
		if !bytes.Equal(in.Buffer, orig) {
			t.Fatalf("round trip changed the message")
		}
		v, ok := in.Get(appenderName)
		if !ok {
			t.Fatalf("span context lost")
		}
		got := v.(basictracer.SpanContext)
		if got.TraceID != sc.TraceID || got.SpanID != sc.SpanID || got.Sampled != sc.Sampled || (len(got.Baggage) != len(sc.Baggage)) || (len(sc.Baggage) > 0 && !reflect.DeepEqual(got.Baggage, sc.Baggage)) {
			t.Fatalf("span context %v became %v", sc, got)
		}
	}
	if _, err := tr.ValueToBytes("not a span context"); err == nil {
		t.Fatalf("encoded something else")
	}
	if v, err := tr.BytesToValue([]byte{0xff, 0xff, 0xff}); err == nil {
		t.Fatalf("decoded rubbish to %v", v)
	}
}
