package pubsub

// C15: topics survive encoding, hostile bytes never crash decoding.

func spLe16(b []byte, o int) int { return int(b[o]) | int(b[o+1])<<8 }

func spLe64(b []byte, o int) uint64 {
	return uint64(b[o]) | uint64(b[o+1])<<8 | uint64(b[o+2])<<16 | uint64(b[o+3])<<24 |
		uint64(b[o+4])<<32 | uint64(b[o+5])<<40 | uint64(b[o+6])<<48 | uint64(b[o+7])<<56
}

//@ contract (*Topic).toBytes
//@ property C15
//@ panicfree
func ctTopicToBytes(tp *Topic, i int, outside int) ([]byte, error) {
	vcRequires(vcAnd(1 <= len(tp.Name), len(tp.Name) <= MaxTopicNameLen))
	vcRequires(vcAnd(len(tp.Data) <= 1<<36, cap(tp.Data) <= 1<<37))
	data := tp.Data
	name := tp.Name
	vcRequires(vcArrayId(data) != vcStrArrayId(name))
	ts := tp.Timestamp
	n := len(data)
	var old byte
	if vcAnd(0 <= i, i < n) {
		old = data[i]
	}
	// any byte of the payload's array beyond the payload
	full := data[:cap(data)]
	var spare byte
	if vcAnd(n <= outside, outside < cap(data)) {
		spare = full[outside]
	}
	out, err := tp.toBytes()
	vcEnsures("C15.a valid topic has an encoding", err == nil)
	vcEnsures("C15.encoding is payload, name, name length and timestamp", len(out) == n+len(name)+10)
	vcEnsures("C15.name length field", spLe16(out, len(out)-10) == len(name))
	vcEnsures("C15.timestamp field", int64(spLe64(out, len(out)-8)) == ts)
	vcEnsures("C15.name bytes", vcBytesStr(out[n:n+len(name)], name))
	vcEnsures("C15.the topic keeps name, timestamp and payload length", vcAnd(vcAnd(tp.Name == name, tp.Timestamp == ts), len(tp.Data) == n))
	if vcAnd(0 <= i, i < n) {
		vcCover("payload byte")
		vcEnsures("C15.payload bytes", out[i] == old)
		vcEnsures("C15.the topic's payload is unchanged", tp.Data[i] == old)
		vcEnsures("C15.the caller's payload is unchanged", data[i] == old)
	}
	if vcAnd(n <= outside, outside < cap(data)) {
		vcCover("spare byte")
		vcEnsures("C15.encoding changes no bytes outside the topic", full[outside] == spare)
	}
	return out, err
}

//@ contract (*Topic).fromBytes
//@ property C15
//@ panicfree
func ctTopicFromBytes(tp *Topic, data []byte, i int) error {
	vcRequires(len(data) <= 1<<38)
	n := len(data)
	err := tp.fromBytes(data)
	if n >= 10 {
		nl := spLe16(data, n-10)
		ok := vcAnd(vcAnd(nl > 0, nl <= MaxTopicNameLen), nl+10 <= n)
		vcEnsures("C15.exactly the well-formed encodings are accepted", vcIff(err == nil, ok))
		if err == nil {
			vcCover("accepted")
			vcEnsures("C15.decoded name length", len(tp.Name) == nl)
			vcEnsures("C15.decoded name bytes", vcBytesStr(data[n-nl-10:n-10], tp.Name))
			vcEnsures("C15.decoded name is a copy", vcStrImmutable(tp.Name))
			vcEnsures("C15.decoded timestamp", tp.Timestamp == int64(spLe64(data, n-8)))
			vcEnsures("C15.decoded payload length", len(tp.Data) == n-nl-10)
			if vcAnd(0 <= i, i < n-nl-10) {
				vcEnsures("C15.decoded payload bytes", tp.Data[i] == data[i])
			}
			vcEnsures("C15.the encoded form is what was decoded", vcAnd(len(tp.raw) == n, vcBytesEq(tp.raw, data)))
		}
	} else {
		vcCover("short")
		vcEnsures("C15.short data is refused", err != nil)
	}
	return err
}

//@ contract newTopic
//@ property C15
//@ panicfree
func ctNewTopic(name string, data []byte) (*Topic, error) {
	tp, err := newTopic(name, data)
	vcEnsures("C15.exactly names of 1 to 1024 bytes are accepted", vcIff(err == nil, vcAnd(len(name) > 0, len(name) <= 1024)))
	if err == nil {
		vcEnsures("C15.name and payload are kept", vcAnd(tp.Name == name, vcAnd(len(tp.Data) == len(data), vcBytesEq(tp.Data, data))))
	} else {
		vcEnsures("C15.no topic with an error", tp == nil)
	}
	return tp, err
}

// Decoding is the inverse of encoding: the round trip through the real functions.
//
//@ contract (*Topic).toBytes
//@ property C15
//@ panicfree
func ctTopicRoundTrip(tp *Topic, i int, j int) ([]byte, error) {
	vcRequires(vcAnd(1 <= len(tp.Name), len(tp.Name) <= MaxTopicNameLen))
	vcRequires(vcAnd(len(tp.Data) <= 1<<36, cap(tp.Data) <= 1<<37))
	data := tp.Data
	name := tp.Name
	vcRequires(vcArrayId(data) != vcStrArrayId(name))
	ts := tp.Timestamp
	n := len(data)
	var old, oldn byte
	if vcAnd(0 <= i, i < n) {
		old = data[i]
	}
	if vcAnd(0 <= j, j < len(name)) {
		oldn = name[j]
	}
	out, err := tp.toBytes()
	back := &Topic{}
	err2 := back.fromBytes(out)
	vcEnsures("C15.an encoded topic decodes", vcAnd(err == nil, err2 == nil))
	vcEnsures("C15.round trip keeps the timestamp", back.Timestamp == ts)
	vcEnsures("C15.round trip keeps the lengths", vcAnd(len(back.Name) == len(name), len(back.Data) == n))
	if vcAnd(0 <= i, i < n) {
		vcEnsures("C15.round trip keeps the payload", back.Data[i] == old)
	}
	if vcAnd(0 <= j, j < len(name)) {
		vcEnsures("C15.round trip keeps the name", back.Name[j] == oldn)
	}
	return out, err
}
