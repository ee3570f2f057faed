package tru

// vCase_C08_conn: connection messages: every id up to 255 bytes and any data
// survive encoding and decoding.
func vCase_C08_conn() {
	n := vConcrete(vInt("len", 0, 255))
	u := vBytes("uuid", n, n)
	m := []int{0, 1, 24, 200}[vChoose("data length", 4)]
	d := vBytes("data", m, m)
	c := connectPacketData{u, d}
	b, err := c.MarshalBinary()
	vAssert(err == nil, "a connection message cannot be encoded")
	vAssertSame(b, vConnData(string(u), d), "a connection message is not encoded in the documented layout")
	var q connectPacketData
	vAssert(q.UnmarshalBinary(b) == nil, "an encoded connection message cannot be decoded")
	vAssertSame(q.uuid, u, "the connection id changed in encoding and decoding")
	vAssertSame(q.data, d, "the connection data changed in encoding and decoding")
	vReach("done")
}

// vCase_C08_connshort: input that ends before the announced id is an error;
// anything else decodes to what its bytes say.
func vCase_C08_connshort() {
	in := vBytes("in", 0, vBound("input bytes", 20, 80))
	var q connectPacketData
	err := q.UnmarshalBinary(in)
	if len(in) == 0 || int(in[0]) > len(in)-1 {
		vAssert(err != nil, "a truncated connection message is accepted")
		vReach("short")
		return
	}
	vAssert(err == nil, "a connection message is refused")
	n := int(in[0])
	vAssertSame(q.uuid, in[1:1+n], "the decoded connection id is not what the bytes say")
	vAssertSame(q.data, in[1+n:], "the decoded connection data is not what the bytes say")
	vReach("ok")
}
