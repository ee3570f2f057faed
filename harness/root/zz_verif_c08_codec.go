package tru

// C08: the wire encoding round-trips and rejects short input.

// vCase_C08_packet: every number below 2^20, every type, any data.
func vCase_C08_packet() {
	t := &Tru{}
	id := vInt("id", 0, vLimit-1)
	st := vInt("status", 0, 255)
	data := vBytes("data", 0, vBound("data bytes", 48, 600))
	b, err := t.newPacket().SetID(id).SetStatus(st).SetData(data).MarshalBinary()
	vAssert(err == nil, "a packet cannot be encoded")
	vAssertSame(b, vHdr(byte(st), id, data), "a packet is not encoded in the documented layout")
	q := t.newPacket()
	err = q.UnmarshalBinary(b)
	vAssert(err == nil, "an encoded packet cannot be decoded")
	vAssert(q.ID() == id, "the packet number changed in encoding and decoding")
	vAssert(q.Status() == st, "the packet type changed in encoding and decoding")
	vAssertSame(q.Data(), data, "the packet data changed in encoding and decoding")
	vReach("done")
}

// vCase_C08_large: large packets, a symbolic byte at any place.
func vCase_C08_large() {
	t := &Tru{}
	n := []int{1000, 4096, 65479, 65503, 65535}[vChoose("size", 5)]
	data := make([]byte, n)
	at := vInt("at", 0, 63)
	end := vBool("end")
	x := vU8("byte")
	if end {
		data[n-64+at] = x
	} else {
		data[at] = x
	}
	b, err := t.newPacket().SetID(77).SetStatus(vsData).SetData(data).MarshalBinary()
	vAssert(err == nil, "a packet cannot be encoded")
	vAssertSame(b, vHdr(vsData, 77, data), "a packet is not encoded in the documented layout")
	q := t.newPacket()
	vAssert(q.UnmarshalBinary(b) == nil, "an encoded packet cannot be decoded")
	vAssertSame(q.Data(), data, "the packet data changed in encoding and decoding")
	vReach("done")
}

// vCase_C08_any: any input of any length: shorter than the header is an error,
// anything else decodes to what its bytes say and encodes back to the same
// bytes.
func vCase_C08_any() {
	t := &Tru{}
	in := vBytes("in", 0, vBound("input bytes", 40, 300))
	keep := append([]byte(nil), in...)
	q := t.newPacket()
	err := q.UnmarshalBinary(in)
	if len(in) < 4 {
		vAssert(err != nil, "input shorter than the packet header is accepted")
		vReach("short")
		return
	}
	vAssert(err == nil, "a packet is refused")
	vAssert(q.Status() == int(in[3]), "the packet type is not the top byte of the first word")
	if in[2] < 16 {
		vAssert(q.ID() == int(in[0])|int(in[1])<<8|int(in[2])<<16, "the packet number is not the low bytes of the first word")
		vReach("id")
	}
	vAssert(q.ID() < vLimit, "a packet number of 2^20 or more was decoded")
	vAssertSame(q.Data(), in[4:], "the decoded data is not what follows the header")
	vAssertSame(in, keep, "decoding changed its input")
	if in[2] < 16 {
		b, err := q.MarshalBinary()
		vAssert(err == nil, "a packet cannot be encoded")
		vAssertSame(b, keep, "a decoded packet encodes to other bytes")
	}
}

// vCase_C08_server: a connection id of any content and length up to 255 is
// given back unchanged by the server in both its answers.
func vCase_C08_server() {
	_, c := vNewTru(7000)
	p := vNewPeer(c, "10.9.9.1:5001")
	n := vConcrete(vInt("len", 0, 255))
	p.uuid = string(vBytes("uuid", n, n))
	p.send(p.connectPacket())
	vWait()
	p.send(p.answerPacket(p.expect(vsServerAnswer)))
	vWait()
	d := p.expect(vsDone)
	_, _, body := vParse(d)
	u, rest := vParseConn(body)
	vAssert(u == p.uuid, "the connection id was changed by the server")
	vAssert(len(rest) == 0, "connect done carries data")
	vReach("done")
}

// vCase_C08_truncated: a connect packet cut anywhere creates no answer and the
// complete one still works.
func vCase_C08_truncated() {
	_, c := vNewTru(7000)
	p := vNewPeer(c, "10.9.9.1:5001")
	full := p.connectPacket()
	n := vInt("len", 4, 4+len(p.uuid)+1)
	vConcrete(n)
	p.send(full[:n])
	vWait()
	vAssert(len(p.c.take()) == 0, "a truncated connect packet was answered")
	p.dial()
	vReach("done")
}
