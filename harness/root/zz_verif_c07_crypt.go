package tru

// C07: payload encryption round-trips and is keyed per packet.

// vServeKey is vServe with a given session key.
func vServeKey(key []byte, params ...interface{}) (*Tru, *vReaderLog, *vPeer) {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, append([]interface{}{ReaderFunc(l.read)}, params...)...)
	p := vNewPeer(c, "10.9.9.1:5001")
	p.session = key
	p.dial()
	return t, l, p
}

var vC07sizes = []int{0, 1, 15, 16, 17, 20, 21, 32, 33, 63, 64, 65, 76, 77, 100}

// vCase_C07_send: any key, number and content: the peer decrypts what was
// written, and the caller's buffer stays as it was.
func vCase_C07_send() {
	k := []int{1, 16, 32, 48}[vChoose("keylen", 4)]
	t, _, p := vServeKey(vBytes("key", k, k))
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	p.c.take()
	n := vC07sizes[vChoose("size", len(vC07sizes))]
	buf := vBytes("msg", n+4, n+4)
	keep := append([]byte(nil), buf...)
	// the message is a part of a larger buffer
	id, err := ch.WriteTo(buf[2 : 2+n])
	vAssert(err == nil, "WriteTo failed")
	vWait()
	vAssertSame(buf, keep, "sending changed the caller's buffer")
	fs := p.got(p.c.take(), vsData)
	vAssert(len(fs) == 1, "a message was not sent in one packet")
	_, i, enc := vParse(fs[0].data)
	vAssert(i == id, "a packet carries another number")
	got, ok := vDec(p.session, i, enc)
	vAssert(ok, "a packet cannot be decrypted by its peer")
	vAssertSame(got, keep[2:2+n], "what the peer decrypts is not what was written")
	vReach("done")
}

// vCase_C07_recv: any key, number and content: what the peer encrypted is
// delivered.
func vCase_C07_recv() {
	k := []int{1, 16, 32, 48}[vChoose("keylen", 4)]
	t, l, p := vServeKey(vBytes("key", k, k))
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	n := vC07sizes[vChoose("size", len(vC07sizes))]
	msg := vBytes("msg", n, n)
	p.send(p.data(start, msg, false))
	p.send(p.data(vWrap(start+1), []byte("next"), false))
	vWait()
	m := l.msgs()
	vAssert(len(m) == 2, "a message was not delivered")
	vAssertSame(m[0].data, msg, "a message was delivered changed")
	vAssertSame(m[1].data, []byte("next"), "a message was delivered changed")
	vReach("done")
}

// vCase_C07_client: the client's key works in both directions.
func vCase_C07_client() {
	l := &vReaderLog{ret: true}
	_, ch, p := vClient(l)
	n := vC07sizes[vChoose("size", len(vC07sizes))]
	out := vBytes("out", n, n)
	keep := append([]byte(nil), out...)
	p.c.take()
	id, err := ch.WriteTo(out)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	vAssertSame(out, keep, "sending changed the caller's buffer")
	fs := p.got(p.c.take(), vsData)
	vAssert(len(fs) == 1, "a message was not sent in one packet")
	_, i, enc := vParse(fs[0].data)
	got, ok := vDec(p.session, i, enc)
	vAssert(ok && i == id, "a packet cannot be decrypted by its peer")
	vAssertSame(got, out, "what the peer decrypts is not what was written")
	in := vBytes("in", n, n)
	p.sendMsg(in)
	vWait()
	m := l.msgs()
	vAssert(len(m) == 1, "a message was not delivered")
	vAssertSame(m[0].data, in, "a message was delivered changed")
	vReach("done")
}

// vCase_C07_reject: a long payload that was altered, cut, extended, or presented
// under another number or key, is not delivered; the genuine one still is.
//
//verif:opt hash=injective
func vCase_C07_reject() {
	t, l, p := vServeKey(vBytes("session", 32, 32))
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	n := []int{65, 70, 100}[vChoose("size", 3)]
	msg := vBytes("msg", n, n)
	good := p.data(start, msg, false)
	bad := append([]byte(nil), good...)
	switch vChoose("how", 5) {
	case 0: // altered anywhere
		i := vInt("at", 4, len(bad)-1)
		x := vU8("xor")
		vAssume(x != 0)
		bad[i] ^= x
	case 1: // cut
		k := vConcrete(vInt("cut", 1, len(bad)-4-65))
		bad = bad[:len(bad)-k]
	case 2: // extended
		bad = append(bad, vBytes("ext", 1, 1)...)
	case 3: // another number
		id := vInt("id", 0, vLimit-1)
		vAssume(id != start)
		bad = vHdr(vsData, start, vEnc(p.session, id, msg))
	case 4: // another key
		key := vBytes("key", 32, 32)
		vAssume(!vSame(key, p.session))
		bad = vHdr(vsData, start, vEnc(key, start, msg))
	}
	p.send(bad)
	vWait()
	vAssert(len(l.msgs()) == 0, "a payload that is not authentic was delivered")
	p.send(good)
	vWait()
	m := l.msgs()
	vAssert(len(m) == 1, "the genuine payload was not delivered")
	vAssertSame(m[0].data, msg, "the genuine payload was delivered changed")
	vReach("done")
}

// vCase_C07_clear: on an established connection no payload travels in clear:
// neither whole nor a run of eight bytes of it, first sending or resent.
func vCase_C07_clear() {
	var ch *Channel
	var p *vPeer
	if vBool("client") {
		_, ch, p = vClient(nil)
	} else {
		var t *Tru
		t, _, p = vServe()
		ch = vChannel(t, p.addr)
	}
	vStartSend(ch, []int{0, 1, 255, 256, 70000, vLimit - 1}[vChoose("start", 6)])
	p.c.take()
	n := []int{8, 16, 20, 32, 64, 65, 100}[vChoose("size", 7)]
	msg := make([]byte, n)
	switch vChoose("content", 3) {
	case 1:
		for i := range msg {
			msg[i] = byte(i)
		}
	case 2:
		for i := range msg {
			msg[i] = 0xff
		}
	}
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	fs := p.got(p.c.take(), vsData)
	vAssert(len(fs) == 1, "a message was not sent in one packet")
	_, id, enc := vParse(fs[0].data)
	_ = id
	for i := 0; i+8 <= len(enc); i++ {
		for j := 0; j+8 <= len(msg); j++ {
			vAssert(string(enc[i:i+8]) != string(msg[j:j+8]), "a payload was sent in clear")
		}
	}
	vReach("done")
}

// vCase_C07_perpacket: the same content under two numbers is encrypted
// differently.
func vCase_C07_perpacket() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	p.c.take()
	n := []int{16, 20, 32, 64, 65}[vChoose("size", 5)]
	for i := 0; i < 3; i++ {
		_, err := ch.WriteTo(make([]byte, n))
		vAssert(err == nil, "WriteTo failed")
	}
	vWait()
	fs := p.got(p.c.take(), vsData)
	vAssert(len(fs) == 3, "a message was not sent in one packet")
	for i := range fs {
		for j := range fs {
			if i != j {
				vAssert(string(fs[i].data[4:]) != string(fs[j].data[4:]), "the same content under two numbers is encrypted to the same bytes")
			}
		}
	}
	vReach("done")
}

// vCase_C07_reject_big: the same for payloads of any size, altered at either
// end of any of their parts.
func vCase_C07_reject_big() {
	t, l, p := vServe()
	start := []int{70000, vLimit - 1}[vChoose("start", 2)]
	vStart(vChannel(t, p.addr), start)
	n := []int{65, 1472, vBound("largest", 9000, 20000)}[vChoose("size", 3)]
	msg := make([]byte, n)
	for i := range msg {
		msg[i] = byte(i * 7)
	}
	good := p.data(start, msg, false)
	bad := append([]byte(nil), good...)
	switch vChoose("how", 5) {
	case 0:
		i := []int{4, 15, 16, 4 + n/2, len(bad) - 17, len(bad) - 16, len(bad) - 1}[vChoose("at", 7)]
		bad[i] ^= []byte{1, 128}[vChoose("xor", 2)]
	case 1: // (what is left is long enough to be protected)
		k := []int{1, 2, 16}[vChoose("cut", 3)]
		vAssume(n-k > 64)
		bad = bad[:len(bad)-k]
	case 2:
		bad = append(bad, make([]byte, 1+15*vChoose("ext", 2))...)
	case 3:
		bad = vHdr(vsData, start, vEnc(p.session, vWrap(start+[]int{1, -1, 256, 65536}[vChoose("other", 4)]), msg))
	case 4:
		bad = vHdr(vsData, start, vEnc([]byte("another session key, 32 byte lon"), start, msg))
	}
	if vBool("early") {
		// as an early packet
		vStart(vChannel(t, p.addr), vWrap(start-1))
		p.send(bad)
		p.send(p.data(vWrap(start-1), []byte("gap"), false))
		vWait()
		vAssert(len(l.msgs()) == 1, "a payload that is not authentic was delivered")
	} else {
		p.send(bad)
		vWait()
		vAssert(len(l.msgs()) == 0, "a payload that is not authentic was delivered")
	}
	p.send(good)
	vWait()
	m := l.msgs()
	vAssert(len(m) >= 1 && string(m[len(m)-1].data) == string(msg), "the genuine payload was not delivered unchanged")
	vReach("done")
}

// vCase_C07_early: what an application writes to a channel whose handshake is
// not finished is refused or waits for the key: it never travels in clear, and
// never spoils the connection.
func vCase_C07_early() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, ReaderFunc(l.read))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.send(p.connectPacket())
	vWait()
	sa := p.expect(vsServerAnswer)
	ch := vChannel(t, p.addr)
	if ch == nil {
		vSkip("the channel is not visible before it is connected")
	}
	n := []int{5, 70}[vChoose("size", 2)]
	msg := vBytes("msg", n, n)
	done := 0
	var err error
	go func() {
		_, err = ch.WriteTo(msg)
		done++
	}()
	for i := 0; i < 3; i++ {
		vSleep(100)
		vWait()
		for _, d := range p.got(p.c.take(), vsData) {
			_, id, enc := vParse(d.data)
			b, ok := vDec(p.session, id, enc)
			vAssert(ok && vSame(b, msg), "a message travels in clear")
		}
	}
	p.send(p.answerPacket(sa))
	vWait()
	p.expect(vsDone)
	vWait()
	vAssert(done == 1, "a write that was to wait for the connection never ends")
	if err == nil {
		vSleep(400)
		vWait()
	}
	fs := vFrags(p, p.got(p.c.sent, vsData))
	vAssert(err != nil || len(fs) > 0, "a message accepted before the connection is not sent after it")
	for _, f := range fs {
		vAssert(err == nil, "a message refused is sent")
		vAssertSame(f.body, msg, "what the peer decrypts is not what was written")
		p.send(vHdr(vsAck, f.id, nil))
	}
	vWait()
	vAlive(ch, l, p, "after a write before the connection")
	vReach("done")
}
