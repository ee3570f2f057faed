package tru

import "time"

// C02: acknowledgements are truthful and complete.

// vAcks counts the acks among datagrams and checks that they carry id.
func vAcks(p *vPeer, ds []vDgram, id int) int {
	n := 0
	for _, d := range ds {
		if d.to == p.addr && len(d.data) >= 4 && d.data[3] == vsAck {
			n++
			_, a, rest := vParse(d.data)
			vAssert(a == id, "an acknowledgement carries another packet's number")
			vAssert(len(rest) == 0, "an acknowledgement carries data")
		}
	}
	return n
}

// vCase_C02_any: a data packet with any number, in any relation to the expected
// one, is answered by exactly one acknowledgement of its own number.
func vCase_C02_any() {
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	p.c.take()
	id := vInt("id", 0, vLimit-1)
	more := vBool("more")
	p.send(p.data(id, []byte{7, 8, 9}, more))
	vWait()
	vAssert(vAcks(p, p.c.take(), id) == 1, "a data packet was not answered by exactly one acknowledgement")
	p.send(p.data(id, []byte{7, 8, 9}, more))
	vWait()
	vAssert(vAcks(p, p.c.take(), id) == 1, "a repeated data packet was not answered by exactly one acknowledgement")
	vObs("delivered", len(l.msgs()))
	vReach("done")
}

// vCase_C02_kept: whatever was acknowledged is delivered once everything
// before it is there: packets 0..n-1 arrive in any order, each once.
func vCase_C02_kept() {
	n := vBound("packets", 3, 4)
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	p.c.take()
	offs := make([]int, n)
	for i := range offs {
		offs[i] = vInt("off", 0, n-1)
		for j := 0; j < i; j++ {
			vAssume(offs[i] != offs[j])
		}
		id := vWrap(start + offs[i])
		p.send(p.data(id, []byte{1, byte(offs[i])}, false))
		vWait()
		vAssert(vAcks(p, p.c.take(), id) == 1, "a data packet was not answered by exactly one acknowledgement")
	}
	m := l.msgs()
	vAssert(len(m) == n, "an acknowledged packet was not delivered")
	for i := range m {
		vAssertSame(m[i].data, []byte{1, byte(i)}, "an acknowledged packet was delivered with other content or out of order")
	}
	vReach("done")
}

// vCase_C02_tampered: a packet that cannot be decrypted is neither
// acknowledged nor delivered, and its correct copy is then accepted.
func vCase_C02_tampered() {
	_, l, p := vServe()
	p.c.take()
	msg := vBytes("msg", 70, 70)
	good := p.data(0, msg, false)
	bad := append([]byte(nil), good...)
	i := vInt("at", 4, len(bad)-1)
	x := vU8("xor")
	vAssume(x != 0)
	bad[i] ^= x
	p.send(bad)
	vWait()
	vAssert(vAcks(p, p.c.take(), 0) == 0, "a packet that cannot be decrypted was acknowledged")
	vAssert(len(l.msgs()) == 0, "a packet that cannot be decrypted was delivered")
	p.send(good)
	vWait()
	vAssert(vAcks(p, p.c.take(), 0) == 1, "the correct packet was not acknowledged after a damaged copy")
	m := l.msgs()
	vAssert(len(m) == 1, "the correct packet was not delivered after a damaged copy")
	vAssertSame(m[0].data, msg, "message content")
	vReach("done")
}

// vCase_C02_early_tampered: the same for a packet that arrives early.
func vCase_C02_early_tampered() {
	_, l, p := vServe()
	p.c.take()
	msg := vBytes("msg", 70, 70)
	good := p.data(1, msg, false)
	bad := append([]byte(nil), good...)
	i := vInt("at", 4, len(bad)-1)
	x := vU8("xor")
	vAssume(x != 0)
	bad[i] ^= x
	p.send(bad)
	vWait()
	vAssert(vAcks(p, p.c.take(), 1) == 0, "a packet that cannot be decrypted was acknowledged")
	p.send(good)
	vWait()
	vAssert(vAcks(p, p.c.take(), 1) == 1, "the correct packet was not acknowledged after a damaged copy")
	p.send(p.data(0, []byte{5}, false))
	vWait()
	m := l.msgs()
	vAssert(len(m) == 2, "an acknowledged packet was not delivered")
	vAssertSame(m[1].data, msg, "message content")
	vReach("done")
}

// vCase_C02_client: a client's channel acknowledges as a server's does.
func vCase_C02_client() {
	l := &vReaderLog{ret: true}
	_, ch, p := vClient(l)
	start := vInt("start", 0, vLimit-1)
	vStart(ch, start)
	p.c.take()
	off := vInt("off", -3, 3)
	id := vWrap(start + off)
	p.send(p.data(id, []byte{4, 5}, false))
	vWait()
	vAssert(vAcks(p, p.c.take(), id) == 1, "a data packet was not answered by exactly one acknowledgement")
	if off == 0 {
		vAssert(len(l.msgs()) == 1, "an acknowledged packet was not delivered")
	} else {
		vAssert(len(l.msgs()) == 0, "a packet was delivered out of order")
	}
	vReach("done")
}

// vCase_C02_flood: acknowledgements while the reader is slow: every packet is
// acknowledged and delivered once the reader goes on.
func vCase_C02_flood() {
	var got []byte
	gate := make(chan bool)
	rd := func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			<-gate
			got = append(got, pac.Data()...)
		}
		return true
	}
	_, c := vNewTru(7000, ReaderFunc(rd))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	n := 16
	for i := 0; i < n; i++ {
		p.send(p.data(i, []byte{byte(i)}, false))
	}
	vWait()
	acked := map[int]int{}
	count := func() {
		for _, d := range p.got(p.c.take(), vsAck) {
			_, a, _ := vParse(d.data)
			acked[a]++
		}
	}
	count()
	close(gate)
	vWait()
	time.Sleep(50 * time.Millisecond)
	count()
	vAssert(len(got) == n, "not every acknowledged packet was delivered")
	for i := 0; i < n; i++ {
		vAssert(acked[i] == 1, "a data packet was not acknowledged exactly once")
		vAssert(got[i] == byte(i), "messages were delivered out of order")
	}
	vReach("done")
}

// vCase_C02_far: an early packet that was acknowledged, however far ahead, is
// delivered when its turn comes.
func vCase_C02_far() {
	t, l, p := vServe()
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vStart(ch, start)
	p.c.take()
	off := vInt("off", 1, vLimit/2-1)
	id := vWrap(start + off)
	more := vBool("more")
	p.send(p.data(id, []byte{3, 2, 1}, more))
	vWait()
	vAssert(vAcks(p, p.c.take(), id) == 1, "a data packet was not answered by exactly one acknowledgement")
	vAssert(len(l.msgs()) == 0, "a packet was delivered out of order")
	// as after the messages in between
	last := vWrap(id - 1)
	vStart(ch, last)
	p.send(p.data(last, []byte{9}, false))
	vWait()
	want := 2
	if more {
		p.send(p.data(vWrap(id+1), []byte{0}, false))
		vWait()
	}
	m := l.msgs()
	vAssert(len(m) == want, "an acknowledged packet was not delivered")
	body := []byte{3, 2, 1}
	if more {
		body = []byte{3, 2, 1, 0}
	}
	vAssertSame(m[1].data, body, "message content")
	vReach("done")
}

// vCase_C02_backlog: very many packets held back behind a missing one: each is
// acknowledged and delivered when the missing one arrives.
func vCase_C02_backlog() {
	_, l, p := vServe()
	p.c.take()
	n := vBound("packets held back", 1100, 5000)
	acks := 0
	for i := 1; i <= n; i++ {
		p.send(p.data(i, []byte{byte(i), byte(i >> 8)}, false))
		if i%8 == 0 || i == n {
			vWait()
			acks += len(p.got(p.c.take(), vsAck))
		}
	}
	vAssert(acks == n, "a data packet was not answered by exactly one acknowledgement")
	vAssert(len(l.msgs()) == 0, "a packet was delivered out of order")
	x := vU8("first")
	p.send(p.data(0, []byte{x}, false))
	vWait()
	m := l.msgs()
	vAssert(len(m) == n+1, "an acknowledged packet was not delivered")
	for i := 1; i <= n; i++ {
		vAssert(len(m[i].data) == 2 && m[i].data[0] == byte(i) && m[i].data[1] == byte(i>>8), "messages were delivered out of order")
	}
	vReach("done")
}

// vCase_C02_history: any sequence of arrivals (next, early, repeated, old, parts
// of messages), also while earlier ones are held back: each is answered by
// exactly one acknowledgement of its own, and what was acknowledged is
// delivered at the end.
func vCase_C02_history() {
	client := vBool("client")
	_, ch, l, p := vSide(client)
	start := []int{0, vLimit - 2}[vChoose("start", 2)]
	vStart(ch, start)
	p.c.take()
	n := vBound("arrivals", 4, 5)
	span := 4
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		off := vChoose("off", span+1) - 1
		id := vWrap(start + off)
		seen[off] = off >= 0
		p.send(p.data(id, []byte{byte(off)}, off == 1))
		vWait()
		vAssert(vAcks(p, p.c.take(), id) == 1, "a data packet was not answered by exactly one acknowledgement")
	}
	// the gaps are closed
	for off := 0; off < span; off++ {
		if !seen[off] {
			p.send(p.data(vWrap(start+off), []byte{byte(off)}, off == 1))
		}
	}
	vWait()
	m := l.msgs()
	vAssert(len(m) == 3, "an acknowledged packet was not delivered")
	vAssert(string(m[0].data) == "\x00" && string(m[1].data) == "\x01\x02" && string(m[2].data) == "\x03", "messages were delivered out of order")
	vReach("done")
}

// vCase_C02_old_tampered: a damaged copy of a packet that was delivered already
// is not acknowledged.
func vCase_C02_old_tampered() {
	_, l, p := vServe()
	msg := vBytes("msg", 70, 70)
	good := p.data(0, msg, false)
	p.send(good)
	p.send(p.data(1, []byte("x"), false))
	vWait()
	p.c.take()
	bad := append([]byte(nil), good...)
	i := vInt("at", 4, len(bad)-1)
	x := vU8("xor")
	vAssume(x != 0)
	bad[i] ^= x
	p.send(bad)
	vWait()
	vAssert(vAcks(p, p.c.take(), 0) == 0, "a packet that cannot be decrypted was acknowledged")
	p.send(good)
	vWait()
	vAssert(vAcks(p, p.c.take(), 0) == 1, "a repeated data packet was not answered by exactly one acknowledgement")
	vAssert(len(l.msgs()) == 2, "a packet was delivered again")
	vReach("done")
}
