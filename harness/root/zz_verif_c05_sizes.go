package tru

import (
	"time"
)

// C05: messages of any size arrive whole.

// vCase_C05_send: a message of any length in between two short ones, at any
// packet number: the packets sent carry exactly the three messages, and the
// number returned is that of the first packet of the message.
func vCase_C05_send() {
	max := vConcrete(vInt("max", 1, vBound("packet data limit", 3, 5)))
	t, _, p := vServe(MaxDataLenType(max))
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	p.c.take()
	n := vConcrete(vInt("len", 0, vBound("message bytes", 11, 20)))
	msg := vBytes("msg", n, n)
	keep := append([]byte(nil), msg...)
	var ids []int
	for _, m := range [][]byte{[]byte("a"), msg, []byte("b")} {
		id, err := ch.WriteTo(m)
		vAssert(err == nil, "WriteTo failed")
		ids = append(ids, id)
	}
	vAssertSame(msg, keep, "sending changed the caller's buffer")
	vWait()
	fs := vFrags(p, p.c.take())
	for i, f := range fs {
		vAssert(len(f.body) <= max, "a packet carries more data than the limit")
		vAssert(f.id == vWrap(start+i), "the packets of a message are not consecutive")
	}
	msgs, firsts, open := vAssemble(fs)
	vAssert(len(msgs) == 3 && !open, "three messages were written, the packets sent do not make up three messages")
	vAssertSame(msgs[0], []byte("a"), "the message before was sent changed")
	vAssertSame(msgs[1], msg, "a message was sent changed")
	vAssertSame(msgs[2], []byte("b"), "the message after was sent changed")
	for i := range ids {
		vAssert(ids[i] == firsts[i], "the number returned is not the number the receiver sees")
	}
	vReach("done")
}

// vCase_C05_recv: the peer sends messages in fragments of any sizes, also empty
// ones; the packets arrive in any order with one repetition: the messages are
// handed over whole and separate.
func vCase_C05_recv() {
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	// two messages of 1..3 fragments each
	n1, n2 := 1+vChoose("fragments1", 3), 1+vChoose("fragments2", vBound("fragments of the second message", 2, 3))
	var want [][]byte
	var pk [][]byte
	for _, n := range []int{n1, n2} {
		var m []byte
		for i := 0; i < n; i++ {
			f := vBytes("frag", 0, 0)
			k := vConcrete(vInt("size", 0, vBound("fragment bytes", 1, 2)))
			if k > 0 {
				f = vBytes("frag", k, k)
			}
			m = append(m, f...)
			pk = append(pk, p.data(vWrap(start+len(pk)), f, i < n-1))
		}
		want = append(want, m)
	}
	// arrival order: one packet is late, one comes twice
	late, twice := vChoose("late", len(pk)), vChoose("twice", len(pk))
	for i := range pk {
		if i != late {
			p.send(pk[i])
		}
		if i == twice {
			p.send(append([]byte(nil), pk[i]...))
		}
	}
	p.send(pk[late])
	vWait()
	m := l.msgs()
	vAssert(len(m) == 2, "two messages were sent, another number was handed over")
	vAssertSame(m[0].data, want[0], "a message was handed over changed")
	vAssertSame(m[1].data, want[1], "a message was handed over changed")
	vAssert(m[0].id == start, "a message does not carry the number of its first packet")
	vAssert(m[1].id == vWrap(start+n1), "a message does not carry the number of its first packet")
	vReach("done")
}

// vCase_C05_default: lengths around the largest packet with no limit set.
func vCase_C05_default() {
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	a, _, ch, _, _ := vPair(cl, sl)
	max := a.newPacket().MaxDataLen()
	n := []int{0, 1, 64, 65, max - 1, max, max + 1, 2 * max, 2*max + 1, 3*max + 2}[vChoose("len", 10)]
	msg := vBytes("msg", n, n)
	id0, err := ch.WriteTo([]byte("a"))
	vAssert(err == nil, "WriteTo failed")
	id1, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	id2, err := ch.WriteTo([]byte("b"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	time.Sleep(500 * time.Millisecond)
	m := sl.msgs()
	vAssert(len(m) == 3, "three messages were sent, another number was handed over")
	vAssertSame(m[0].data, []byte("a"), "the message before was handed over changed")
	vAssertSame(m[1].data, msg, "a message was handed over changed")
	vAssertSame(m[2].data, []byte("b"), "the message after was handed over changed")
	vAssert(m[0].id == id0 && m[1].id == id1 && m[2].id == id2, "the number returned is not the number the receiver sees")
	vReach("done")
}

// vCase_C05_network: split messages through a network with faults, in both
// directions at once.
func vCase_C05_network() {
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	b, cb := vNewTru(7000, ReaderFunc(sl.read), MaxDataLenType(3))
	a, ca := vNewTru(0, MaxDataLenType(2))
	ch, err := a.Connect(cb.addr.String(), cl.read)
	vAssert(err == nil, "Connect failed on a loss-free network")
	vWait()
	sch := vChannel(b, ca.addr.String())
	vFaults(vBound("faults", 1, 2), vBound("fault window (datagrams)", 8, 10))
	up := [][]byte{{1, 2, 3, 4, 5}, {}, {6}}
	down := [][]byte{{11, 12, 13, 14, 15, 16, 17}, {18, 19, 20}}
	var uid, did []int
	for i := range up {
		id, err := ch.WriteTo(up[i])
		vAssert(err == nil, "WriteTo failed")
		uid = append(uid, id)
		if i < len(down) {
			id, err = sch.WriteTo(down[i])
			vAssert(err == nil, "WriteTo failed")
			did = append(did, id)
		}
	}
	time.Sleep(3 * time.Second)
	vWait()
	m := sl.msgs()
	vAssert(len(m) == len(up), "not every message was handed over exactly once")
	for i := range m {
		vAssertSame(m[i].data, up[i], "a message was handed over changed")
		vAssert(m[i].id == uid[i], "the number returned is not the number the receiver sees")
	}
	m = cl.msgs()
	vAssert(len(m) == len(down), "not every message was handed over exactly once")
	for i := range m {
		vAssertSame(m[i].data, down[i], "a message was handed over changed")
		vAssert(m[i].id == did[i], "the number returned is not the number the receiver sees")
	}
	vReach("done")
}

// vCase_C05_huge: a message of more than a megabyte, with a short one before
// and after it.
func vCase_C05_huge() {
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	_, _, ch, _, _ := vPair(cl, sl)
	n := vBound("huge length", 1<<20+70_001, 5<<20+3)
	msg := make([]byte, n)
	for _, at := range []int{0, 65_490, n / 2, 1 << 20, n - 3} {
		copy(msg[at:], vBytes("part", 3, 3))
	}
	small := vBytes("small", 2, 2)
	ch.WriteTo(small)
	id, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	ch.WriteTo(small)
	vWait()
	vSleep(500)
	m := sl.msgs()
	vAssert(len(m) == 3, "three messages were sent, another number was handed over")
	vAssertSame(m[0].data, small, "the message before was handed over changed")
	vAssert(len(m[1].data) == n, "a message was handed over with another length")
	vAssertSame(m[1].data, msg, "a message was handed over changed")
	vAssertSame(m[2].data, small, "the message after was handed over changed")
	vAssert(m[1].id == id, "the number returned is not the number the receiver sees")
	vReach("done")
}
