package tru

import (
	"net"
	"time"
)

// C28: punch packets reach the punch callback and nothing else.

type vPunch struct {
	addr string
	data []byte
}

// vCase_C28_any: a punch packet with any number and data from any kind of
// address: unknown, half-open, established.
func vCase_C28_any() {
	var got []vPunch
	cb := func(a net.Addr, d []byte) { got = append(got, vPunch{a.String(), append([]byte(nil), d...)}) }
	typed := vBool("typed")
	var opt interface{} = cb
	if typed {
		opt = PunchFunc(cb)
	}
	t, l, p := vServe(opt)
	half := vNewPeer(p.c, "10.9.9.3:5003")
	half.send(half.connectPacket())
	vWait()
	p.c.take()
	before := t.Statistic()
	from := []string{p.addr, half.addr, "10.9.9.7:6000"}[vChoose("from", 3)]
	id := vInt("id", 0, 0xffffff)
	data := vBytes("data", 0, vBound("data bytes", 24, 200))
	p.c.inject(from, vHdr(vsPunch, id, data))
	vWait()
	vAssert(len(got) == 1, "a punch packet did not call the punch callback exactly once")
	vAssert(got[0].addr == from, "the punch callback was given another address")
	vAssertSame(got[0].data, data, "the punch callback was given other data")
	vAssert(len(p.c.take()) == 0, "a punch packet was answered")
	after := t.Statistic()
	vAssert(len(after) == len(before), "a punch packet created or removed a channel")
	for i := range after {
		vAssert(after[i] == before[i], "a punch packet changed a channel")
	}
	vAssert(len(l.got) == 0, "a punch packet reached a reader")
	p.sendMsg([]byte("hello"))
	vWait()
	vAssert(len(l.msgs()) == 1, "a punch packet disturbed a channel")
	vReach("done")
}

// vCase_C28_keepalive: a punch packet is no activity of the channel: it does
// not keep a dead peer's channel alive.
func vCase_C28_keepalive() {
	t, l, p := vServe(func(a net.Addr, d []byte) {})
	for i := 0; i < 7; i++ {
		time.Sleep(time.Second)
		p.send(vHdr(vsPunch, 0, []byte{1}))
	}
	vWait()
	vAssert(vChannel(t, p.addr) == nil && len(l.errs()) > 0, "punch packets kept a silent peer's channel alive")
	vReach("done")
}

// vCase_C28_nocb: without a callback a punch packet is ignored, and SetPunchCb
// replaces the callback.
func vCase_C28_nocb() {
	t, l, p := vServe()
	p.c.take()
	data := vBytes("data", 0, 16)
	p.c.inject("10.9.9.7:6000", vHdr(vsPunch, 1, data))
	p.send(vHdr(vsPunch, 1, data))
	vWait()
	vAssert(len(p.c.take()) == 0, "a punch packet was answered")
	vAssert(len(t.Statistic()) == 1, "a punch packet created or removed a channel")
	n, m := 0, 0
	t.SetPunchCb(func(net.Addr, []byte) { n++ })
	p.send(vHdr(vsPunch, 1, data))
	vWait()
	t.SetPunchCb(func(net.Addr, []byte) { m++ })
	p.send(vHdr(vsPunch, 1, data))
	vWait()
	vAssert(n == 1 && m == 1, "the punch callback set is not the one called")
	t.SetPunchCb(nil)
	p.send(vHdr(vsPunch, 1, data))
	p.sendMsg([]byte("hello"))
	vWait()
	vAssert(n == 1 && m == 1, "the punch callback set is not the one called")
	vAssert(len(l.msgs()) == 1, "a punch packet disturbed a channel")
	vReach("done")
}

// vCase_C28_write: a punch written by one endpoint is received by another with
// the same data.
func vCase_C28_write() {
	var got []vPunch
	b, cb := vNewTru(7000, func(a net.Addr, d []byte) { got = append(got, vPunch{a.String(), append([]byte(nil), d...)}) })
	a, ca := vNewTru(0)
	data := vBytes("data", 0, vBound("data bytes", 40, 300))
	var to interface{} = cb.addr.String()
	if vBool("udpaddr") {
		to = cb.addr
	}
	addr, err := a.WriteToPunch(data, to)
	vAssert(err == nil, "writing a punch packet failed")
	vAssert(addr.String() == cb.addr.String(), "WriteToPunch returned another address")
	vWait()
	vAssert(len(got) == 1, "a punch packet did not call the punch callback exactly once")
	vAssert(got[0].addr == ca.addr.String(), "the punch callback was given another address")
	vAssertSame(got[0].data, data, "the punch data arrived changed")
	vAssert(len(b.Statistic()) == 0 && len(a.Statistic()) == 0, "a punch packet created a channel")
	_, err = a.WriteToPunch(data, "nonsense")
	vAssert(err != nil, "a punch to a malformed address was accepted")
	vReach("done")
}

// vCase_C28_other: any datagram that is not a punch packet, from any kind of
// address, does not call the punch callback.
func vCase_C28_other() {
	n := 0
	t, _, p := vServe(func(net.Addr, []byte) { n++ })
	from := []string{p.addr, "10.9.9.7:6000"}[vChoose("from", 2)]
	for i := 0; i < vBound("datagrams", 1, 2); i++ {
		d := vBytes("datagram", 0, vBound("datagram bytes", 8, 24))
		if len(d) > 3 {
			vAssume(d[3] != vsPunch)
		}
		p.c.inject(from, d)
		vWait()
	}
	vAssert(n == 0, "the punch callback was called for another packet")
	p.c.inject(from, vHdr(vsPunch, 1, []byte{7}))
	vWait()
	vAssert(n == 1, "a punch packet did not call the punch callback exactly once")
	_ = t
	vReach("done")
}
