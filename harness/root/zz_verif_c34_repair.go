package tru

import (
	"io"
	"time"
)

// C34: what the network loses is repaired, and then nothing is pending.

// vSettled checks that a channel has nothing pending and that nothing more is
// sent on it.
func vSettled(t *Tru, ch *Channel, c *vConn, writes int) {
	r := vRow(t, ch.Addr().String())
	vAssert(!ch.Destroyed(), "a connection is destroyed although its network works again")
	vAssert(r.SQ == 0, "a delivered packet stays pending")
	vAssert(r.RQ == 0, "a received packet is held back although nothing is missing")
	vAssert(r.Send == int64(writes), "the number of messages sent is not counted")
}

// vQuiet checks that no data packet is sent during the next seconds.
func vSettleFor(d time.Duration, cs ...*vConn) {
	for _, c := range cs {
		c.take()
	}
	time.Sleep(d)
	for _, c := range cs {
		for _, x := range c.take() {
			vAssert(len(x.data) < 4 || x.data[3]&^vsSplit != vsData, "a packet is resent after everything was acknowledged")
		}
	}
}

// vBothWrite writes n messages on each of the two channels, from the third on
// in parts, with a delivery callback each.
func vBothWrite(a, b *Channel, n int) (ms [][]byte, ds []*vDeliv) {
	for i := 0; i < n; i++ {
		for _, ch := range []*Channel{a, b} {
			d := &vDeliv{}
			l := 4
			if i == 2 {
				l = 7
			}
			m := vBytes("message", l, l)
			_, err := ch.WriteTo(m, d.cb)
			vAssert(err == nil, "WriteTo failed")
			ms = append(ms, m)
			ds = append(ds, d)
		}
	}
	return
}

// vBothGot checks what the two readers were given.
func vBothGot(al, bl *vReaderLog, ms [][]byte) {
	n := len(ms) / 2
	for k, l := range []*vReaderLog{bl, al} {
		m := l.msgs()
		vAssert(len(m) == n, "not every message was delivered exactly once after the network recovered")
		for i := range m {
			vAssertSame(m[i].data, ms[2*i+k], "messages were delivered out of order or changed")
		}
	}
}

// vLinked are two endpoints with a limit of 4 bytes a packet; the numbers of
// both directions start anywhere if at is not 0.
func vLinked(at int) (a, b *Tru, ca, cb *Channel, sa, sb *vConn, al, bl *vReaderLog) {
	al, bl = &vReaderLog{ret: true}, &vReaderLog{ret: true}
	b, sb = vNewTru(7000, ReaderFunc(bl.read), MaxDataLenType(4))
	a, sa = vNewTru(0, MaxDataLenType(4))
	ca, err := a.Connect(sb.addr.String(), al.read)
	vAssert(err == nil, "Connect failed on a loss-free network")
	vWait()
	cb = vChannel(b, sa.addr.String())
	vAssert(cb != nil, "the server has no channel after Connect")
	if at != 0 {
		vStartSend(ca, at)
		vStartSend(cb, at)
		vStart(ca, at)
		vStart(cb, at)
	}
	sa.take()
	sb.take()
	return
}

// vCase_C34_faults: both ends write while the network may lose, repeat or
// delay each of the first datagrams, of either direction, data and
// acknowledgements; also when the numbers wrap around.
func vCase_C34_faults() {
	at := 0
	faults, window := vBound("faults", 2, 3), vBound("fault window (datagrams)", 6, 9)
	if vBool("not the first messages") {
		at = vInt("first number", 1, vLimit-1)
		faults, window = 1, vBound("fault window at any number (datagrams)", 4, 8)
	}
	a, b, ca, cb, sa, sb, al, bl := vLinked(at)
	vFaults(faults, window)
	n := 3
	ms, ds := vBothWrite(ca, cb, n)
	time.Sleep(4 * time.Second)
	vWait()
	vBothGot(al, bl, ms)
	for _, d := range ds {
		vAssert(d.n == 1 && d.err == nil, "the delivery of a delivered message was not reported")
	}
	vSettled(a, ca, sa, n)
	vSettled(b, cb, sb, n)
	vSettleFor(4*time.Second, sa, sb)
	vReach("done")
}

// vCase_C34_outage: the network is down for a while, in one direction or both,
// from any of several moments.
func vCase_C34_outage() {
	a, b, ca, cb, sa, sb, al, bl := vLinked(0)
	n := vBound("messages each way", 3, 5)
	down := false
	dir := vChoose("direction", 3)
	vNet.policy = func(d vDgram) []vDgram {
		if down && (dir == 2 || dir == 0 && d.from == sa.addr.String() || dir == 1 && d.from == sb.addr.String()) {
			return nil
		}
		return []vDgram{d}
	}
	long := []int{100, 900, 3000, 5300}[vChoose("outage", 4)] + vInt("more (ms)", 0, vBound("outage step (ms)", 99, 399))
	before := vBool("written before the outage")
	if !before {
		down = true
	}
	ms, ds := vBothWrite(ca, cb, n)
	down = true
	time.Sleep(vMS(long))
	down = false
	time.Sleep(5 * time.Second)
	vWait()
	vBothGot(al, bl, ms)
	for _, d := range ds {
		vAssert(d.n == 1, "the delivery callback was not called once")
		if long < 1000 {
			vAssert(d.err == nil, "the delivery of a delivered message was not reported")
		}
	}
	vSettled(a, ca, sa, n)
	vSettled(b, cb, sb, n)
	vSettleFor(3500*time.Millisecond, sa, sb)
	// The connection still works
	m := vBound("messages each way", 3, 5)
	ca.WriteTo(vMark(70))
	cb.WriteTo(vMark(71))
	time.Sleep(vMS(100))
	vAssert(len(al.msgs()) == m+1 && len(bl.msgs()) == m+1, "a message was not delivered after an outage")
	vReach("done")
}

// vCase_C34_onekind: packets of one kind are lost in one direction for longer
// than an idle connection lives, while everything else passes.
func vCase_C34_onekind() {
	a, b, ca, cb, sa, sb, al, bl := vLinked(0)
	n := 3
	down := false
	from := sa.addr.String()
	if vBool("of the server") {
		from = sb.addr.String()
	}
	status := []byte{vsAck, vsData}[vChoose("kind", 2)]
	slow := vBool("the network takes its time")
	vNet.policy = func(d vDgram) []vDgram {
		if down && d.from == from && len(d.data) > 3 && d.data[3]&^vsSplit == status {
			return nil
		}
		if !slow {
			return []vDgram{d}
		}
		go func() {
			time.Sleep(vMS(1))
			vNet.mu.Lock()
			vNet.deliver(d)
			vNet.mu.Unlock()
		}()
		return nil
	}
	if vBool("after some messages") {
		// the trip time is known
		for i := 0; i < 3; i++ {
			ca.WriteTo([]byte("m"))
			cb.WriteTo([]byte("m"))
			time.Sleep(vMS(5))
		}
		vAssert(len(al.msgs()) == 3 && len(bl.msgs()) == 3, "a message is not delivered on a loss-free network")
		al.got, bl.got = nil, nil
	}
	down = true
	ms, ds := vBothWrite(ca, cb, n)
	// both go on writing, so that both hear from each other
	for k := 0; k < []int{2, 9, 20}[vChoose("seconds", vBound("lengths of the loss", 2, 3))]; k++ {
		time.Sleep(time.Second)
		m, d := vBothWrite(ca, cb, 1)
		ms, ds = append(ms, m...), append(ds, d...)
	}
	down = false
	time.Sleep(5 * time.Second)
	vWait()
	vBothGot(al, bl, ms)
	for _, d := range ds {
		vAssert(d.n == 1, "the delivery callback was not called once")
	}
	vAssert(!ca.Destroyed() && !cb.Destroyed(), "a connection is destroyed although its peer is there")
	st := vRow(a, ca.Addr().String())
	vSettled(a, ca, sa, int(st.Send))
	vSettled(b, cb, sb, int(st.Send))
	vSettleFor(4*time.Second, sa, sb)
	vReach("done")
}

// vCase_C34_jitter: each of the first datagrams takes its own time.
func vCase_C34_jitter() {
	a, b, ca, cb, sa, sb, al, bl := vLinked(0)
	window := vBound("datagrams with their own delay", 5, 7)
	seen := 0
	vNet.policy = func(d vDgram) []vDgram {
		if seen >= window {
			return []vDgram{d}
		}
		seen++
		k := vChoose("delay", 3)
		if k == 0 {
			return []vDgram{d}
		}
		go func() {
			time.Sleep(vMS([]int{0, 25, 450}[k]))
			vNet.mu.Lock()
			vNet.deliver(d)
			vNet.mu.Unlock()
		}()
		return nil
	}
	ms, ds := vBothWrite(ca, cb, 3)
	time.Sleep(4 * time.Second)
	vWait()
	vBothGot(al, bl, ms)
	for _, d := range ds {
		vAssert(d.n == 1 && d.err == nil, "the delivery of a delivered message was not reported")
	}
	vSettled(a, ca, sa, 3)
	vSettled(b, cb, sb, 3)
	vSettleFor(4*time.Second, sa, sb)
	vReach("done")
}

// vCase_C34_echo: a dialed net.Conn talks to an application that answers from
// its reader, over a faulty network.
func vCase_C34_echo() {
	b, sb := vNewTru(7000, MaxDataLenType(4), ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			ch.WriteTo(append([]byte("re:"), pac.Data()...))
		}
		return true
	}))
	conn, err := Dial("tru", sb.addr.String())
	vAssert(err == nil, "Dial failed on a loss-free network")
	vWait()
	sa := vNet.order[len(vNet.order)-1]
	vFaults(vBound("faults", 2, 3), vBound("fault window (datagrams)", 6, 9))
	var got [][]byte
	go func() {
		var m []byte
		buf := make([]byte, 3)
		for {
			n, err := conn.Read(buf)
			m = append(m, buf[:n]...)
			if err == io.EOF {
				got = append(got, m)
				m = nil
			} else if err != nil {
				return
			}
		}
	}()
	ms := [][]byte{vBytes("message", 3, 3), {}, vBytes("message", 5, 5)}
	for _, m := range ms {
		n, err := conn.Write(m)
		vAssert(err == nil && n == len(m), "Write failed")
	}
	time.Sleep(4 * time.Second)
	vWait()
	vAssert(len(got) == len(ms), "not every answer was read exactly once")
	for i := range got {
		vAssertSame(got[i], append([]byte("re:"), ms[i]...), "an answer was read changed or out of order")
	}
	vAssert(vRow(b, sa.addr.String()).SQ == 0, "a delivered packet stays pending")
	vSettleFor(4*time.Second, sa, sb)
	vReach("done")
}
