package tru

import (
	"time"
)

// C11: Connect always ends: connected or timeout error.

// vCase_C11_when: the server answers each step after any of several delays, or
// never.
func vCase_C11_when() {
	delays := []time.Duration{0, time.Second, 4900 * time.Millisecond, 5100 * time.Millisecond, -1}
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	var cerr error
	ret := false
	t0 := time.Now()
	var t1 time.Time
	go func() {
		ch, cerr = t.Connect(p.addr, l.read)
		t1 = time.Now()
		ret = true
	}()
	vWait()
	sa := p.serverAnswer(p.expect(vsConnect))
	dn := vHdr(vsDone, 0, vConnData(p.uuid, nil))
	d1 := delays[vChoose("answer", 5)]
	if d1 >= 0 {
		time.Sleep(d1)
		p.send(sa)
		vWait()
		ca := p.got(p.c.take(), vsClientAnswer)
		if d1 < 5*time.Second {
			vAssert(len(ca) == 1, "a server answer was not answered")
			p.connectDone(ca[0].data)
		} else {
			vAssert(len(ca) == 0, "a late server answer was answered")
		}
	}
	d2 := delays[vChoose("done", 5)]
	if d2 >= 0 {
		time.Sleep(d2)
		if vBool("twice") {
			p.send(dn)
		}
		p.send(dn)
		vWait()
	}
	time.Sleep(6*time.Second - time.Since(t0))
	vWait()
	vAssert(ret, "Connect did not return within 5 seconds")
	vAssert(t1.Sub(t0) <= 5*time.Second, "Connect did not return within 5 seconds")
	if d1 >= 0 && d2 >= 0 && d1+d2 < 5*time.Second {
		vAssert(cerr == nil && ch != nil, "Connect failed although the handshake was completed in time")
		vAssert(ch.Addr().String() == p.addr, "Connect returned a channel to another peer")
		vAssert(!ch.Destroyed(), "Connect returned a destroyed channel")
		vAssert(!ch.ServerMode(), "Connect returned a server's channel")
		vAssert(vChannel(t, p.addr) == ch, "Connect returned another channel than the endpoint's")
		vAlive(ch, l, p, "after Connect")
		vReach("connected")
	} else {
		vAssert(cerr != nil, "Connect reported success without a completed handshake")
		vAssert(ch == nil, "Connect returned a channel without a completed handshake")
		vReach("timeout")
		vAssert(len(t.Statistic()) == 0, "a failed Connect left a channel behind")
		// the endpoint still works: a new attempt succeeds
		p.c.take()
		go func() { ch, cerr = t.Connect(p.addr, l.read) }()
		vWait()
		p.serveConnect()
		vAssert(cerr == nil && ch != nil, "Connect failed although the server answered")
		vAlive(ch, l, p, "after Connect")
	}
}

// vCase_C11_late: after a successful Connect repeated answers of the attempt
// have no effect; a second Connect to another peer works.
func vCase_C11_late() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	var cerr error
	go func() { ch, cerr = t.Connect(p.addr, l.read) }()
	vWait()
	sa := p.serverAnswer(p.expect(vsConnect))
	p.send(sa)
	vWait()
	dn := p.connectDone(p.expect(vsClientAnswer))
	vSched(vBound("preemptions", 2, 2), 0)
	p.send(dn)
	for i := 0; i < 2; i++ {
		switch vChoose("again", 3) {
		case 0:
			p.send(dn)
		case 1:
			p.send(sa)
		}
	}
	vWait()
	vSched(-1, 0)
	vAssert(cerr == nil && ch != nil, "Connect failed although the server answered")
	vAlive(ch, l, p, "after Connect")
	q := vNewPeer(c, "10.9.9.2:5002")
	var ch2 *Channel
	go func() { ch2, cerr = t.Connect(q.addr, l.read) }()
	vWait()
	q.serveConnect()
	vAssert(cerr == nil && ch2 != nil, "Connect failed although the server answered")
	vAlive(ch2, l, q, "after a second Connect")
	vAlive(ch, l, p, "after a second Connect")
	vReach("done")
}

// vCase_C11_edge: the last answer arrives at the moment of the timeout, under
// every schedule with a bounded number of preemptions.
func vCase_C11_edge() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	var cerr error
	ret := false
	go func() {
		ch, cerr = t.Connect(p.addr, l.read)
		ret = true
	}()
	vWait()
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	dn := p.connectDone(p.expect(vsClientAnswer))
	time.Sleep(4999 * time.Millisecond)
	if vBool("early") {
		// the timer may expire while the answer is processed
		vSched(vBound("preemptions", 2, 2), 1)
	} else {
		vSched(vBound("preemptions", 2, 2), 0)
		time.Sleep(time.Millisecond)
	}
	p.send(dn)
	p.send(dn)
	vWait()
	vSched(-1, 0)
	time.Sleep(10 * time.Millisecond)
	vWait()
	vAssert(ret, "Connect did not return within 5 seconds")
	vAssert((ch != nil) == (cerr == nil), "Connect returned neither a channel nor an error, or both")
	if cerr == nil {
		vAlive(ch, l, p, "after Connect")
		vReach("connected")
	} else {
		vAssert(len(t.Statistic()) == 0, "a failed Connect left a channel behind")
		vReach("timeout")
	}
}

// vCase_C11_edge2: the server answer arrives at the moment of the timeout.
func vCase_C11_edge2() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	var cerr error
	ret := false
	go func() {
		ch, cerr = t.Connect(p.addr, l.read)
		ret = true
	}()
	vWait()
	sa := p.serverAnswer(p.expect(vsConnect))
	time.Sleep(4999 * time.Millisecond)
	vSched(vBound("preemptions", 2, 2), 1)
	p.send(sa)
	vWait()
	vSched(-1, 0)
	time.Sleep(10 * time.Millisecond)
	vWait()
	vAssert(ret, "Connect did not return within 5 seconds")
	vAssert(ch == nil && cerr != nil, "Connect reported success without a completed handshake")
	vAssert(len(t.Statistic()) == 0, "a failed Connect left a channel behind")
	vReach("done")
}

// vCase_C11_concurrent: two Connects at the same time, answered in either order.
func vCase_C11_concurrent() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p, q := vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, "10.9.9.2:5002")
	var ch [2]*Channel
	var ce [2]error
	for i, x := range []*vPeer{p, q} {
		i, x := i, x
		go func() { ch[i], ce[i] = t.Connect(x.addr, l.read) }()
	}
	vWait()
	ds := c.take()
	one := func(x *vPeer) []byte {
		g := x.got(ds, vsConnect)
		vAssert(len(g) == 1, "Connect did not send one connect packet to the peer")
		return g[0].data
	}
	pc, qc := one(p), one(q)
	a, b := p, q
	ac, bc := pc, qc
	if vBool("order") {
		a, b, ac, bc = q, p, qc, pc
	}
	a.send(a.serverAnswer(ac))
	vWait()
	ad := a.connectDone(a.expect(vsClientAnswer))
	if vBool("order2") {
		a.send(ad)
		vWait()
	}
	b.send(b.serverAnswer(bc))
	vWait()
	b.send(b.connectDone(b.expect(vsClientAnswer)))
	vWait()
	a.send(ad)
	vWait()
	vAssert(ce[0] == nil && ce[1] == nil, "Connect failed although the server answered")
	vAssert(ch[0].Addr().String() == p.addr && ch[1].Addr().String() == q.addr, "Connect returned a channel to another peer")
	vAlive(ch[0], l, p, "after two Connects")
	vAlive(ch[1], l, q, "after two Connects")
	vReach("done")
}

// vCase_C11_badaddr: an address that cannot be resolved is an error.
func vCase_C11_badaddr() {
	t, _ := vNewTru(0)
	t0 := time.Now()
	ch, err := t.Connect("nonsense")
	vAssert(err != nil && ch == nil, "Connect to a malformed address succeeded")
	vAssert(time.Since(t0) <= 5*time.Second, "Connect did not return within 5 seconds")
	vReach("done")
}

// vCase_C11_again: Connect to a peer the endpoint may already be connected to:
// handshake packets with the attempt's own id come in any order, repeated or
// not at all, among others with any other id.
func vCase_C11_again() {
	l, l2 := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var old *Channel
	if vBool("connected before") {
		go func() { old, _ = t.Connect(p.addr, l.read) }()
		vWait()
		p.serveConnect()
		vAssert(old != nil, "Connect failed although the server answered")
	}
	c.take()
	var ch *Channel
	var cerr error
	ret := false
	t0 := time.Now()
	go func() {
		ch, cerr = t.Connect(p.addr, l2.read)
		ret = true
	}()
	vWait()
	sa := p.serverAnswer(p.expect(vsConnect))
	answered, done := false, false
	for i := 0; i < vBound("handshake packets", 3, 4); i++ {
		switch vChoose("packet", 5) {
		case 0: // the server's answer
			p.send(sa)
			vWait()
			ca := p.got(c.take(), vsClientAnswer)
			vAssert(len(ca) == b2i(!answered), "a server answer was not answered once")
			if !answered {
				p.connectDone(ca[0].data)
			}
			answered = true
		case 1: // the end of the handshake
			p.send(vHdr(vsDone, 0, vConnData(p.uuid, nil)))
			done = done || answered
		case 2: // the end of another handshake
			id := vBytes("id", 0, 3)
			p.send(vHdr(vsDone, 0, append([]byte{byte(len(id))}, id...)))
		case 3: // a client's answer, with the attempt's own id
			p.send(vHdr(vsClientAnswer, 0, vConnData(p.uuid, vBytes("key", 0, 2))))
		case 4:
			vSleep(800)
		}
		vWait()
	}
	if !done {
		vSleep(int(5*time.Second-time.Since(t0))/1_000_000 + 10)
		vWait()
	}
	vAssert(ret, "Connect did not return within 5 seconds")
	if done {
		vAssert(cerr == nil && ch != nil, "Connect failed although the handshake was completed in time")
		vAssert(ch != old, "Connect returned the channel of an earlier connection")
		vAssert(vChannel(t, p.addr) == ch, "Connect returned another channel than the endpoint's")
		vAssert(old == nil || old.Destroyed(), "the connection replaced by a new one is still there")
		vAlive(ch, l2, p, "after Connect")
		vReach("connected")
		return
	}
	vAssert(cerr != nil && ch == nil, "Connect reported success without a completed handshake")
	n := 0
	if old != nil && !old.Destroyed() {
		n = 1
		vAssert(!answered, "the connection replaced by a new one is still there")
	}
	vAssert(len(t.Statistic()) == n, "a failed Connect left a channel behind")
	vReach("timeout")
}

// vCase_C11_gone: the channel of an attempt ends before the handshake does: the
// peer disconnects, or a second attempt to the same peer replaces it. The end
// of the handshake comes nevertheless.
func vCase_C11_gone() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch, ch2 *Channel
	var cerr, cerr2 error
	ret, ret2 := false, false
	go func() {
		ch, cerr = t.Connect(p.addr, l.read)
		ret = true
	}()
	vWait()
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	dn := p.connectDone(p.expect(vsClientAnswer))
	vSleep([]int{0, 700}[vChoose("pause", 2)])
	second := vBool("second attempt")
	if second {
		go func() {
			ch2, cerr2 = t.Connect(p.addr, l.read)
			ret2 = true
		}()
		vWait()
		p.send(p.serverAnswer(p.expect(vsConnect)))
	} else {
		p.send(vHdr(vsDisconnect, vInt("number", 0, vLimit-1), nil))
	}
	vWait()
	p.send(dn)
	vWait()
	if second {
		p.send(p.connectDone(p.expect(vsClientAnswer)))
		vWait()
		vAssert(ret2 && cerr2 == nil && ch2 != nil, "Connect failed although the handshake was completed in time")
		vAlive(ch2, l, p, "after Connect")
		vReach("second")
	}
	for i := 0; i < 3; i++ {
		vSleep(1800)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	vAssert(ret, "Connect did not return within 5 seconds")
	vAssert((cerr == nil) == (ch != nil), "Connect returned neither a channel nor an error, or both")
	vAssert(ch == nil || !ch.Destroyed(), "Connect returned a destroyed channel")
	if second {
		vAlive(ch2, l, p, "after Connect")
	} else {
		vAssert(len(t.Statistic()) == 0, "a failed Connect left a channel behind")
		vReach("disconnected")
	}
}
