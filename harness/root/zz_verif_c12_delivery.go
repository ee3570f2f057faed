package tru

import (
	"time"
)

// C12: the delivery callback fires exactly once.

// vCase_C12_once: the acknowledgement arrives at any time (or never), perhaps
// repeated: the callback is called exactly once with the right outcome.
func vCase_C12_once() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	timeout := []time.Duration{0, 10 * time.Millisecond, 700 * time.Millisecond, 5 * time.Second, 8 * time.Second}[vChoose("timeout", 5)]
	d := &vDeliv{}
	t0 := time.Now()
	var id int
	var err error
	if timeout == 5*time.Second {
		id, err = ch.WriteTo([]byte("hello"), d.cb)
	} else {
		id, err = ch.WriteTo([]byte("hello"), d.cb, timeout)
	}
	vAssert(err == nil, "WriteTo failed")
	acks := []int{-1, 0, 5, 500, 2000, 5500}
	at := acks[vChoose("ack", len(acks))]
	rep := vChoose("repeat", 2)
	if at >= 0 {
		left := time.Duration(at) * time.Millisecond
		for left > 2*time.Second {
			time.Sleep(2 * time.Second)
			left -= 2 * time.Second
			p.send(vHdr(vsPing, 0, nil))
		}
		time.Sleep(left)
		vWait()
		p.send(vHdr(vsAck, id, nil))
		if rep == 1 {
			p.send(vHdr(vsAck, id, nil))
		}
		vWait()
	}
	for i := 0; i < 6; i++ {
		time.Sleep(2 * time.Second)
		p.send(vHdr(vsPing, 0, nil))
	}
	vWait()
	vAssert(d.n != 0, "the delivery callback was never called")
	vAssert(d.n == 1, "the delivery callback was called more than once")
	vAssert(d.id == id, "the delivery callback was given another packet")
	if at >= 0 && time.Duration(at)*time.Millisecond < timeout {
		vAssert(d.err == nil, "the delivery callback reported an error although the acknowledgement arrived in time")
		vReach("success")
	}
	if at < 0 || time.Duration(at)*time.Millisecond > timeout {
		vAssert(d.err != nil, "the delivery callback reported success although no acknowledgement arrived in time")
		vAssert(d.at.Sub(t0) >= timeout, "the delivery callback reported a timeout early")
		vAssert(d.at.Sub(t0) <= timeout+time.Millisecond, "the delivery callback reported the timeout late")
		vReach("timeout")
	}
}

// vCase_C12_which: two writes with callbacks, an acknowledgement with any
// number: exactly the callback of the packet with that number reports success.
func vCase_C12_which() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	a, b := &vDeliv{}, &vDeliv{}
	ia, err := ch.WriteTo([]byte("a"), a.cb, time.Second)
	vAssert(err == nil, "WriteTo failed")
	ib, err := ch.WriteTo([]byte("b"), PacketDeliveryFunc(b.cb), time.Second)
	vAssert(err == nil, "WriteTo failed")
	ack := vInt("ack", 0, vLimit-1)
	p.send(vHdr(vsAck, ack, nil))
	vWait()
	vAssert(a.n == b2i(ack == ia), "the callback of another packet was called on an acknowledgement")
	vAssert(b.n == b2i(ack == ib), "the callback of another packet was called on an acknowledgement")
	time.Sleep(1500 * time.Millisecond)
	vWait()
	vAssert(a.n == 1 && b.n == 1, "a delivery callback was not called exactly once")
	vAssert((a.err == nil) == (ack == ia), "a delivery callback reports the wrong outcome")
	vAssert((b.err == nil) == (ack == ib), "a delivery callback reports the wrong outcome")
	vReach("done")
}

// vCase_C12_split: for a split message the callback belongs to the last part.
func vCase_C12_split() {
	t, _, p := vServe(MaxDataLenType(4))
	ch := vChannel(t, p.addr)
	p.c.take()
	d := &vDeliv{}
	n := vInt("len", 0, 13)
	vConcrete(n)
	_, err := ch.WriteTo(make([]byte, n), d.cb, 900*time.Millisecond)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	var ids []int
	for _, g := range p.c.take() {
		if g.data[3]&^vsSplit == vsData {
			_, id, _ := vParse(g.data)
			ids = append(ids, id)
		}
	}
	last := len(ids) - 1
	// all but the last part acknowledged: not delivered
	for i := 0; i < last; i++ {
		p.send(vHdr(vsAck, ids[i], nil))
	}
	vWait()
	vAssert(d.n == 0, "the delivery callback was called before the last part was acknowledged")
	if vBool("lost") {
		time.Sleep(time.Second)
		vWait()
		vAssert(d.n == 1 && d.err != nil, "the delivery callback did not report the timeout of the last part")
		vReach("lost")
	} else {
		p.send(vHdr(vsAck, ids[last], nil))
		vWait()
		vAssert(d.n == 1 && d.err == nil, "the delivery callback did not report the delivery of the last part")
		vReach("delivered")
	}
	time.Sleep(2 * time.Second)
	vWait()
	vAssert(d.n == 1, "the delivery callback was called more than once")
}

// vCase_C12_race: the acknowledgement arrives at the moment of the timeout, or
// while the write is still going on, or while the channel is closed, under every
// schedule with a bounded number of preemptions.
func vCase_C12_race() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	d := &vDeliv{}
	mode := vChoose("mode", 3)
	if mode == 2 {
		id, err := ch.WriteTo([]byte("hello"), d.cb, 50*time.Millisecond)
		vAssert(err == nil, "WriteTo failed")
		vWait()
		done := make(chan bool)
		vSched(vBound("preemptions", 2, 3), 0)
		go func() { ch.Close(); close(done) }()
		p.send(vHdr(vsAck, id, nil))
		<-done
	} else if mode == 0 {
		id, err := ch.WriteTo([]byte("hello"), d.cb, 50*time.Millisecond)
		vAssert(err == nil, "WriteTo failed")
		vWait()
		vSched(vBound("preemptions", 2, 3), 1)
		p.send(vHdr(vsAck, id, nil))
	} else {
		// the peer acknowledges as soon as it sees the packet
		vNet.policy = func(g vDgram) []vDgram {
			if len(g.data) >= 4 && g.data[3] == vsData {
				_, id, _ := vParse(g.data)
				p.send(vHdr(vsAck, id, nil))
			}
			return nil
		}
		vSched(vBound("preemptions", 2, 3), 0)
		_, err := ch.WriteTo([]byte("hello"), d.cb, 50*time.Millisecond)
		vAssert(err == nil, "WriteTo failed")
	}
	vWait()
	vSched(-1, 0)
	time.Sleep(time.Second)
	vWait()
	vAssert(d.n != 0, "the delivery callback was never called")
	vAssert(d.n == 1, "the delivery callback was called more than once")
	vReach("done")
}

// vCase_C12_badparam: a parameter of an unknown type is refused and nothing is
// sent.
func vCase_C12_badparam() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	p.c.take()
	_, err := ch.WriteTo([]byte("x"), 12)
	vAssert(err != nil, "a delivery parameter of a wrong type was accepted")
	vWait()
	vAssert(len(p.got(p.c.take(), vsData)) == 0, "a refused write was sent")
	vReach("done")
}

// vCase_C12_closed: the channel ends, in any of the ways it can, while
// callbacks are pending: one acknowledged before, and others at any time left:
// each is still called exactly once, with an error when its time is over.
func vCase_C12_closed() {
	client := vBool("client")
	t, ch, _, p := vSide(client)
	p.c.take()
	touts := []int{150, 700, 3000, 9000}
	ds := make([]*vDeliv, len(touts))
	ids := make([]int, len(touts))
	t0 := time.Now()
	for i, ms := range touts {
		ds[i] = &vDeliv{}
		var err error
		ids[i], err = ch.WriteTo(vBytes("message", 2, 2), ds[i].cb, vMS(ms))
		vAssert(err == nil, "WriteTo failed")
	}
	vWait()
	acked := vChoose("acknowledged", len(touts)+1) - 1
	if acked >= 0 {
		p.send(vHdr(vsAck, ids[acked], nil))
		vWait()
	}
	pause := vInt("pause (ms)", 1, 140)
	at := []int{0, 500}[vChoose("ends at", 2)] + pause
	vSleep(at)
	switch vChoose("end", 4) {
	case 0:
		ch.Close()
	case 1:
		p.send(vHdr(vsDisconnect, 0, nil))
	case 2:
		t.Close()
	case 3: // the peer is silent, the channel becomes inactive
		vSleep(6700)
	}
	vWait()
	vAssert(ch.Destroyed(), "the channel did not end")
	if vBool("acknowledged after the end") {
		for _, id := range ids {
			p.send(vHdr(vsAck, id, nil))
		}
		vWait()
	}
	vSleep(11_000)
	vWait()
	for i, d := range ds {
		vAssert(d.n != 0, "the delivery callback was never called")
		vAssert(d.n == 1, "the delivery callback was called more than once")
		vAssert(d.id == ids[i], "the delivery callback was given another packet")
		if i == acked {
			vAssert(d.err == nil, "the delivery callback reported an error although the acknowledgement arrived in time")
			continue
		}
		vAssert(d.err != nil, "the delivery callback reported success although no acknowledgement arrived in time")
		left := d.at.Sub(t0) - vMS(touts[i])
		vAssert(left >= 0 && left < 5*time.Millisecond, "the delivery callback did not report the timeout when it passed")
	}
	vReach("done")
}
