package tru

import "time"

// C17: packet numbers are consecutive and unique, also under concurrency.

// vCase_C17_sequence: any start number, any mix of writes and of traffic that
// makes the endpoint send other packets: data packets are numbered one by one.
func vCase_C17_sequence() {
	client := vBool("client")
	_, ch, _, p := vSide(client)
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	p.c.take()
	n := 0
	for i := 0; i < vBound("operations", 4, 5); i++ {
		switch vChoose("op", 7) {
		case 0:
			id, err := ch.WriteTo([]byte{byte(i)})
			vAssert(err == nil, "WriteTo failed")
			vAssert(id == vWrap(start+n), "the number of a message is not the next one")
			n++
		case 1: // makes it send a pong
			p.send(vHdr(vsPing, 0, nil))
		case 2: // makes it send an ack
			p.sendMsg([]byte("m"))
		case 3: // lets time pass: retransmissions and pings
			time.Sleep(450 * time.Millisecond)
		case 4: // a write that is refused
			_, err := ch.WriteTo([]byte("refused"), 5)
			vAssert(err != nil, "a write with a wrong parameter is accepted")
		case 5: // a data packet of any number
			p.send(p.data(vInt("number", 0, vLimit-1), []byte("m"), false))
		case 6: // an acknowledgement of any number
			p.send(vHdr(vsAck, vInt("number", 0, vLimit-1), nil))
		}
		vWait()
	}
	seen := 0
	for _, d := range p.c.take() {
		if d.data[3] == vsData {
			_, id, _ := vParse(d.data)
			k := -1
			for j := 0; j <= seen && j < n; j++ {
				if id == vWrap(start+j) {
					k = j
				}
			}
			vAssert(k >= 0, "a data packet carries a number that is not the next one")
			if k == seen {
				seen++
			}
		}
	}
	vAssert(seen == n, "not every number was sent")
	vReach("done")
}

// vCase_C17_others: a packet that is not data, of any number, does not change
// the number of the next message.
func vCase_C17_others() {
	client := vBool("client")
	_, ch, _, p := vSide(client)
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	sts := []byte{vsPing, vsPong, vsPunch, vsConnect, vsServerAnswer, vsDone, vsClientAnswer, 10, 15, 127}
	for i := 0; i < vBound("packets", 1, 2); i++ {
		st := sts[vChoose("status", len(sts))]
		p.send(vHdr(st, vInt("number", 0, vLimit-1), vBytes("body", 0, 2)))
		vWait()
	}
	for i := 0; i < 2; i++ {
		id, err := ch.WriteTo([]byte("x"))
		vAssert(err == nil, "WriteTo failed")
		vAssert(id == vWrap(start+i), "the number of a message is not the next one")
	}
	vReach("done")
}

// vCase_C17_fresh: the first number of a new channel is 0.
func vCase_C17_fresh() {
	client := vBool("client")
	_, ch, _, p := vSide(client)
	switch vChoose("before", 4) {
	case 0:
		time.Sleep(4700 * time.Millisecond)
		p.send(vHdr(vsPing, 0, nil))
	case 1: // a data packet of any number
		p.send(p.data(vInt("number", 0, vLimit-1), []byte("m"), false))
	case 2: // an acknowledgement of any number
		p.send(vHdr(vsAck, vInt("number", 0, vLimit-1), nil))
	case 3: // a write that is refused
		_, err := ch.WriteTo([]byte("refused"), 5)
		vAssert(err != nil, "a write with a wrong parameter is accepted")
	}
	vWait()
	p.c.take()
	for i := 0; i < 3; i++ {
		id, err := ch.WriteTo([]byte("x"))
		vAssert(err == nil && id == i, "the numbers of a new channel do not start at 0")
	}
	vWait()
	for i, d := range p.got(p.c.take(), vsData) {
		_, id, _ := vParse(d.data)
		vAssert(id == i, "the numbers of a new channel do not start at 0")
	}
	vReach("done")
}

// vCase_C17_concurrent: goroutines write at the same time, across the wrap
// around, under every schedule with a bounded number of preemptions: the
// numbers are consecutive and each is used once.
func vCase_C17_concurrent() {
	client := vBool("client")
	_, ch, _, p := vSide(client)
	start := vInt("start", vLimit-3, vLimit-1)
	vStartSend(ch, start)
	p.c.take()
	g, m := vBound("writers", 2, 3), 2
	ids := make(chan int, g*m)
	vSched(vBound("preemptions", 1, 2), 0)
	for i := 0; i < g; i++ {
		go func() {
			for j := 0; j < m; j++ {
				id, err := ch.WriteTo([]byte("x"))
				vAssert(err == nil, "WriteTo failed")
				ids <- id
			}
		}()
	}
	// the peer's traffic makes the endpoint send other packets meanwhile
	p.send(vHdr(vsPing, 0, nil))
	for i := 0; i < g*m; i++ {
		time.Sleep(time.Millisecond)
	}
	vWait()
	vSched(-1, 0)
	used := make([]int, g*m)
	for i := 0; i < g*m; i++ {
		id := <-ids
		k := -1
		for j := range used {
			if id == vWrap(start+j) {
				k = j
			}
		}
		vAssert(k >= 0, "a number returned is not among the next ones")
		used[k]++
		vAssert(used[k] == 1, "a number was used twice")
	}
	sent := make([]int, g*m)
	for _, d := range p.got(p.c.take(), vsData) {
		_, id, _ := vParse(d.data)
		k := -1
		for j := range sent {
			if id == vWrap(start+j) {
				k = j
			}
		}
		vAssert(k >= 0, "a number sent is not among the next ones")
		sent[k]++
	}
	for j := range sent {
		vAssert(sent[j] == 1, "a number was not sent exactly once")
	}
	vReach("done")
}

// vCase_C17_pending: messages of any length, also empty and split ones, are
// written while others are pending, some acknowledged, perhaps resent, also
// with the very numbers that come next still pending.
func vCase_C17_pending() {
	client := vBool("client")
	_, ch, _, p := vSide(client, MaxDataLenType(3))
	start, first := vInt("start", 0, vLimit-1), 0
	pend := []int{0, 3, vBound("pending", 12, 24)}[vChoose("pending", 3)]
	if vBool("numbers come round") {
		// 0, 1, … are pending and the next number is just below the wrap
		start = vLimit - 2
		if pend > 3 {
			vAssume(false)
		}
	} else {
		first = start
		vStartSend(ch, start)
	}
	p.c.take()
	for i := 0; i < pend; i++ {
		id, err := ch.WriteTo([]byte("p"))
		vAssert(err == nil && id == vWrap(first+i), "the number of a message is not the next one")
	}
	vWait()
	switch vChoose("then", 3) {
	case 1: // the first is acknowledged
		p.send(vHdr(vsAck, first, nil))
	case 2: // they are resent
		vSleep(450)
	}
	vWait()
	p.c.take()
	if first == start {
		start = vWrap(start + pend)
	} else {
		vStartSend(ch, start)
	}
	n := 0
	for i := 0; i < vBound("messages", 2, 3); i++ {
		l := []int{0, 2, 3, 7}[vChoose("length", 4)]
		_, err := ch.WriteTo(vBytes("message", l, l))
		vAssert(err == nil, "WriteTo failed")
		n += 1 + b2i(l > 0)*((l-1)/3)
		vWait()
		seen := 0
		for _, d := range p.c.take() {
			if len(d.data) < 4 || d.data[3]&^vsSplit != vsData {
				continue
			}
			_, id, _ := vParse(d.data)
			seen++
			vAssert(id == vWrap(start+n-1-b2i(l > 0)*((l-1)/3)+seen-1), "a data packet carries a number that is not the next one")
		}
		vAssert(seen == 1+b2i(l > 0)*((l-1)/3), "a message was not sent in consecutive packets")
	}
	vReach("done")
}
