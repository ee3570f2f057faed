package tru

import (
	"time"
)

// C01: messages arrive in order, exactly once.

// vCase_C01_arrivals: any start number, any arrival sequence of packets from a
// window around the expected number (reordered, duplicated, missing, already
// processed): the reader gets exactly the gap-free prefix, once, in order.
func vCase_C01_arrivals() {
	n := vBound("messages", 3, 4)
	k := vBound("arrivals", 4, 5)
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	offs := make([]int, k)
	for i := 0; i < k; i++ {
		offs[i] = vInt("off", -1, n-1)
		id := vWrap(start + offs[i])
		p.send(p.data(id, vMark(offs[i]), false))
		vWait()
		// after every arrival: the longest prefix received so far
		want := 0
		for {
			have := false
			for j := 0; j <= i; j++ {
				if offs[j] == want {
					have = true
				}
			}
			if !have {
				break
			}
			want++
		}
		m := l.msgs()
		vAssert(len(m) == want, "the number of messages delivered is not the length of the gap-free prefix received")
		if want > 0 {
			vAssertSame(m[want-1].data, vMark(want-1), "a message was delivered out of order")
			vReach("delivered")
		}
		if want == n {
			vReach("all")
		}
	}
	m := l.msgs()
	for i := range m {
		vAssertSame(m[i].data, vMark(i), "messages were delivered out of order")
		vAssert(m[i].id == vWrap(start+i), "a delivered message carries another packet number")
	}
	vObs("n", len(m))
}

// vCase_C01_old: every already processed packet number, however old, is
// discarded.
func vCase_C01_old() {
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	p.send(p.data(start, vMark(0), false))
	vWait()
	vAssert(len(l.msgs()) == 1, "an expected message was not delivered")
	off := vInt("off", -vLimit/2+1, 0)
	p.send(p.data(vWrap(start+off), []byte{1, 2}, false))
	vWait()
	vAssert(len(l.msgs()) == 1, "an already processed packet was delivered again")
	p.send(p.data(vWrap(start+1), vMark(1), false))
	vWait()
	m := l.msgs()
	vAssert(len(m) == 2, "the next message was not delivered")
	vAssertSame(m[1].data, vMark(1), "the next message is wrong")
	vReach("done")
}

// vCase_C01_wrapped: an already processed packet that is repeated, however old,
// leaves nothing behind that could be delivered when its number comes up again
// after the numbers wrapped around.
func vCase_C01_wrapped() {
	t, l, p := vServe()
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vStart(ch, start)
	p.send(p.data(start, vMark(0), false))
	vWait()
	off := vInt("off", -vLimit/2+1, 0)
	old := vWrap(start + off)
	p.send(p.data(old, []byte{1, 2}, false))
	vWait()
	n := len(l.msgs())
	vAssert(n == 1, "an already processed packet was delivered again")
	// as after the messages in between
	vStart(ch, vWrap(old-1))
	p.send(p.data(vWrap(old-1), vMark(-1), false))
	vWait()
	vAssert(len(l.msgs()) == 2, "a stale packet was delivered after the numbers wrapped around")
	p.send(p.data(old, vMark(7), false))
	vWait()
	m := l.msgs()
	vAssert(len(m) == 3, "a message was not delivered after the numbers wrapped around")
	vAssertSame(m[2].data, vMark(7), "a stale packet was delivered after the numbers wrapped around")
	vReach("done")
}

// vCase_C01_future: a packet ahead of the expected one, however far, is held
// back until the gap is filled.
func vCase_C01_future() {
	t, l, p := vServe()
	start := vInt("start", 0, vLimit-1)
	vStart(vChannel(t, p.addr), start)
	off := vInt("off", 1, vLimit/2-1)
	p.send(p.data(vWrap(start+off), vMark(off), false))
	vWait()
	vAssert(len(l.msgs()) == 0, "a packet was delivered before its predecessors")
	p.send(p.data(start, vMark(0), false))
	vWait()
	m := l.msgs()
	if off == 1 {
		vAssert(len(m) == 2, "a held packet was not delivered when its turn came")
		vAssertSame(m[1].data, vMark(1), "a held packet was delivered with other content")
		vReach("next")
	} else {
		vAssert(len(m) == 1, "a packet was delivered before its predecessors")
		vReach("far")
	}
	vAssertSame(m[0].data, vMark(0), "messages were delivered out of order")
}

// vCase_C01_network: two endpoints, a network that loses, duplicates and delays
// datagrams: every message arrives, in order, exactly once.
func vCase_C01_network() {
	n := 3
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	_, _, ch, _, _ := vPair(cl, sl)
	vFaults(vBound("faults", 2, 3), vBound("fault window (datagrams)", 6, 9))
	for i := 0; i < n; i++ {
		id, err := ch.WriteTo(vMark(i))
		vAssert(err == nil, "WriteTo failed")
		vAssert(id == i, "WriteTo returned another packet number")
	}
	time.Sleep(2500 * time.Millisecond)
	vWait()
	m := sl.msgs()
	vAssert(len(m) == n, "not every message was delivered exactly once")
	for i := range m {
		vAssertSame(m[i].data, vMark(i), "messages were delivered out of order")
	}
	vReach("done")
}

// vCase_C01_schedule: the application writes from its own goroutine while the
// receiver's goroutines run, under every schedule with a bounded number of
// preemptions.
func vCase_C01_schedule() {
	_, l, p := vServe()
	vSched(vBound("preemptions", 1, 2), 0)
	p.send(p.data(1, vMark(1), false))
	p.send(p.data(0, vMark(0), false))
	p.send(p.data(1, vMark(1), false))
	p.send(p.data(2, vMark(2), false))
	vWait()
	vSched(-1, 0)
	time.Sleep(300 * time.Millisecond)
	m := l.msgs()
	vAssert(len(m) == 3, "not every message was delivered exactly once")
	for i := range m {
		vAssertSame(m[i].data, vMark(i), "messages were delivered out of order")
	}
	vReach("done")
}

// vCase_C01_burst: many packets are held back and the reader is slow: when the
// gap closes, what arrives in the meantime still comes after them.
func vCase_C01_burst() {
	client := vBool("client")
	var got []int
	rd := func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			d := pac.Data()
			got = append(got, int(d[0])|int(d[1])<<8)
			time.Sleep(3 * time.Millisecond)
		}
		return true
	}
	var p *vPeer
	if client {
		t, c := vNewTru(0)
		p = vNewPeer(c, "10.9.9.1:5001")
		go t.Connect(p.addr, rd)
		vWait()
		p.serveConnect()
	} else {
		_, c := vNewTru(7000, ReaderFunc(rd))
		p = vNewPeer(c, "10.9.9.1:5001")
		p.dial()
	}
	n := []int{2, 12, 30, vBound("packets held back", 150, 600)}[vChoose("held back", 4)]
	msg := func(i int) []byte { return p.data(i, []byte{byte(i), byte(i >> 8)}, false) }
	down := vBool("descending")
	for i := 1; i <= n; i++ {
		k := i
		if down {
			k = n + 1 - i
		}
		p.send(msg(k))
		if i%16 == 0 {
			vWait()
		}
	}
	vWait()
	vAssert(len(got) == 0, "a packet was delivered before its predecessors")
	p.send(msg(0))
	for i := 0; i < 3; i++ {
		time.Sleep(time.Duration(vChoose("pause", 2)) * 40 * time.Millisecond)
		p.send(msg(n + 1 + i))
		p.send(msg(n/2 + i))
	}
	p.send(msg(0))
	for i := 0; i < n+6; i += 20 {
		vSleep(100)
		p.send(vHdr(vsPing, 0, nil))
	}
	vWait()
	vAssert(len(got) == n+4, "the number of messages delivered is not the number of messages sent")
	for i := range got {
		vAssert(got[i] == i, "messages were delivered out of order")
	}
	vReach("done")
}

// vCase_C01_backlog: very many packets are held back behind one that is missing
// while the reader is slow; when it comes, and while they are handed over, some
// are repeated and the next ones arrive.
func vCase_C01_backlog() {
	var got []vRecv
	ms := vMS(vChoose("slow", 2))
	t, c := vNewTru(7000, ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			got = append(got, vRecv{data: append([]byte(nil), pac.Data()...), id: pac.ID()})
			time.Sleep(ms)
		}
		return true
	}))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	n := vBound("held back", 80, 200)
	start := vLimit - n/2
	vStart(vChannel(t, p.addr), start)
	down := vBool("in descending order")
	for i := 1; i <= n; i++ {
		k := i
		if down {
			k = n + 1 - i
		}
		p.send(p.data(vWrap(start+k), vMark(k), false))
		vWait()
	}
	vAssert(len(got) == 0, "a packet was delivered before its predecessors")
	p.send(p.data(start, vMark(0), false))
	step := 1 + vChoose("repeated", 7)
	for i := 0; i <= n; i += step {
		p.send(p.data(vWrap(start+i), vMark(i), false))
	}
	for i := n + 3; i > n; i-- {
		p.send(p.data(vWrap(start+i), vMark(i), false))
	}
	vSleep(2 * (n + 20))
	vWait()
	vAssert(len(got) == n+4, "the number of messages delivered is not the length of the gap-free prefix received")
	for i, m := range got {
		vAssertSame(m.data, vMark(i), "messages were delivered out of order")
		vAssert(m.id == vWrap(start+i), "a delivered message carries another packet number")
	}
	vReach("done")
}

// vCase_C01_stall: the reader stops for a while (up to seconds) while more arrive than the endpoint's queues hold, under every
// schedule with a bounded number of preemptions of what happens at its end.
func vCase_C01_stall() {
	var got [][]byte
	hold := make(chan bool)
	_, c := vNewTru(7000, ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			got = append(got, append([]byte(nil), pac.Data()...))
			if len(got) == 1 {
				<-hold
			}
		}
		return true
	}))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	k := vChoose("queued, stalled for", vBound("stalls", 3, 5))
	n, long := []int{10, 11, 12, 11, 14}[k], []int{10, 1500, 10, 4500, 1500}[k]
	var ms [][]byte
	send := func() {
		ms = append(ms, vBytes("message", 2, 2))
		p.send(p.data(len(ms)-1, ms[len(ms)-1], false))
	}
	for i := 0; i < n; i++ {
		send()
		vWait()
	}
	send()
	vSleep(long)
	p.send(vHdr(vsPing, 0, nil))
	vWait()
	vSched(vBound("preemptions", 1, 2), 0)
	send()
	hold <- true
	send()
	vWait()
	vSched(-1, 0)
	// the peer has seen no acknowledgement for what did not fit
	vSleep(1000)
	for i := range ms {
		p.send(p.data(i, ms[i], false))
	}
	vSleep(200)
	vAssert(len(got) == len(ms), "the messages delivered are not each once the messages sent")
	for i := range got {
		vAssertSame(got[i], ms[i], "messages were delivered out of order")
	}
	vReach("done")
}
