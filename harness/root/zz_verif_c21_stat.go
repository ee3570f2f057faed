package tru

import (
	"sort"
	"time"
)

// vHist is what really happened on a channel, counted from the outside.
type vHist struct {
	p       *vPeer
	ch      *Channel
	sent    int64 // messages written
	acks    int64
	ackd    int64
	recv    int64 // messages delivered
	drop    int64 // repeated packets
	packets int   // data packets sent first time
	wire    int   // data packets seen on the wire
	pend    []int // sent and not acknowledged
	next    int   // next number the peer sends
	early   []int // early packets received
	log     *vReaderLog
}

func (h *vHist) check(t *Tru, what string) {
	var row *ChannelStatistic
	n := 0
	st := t.Statistic()
	for i := range st {
		if st[i].Addr == h.p.addr {
			row = &st[i]
			n++
		}
	}
	vAssert(n == 1, what+": a live channel does not have one row")
	vAssert(row.Send == h.sent, what+": the sent counter is not the number of messages sent")
	vAssert(row.Rsnd == int64(h.wire-h.packets), what+": the resent counter is not the number of packets resent")
	vAssert(row.Ack == h.acks, what+": the acknowledgement counter is not the number of acknowledgements received")
	vAssert(row.AckD == h.ackd, what+": the surplus acknowledgement counter is not the number of surplus acknowledgements")
	vAssert(row.Recv == h.recv, what+": the received counter is not the number of messages delivered")
	vAssert(row.Drop == h.drop, what+": the drop counter is not the number of repeated packets")
	vAssert(row.SQ == uint(len(h.pend)), what+": the send queue length is not the number of unacknowledged packets")
	vAssert(row.RQ == uint(len(h.early)), what+": the receive queue length is not the number of early packets")
}

// count adds the data packets on the wire.
func (h *vHist) count(ds []vDgram) {
	for _, d := range ds {
		if d.to == h.p.addr && len(d.data) >= 4 && d.data[3]&^vsSplit == vsData {
			h.wire++
		}
	}
}

// step is one event of a channel's life.
func (h *vHist) step(ev int) {
	p := h.p
	switch ev {
	case 0: // a message is written
		id, err := h.ch.WriteTo([]byte("hello"))
		vAssert(err == nil, "WriteTo failed")
		h.sent++
		h.packets++
		h.pend = append(h.pend, id)
	case 1: // a message of three packets is written
		id, err := h.ch.WriteTo(make([]byte, 20))
		vAssert(err == nil, "WriteTo failed")
		h.sent++
		h.packets += 3
		h.pend = append(h.pend, id, vWrap(id+1), vWrap(id+2))
	case 2: // one pending packet is acknowledged
		if len(h.pend) == 0 {
			vSkip("nothing to acknowledge")
		}
		k := vChoose("which", len(h.pend))
		p.send(vHdr(vsAck, h.pend[k], nil))
		h.pend = append(h.pend[:k:k], h.pend[k+1:]...)
		h.acks++
	case 3: // any other acknowledgement
		id := vInt("id", 0, vLimit-1)
		for _, x := range h.pend {
			vAssume(x != id)
		}
		p.send(vHdr(vsAck, id, nil))
		h.ackd++
	case 4: // the next packet arrives
		p.send(p.data(h.next, []byte("data"), false))
		h.next = vWrap(h.next + 1)
		h.recv++
		for len(h.early) > 0 && h.early[0] == h.next {
			h.next = vWrap(h.next + 1)
			h.recv++
			h.early = h.early[1:]
		}
	case 5: // a packet arrives early
		id := vWrap(h.next + 1)
		if len(h.early) > 0 {
			id = vWrap(h.early[len(h.early)-1] + 1 + vChoose("gap", 2))
		}
		p.send(p.data(id, []byte("early"), false))
		h.early = append(h.early, id)
	case 6: // a packet arrives again
		if len(h.early) > 0 && vBool("early again") {
			p.send(p.data(h.early[vChoose("which", len(h.early))], []byte("early"), vBool("a part")))
		} else {
			k := vChoose("back", 4) // 1: the same number, claimed to be a part of a message
			p.send(p.data(vWrap(h.next-1-[]int{0, 1, vLimit/4 + 3, vLimit/2 - 2}[k]), []byte("again"), k == 1))
		}
		h.drop++
	case 8: // the next packet arrives, it is not the last part of its message
		p.send(p.data(h.next, []byte("part"), true))
		h.next = vWrap(h.next + 1)
		for len(h.early) > 0 && h.early[0] == h.next {
			h.next = vWrap(h.next + 1)
			h.recv++
			h.early = h.early[1:]
		}
	case 7: // time passes
		time.Sleep(time.Duration(350+400*vChoose("ms", 2)) * time.Millisecond)
	}
	vWait()
}

func vHists(clients bool) (t *Tru, hs []*vHist) {
	if clients {
		l := &vReaderLog{ret: true}
		tr, ch, p := vClient(l, MaxDataLenType(8))
		return tr, []*vHist{{p: p, ch: ch, log: l}}
	}
	t, _, a, b, ca, cb := vTwoPeers(MaxDataLenType(8))
	return t, []*vHist{{p: a, ch: ca}, {p: b, ch: cb}}
}

// vCase_C21_history: every history of events on two server channels or on a
// client's channel.
func vCase_C21_history() {
	t, hs := vHists(vBool("client"))
	start := []int{0, vLimit - 2}[vChoose("start", 2)]
	for _, h := range hs {
		vStart(h.ch, start)
		h.next = start
		h.p.c.take()
	}
	n := vBound("events", 3, 4)
	for i := 0; i < n; i++ {
		h := hs[vChoose("channel", len(hs))]
		h.step(vChoose("event", 9))
		ds := h.p.c.take()
		for _, h := range hs {
			h.count(ds)
		}
	}
	for i, h := range hs {
		h.check(t, []string{"first channel", "second channel"}[i])
	}
	vReach("done")
}

// vCase_C21_rows: one row for each live channel, sorted, whatever the order of
// connecting, closing and of the map.
func vCase_C21_rows() {
	t, _, p := vServe()
	addrs := []string{"10.9.9.1:5001", "10.9.9.1:6001", "10.9.9.10:5001", "10.9.8.2:5001"}
	live := map[string]*vPeer{p.addr: p}
	for _, a := range addrs[1:] {
		if vBool("connect " + a) {
			q := vNewPeer(p.c, a)
			q.dial()
			live[a] = q
			for k := 0; k < len(live); k++ {
				q.sendMsg([]byte("x"))
				vWait()
			}
		}
	}
	for _, a := range addrs {
		if live[a] == nil {
			continue
		}
		switch vChoose("end "+a, 3) {
		case 1:
			vChannel(t, a).Close()
			delete(live, a)
		case 2:
			live[a].send(vHdr(vsDisconnect, 0, nil))
			vWait()
			delete(live, a)
		}
	}
	var want []string
	for _, a := range addrs {
		if live[a] != nil {
			want = append(want, a)
		}
	}
	sort.Strings(want)
	vMapOrder(true)
	st := t.Statistic()
	vMapOrder(false)
	vAssert(len(st) == len(want), "the statistics do not have one row for each live channel")
	for i := range st {
		vAssert(st[i].Addr == want[i], "the statistics are not sorted by address")
		vAssert(st[i].Recv == int64(live[want[i]].next), "a row shows another channel's counters")
	}
	vReach("done")
}

// vCase_C21_concurrent: the statistics are read while messages are sent,
// acknowledged and received, under every schedule within the bound.
func vCase_C21_concurrent() {
	t, _, a, b, ca, cb := vTwoPeers()
	id, err := ca.WriteTo([]byte("one"))
	vAssert(err == nil && id == 0, "WriteTo failed")
	vWait()
	vSched(vBound("preemptions", 1, 2), 0)
	go func() {
		ca.WriteTo([]byte("two"))
		cb.WriteTo([]byte("three"))
	}()
	a.send(vHdr(vsAck, 0, nil))
	b.send(b.data(0, []byte("data"), false))
	st := t.Statistic()
	vWait()
	vSched(-1, 0)
	vAssert(len(st) == 2, "a live channel is not listed")
	x, y := st[0], st[1]
	vAssert(x.Addr == a.addr && y.Addr == b.addr, "the statistics are not sorted by address")
	vAssert(x.Send >= 1 && x.Send <= 2 && x.Ack >= 0 && x.Ack <= 1, "a row shows what did not happen")
	vAssert(x.SQ <= 2 && x.RQ == 0 && y.SQ <= 1 && y.RQ == 0, "a row shows a queue length that never was")
	vAssert(y.Send <= 1 && y.Recv <= 1 && x.Recv == 0 && y.Ack == 0, "a row shows what did not happen")
	st = t.Statistic()
	vAssert(st[0].Send == 2 && st[0].SQ == 1 && st[0].Ack == 1, "the counters are not what happened")
	vAssert(st[1].Send == 1 && st[1].SQ == 1 && st[1].Recv == 1, "the counters are not what happened")
	vReach("done")
}

// vCase_C21_resent: a packet is resent any number of times and acknowledged,
// once or twice.
func vCase_C21_resent() {
	t, hs := vHists(vBool("client"))
	h := hs[0]
	h.p.c.take()
	h.step(vChoose("message", 2))
	h.count(h.p.c.take())
	for i := vChoose("times", vBound("times", 5, 8)); i > 0; i-- {
		vSleep(700)
		vWait()
		h.count(h.p.c.take())
	}
	vReach("resent")
	last := h.pend[vChoose("which", len(h.pend))]
	for i, x := range h.pend {
		if x == last {
			h.pend = append(h.pend[:i:i], h.pend[i+1:]...)
			break
		}
	}
	h.p.send(vHdr(vsAck, last, nil))
	h.acks++
	vWait()
	h.check(t, "after one acknowledgement")
	if vBool("again") {
		h.p.send(vHdr(vsAck, last, nil))
		h.ackd++
		vWait()
	}
	h.count(h.p.c.take())
	h.check(t, "after a repeated acknowledgement")
	vReach("done")
}

// vCase_C21_queues: very many unacknowledged packets, very many early ones, and
// a long unfinished message.
func vCase_C21_queues() {
	t, hs := vHists(false)
	h, g := hs[0], hs[1]
	n := vBound("packets", 300, 700)
	switch vChoose("what", 3) {
	case 0:
		for i := 0; i < n; i++ {
			id, err := h.ch.WriteTo([]byte("x"))
			vAssert(err == nil, "WriteTo failed")
			h.pend = append(h.pend, id)
			h.sent++
			h.packets++
			vWait()
		}
	case 1:
		for i := 0; i < n; i++ {
			h.p.send(h.p.data(i+1, []byte("x"), false))
			h.early = append(h.early, i+1)
			vWait()
		}
	case 2: // parts of one message
		for i := 0; i < n; i++ {
			h.p.send(h.p.data(i, make([]byte, 60), true))
			vWait()
		}
	}
	ds := h.p.c.take()
	h.count(ds)
	g.count(ds)
	h.check(t, "first channel")
	g.check(t, "second channel")
	vReach("done")
}

// vCase_C21_handshake: peers that have not finished connecting do not mix up
// the rows of those that have.
func vCase_C21_handshake() {
	t, hs := vHists(false)
	q := vNewPeer(hs[0].p.c, []string{"10.9.9.0:5001", "10.9.9.15:5001", "10.9.9.3:5001"}[vChoose("half open", 3)])
	q.send(q.connectPacket())
	vWait()
	for i, h := range hs {
		h.p.c.take()
		for k := 0; k <= i; k++ {
			h.step(0)
		}
		h.count(h.p.c.take())
	}
	vMapOrder(true)
	hs[0].check(t, "first channel")
	hs[1].check(t, "second channel")
	vMapOrder(false)
	vReach("done")
}

// vCounter points to a counter of the channel's statistics.
func vCounter(ch *Channel, name string) *int64 {
	p, ok := vFieldPtr(ch, "stat."+name).(*int64)
	if !ok {
		vInconclusive("the channel's statistics have no counter " + name)
	}
	return p
}

// vCase_C21_large: whatever the counters are after a long time, events are
// added to them.
func vCase_C21_large() {
	t, ch, _, p := vSide(vBool("client"))
	ns := []string{"send", "recv", "ackRecv", "ackRecvDrop", "retransmit", "drop"}
	var was [6]int64
	for i, n := range ns {
		was[i] = int64(vInt("counter", 0, 1<<40))
		*vCounter(ch, n) = was[i]
	}
	check := func(add ...int64) {
		vWait()
		r := vRow(t, p.addr)
		for i, v := range []int64{r.Send, r.Recv, r.Ack, r.AckD, r.Rsnd, r.Drop} {
			vAssert(v == was[i]+add[i], "a counter is not what happened: "+ns[i])
		}
	}
	check(0, 0, 0, 0, 0, 0)
	id, err := ch.WriteTo([]byte("m"))
	vAssert(err == nil, "WriteTo failed")
	check(1, 0, 0, 0, 0, 0)
	p.send(p.data(0, []byte("m"), false))
	check(1, 1, 0, 0, 0, 0)
	p.send(p.data(0, []byte("m"), false))
	check(1, 1, 0, 0, 0, 1)
	p.send(p.data(2, []byte("m"), false))
	check(1, 1, 0, 0, 0, 1)
	p.send(p.data(2, []byte("m"), false))
	check(1, 1, 0, 0, 0, 2)
	p.send(p.data(1, []byte("m"), false))
	check(1, 3, 0, 0, 0, 2)
	vSleep(350)
	check(1, 3, 0, 0, 1, 2)
	p.send(vHdr(vsAck, id, nil))
	check(1, 3, 1, 0, 1, 2)
	p.send(vHdr(vsAck, id, nil))
	check(1, 3, 1, 1, 1, 2)
	vReach("done")
}

// vCase_C21_stalled: the reader stops for a while and more messages arrive than
// the endpoint's queues hold: all of them are counted in the end.
func vCase_C21_stalled() {
	hold := make(chan bool)
	n := 0
	t, c := vNewTru(7000, ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			n++
			if n == 1 {
				<-hold
			}
		}
		return true
	}))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	total := vInt("messages", 1, 26)
	vConcrete(total)
	early := vBool("the second comes last")
	for i := 0; i < total; i++ {
		k := i
		if early && i > 0 {
			k = 1 + i%(total-1)
		}
		p.send(p.data(k, vBytes("message", 2, 2), false))
		vWait()
	}
	vSleep([]int{10, 1200}[vChoose("stall", 2)])
	hold <- true
	vSleep(100)
	r := vRow(t, p.addr)
	vAssert(n == total, "the number of messages delivered is not the number of messages sent")
	vAssert(r.Recv == int64(total), "the messages delivered are not counted")
	vAssert(r.Drop == 0 && r.RQ == 0, "a counter is not what happened")
	vReach("done")
}
