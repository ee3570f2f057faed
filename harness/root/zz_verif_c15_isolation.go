package tru

import (
	"time"
)

// C15: channels are isolated from one another.

// vCase_C15_packet: any packet of one peer leaves the other peer's channel
// alone, with pending sends and early packets on both.
func vCase_C15_packet() {
	vSecond = []string{"10.9.9.2:5001", "10.9.9.1:5002"}[vChoose("second peer", 2)]
	t, l, a, b, ca, cb := vTwoPeers()
	for _, ch := range []*Channel{ca, cb, ca} {
		_, err := ch.WriteTo([]byte("pending"))
		vAssert(err == nil, "WriteTo failed")
	}
	for _, p := range []*vPeer{a, b} {
		p.send(p.data(0, []byte("first"), false))
		p.send(p.data(2, []byte("early"), false))
	}
	vWait()
	row := vRow(t, b.addr)
	a.c.take()
	n := 0
	for _, m := range l.msgs() {
		n += b2i(m.ch == cb)
	}
	vAssert(n == 1, "a message was not delivered")
	st := []byte{vsConnect, vsServerAnswer, vsClientAnswer, vsDone, vsData, vsAck, vsPing, vsPong, vsDisconnect, vsPunch, vsData | vsSplit}[vChoose("type", 11)]
	id := vInt("id", 0, vLimit-1)
	switch st {
	case vsData, vsData | vsSplit:
		a.send(a.data(id, []byte("any"), st != vsData))
	case vsConnect:
		a.uuid = "again"
		a.send(a.connectPacket())
	default:
		a.send(vHdr(st, id, vBytes("data", 0, 2)))
	}
	vWait()
	for _, d := range a.c.take() {
		vAssert(d.to == a.addr, "an answer went to another peer")
	}
	vAssert(vChannel(t, b.addr) == cb && !cb.Destroyed(), "a packet of one peer ended the channel of another")
	r := vRow(t, b.addr)
	vAssert(r == row, "a packet of one peer changed the counters of another peer's channel")
	for _, e := range l.errs() {
		vAssert(e.ch == ca, "the loss of one channel was announced as the loss of another")
	}
	// the other channel goes on exactly as without it
	b.send(b.data(1, []byte("gap"), false))
	b.send(vHdr(vsAck, 0, nil))
	vWait()
	var got []string
	for _, m := range l.msgs() {
		if m.ch == cb {
			got = append(got, string(m.data))
		}
	}
	vAssert(len(got) == 3 && got[1] == "gap" && got[2] == "early", "a packet of one peer changed what is delivered from another")
	r = vRow(t, b.addr)
	vAssert(r.Ack == row.Ack+1 && r.AckD == row.AckD && r.SQ == 0, "a packet of one peer changed the pending packets of another peer's channel")
	oid, err := cb.WriteTo([]byte("more"))
	vAssert(err == nil && oid == 1, "a packet of one peer changed the packet numbers of another peer's channel")
	vReach("done")
}

// vCase_C15_end: the end of one channel, in any way, leaves the other alone.
func vCase_C15_end() {
	vSecond = []string{"10.9.9.2:5001", "10.9.9.1:5002"}[vChoose("second peer", 2)]
	t, l, a, b, ca, cb := vTwoPeers()
	_, err := ca.WriteTo([]byte("pending"))
	vAssert(err == nil, "WriteTo failed")
	id, err := cb.WriteTo([]byte("pending"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	a.c.take()
	switch vChoose("how", 4) {
	case 0:
		ca.Close()
	case 1:
		a.send(vHdr(vsDisconnect, 0, nil))
	case 2: // silence
		for i := 0; i < 7; i++ {
			time.Sleep(time.Second)
			b.send(vHdr(vsPong, 0, nil))
		}
	case 3: // both
		a.send(vHdr(vsDisconnect, 0, nil))
		ca.Close()
	}
	vWait()
	for _, d := range a.c.take() {
		vAssert(d.to != b.addr || d.data[3] == vsData, "the end of one channel was announced to another peer")
	}
	vAssert(ca.Destroyed() && !cb.Destroyed() && vChannel(t, b.addr) == cb, "the end of one channel ended another")
	vAssert(len(l.errs()) == 1 && l.errs()[0].ch == ca, "the end of one channel was announced as the end of another")
	b.send(vHdr(vsAck, id, nil))
	vWait()
	vAlive(cb, l, b, "after the end of another channel")
	vReach("done")
}

// vCase_C15_address: each packet goes to its own channel's address, whatever
// is written in whatever order, under every schedule within the bound.
func vCase_C15_address() {
	_, _, a, b, ca, cb := vTwoPeers()
	a.c.take()
	vSched(vBound("preemptions", 1, 2), 0)
	done := make(chan bool, 2)
	for i, ch := range []*Channel{ca, cb} {
		ch, m := ch, []byte{byte('a' + i)}
		go func() {
			for j := 0; j < 2; j++ {
				_, err := ch.WriteTo(m)
				vAssert(err == nil, "WriteTo failed")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vWait()
	vSched(-1, 0)
	ds := a.c.take()
	for i, p := range []*vPeer{a, b} {
		fs := vFrags(p, ds)
		vAssert(len(fs) == 2, "messages were not sent to their channel's peer")
		for j, f := range fs {
			vAssert(string(f.body) == string(rune('a'+i)), "a message was sent to another channel's peer")
			vAssert(f.id == j, "the packets of one channel use up numbers of another")
		}
	}
	vReach("done")
}

// vCase_C15_reconnect: the peer connects again on the same address, at any
// moment of the old channel's timers: whatever happens to the old channel
// afterwards has no effect on the new one.
func vCase_C15_reconnect() {
	t, l, a := vServe()
	old := vChannel(t, a.addr)
	oldID, err := old.WriteTo([]byte("old"))
	vAssert(err == nil, "WriteTo failed")
	a.send(a.data(0, []byte("first"), false))
	a.send(a.data(2, []byte("early"), false))
	vWait()
	sched := vBool("schedule")
	if sched {
		time.Sleep(time.Duration([]int{0, 100, 200, 500}[vChoose("moment (ms)", 4)]) * time.Millisecond)
		vSched(vBound("preemptions", 1, 2), 1)
	} else {
		time.Sleep(time.Duration(vInt("moment (ns)", 0, 110_000_000)))
	}
	a.uuid = "again"
	a.session = []byte("another session key, 32 byte lon")
	a.send(a.connectPacket())
	vWait()
	if sched {
		vSched(-1, 0)
	}
	a.send(a.answerPacket(a.expect(vsServerAnswer)))
	vWait()
	a.expect(vsDone)
	ch := vChannel(t, a.addr)
	vAssert(ch != nil && ch != old && old.Destroyed(), "a reconnect did not replace the channel")
	a.c.take()
	n := len(l.msgs())
	switch vChoose("old", 3) {
	case 0:
		old.Close()
	case 1:
		_, err := old.WriteTo([]byte("on the old channel"))
		vAssert(err == ErrChannelDestroyed, "a replaced channel can be written to")
	}
	a.next = 0
	vAlive(ch, l, a, "after a reconnect")
	a.send(vHdr(vsPing, 0, nil))
	for i := 0; i < 2; i++ {
		time.Sleep(1700 * time.Millisecond)
		a.send(vHdr(vsPing, 0, nil))
	}
	vWait()
	vAssert(vChannel(t, a.addr) == ch && !ch.Destroyed(), "a replaced channel ended its successor")
	for _, d := range a.c.take() {
		vAssert(d.data[3] == vsPong, "a replaced channel still sends to its peer")
	}
	vAssert(len(l.msgs()) == n+1, "a replaced channel's messages were delivered")
	r := vRow(t, a.addr)
	vAssert(r.Send == 1 && r.Recv == 1 && r.Rsnd == 0 && r.Drop == 0 && r.RQ == 0 && r.SQ == 0, "a replaced channel changed the counters of its successor")
	_ = oldID
	vReach("done")
}

// vCase_C15_inside: the reader closes the replaced channel when it is told that
// it is destroyed: the peer, which has just connected again, is not
// disconnected.
func vCase_C15_inside() {
	var t *Tru
	rd := func(ch *Channel, pac *Packet, err error) bool {
		if err != nil && ch != nil {
			ch.Close()
			ch.WriteTo([]byte("bye"))
		}
		return true
	}
	t, c := vNewTru(7000, ReaderFunc(rd))
	a := vNewPeer(c, "10.9.9.1:5001")
	a.dial()
	a.uuid = "again"
	a.send(a.connectPacket())
	vWait()
	ds := c.take()
	vAssert(len(a.got(ds, vsDisconnect)) == 0, "closing a replaced channel disconnects its successor")
	sa := a.got(ds, vsServerAnswer)
	vAssert(len(sa) == 1, "a reconnect was not answered")
	a.send(a.answerPacket(sa[0].data))
	vWait()
	a.expect(vsDone)
	ch := vChannel(t, a.addr)
	vAssert(ch != nil && !ch.Destroyed(), "a reconnect did not establish a channel")
	vReach("done")
}

// vCase_C15_stranger: any packet from an address that has no channel, however
// like a peer's address it is, leaves the peers' channels alone.
func vCase_C15_stranger() {
	t, l, a, b, ca, cb := vTwoPeers()
	for _, ch := range []*Channel{ca, cb} {
		_, err := ch.WriteTo([]byte("pending"))
		vAssert(err == nil, "WriteTo failed")
	}
	vWait()
	rows := []ChannelStatistic{vRow(t, a.addr), vRow(t, b.addr)}
	a.c.take()
	q := vNewPeer(a.c, []string{"10.9.9.1:5002", "10.9.9.2:50010", "10.9.9.3:5001", "10.9.9.10:5001", "1.9.9.1:5001", "10.9.9.1:500"}[vChoose("address", 6)])
	q.session = a.session
	st := []byte{vsConnect, vsServerAnswer, vsClientAnswer, vsDone, vsData, vsAck, vsPing, vsPong, vsDisconnect, vsPunch, vsData | vsSplit}[vChoose("type", 11)]
	id := vInt("id", 0, vLimit-1)
	n := len(l.msgs())
	switch st {
	case vsData, vsData | vsSplit:
		id = vConcrete(vInt("number", 0, 2))
		q.send(q.data(id, []byte("any"), st != vsData))
	case vsConnect:
		if vBool("uuid") {
			q.uuid = a.uuid
		}
		q.send(q.connectPacket())
	default:
		q.send(vHdr(st, id, vBytes("data", 0, 2)))
	}
	vWait()
	for _, d := range a.c.take() {
		vAssert(d.to == q.addr && d.data[3] == vsServerAnswer && st == vsConnect, "a packet of an unknown address was answered")
	}
	vAssert(vChannel(t, a.addr) == ca && vChannel(t, b.addr) == cb && !ca.Destroyed() && !cb.Destroyed(), "a packet of an unknown address ended a channel")
	vAssert(vRow(t, a.addr) == rows[0] && vRow(t, b.addr) == rows[1], "a packet of an unknown address changed a channel's counters")
	vAssert(len(l.msgs()) == n && len(l.errs()) == 0, "a packet of an unknown address was delivered as a channel's")
	for _, p := range []*vPeer{a, b} {
		p.send(vHdr(vsAck, 0, nil))
	}
	vWait()
	vAlive(ca, l, a, "after a packet of an unknown address")
	vAlive(cb, l, b, "after a packet of an unknown address")
	vReach("done")
}

// vCase_C15_closing: the old channel is being closed by the application at the
// moment the peer connects again: the new channel stays.
func vCase_C15_closing() {
	t, l, a := vServe()
	old := vChannel(t, a.addr)
	_, err := old.WriteTo([]byte("old"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	a.c.take()
	how := vChoose("how", 3)
	a.uuid = "again"
	a.session = []byte("another session key, 32 byte lon")
	if how == 1 {
		time.Sleep(6300 * time.Millisecond)
	}
	vSched(vBound("preemptions", 1, 2), 0)
	done := make(chan bool, 2)
	go func() {
		switch how {
		case 0:
			old.Close()
		case 1: // found silent at this moment
			vSleep(200)
		case 2:
			t.ForEachChannel(func(ch *Channel) {
				if ch == old {
					ch.Close()
				}
			})
		}
		done <- true
	}()
	if how == 1 {
		vSleep(200)
	}
	a.send(a.connectPacket())
	<-done
	vWait()
	vSched(-1, 0)
	a.send(a.answerPacket(a.expect(vsServerAnswer)))
	vWait()
	a.expect(vsDone)
	ch := vChannel(t, a.addr)
	vAssert(ch != nil && ch != old && old.Destroyed() && !ch.Destroyed(), "a reconnect did not replace the channel")
	a.next = 0
	vAlive(ch, l, a, "after a reconnect")
	vSleep(1000)
	vAssert(vChannel(t, a.addr) == ch && !ch.Destroyed(), "a replaced channel ended its successor")
	for _, e := range l.errs() {
		vAssert(e.ch == old, "the end of a replaced channel was announced as the end of its successor")
	}
	vReach("done")
}

// vCase_C15_queued: packets of the old channel wait to be sent when the peer
// connects again: they do not go out as the new channel's.
func vCase_C15_queued() {
	t, _, a := vServe()
	old := vChannel(t, a.addr)
	a.c.take()
	a.c.slow = 50 * time.Millisecond
	n := 1 + vChoose("packets", vBound("queued packets", 4, 8))
	go func() {
		for i := 0; i < n; i++ {
			old.WriteTo([]byte("old"))
		}
	}()
	if vBool("answers") {
		a.send(a.data(0, []byte("x"), false))
		a.send(vHdr(vsPing, 0, nil))
	}
	vSleep(10 + 50*vChoose("moment (50 ms)", 2))
	closed := vBool("closed before")
	if closed {
		old.Close()
	}
	a.c.take()
	a.uuid = "again"
	a.send(a.connectPacket())
	vSleep(1000)
	vWait()
	ds := a.c.take()
	sa := a.got(ds, vsServerAnswer)
	vAssert(len(sa) == 1, "a reconnect was not answered")
	vAssert(len(ds) <= 2, "what waited to be sent on a replaced channel is sent on its successor")
	a.c.slow = 0
	a.next = 0
	a.send(a.answerPacket(sa[0].data))
	vSleep(1000)
	vWait()
	ds = a.c.take()
	vAssert(len(ds) == 1 && len(a.got(ds, vsDone)) == 1, "what waited to be sent on a replaced channel is sent on its successor")
	ch := vChannel(t, a.addr)
	vAssert(ch != nil && ch != old, "a reconnect did not replace the channel")
	id, err := ch.WriteTo([]byte("new"))
	vAssert(err == nil && id == 0, "a replaced channel changed the packet numbers of its successor")
	vReach("done")
}

// vCase_C15_clients: an endpoint that is the client of several servers, and a
// server besides: its channels are as separate as any.
func vCase_C15_clients() {
	l := &vReaderLog{ret: true}
	ls := []*vReaderLog{{ret: true}, {ret: true}, l}
	t, c := vNewTru(7000, ReaderFunc(l.read))
	ps := []*vPeer{vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, []string{"10.9.9.2:5001", "10.9.9.1:5002"}[vChoose("second peer", 2)]), vNewPeer(c, "10.9.9.3:5001")}
	var chs []*Channel
	for i, p := range ps[:2] {
		r := make(chan *Channel, 1)
		go func(a string, rd ReaderFunc) {
			ch, err := t.Connect(a, rd)
			vAssert(err == nil && ch != nil, "Connect failed although the server answered")
			r <- ch
		}(p.addr, ls[i].read)
		vWait()
		p.serveConnect()
		chs = append(chs, <-r)
	}
	vAssert(string(ps[0].session) != string(ps[1].session), "two connections have the same session key")
	ps[2].dial()
	chs = append(chs, vChannel(t, ps[2].addr))
	ids := []int{0, 0, 0}
	for k := 0; k < vBound("events", 3, 4); k++ {
		i := vChoose("which", 3)
		c.take()
		switch vChoose("event", 3) {
		case 0:
			id, err := chs[i].WriteTo([]byte("m"))
			vAssert(err == nil && id == ids[i], "another channel changed the packet numbers of a channel")
			ids[i]++
			vWait()
			ds := c.take()
			fs := vFrags(ps[i], ds)
			vAssert(len(ds) == 1 && len(fs) == 1 && string(fs[0].body) == "m", "a message was not sent to its channel's peer only")
			ps[i].send(vHdr(vsAck, id, nil))
			vWait()
		case 1:
			n := len(ls[i].msgs())
			id := ps[i].sendMsg([]byte("r"))
			vWait()
			m := ls[i].msgs()
			vAssert(len(m) == n+1 && m[n].ch == chs[i] && string(m[n].data) == "r" && m[n].id == id, "a message was not given to its channel's reader")
			ds := c.take()
			vAssert(len(ds) == 1 && len(ps[i].got(ds, vsAck)) == 1, "a message was not acknowledged to its channel's peer only")
		case 2: // an acknowledgement of what another channel has sent or not
			r := vRow(t, ps[i].addr)
			ps[i].send(vHdr(vsAck, ids[(i+1)%3], nil))
			vWait()
			x := vRow(t, ps[i].addr)
			vAssert(x.AckD == r.AckD+1 && x.Ack == r.Ack, "another channel's packet was acknowledged")
		}
		for j := range chs {
			vAssert(vRow(t, ps[j].addr).Send == int64(ids[j]), "a channel counts what another has sent")
		}
	}
	vReach("done")
}
