package tru

import (
	"net"
	"strconv"
	"sync"
)

// C31: callbacks may use the endpoint they are called from.

// vUse does one of the operations on the endpoint; other is a channel the
// callback was not called for, own the one it was called for (nil: none).
func vUse(op int, t *Tru, own, other *Channel) {
	switch op {
	case 0:
		_, err := other.WriteTo([]byte("from the callback"))
		vAssert(err == nil, "a callback cannot write to a channel")
	case 1:
		st := t.Statistic()
		vAssert(len(st) > 0, "a callback does not see the statistics")
		_ = st.NumRows()
	case 2:
		n := 0
		t.ForEachChannel(func(ch *Channel) {
			vAssert(ch != nil, "a callback iterates over a channel that is not there")
			_ = ch.Addr().String()
			n++
		})
		vAssert(n > 0, "a callback does not see the channels")
	case 3:
		other.Close()
		vAssert(other.Destroyed(), "a callback cannot close a channel")
	case 4:
		if own != nil {
			own.Close()
			vAssert(own.Destroyed(), "a callback cannot close its channel")
		}
	case 5:
		if own != nil {
			_, err := own.WriteTo([]byte("from the callback"), func(*Packet, error) {})
			vAssert(err == nil || own.Destroyed(), "a callback cannot write to its channel")
		}
	case 6:
		for i := 0; i < 25; i++ { // more than any queue holds
			_, err := other.WriteTo([]byte("from the callback " + strconv.Itoa(i)))
			vAssert(err == nil, "a callback cannot write to a channel")
		}
	case 7:
		t.ForEachChannel(func(ch *Channel) { ch.Close() })
	case 8:
		a, err := t.WriteToPunch([]byte("punch"), "10.9.9.9:5001")
		vAssert(err == nil && a != nil, "a callback cannot send a punch packet")
	}
}

const vUses = 9

// vCase_C31_all: each kind of callback does each operation; the callback
// returns and the endpoint goes on.
func vCase_C31_all() {
	var t *Tru
	var other *Channel
	op := vChoose("operation", vUses)
	op2 := op
	if vBool("two operations") {
		op2 = vChoose("second operation", 6)
	} else {
		op2 = -1
	}
	kind := []string{"reader", "own reader", "connect", "punch", "delivery", "delivery timeout", "destroyed", "own destroyed"}[vChoose("callback", 8)]
	armed := false
	ran, returned := 0, 0
	use := func(own *Channel) {
		if !armed {
			return
		}
		armed = false
		ran++
		vUse(op, t, own, other)
		if op2 >= 0 && !other.Destroyed() {
			vUse(op2, t, own, other)
		}
		returned++
	}
	l := &vReaderLog{ret: true}
	par := []interface{}{
		ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
			if kind == "reader" && err == nil || kind == "destroyed" && err != nil {
				use(ch)
			}
			return l.read(ch, pac, err)
		}),
		ConnectFunc(func(ch *Channel, err error) {
			if kind == "connect" {
				use(ch)
			}
		}),
		PunchFunc(func(a net.Addr, data []byte) {
			if kind == "punch" {
				use(nil)
			}
		}),
	}
	var c *vConn
	t, c = vNewTru(7000, par...)
	po := vNewPeer(c, "10.9.9.8:5001")
	po.dial()
	other = vChannel(t, po.addr)
	var p *vPeer
	var ch *Channel
	if kind != "connect" {
		p = vNewPeer(c, "10.9.9.1:5001")
		p.dial()
		ch = vChannel(t, p.addr)
		vSetReader(ch, func(ch *Channel, pac *Packet, err error) bool {
			if kind == "own reader" && err == nil || kind == "own destroyed" && err != nil {
				use(ch)
			}
			return false
		})
	}
	armed = true
	switch kind {
	case "reader", "own reader":
		p.sendMsg([]byte("x"))
	case "connect":
		p = vNewPeer(c, "10.9.9.1:5001")
		p.send(p.connectPacket())
		vWait()
		p.send(p.answerPacket(p.expect(vsServerAnswer)))
	case "punch":
		p.send(vHdr(vsPunch, 0, []byte("p")))
	case "delivery":
		id, err := ch.WriteTo([]byte("x"), func(*Packet, error) { use(ch) })
		vAssert(err == nil, "WriteTo failed")
		vWait()
		p.send(vHdr(vsAck, id, nil))
	case "delivery timeout":
		_, err := ch.WriteTo([]byte("x"), vMS(20), func(*Packet, error) { use(ch) })
		vAssert(err == nil, "WriteTo failed")
		vSleep(21)
	case "destroyed", "own destroyed":
		if vBool("by the peer") {
			p.send(vHdr(vsDisconnect, 0, nil))
		} else {
			ch.Close()
		}
	}
	vWait()
	vAssert(ran == 1, "the callback is not called once")
	vAssert(returned == 1, "the callback does not return")
	// the endpoint goes on: a third peer connects, talks and is answered
	q := vNewPeer(c, "10.9.9.3:5001")
	q.dial()
	cq := vChannel(t, q.addr)
	vAssert(cq != nil, "no peer can connect after the callback")
	vAlive(cq, l, q, "after the callback")
	if op2 < 0 && (op == 0 || op == 6) {
		n := 0
		for range po.got(c.sent, vsData) {
			n++
		}
		vAssert(n >= []int{1, 0, 0, 0, 0, 0, 25}[op], "what a callback writes is not sent")
	}
	if op2 < 0 && op != 4 && op != 7 && kind != "destroyed" && kind != "own destroyed" {
		vAssert(vChannel(t, p.addr) != nil, "the channel of the callback is lost")
	}
	vReach("done")
}

// vCase_C31_connect: the connect callback is called once for each connection
// that is established, when data can be exchanged: what it writes at once
// arrives after the connect done packet, encrypted with the session key; data
// the peer sends as soon as it is connected is delivered.
func vCase_C31_connect() {
	n := vConcrete(vInt("peers", 1, 2))
	reconnect := vBool("reconnect")
	repeat := vBool("repeated packets")
	calls := map[string]int{}
	l := &vReaderLog{ret: true}
	_, c := vNewTru(7000, ReaderFunc(l.read), ConnectFunc(func(ch *Channel, err error) {
		vAssert(ch != nil && err == nil, "the connect callback is called without a channel")
		calls[ch.Addr().String()]++
		_, werr := ch.WriteTo([]byte("welcome"))
		vAssert(werr == nil, "the connect callback cannot write to its channel")
	}))
	for i := 0; i < n; i++ {
		p := vNewPeer(c, "10.9.9."+strconv.Itoa(i+1)+":5001")
		rounds := 1 + b2i(reconnect)
		for r := 0; r < rounds; r++ {
			p.uuid = p.addr + strconv.Itoa(r)
			p.send(p.connectPacket())
			if repeat {
				p.send(p.connectPacket())
			}
			vWait()
			vAssert(calls[p.addr] == r, "the connect callback is called before the connection is established")
			sa := p.expect(vsServerAnswer)
			ca := p.answerPacket(sa)
			p.send(ca)
			if repeat {
				p.send(ca)
			}
			p.send(p.data(0, []byte("at once"), false))
			vWait()
			vAssert(calls[p.addr] == r+1, "the connect callback is not called once for a connection")
			done, data := -1, -1
			for k, d := range c.take() {
				if d.to != p.addr {
					continue
				}
				if d.data[3] == vsDone && done < 0 {
					done = k
				}
				if d.data[3] == vsData && data < 0 {
					data = k
					b, ok := vDec(p.session, 0, d.data[4:])
					vAssert(ok && string(b) == "welcome", "what the connect callback writes is not encrypted with the session key")
				}
			}
			vAssert(done >= 0 && data > done, "data is sent before the peer knows that it is connected")
			got := 0
			for _, m := range l.msgs() {
				got += b2i(m.ch.Addr().String() == p.addr)
			}
			vAssert(got == r+1, "data sent as soon as the connection is established is lost")
		}
	}
	vReach("done")
}

// vCase_C31_race: channels come and go while an application goroutine iterates
// over them, closes them and reads the statistics, under every schedule within
// the bound.
func vCase_C31_race() {
	t, _, a, b, ca, cb := vTwoPeers()
	q := vNewPeer(a.c, "10.9.9.3:5001")
	mode := vChoose("mode", 4)
	vMapOrder(mode == 0)
	vSched(vBound("preemptions", 1, 2), 0)
	switch mode {
	case 0:
		a.send(vHdr(vsDisconnect, 0, nil))
		b.send(vHdr(vsDisconnect, 0, nil))
	case 1:
		a.send(vHdr(vsDisconnect, 0, nil))
		q.send(q.connectPacket())
	case 2:
		a.uuid = "again"
		a.send(a.connectPacket())
	case 3:
		go cb.Close()
	}
	seen := map[*Channel]int{}
	t.ForEachChannel(func(ch *Channel) {
		vAssert(ch != nil, "ForEachChannel calls its function without a channel")
		seen[ch]++
		if mode == 3 {
			ch.Close()
		}
	})
	for _, n := range seen {
		vAssert(n == 1, "ForEachChannel calls its function twice for a channel")
	}
	st := t.Statistic()
	vAssert(len(st) <= 3, "the statistics list a channel twice")
	vWait()
	vSched(-1, 0)
	vMapOrder(false)
	if mode == 3 {
		vAssert(ca.Destroyed() && cb.Destroyed(), "ForEachChannel leaves a channel out")
	}
	vReach("done")
}

// vCase_C31_nested: a function called by ForEachChannel calls it again.
func vCase_C31_nested() {
	t, _, _, _, _, _ := vTwoPeers()
	n := 0
	var mu sync.Mutex
	t.ForEachChannel(func(ch *Channel) {
		t.ForEachChannel(func(ch2 *Channel) {
			mu.Lock()
			defer mu.Unlock()
			vAssert(ch2 != nil, "ForEachChannel calls its function without a channel")
			n++
		})
	})
	vAssert(n == 4, "ForEachChannel leaves a channel out")
	n = 0
	t.ForEachChannel(func(ch *Channel) {
		n++
		t.ForEachChannel(func(ch2 *Channel) {
			if ch2 != nil && ch2 != ch {
				ch2.Close()
			}
		})
	})
	vAssert(len(t.Statistic()) <= 1, "channels cannot be closed while iterating")
	vReach("done")
}

// vCase_C31_flood: more messages arrive at once, on two channels, than any
// queue holds, and the reader answers each several times.
func vCase_C31_flood() {
	n := vBound("messages", 15, 40)
	answers := 1 + vChoose("answers", 3)
	got := 0
	t, c := vNewTru(7000, ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err != nil {
			return false
		}
		got++
		for i := 0; i < answers; i++ {
			_, err := ch.WriteTo([]byte("answer"))
			vAssert(err == nil, "a callback cannot write to its channel")
		}
		_ = t0Stat(ch)
		return true
	}))
	vTheTru = t
	var ps []*vPeer
	for _, a := range []string{"10.9.9.1:5001", "10.9.9.2:5001"} {
		p := vNewPeer(c, a)
		p.dial()
		ps = append(ps, p)
	}
	c.take()
	vSched(0, 0)
	for i := 0; i < n; i++ {
		for _, p := range ps {
			p.sendMsg([]byte("question"))
		}
	}
	vWait()
	vSched(-1, 0)
	vAssert(got == 2*n, "messages are lost when the reader is busy")
	ds := c.take()
	for _, p := range ps {
		vAssert(len(p.got(ds, vsAck)) == n, "messages are not acknowledged when the reader is busy")
		vAssert(len(p.got(ds, vsData)) == n*answers, "what a callback writes is not sent")
	}
	vReach("done")
}

var vTheTru *Tru

func t0Stat(ch *Channel) int { return len(vTheTru.Statistic()) }
