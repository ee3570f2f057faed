package tru

import (
	"time"
)

// C13: idle peers are pinged and dead peers dropped, live ones kept.

// vSign is something the peer may send on an established connection.
func vSign(p *vPeer, kind int) {
	switch kind {
	case 0:
		p.send(vHdr(vsPing, 0, nil))
	case 1:
		p.send(vHdr(vsPong, 0, nil))
	case 2: // the next message
		p.sendMsg([]byte("m"))
	case 3: // an acknowledgement of nothing
		p.send(vHdr(vsAck, 77, nil))
	case 4: // a part of a message
		p.send(p.data(p.next, []byte("m"), true))
		p.next++
	case 5: // an early packet
		p.send(p.data(p.next+3, []byte("m"), false))
	}
	vWait()
}

// vCase_C13_dead: the last sign of life comes at any moment between two checks:
// the channel lives for 6 seconds after it, and no longer than until the next
// check.
func vCase_C13_dead() {
	client := vBool("client")
	t, ch, l, p := vSide(client)
	kind := vChoose("sign", 6)
	vSign(p, 2)
	time.Sleep(time.Duration(vInt("moment (ns)", 0, vBound("moment of the last sign of life (ns)", 60_000_000, 510_000_000))))
	vSign(p, kind)
	last := time.Now()
	time.Sleep(6*time.Second - time.Since(last))
	vWait()
	vAssert(!ch.Destroyed() && vChannel(t, p.addr) == ch, "a channel was dropped although its peer was heard in the last 6 seconds")
	vAssert(len(l.errs()) == 0, "a reader was told of a loss although the peer was heard in the last 6 seconds")
	time.Sleep(500*time.Millisecond + time.Microsecond)
	vWait()
	vAssert(ch.Destroyed() && vChannel(t, p.addr) == nil, "a channel that heard nothing for 6 seconds was kept past the next check")
	vAssert(len(l.errs()) == 1 && l.errs()[0].err == ErrChannelDestroyed, "the reader was not told once that the channel was dropped")
	n := len(t.Statistic())
	vAssert(n == 0, "a dropped channel is listed")
	time.Sleep(8 * time.Second)
	vWait()
	vAssert(len(l.errs()) == 1, "the reader was told more than once that the channel was dropped")
	vReach("done")
}

// vCase_C13_silent: the peer is silent from the start of the connection.
func vCase_C13_silent() {
	client := vBool("client")
	t, ch, l, p := vSide(client)
	t0 := time.Now()
	time.Sleep(5900 * time.Millisecond)
	vWait()
	vAssert(!ch.Destroyed(), "a new channel was dropped before 6 seconds of silence")
	time.Sleep(700 * time.Millisecond)
	vWait()
	vAssert(ch.Destroyed() && vChannel(t, p.addr) == nil, "a channel silent from the start was kept")
	vAssert(len(l.errs()) == 1, "the reader was not told once that the channel was dropped")
	_ = t0
	vReach("done")
}

// vCase_C13_alive: signs of life at any moments not more than 6 seconds apart
// keep the channel.
func vCase_C13_alive() {
	client := vBool("client")
	_, ch, l, p := vSide(client)
	kind := vChoose("sign", 6)
	vSign(p, 2)
	lo := vBound("shortest gap (ns, of at most 6 s)", 5_920_000_000, 5_600_000_000)
	for i := 0; i < 2; i++ {
		t0 := time.Now()
		time.Sleep(time.Duration(vInt("gap (ns)", lo, 6_000_000_000)))
		vWait()
		vAssert(time.Since(t0) <= 6*time.Second, "harness: waited too long")
		vAssert(!ch.Destroyed(), "a channel was dropped although its peer was heard in the last 6 seconds")
		vSign(p, kind)
	}
	time.Sleep(3 * time.Second)
	vWait()
	vAssert(!ch.Destroyed(), "a channel was dropped although its peer was heard in the last 6 seconds")
	vAssert(len(l.errs()) == 0, "a reader was told of a loss although the peer was heard in the last 6 seconds")
	vReach("done")
}

// vCase_C13_ping: pings start after 4 seconds of silence, at each check, in
// client mode only, and stop when the peer is heard.
func vCase_C13_ping() {
	client := vBool("client")
	_, ch, _, p := vSide(client)
	time.Sleep(time.Duration(vInt("moment (ns)", 0, vBound("moment of the last sign of life (ns)", 60_000_000, 510_000_000))))
	vSign(p, 0)
	last := time.Now()
	p.c.take()
	time.Sleep(4 * time.Second)
	vWait()
	vAssert(len(p.got(p.c.take(), vsPing)) == 0, "a ping was sent although the peer was heard in the last 4 seconds")
	// three checks
	time.Sleep(1500*time.Millisecond + time.Microsecond)
	vWait()
	pings := p.got(p.c.take(), vsPing)
	if !client {
		vAssert(len(pings) == 0, "a server channel sent a ping")
	} else {
		vAssert(len(pings) == 3 || len(pings) == 4, "a silent client channel did not send one ping at each check")
		for i := range pings {
			if i > 0 {
				vAssert(pings[i].at.Sub(pings[i-1].at) >= 500*time.Millisecond, "pings are sent more often than the checks")
			}
		}
	}
	vAssert(!ch.Destroyed() && time.Since(last) < 6*time.Second, "a channel was dropped although its peer was heard in the last 6 seconds")
	vSign(p, 1)
	p.c.take()
	time.Sleep(3900 * time.Millisecond)
	vWait()
	vAssert(len(p.got(p.c.take(), vsPing)) == 0, "pings go on although the peer was heard")
	vAssert(!ch.Destroyed(), "a channel was dropped although its peer was heard")
	vReach("done")
}

// vCase_C13_pong: a ping of any number and content is answered with one pong; a
// pong is not answered.
func vCase_C13_pong() {
	client := vBool("client")
	_, ch, l, p := vSide(client)
	p.c.take()
	pong := vBool("pong")
	st := byte(vsPing)
	if pong {
		st = vsPong
	}
	switch vChoose("busy", 3) {
	case 1: // something is waiting for its acknowledgement
		_, err := ch.WriteTo([]byte("pending"))
		vAssert(err == nil, "WriteTo failed")
	case 2: // something is held back
		p.send(p.data(1, []byte("early"), false))
		p.send(p.data(3, []byte("early"), true))
	}
	vWait()
	p.c.take()
	n := len(l.msgs())
	p.send(vHdr(st, vInt("id", 0, vLimit-1), vBytes("data", 0, 3)))
	vWait()
	ds := p.c.take()
	if pong {
		vAssert(len(ds) == 0, "a pong was answered")
	} else {
		vAssert(len(ds) == 1 && len(p.got(ds, vsPong)) == 1, "a ping was not answered with exactly one pong")
	}
	vAssert(len(l.msgs()) == n, "a ping or pong was delivered as a message")
	vReach("done")
}

// vCase_C13_idle: two endpoints that have nothing to say stay connected, also
// when a network fault hits the pings.
func vCase_C13_idle() {
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	_, b, ch, ca, _ := vPair(cl, sl)
	if vBool("said") {
		_, err := ch.WriteTo([]byte("hi"))
		vAssert(err == nil, "WriteTo failed")
		vWait()
	}
	vFaults(vBound("faults", 2, 3), vBound("fault window (datagrams)", 4, 6))
	for i := 0; i < 6; i++ {
		time.Sleep(4 * time.Second)
		vWait()
		vAssert(!ch.Destroyed() && vChannel(b, ca.addr.String()) != nil, "an idle connection was dropped")
	}
	vAssert(len(cl.errs())+len(sl.errs()) == 0, "an idle connection was dropped")
	id, err := ch.WriteTo([]byte("still there"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	m := sl.msgs()
	vAssert(len(m) > 0 && string(m[len(m)-1].data) == "still there" && m[len(m)-1].id == id, "an idle connection does not carry messages")
	vReach("done")
}

// vCase_C13_other: what other peers send does not keep a dead peer's channel.
func vCase_C13_other() {
	t, l, p := vServe()
	ch := vChannel(t, p.addr)
	q := vNewPeer(p.c, "10.9.9.2:5001")
	q.dial()
	for i := 0; i < 3; i++ {
		time.Sleep(2200 * time.Millisecond)
		vSign(q, vChoose("sign", 3))
	}
	vWait()
	vAssert(ch.Destroyed() && vChannel(t, p.addr) == nil, "a silent peer's channel was kept by another peer's traffic")
	qc := vChannel(t, q.addr)
	vAssert(qc != nil && !qc.Destroyed(), "a live peer's channel was dropped")
	vAssert(len(l.errs()) == 1 && l.errs()[0].ch == ch, "the reader was not told once of the dead peer's channel")
	vReach("done")
}

// vCase_C13_talk: what the endpoint itself sends is no sign of life of the
// peer: a client that goes on writing pings a silent peer all the same, and the
// channel is dropped in time.
func vCase_C13_talk() {
	client := vBool("client")
	t, ch, l, p := vSide(client)
	vSign(p, 0)
	t0 := time.Now()
	p.c.take()
	write := func() {
		if ch.Destroyed() {
			return
		}
		_, err := ch.WriteTo([]byte("m"))
		vAssert(err == nil || ch.Destroyed(), "WriteTo failed")
	}
	first := vChoose("first write (100 ms)", vBound("moments of the first write", 4, 8))
	vSleep(100 * first)
	for time.Since(t0) < 3900*time.Millisecond {
		write()
		vSleep(700)
	}
	vWait()
	time.Sleep(t0.Add(4100 * time.Millisecond).Sub(time.Now()))
	vWait()
	p.c.take()
	step := time.Duration(150+100*vChoose("pause (100 ms)", 3)) * time.Millisecond
	for time.Since(t0) < 5600*time.Millisecond {
		write()
		time.Sleep(step)
	}
	vWait()
	pings := p.got(p.c.take(), vsPing)
	if client {
		vAssert(len(pings) >= 2, "a client that writes to a silent peer does not send a ping at each check")
	} else {
		vAssert(len(pings) == 0, "a server channel sent a ping")
	}
	time.Sleep(t0.Add(5990 * time.Millisecond).Sub(time.Now()))
	vWait()
	vAssert(!ch.Destroyed(), "a channel was dropped although its peer was heard in the last 6 seconds")
	for time.Since(t0) < 6550*time.Millisecond {
		write()
		vSleep(100)
	}
	vWait()
	vAssert(ch.Destroyed() && vChannel(t, p.addr) == nil, "a channel that heard nothing for 6 seconds is kept while it is written to")
	vAssert(len(l.errs()) == 1, "the reader was not told once that the channel was dropped")
	vReach("done")
}
