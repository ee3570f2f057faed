package tru

import (
	"time"
)

// C10: the handshake gives both ends the same key and survives duplicates.

// vCase_C10_both: two endpoints over a network that may lose, duplicate or delay
// any handshake datagram: if Connect succeeds, data flows both ways.
func vCase_C10_both() {
	sl, cl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	b, cb := vNewTru(7000, ReaderFunc(sl.read))
	a, ca := vNewTru(0)
	vFaults(vBound("faults", 2, 3), 5)
	ch, err := a.Connect(cb.addr.String(), cl.read)
	vNet.policy = nil
	if err != nil {
		vAssert(ch == nil, "Connect returned an error and a channel")
		vReach("error")
		return
	}
	time.Sleep(100 * time.Millisecond)
	vWait()
	back := vChannel(b, ca.addr.String())
	vAssert(back != nil && !ch.Destroyed(), "Connect succeeded but one end has no channel")
	m1 := vBytes("to server", 5, 5)
	m2 := vBytes("to client", 70, 70)
	_, err = ch.WriteTo(m1)
	vAssert(err == nil, "WriteTo failed")
	_, err = back.WriteTo(m2)
	vAssert(err == nil, "WriteTo failed")
	time.Sleep(500 * time.Millisecond)
	vWait()
	s, c := sl.msgs(), cl.msgs()
	vAssert(len(s) == 1 && len(c) == 1, "after Connect a message does not arrive exactly once at the other end")
	vAssertSame(s[0].data, m1, "after Connect a message arrives changed at the server")
	vAssertSame(c[0].data, m2, "after Connect a message arrives changed at the client")
	vReach("connected")
}

// vStray returns a stray handshake packet. own are the packets of the finished
// handshake, in order.
func vStray(p *vPeer, own [][]byte) []byte {
	other := "no-such-connection"
	q := *p
	q.session = []byte("ANOTHER-KEY-ANOTHER-KEY-ANOTHER-")
	pub := vPubFromPEM(vServerPEM)
	switch vChoose("stray", 14) {
	case 0: // repeated connect or server answer
		return own[0]
	case 1: // repeated client answer or done
		return own[1]
	case 2:
		return vHdr(vsServerAnswer, 0, vConnData(other, vBytes("answer", 0, 8)))
	case 3:
		return vHdr(vsServerAnswer, 0, vConnData(p.uuid, vBytes("answer", 0, 8)))
	case 4:
		return vHdr(vsDone, 0, vConnData(other, nil))
	case 5:
		return vHdr(vsDone, 0, vConnData(p.uuid, nil))
	case 6: // another key for another connection
		if pub != nil {
			return vHdr(vsClientAnswer, 0, vConnData(other, vRSAEnc(pub, q.session)))
		}
		return vHdr(vsClientAnswer, 0, vConnData(other, nil))
	case 7: // no key
		return vHdr(vsClientAnswer, 0, vConnData(p.uuid, nil))
	case 8:
		return vHdr(vsClientAnswer, 0, vConnData(p.uuid, vBytes("garbage", 1, 8)))
	case 9: // connect without a key
		return vHdr(vsConnect, 0, vConnData(other, nil))
	case 13: // another key for this connection
		if pub != nil {
			return vHdr(vsClientAnswer, 0, vConnData(p.uuid, vRSAEnc(pub, q.session)))
		}
		return vHdr(vsClientAnswer, 0, vConnData(p.uuid, p.session))
	case 10: // cut short
		return vHdr(vsConnect, 0, []byte{200, 1, 2})
	case 11:
		return vHdr(vsClientAnswer, 0, nil)
	}
	return vHdr(vsServerAnswer, 0, nil)
}

// vServerPEM is the public key of the endpoint under test, when known.
var vServerPEM []byte

// vCase_C10_server: stray handshake packets of every kind reach an established
// connection of a server: it keeps its key, its channel and its numbering.
func vCase_C10_server() {
	l := &vReaderLog{ret: true}
	conn := 0
	t, c := vNewTru(7000, ReaderFunc(l.read), func(*Channel, error) { conn++ })
	p := vNewPeer(c, "10.9.9.1:5001")
	var own [][]byte
	own = append(own, p.connectPacket())
	p.send(own[0])
	vWait()
	sa := p.expect(vsServerAnswer)
	_, _, d := vParse(sa)
	_, enc := vParseConn(d)
	vServerPEM, _ = vRSADec(p.key, enc)
	own = append(own, p.answerPacket(sa))
	p.send(own[1])
	vWait()
	p.expect(vsDone)
	ch := vChannel(t, p.addr)
	vAssert(ch != nil, "the handshake did not create a connection")
	if vBool("used") {
		vAlive(ch, l, p, "after the handshake")
	}
	n := vBound("stray packets", 2, 3)
	for i := 0; i < n; i++ {
		p.send(vStray(p, own))
		vWait()
	}
	vAssert(len(l.errs()) == 0, "a stray handshake packet destroyed an established connection")
	vAssert(vChannel(t, p.addr) == ch, "a stray handshake packet replaced an established connection")
	vAlive(ch, l, p, "after a stray handshake packet")
	vAssert(conn == 1, "a stray handshake packet was announced as a connection")
	vReach("done")
}

// vCase_C10_client: the same on the client's side.
func vCase_C10_client() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	done := make(chan error, 1)
	go func() {
		x, err := t.Connect(p.addr, l.read)
		ch = x
		done <- err
	}()
	vWait()
	var own [][]byte
	own = append(own, p.serverAnswer(p.expect(vsConnect)))
	p.send(own[0])
	vWait()
	own = append(own, p.connectDone(p.expect(vsClientAnswer)))
	p.send(own[1])
	vAssert(<-done == nil, "Connect failed although the server answered")
	if vBool("used") {
		vAlive(ch, l, p, "after the handshake")
	}
	n := vBound("stray packets", 2, 3)
	for i := 0; i < n; i++ {
		p.send(vStray(p, own))
		vWait()
	}
	vAssert(len(l.errs()) == 0, "a stray handshake packet destroyed an established connection")
	vAssert(vChannel(t, p.addr) == ch, "a stray handshake packet replaced an established connection")
	vAlive(ch, l, p, "after a stray handshake packet")
	vReach("done")
}

// vCase_C10_connecting: stray handshake packets between the steps of a Connect
// neither complete it early nor prevent it.
func vCase_C10_connecting() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(0)
	p := vNewPeer(c, "10.9.9.1:5001")
	var ch *Channel
	ret := false
	var cerr error
	go func() {
		ch, cerr = t.Connect(p.addr, l.read)
		ret = true
	}()
	vWait()
	cn := p.expect(vsConnect)
	sa := p.serverAnswer(cn)
	dn := vHdr(vsDone, 0, vConnData(p.uuid, nil))
	stray := func(i int) []byte {
		switch i {
		case 0:
			return vHdr(vsServerAnswer, 0, vConnData("no-such-connection", []byte("x")))
		case 1:
			return vHdr(vsDone, 0, vConnData("no-such-connection", nil))
		case 2:
			return vHdr(vsClientAnswer, 0, vConnData(p.uuid, nil))
		case 3:
			return vHdr(vsServerAnswer, 0, vConnData(p.uuid, []byte("garbage")))
		}
		return nil
	}
	k := vChoose("before answer", 6)
	if k == 4 {
		p.send(dn) // done before its time
	} else if k < 4 {
		p.send(stray(k))
	}
	vWait()
	vAssert(!ret, "Connect returned before the handshake was completed")
	p.send(sa)
	vWait()
	ca := p.expect(vsClientAnswer)
	p.connectDone(ca)
	switch j := vChoose("before done", 6); {
	case j < 4:
		p.send(stray(j))
	case j == 4:
		p.send(sa) // repeated
	}
	vWait()
	vAssert(!ret, "Connect returned before the handshake was completed")
	p.send(dn)
	vWait()
	vAssert(ret, "Connect did not return although the handshake was completed")
	vAssert(cerr == nil && ch != nil, "Connect failed although the handshake was completed")
	vAssert(vChannel(t, p.addr) == ch, "Connect returned another channel than the endpoint's")
	vAlive(ch, l, p, "after the handshake")
	vReach("done")
}

// vCase_C10_halfopen: on the server's side nothing but the client's answer
// completes the connection, and before it data is neither delivered nor
// acknowledged.
func vCase_C10_halfopen() {
	l := &vReaderLog{ret: true}
	conn := 0
	t, c := vNewTru(7000, ReaderFunc(l.read), func(*Channel, error) { conn++ })
	p := vNewPeer(c, "10.9.9.1:5001")
	p.send(p.connectPacket())
	vWait()
	sa := p.expect(vsServerAnswer)
	ca := p.answerPacket(sa)
	_, _, d := vParse(sa)
	_, enc := vParseConn(d)
	vServerPEM, _ = vRSADec(p.key, enc)
	pub := vPubFromPEM(vServerPEM)
	switch vChoose("stray", 7) {
	case 0:
		p.send(vHdr(vsClientAnswer, 0, vConnData("other", vRSAEnc(pub, []byte("ANOTHER-KEY-ANOTHER-KEY-ANOTHER-")))))
	case 1:
		p.send(vHdr(vsClientAnswer, 0, vConnData(p.uuid, nil)))
	case 2:
		p.send(vHdr(vsDone, 0, vConnData(p.uuid, nil)))
	case 3:
		p.send(vHdr(vsData, 0, []byte("clear text")))
	case 4:
		p.send(vHdr(vsData|vsSplit, 0, []byte("clear text")))
	case 5:
		p.send(vHdr(vsServerAnswer, 0, vConnData(p.uuid, nil)))
	case 6:
		p.send(p.connectPacket())
	}
	vWait()
	vAssert(conn == 0, "a connection was announced before its handshake was completed")
	vAssert(len(l.msgs()) == 0, "a message was delivered before the handshake was completed")
	ds := p.c.take()
	vAssert(len(p.got(ds, vsDone)) == 0, "a connection was completed without the client's answer")
	vAssert(len(p.got(ds, vsAck)) == 0, "a packet was acknowledged before the handshake was completed")
	p.send(ca)
	vWait()
	p.expect(vsDone)
	vAssert(conn == 1, "a completed connection was not announced exactly once")
	vAlive(vChannel(t, p.addr), l, p, "after the handshake")
	vReach("done")
}

// vCase_C10_reconnect: a new connect of the same peer replaces its connection,
// and stale packets of the old handshake do not disturb the new one.
func vCase_C10_reconnect() {
	t, l, p := vServe()
	old := vChannel(t, p.addr)
	oldCn := p.connectPacket()
	p.uuid = "second"
	p.session = []byte("second-key-second-key-second-key")
	p.next = 0
	cn := p.connectPacket()
	p.send(cn)
	vWait()
	sa := p.expect(vsServerAnswer)
	ca := p.answerPacket(sa)
	at := vChoose("stale", 3)
	if at == 1 {
		p.send(oldCn)
		vWait()
	}
	p.send(ca)
	vWait()
	p.expect(vsDone)
	if at == 2 {
		p.send(oldCn)
		vWait()
	}
	ch := vChannel(t, p.addr)
	vAssert(ch != nil && ch != old, "a reconnect did not make a new connection")
	vAssert(old.Destroyed(), "the connection replaced by a reconnect is still alive")
	vAlive(ch, l, p, "after a reconnect")
	vReach("done")
}

// vCase_C10_delayed: a repeated packet of a handshake comes after many other
// handshakes and some time: it still does not touch the connection.
func vCase_C10_delayed() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, ReaderFunc(l.read))
	p := vNewPeer(c, "10.9.9.1:5001")
	var own [][]byte
	own = append(own, p.connectPacket())
	p.send(own[0])
	vWait()
	own = append(own, p.answerPacket(p.expect(vsServerAnswer)))
	p.send(own[1])
	vWait()
	p.expect(vsDone)
	ch := vChannel(t, p.addr)
	vAssert(ch != nil, "the handshake did not create a connection")
	n := []int{0, vBound("other connections", 110, 400)}[vChoose("others", 2)]
	same := vBool("same address") // one peer after the other, or each its own
	for i := 0; i < n; i++ {
		a := "10.9.8.1:5001"
		if !same {
			a = "10.9.8." + string(rune('1'+i%9)) + ":" + string([]byte{'6', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		}
		q := vNewPeer(c, a)
		q.uuid = "other-" + string([]byte{byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
		q.dial()
		q.send(vHdr(vsDisconnect, 0, nil))
		if i%20 == 0 {
			p.send(vHdr(vsPing, 0, nil))
		}
	}
	for i := 0; i < []int{0, 26}[vChoose("wait", 2)]; i++ {
		vSleep(2500)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	ne := 0
	for _, e := range l.errs() {
		ne += b2i(e.ch == ch)
	}
	vAssert(ne == 0 && vChannel(t, p.addr) == ch, "a live connection was lost")
	p.send(own[vChoose("again", 2)])
	vWait()
	for _, e := range l.errs() {
		ne += b2i(e.ch == ch)
	}
	vAssert(ne == 0, "a repeated handshake packet destroyed an established connection")
	vAssert(vChannel(t, p.addr) == ch, "a repeated handshake packet replaced an established connection")
	vAlive(ch, l, p, "after a repeated handshake packet")
	vReach("done")
}
