package tru

import (
	"time"
)

// C09: no datagram can crash or wedge an endpoint.

// vVictim is a server endpoint with an established connection (good) and, at
// the address under attack, a connection in one of the states.
type vVictim struct {
	t      *Tru
	l      *vReaderLog
	good   *vPeer
	goodCh *Channel
	bad    *vPeer // speaks from the address under attack
	state  int
	conErr error
	conCh  *Channel
	conRet bool
	sa, ca []byte
}

const (
	vNone = iota
	vHalfOpen
	vEstablished
	vConnecting // we sent connect to it
	vAnswered   // it answered, connect done is missing
	vClientUp   // established by our Connect
	vStates
)

func vMakeVictim(state int) *vVictim {
	v := &vVictim{state: state}
	v.t, v.l, v.good = vServe()
	v.goodCh = vChannel(v.t, v.good.addr)
	v.bad = vNewPeer(v.good.c, "10.9.9.66:6666")
	b := v.bad
	switch state {
	case vHalfOpen:
		b.send(b.connectPacket())
		vWait()
	case vEstablished:
		b.dial()
	case vConnecting, vAnswered, vClientUp:
		go func() {
			v.conCh, v.conErr = v.t.Connect(b.addr)
			v.conRet = true
		}()
		vWait()
		v.sa = b.serverAnswer(b.expect(vsConnect))
		if state == vConnecting {
			break
		}
		b.send(v.sa)
		vWait()
		v.ca = b.connectDone(b.expect(vsClientAnswer))
		if state == vAnswered {
			break
		}
		b.send(v.ca)
		vWait()
		vAssert(v.conRet && v.conErr == nil, "Connect failed although the server answered")
	}
	vWait()
	v.good.c.take()
	return v
}

// check verifies that the endpoint still serves.
func (v *vVictim) check() {
	vAssert(vChannel(v.t, v.good.addr) == v.goodCh && !v.goodCh.Destroyed(), "a datagram of another peer destroyed an established connection")
	vAlive(v.goodCh, v.l, v.good, "after a hostile datagram")
	n := vNewPeer(v.good.c, "10.9.9.77:7777")
	n.dial()
	vAlive(vChannel(v.t, n.addr), v.l, n, "a new connection after a hostile datagram")
}

// vCase_C09_any: any header and any short body, in every state.
func vCase_C09_any() {
	v := vMakeVictim(vChoose("state", vStates))
	d := vBytes("datagram", 1, vBound("datagram bytes", 10, 16))
	before := len(v.t.Statistic())
	n := len(v.l.msgs())
	v.bad.send(d)
	vWait()
	out := v.good.c.take()
	st := v.state
	short := len(d) < 4
	if short {
		vAssert(len(out) == 0, "a datagram too short to be a packet was answered")
		vAssert(len(v.t.Statistic()) == before, "a datagram too short to be a packet changed the connections")
		vReach("short")
	} else if d[3] > vsPunch && d[3] != vsData|vsSplit {
		vAssert(len(out) == 0, "a packet of unknown type was answered")
		vAssert(len(v.t.Statistic()) == before, "a packet of unknown type changed the connections")
		vReach("unknown")
	} else if (st == vNone || st == vHalfOpen || st == vConnecting) && d[3] > vsDone {
		vAssert(len(out) == 0, "a packet that needs a connection was answered without one")
		vAssert(len(v.t.Statistic()) == before, "a packet that needs a connection changed the connections")
		vAssert(len(v.l.msgs()) == n, "a packet that needs a connection was delivered without one")
		vReach("unconnected")
	} else if d[3] <= vsDone {
		vAssert(len(out) == 0, "a malformed handshake packet was answered")
		vAssert(len(v.t.Statistic()) == before, "a malformed handshake packet changed the connections")
		vReach("handshake")
	}
	v.check()
	vReach("done")
}

// vCase_C09_data: data packets with any content and size on an established
// connection: nothing that is not authentic does harm.
func vCase_C09_data() {
	v := vMakeVictim([]int{vEstablished, vClientUp}[vChoose("state", 2)])
	n := []int{0, 1, 16, 64, 65, 76, 77, 93, 200}[vChoose("size", 9)]
	more := vBool("more")
	st := byte(vsData)
	if more {
		st |= vsSplit
	}
	off := vInt("off", -1, 1)
	v.bad.send(vHdr(st, vWrap(off), vBytes("body", n, n)))
	v.bad.send(vHdr(vsAck, vInt("ack", 0, 0xffffff), vBytes("ackbody", 0, 3)))
	vWait()
	v.check()
	vReach("done")
}

// vCase_C09_connect: connect packets and client answers with a mangled
// structure: any id length, cut or extended, key text changed at any place.
func vCase_C09_connect() {
	v := vMakeVictim([]int{vNone, vHalfOpen, vEstablished, vClientUp}[vChoose("state", 4)])
	b := v.bad
	full := b.connectPacket()
	switch vChoose("how", 4) {
	case 0: // any id length
		full[4] = byte(vConcrete(int(vU8("idlen"))))
	case 1: // cut anywhere
		k := vConcrete(vInt("cut", 0, 40))
		full = full[:len(full)-k]
	case 2: // begin line changed
		i := vConcrete(vInt("at", 0, 30))
		full[5+len(b.uuid)+i] ^= 1 << vConcrete(vInt("bit", 0, 6))
	case 3: // other key material
		full = vHdr(vsConnect, 0, vConnData("u", []byte("-----BEGIN RSA PUBLIC KEY-----\nAAAA\n-----END RSA PUBLIC KEY-----\n")))
	}
	b.send(full)
	vWait()
	v.check()
	vReach("done")
}

// vCase_C09_many: a hostile peer sends a lot of packets at once, of any kind it
// likes: the endpoint works off all of them.
func vCase_C09_many() {
	v := vMakeVictim([]int{vNone, vEstablished}[vChoose("state", 2)])
	st := []byte{vsConnect, vsServerAnswer, vsClientAnswer, vsDone, vsData, vsAck, vsPing, vsPong, vsPunch, vsData | vsSplit, 77}[vChoose("type", 11)]
	for i := 0; i < 60; i++ {
		switch st {
		case vsData, vsData | vsSplit:
			v.bad.send(v.bad.data(i, []byte{byte(i)}, st != vsData))
		case vsConnect:
			v.bad.uuid = "flood" + string(rune('a'+i%3))
			v.bad.send(v.bad.connectPacket())
		default:
			v.bad.send(vHdr(st, i, []byte{1, 2, 3}))
		}
	}
	vWait()
	v.check()
	vReach("done")
}

// vCase_C09_slow: a hostile datagram followed by silence: after the timeouts the
// endpoint still serves.
func vCase_C09_slow() {
	v := vMakeVictim(vChoose("state", vStates))
	if vBool("connect") {
		v.bad.uuid = "again"
		v.bad.send(v.bad.connectPacket())
	} else {
		v.bad.send(vHdr(byte(vChoose("type", 11)), 0, []byte("rubbish")))
	}
	for i := 0; i < 5; i++ {
		vWait()
		v.good.send(vHdr(vsPing, 0, nil))
		time.Sleep(2 * time.Second)
	}
	v.check()
	vAssert(len(v.t.Statistic()) == 2, "a silent hostile peer's connection is kept")
	vReach("done")
}
