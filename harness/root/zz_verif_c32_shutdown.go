package tru

import (
	"strconv"
	"strings"
	"time"
)

// C32: endpoint shutdown closes everything and is safe.

// vShut is what must hold when an endpoint has been closed: peers were told,
// channels are destroyed and announced once, the socket is closed, nothing
// goes on.
func vShut(t *Tru, l *vReaderLog, ps []*vPeer, chs []*Channel, ds []vDgram) {
	var c *vConn
	for i, p := range ps {
		c = p.c
		vAssert(chs[i].Destroyed(), "a channel of a closed endpoint is not closed")
		vAssert(len(p.got(ds, vsDisconnect)) == 1, "a peer of a closed endpoint is not sent one disconnect")
		n := 0
		for _, e := range l.errs() {
			if e.ch == chs[i] && e.err == ErrChannelDestroyed {
				n++
			}
		}
		vAssert(n == 1, "the common reader is not told once that a channel is destroyed")
		_, err := chs[i].WriteTo([]byte("x"))
		vAssert(err != nil, "a channel of a closed endpoint can be written to")
	}
	n := 0
	for _, e := range l.errs() {
		n += b2i(e.err == ErrTruClosed)
	}
	vAssert(n >= 1, "the common reader is not told that the endpoint is closed")
	vAssert(len(t.Statistic()) == 0, "a closed endpoint still has channels")
	if c != nil {
		vAssert(c.once, "a closed endpoint still listens")
	}
}

// vCase_C32_close: any number of channels, some already gone, with traffic
// pending or not; closed once or twice.
func vCase_C32_close() {
	l := &vReaderLog{ret: true}
	opts := []interface{}{ReaderFunc(l.read)}
	stat := vBool("statistics printed")
	if stat {
		opts = append(opts, Stat(true))
	}
	t, c := vNewTru(7000, opts...)
	n := vConcrete(vInt("channels", 0, vBound("channels", 3, 4)))
	var ps []*vPeer
	var chs []*Channel
	gone := 0
	for i := 0; i < n; i++ {
		p := vNewPeer(c, "10.9.9."+strconv.Itoa(i+1)+":5001")
		p.dial()
		ch := vChannel(t, p.addr)
		switch vChoose("state", 4) {
		case 1: // unacknowledged data
			_, err := ch.WriteTo([]byte("pending"), func(*Packet, error) {})
			vAssert(err == nil, "WriteTo failed")
		case 2: // early packets, half a message
			p.send(p.data(0, []byte("half"), true))
			p.send(p.data(3, []byte("early"), false))
		case 3: // gone already
			p.send(vHdr(vsDisconnect, 0, nil))
			vWait()
			gone++
			continue
		}
		ps = append(ps, p)
		chs = append(chs, ch)
	}
	vWait()
	if vBool("later") {
		vSleep(350)
	}
	if vBool("half connected") {
		p := vNewPeer(c, "10.9.9.100:5001")
		p.send(p.connectPacket())
		vWait()
		ch := vChannel(t, p.addr)
		vAssert(ch != nil, "a connect packet creates no channel")
		ps = append(ps, p)
		chs = append(chs, ch)
	}
	c.take()
	vMapOrder(true)
	t.Close()
	vMapOrder(false)
	vWait()
	vShut(t, l, ps, chs, c.take())
	vStdoutTake()
	if vBool("again") {
		t.Close()
		vWait()
		vAssert(len(c.take()) == 0, "closing a second time sends datagrams")
	}
	// nothing goes on: no datagrams, no timers, no printing
	c.inject("10.9.9.1:5001", vHdr(vsPing, 0, nil))
	vSleep(7000)
	vWait()
	vAssert(len(c.take()) == 0, "a closed endpoint sends datagrams")
	vAssert(!strings.Contains(vStdoutTake(), "TRU 10."), "a closed endpoint prints its statistics")
	if !vNative() {
		vAssert(vTimers() == 0, "a closed endpoint leaves timers running")
	}
	vReach("done")
}

// vCase_C32_client: a client endpoint with a channel.
func vCase_C32_client() {
	l := &vReaderLog{ret: true}
	t, ch, p := vClient(l, ReaderFunc(l.read))
	if vBool("pending") {
		_, err := ch.WriteTo([]byte("pending"))
		vAssert(err == nil, "WriteTo failed")
		vWait()
	}
	p.c.take()
	t.Close()
	vWait()
	vAssert(ch.Destroyed(), "a channel of a closed endpoint is not closed")
	vAssert(len(p.got(p.c.take(), vsDisconnect)) == 1, "a peer of a closed endpoint is not sent one disconnect")
	vAssert(p.c.once, "a closed endpoint still listens")
	if vBool("again") {
		t.Close()
	}
	_, err := t.Connect(p.addr)
	vAssert(err != nil, "a closed endpoint connects")
	if !vNative() {
		vWait()
		vAssert(vTimers() == 0, "a closed endpoint leaves timers running")
	}
	vReach("done")
}

// vCase_C32_race: channels come and go, and the endpoint is closed once more,
// at the moment it is closed, under every schedule within the bound.
func vCase_C32_race() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, ReaderFunc(l.read))
	a := vNewPeer(c, "10.9.9.1:5001")
	a.dial()
	b := vNewPeer(c, "10.9.9.2:5001")
	b.dial()
	ca, cb := vChannel(t, a.addr), vChannel(t, b.addr)
	mode := vChoose("mode", 5)
	c.take()
	q := vNewPeer(c, "10.9.9.3:5001")
	done := make(chan bool, 2)
	vSched(vBound("preemptions", 1, 2), 0)
	switch mode {
	case 0: // a peer leaves
		a.send(vHdr(vsDisconnect, 0, nil))
		done <- true
	case 1: // a peer comes
		q.send(q.connectPacket())
		done <- true
	case 2: // the application closes a channel
		go func() { ca.Close(); done <- true }()
	case 3: // the endpoint is closed by another goroutine too
		go func() { t.Close(); done <- true }()
	case 4: // a peer connects again, data is written
		a.uuid = "again"
		a.send(a.connectPacket())
		go func() { cb.WriteTo([]byte("x")); done <- true }()
	}
	t.Close()
	<-done
	vWait()
	vSched(-1, 0)
	vAssert(ca.Destroyed() && cb.Destroyed(), "a channel of a closed endpoint is not closed")
	ds := c.take()
	vAssert(len(b.got(ds, vsDisconnect)) == 1, "a peer of a closed endpoint is not sent one disconnect")
	vAssert(len(a.got(ds, vsDisconnect)) <= 1+b2i(mode == 4), "a peer of a closed endpoint is sent more than one disconnect")
	if mode != 0 && mode != 4 {
		vAssert(len(a.got(ds, vsDisconnect)) == 1, "a peer of a closed endpoint is not sent one disconnect")
	}
	for _, ch := range []*Channel{ca, cb} {
		n := 0
		for _, e := range l.errs() {
			n += b2i(e.ch == ch && e.err == ErrChannelDestroyed)
		}
		vAssert(n == 1, "the common reader is not told once that a channel is destroyed")
	}
	vAssert(c.once, "a closed endpoint still listens")
	vAssert(len(t.Statistic()) == 0, "a closed endpoint has a channel")
	time.Sleep(500 * time.Millisecond)
	vWait()
	if !vNative() {
		vAssert(vTimers() == 0, "a closed endpoint leaves timers running")
	}
	vReach("done")
}

// vCase_C32_stats: the endpoint is closed, or the printing stopped, at the
// moment the statistics are printed.
//
//verif:opt native=engine
func vCase_C32_stats() {
	t, _ := vNewTru(7000, Stat(true))
	moment := 499_999 + vChoose("moment", 3)
	if vBool("second print") {
		moment += 500_000
	}
	stopOnly := vBool("stop printing only")
	vSched(vBound("preemptions", 2, 3), 1)
	time.Sleep(time.Duration(moment) * time.Microsecond)
	if stopOnly {
		t.StatisticPrintStop()
	} else {
		t.Close()
	}
	vWait()
	vSched(-1, 0)
	vStdoutTake()
	vSleep(1600)
	vWait()
	vAssert(!strings.Contains(vStdoutTake(), "TRU 10."), "the statistics are printed after the endpoint is closed")
	vAssert(!t.StatisticPrintRunning(), "the statistics are printed after the endpoint is closed")
	vReach("done")
}
