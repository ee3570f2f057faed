package tru

import (
	"time"
)

// C14: close and disconnect are terminal, announced once and clean.

// vTwoReaders starts an endpoint whose channel has a reader of its own besides
// the common one.
func vTwoReaders(client bool) (t *Tru, ch *Channel, own, common *vReaderLog, p *vPeer) {
	own, common = &vReaderLog{ret: false}, &vReaderLog{ret: true}
	if client {
		t, ch, p = vClient(own, ReaderFunc(common.read))
		return
	}
	var c *vConn
	connected := func(c *Channel, err error) { vSetReader(c, own.read) }
	t, c = vNewTru(7000, ReaderFunc(common.read), ConnectFunc(connected))
	p = vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	ch = vChannel(t, p.addr)
	return
}

// vGone checks everything that must hold after the end of a channel.
func vGone(t *Tru, ch *Channel, own, common *vReaderLog, p *vPeer) {
	vAssert(ch.Destroyed(), "a closed channel does not say so")
	for _, l := range []*vReaderLog{own, common} {
		e := l.errs()
		vAssert(len(e) > 0, "a reader was not told that the channel was destroyed")
		vAssert(len(e) == 1, "a reader was told more than once that the channel was destroyed")
		vAssert(e[0].err == ErrChannelDestroyed && e[0].nilp && e[0].ch == ch, "a reader was told something else than that the channel was destroyed")
	}
	vAssert(vChannel(t, p.addr) == nil && len(t.Statistic()) == 0, "a closed channel is still listed")
	_, err := ch.WriteTo([]byte("too late"))
	vAssert(err == ErrChannelDestroyed, "a write to a closed channel does not return the destroyed error")
	for _, m := range [][]byte{nil, {}, make([]byte, 100)} {
		_, err = ch.WriteTo(m, time.Second, func(*Packet, error) {})
		vAssert(err == ErrChannelDestroyed, "a write to a closed channel does not return the destroyed error")
	}
}

// vCase_C14_how: a channel with messages on the way in all directions ends in
// one of the ways.
func vCase_C14_how() {
	client := vBool("client")
	t, ch, own, common, p := vTwoReaders(client)
	own.ret = vBool("claims")
	for i := 0; i < 2; i++ {
		_, err := ch.WriteTo([]byte("pending"))
		vAssert(err == nil, "WriteTo failed")
	}
	p.send(p.data(0, []byte("first"), false))
	p.send(p.data(2, []byte("early"), false))
	vWait()
	p.c.take()
	n := len(common.msgs())
	vAssert(n == 1-b2i(own.ret) && len(own.msgs()) == 1, "a message was not delivered")
	how := vChoose("how", 4)
	announced := 0
	switch how {
	case 0:
		ch.Close()
		announced = 1
	case 1:
		p.send(vHdr(vsDisconnect, vInt("id", 0, vLimit-1), vBytes("data", 0, 2)))
	case 2: // closed as the disconnect arrives
		p.send(vHdr(vsDisconnect, 0, nil))
		ch.Close()
		announced = -1
	case 3: // dropped
		time.Sleep(6600 * time.Millisecond)
	}
	vWait()
	ds := p.c.take()
	if announced >= 0 {
		vAssert(len(p.got(ds, vsDisconnect)) == announced, "the peer was not sent exactly one disconnect by Close, or was sent one without Close")
	} else {
		vAssert(len(p.got(ds, vsDisconnect)) <= 1, "the peer was sent more than one disconnect")
	}
	vGone(t, ch, own, common, p)
	switch vChoose("again", 3) {
	case 1:
		ch.Close()
	case 2:
		p.send(vHdr(vsDisconnect, 0, nil))
	}
	// the gap is closed, acks come, time passes
	p.send(p.data(1, []byte("gap"), false))
	p.send(vHdr(vsPing, 0, nil))
	p.send(vHdr(vsAck, 0, nil))
	for i := 0; i < 4; i++ {
		time.Sleep(2 * time.Second)
	}
	vWait()
	ds = p.c.take()
	vAssert(len(ds) == 0, "something was sent on a closed channel")
	vAssert(len(common.msgs()) == n && len(own.msgs()) == 1, "a message of a closed channel was delivered")
	vGone(t, ch, own, common, p)
	vReach("done")
}

// vCase_C14_inside: the channel is closed from inside a reader: on a message or
// when told that it is destroyed.
func vCase_C14_inside() {
	client := vBool("client")
	where := vChoose("where", 4)
	nOwn, nCommon := 0, 0
	own := func(ch *Channel, pac *Packet, err error) bool {
		if err != nil {
			nOwn++
			vAssert(nOwn < 10, "a reader was told more than once that the channel was destroyed")
			if where == 0 {
				ch.Close()
			}
		} else if where == 2 {
			ch.Close()
		}
		return false
	}
	common := func(ch *Channel, pac *Packet, err error) bool {
		if err != nil {
			nCommon++
			vAssert(nCommon < 10, "a reader was told more than once that the channel was destroyed")
			if where == 1 {
				ch.Close()
			}
		} else if where == 3 {
			ch.Close()
		}
		return false
	}
	var t *Tru
	var ch *Channel
	var p *vPeer
	if client {
		var c *vConn
		t, c = vNewTru(0, ReaderFunc(common))
		p = vNewPeer(c, "10.9.9.1:5001")
		go func() { ch, _ = t.Connect(p.addr, own) }()
		vWait()
		p.serveConnect()
	} else {
		var c *vConn
		t, c = vNewTru(7000, ReaderFunc(common), ConnectFunc(func(c *Channel, err error) { vSetReader(c, own) }))
		p = vNewPeer(c, "10.9.9.1:5001")
		p.dial()
		ch = vChannel(t, p.addr)
	}
	vAssert(ch != nil, "no channel")
	p.c.take()
	want := 1
	if where < 2 {
		switch vChoose("end", 3) {
		case 0:
			ch.Close()
		case 1:
			p.send(vHdr(vsDisconnect, 0, nil))
			want = 0
		case 2:
			time.Sleep(6600 * time.Millisecond)
			want = 0
		}
	} else {
		p.sendMsg([]byte("x"))
	}
	vWait()
	time.Sleep(2 * time.Second)
	vWait()
	vAssert(nOwn == 1 && nCommon == 1, "a reader was not told exactly once that the channel was destroyed")
	vAssert(len(p.got(p.c.take(), vsDisconnect)) == want, "the peer was not sent exactly one disconnect by Close, or was sent one without Close")
	vAssert(ch.Destroyed() && vChannel(t, p.addr) == nil, "a closed channel is still listed")
	// a new connection of the same peer is not disturbed
	p.next = 0
	p.uuid = "again"
	if !client {
		p.dial()
		vAssert(vChannel(t, p.addr) != nil, "a peer cannot connect again after close")
	}
	vReach("done")
}

// vCase_C14_race: two goroutines close, a disconnect arrives and a write goes
// on, at the moment of the activity check, under every schedule with a bounded
// number of preemptions.
func vCase_C14_race() {
	t, ch, own, common, p := vTwoReaders(false)
	t0 := time.Now() // (no time has passed since the channel was created)
	// silent for so long that the next check drops the channel
	time.Sleep(6100*time.Millisecond - time.Since(t0))
	vWait()
	n := 2
	done := make(chan bool, n)
	p.c.take()
	mode := vChoose("mode", 3)
	var err error
	if mode == 1 {
		time.Sleep(6500*time.Millisecond - time.Since(t0))
	}
	vSched(vBound("preemptions", 1, 2), 0)
	go func() { ch.Close(); done <- true }()
	switch mode {
	case 0:
		go func() { ch.Close(); done <- true }()
	case 1:
		done <- true
	case 2:
		p.send(vHdr(vsDisconnect, 0, nil))
		_, err = ch.WriteTo([]byte("x"))
		done <- true
	}
	<-done
	<-done
	vWait()
	vSched(-1, 0)
	_ = err
	time.Sleep(500 * time.Millisecond)
	vWait()
	for i := 0; i < 4; i++ {
		time.Sleep(2 * time.Second)
	}
	vWait()
	vAssert(len(p.got(p.c.take(), vsDisconnect)) <= 1, "the peer was sent more than one disconnect")
	vGone(t, ch, own, common, p)
	vReach("done")
}

// vCase_C14_timers: after the end of a channel no timer of it is left running.
//
//verif:opt native=engine
func vCase_C14_timers() {
	t, c := vNewTru(7000)
	base := vTimers()
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	ch := vChannel(t, p.addr)
	_, err := ch.WriteTo([]byte("x"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	time.Sleep(time.Duration(vInt("moment (ns)", 60_000_000, 130_000_000)))
	vSched(vBound("preemptions", 1, 2), 1)
	ch.Close()
	vWait()
	vSched(-1, 0)
	time.Sleep(2 * time.Second)
	vWait()
	vAssert(vTimers() <= base, "timers of a closed channel go on running")
	vReach("done")
}

// vCase_C14_inflight: the channel ends while several of its packets wait to be
// sent, whatever they are: only the one that is being written when it happens
// still goes out.
func vCase_C14_inflight() {
	client := vBool("client")
	t, ch, l, p := vSide(client, MaxDataLenType(8))
	p.c.take()
	p.c.slow = 50 * time.Millisecond
	n := vChoose("packets", 3)
	go func() {
		for i := 0; i < 2; i++ {
			ch.WriteTo(make([]byte, 8*n+4))
		}
	}()
	if vBool("answers") {
		p.send(p.data(0, []byte("x"), false))
		p.send(vHdr(vsPing, 0, nil))
		p.send(p.data(0, []byte("x"), false))
		p.send(vHdr(vsPing, 0, nil))
	}
	vSleep(10 + 50*vChoose("moment (50 ms)", 3))
	how := vChoose("how", 2)
	p.c.take()
	if how == 0 {
		ch.Close()
	} else {
		p.send(vHdr(vsDisconnect, 0, nil))
		vWait()
	}
	vAssert(ch.Destroyed(), "a closed channel does not say so")
	for i := 0; i < 3; i++ {
		vSleep(900)
	}
	vWait()
	k, dis := 0, 0
	for _, d := range p.c.take() {
		if d.data[3] == vsDisconnect {
			dis++
		} else {
			k++
		}
	}
	vAssert(k <= 1, "what waited to be sent is sent on a closed channel")
	vAssert(dis == 1-how, "the peer was not sent exactly one disconnect by Close, or was sent one without Close")
	vAssert(len(l.errs()) == 1 && len(t.Statistic()) == 0, "the end of a channel was not announced once")
	vReach("done")
}

// vCase_C14_undelivered: the channel ends while several messages wait for a
// slow reader: none of them is delivered afterwards.
func vCase_C14_undelivered() {
	client := vBool("client")
	n, dead := 0, false
	var ch *Channel
	how := vChoose("how", 3)
	at := 1 + vChoose("message", 2)
	rd := func(c *Channel, pac *Packet, err error) bool {
		if err != nil {
			return true
		}
		vAssert(!dead, "a message was delivered after the channel was closed")
		n++
		vSleep(100)
		if n == at && how == 0 {
			c.Close()
			dead = true
		}
		return true
	}
	var t *Tru
	var p *vPeer
	if client {
		var c *vConn
		t, c = vNewTru(0)
		p = vNewPeer(c, "10.9.9.1:5001")
		go func() { ch, _ = t.Connect(p.addr, rd) }()
		vWait()
		p.serveConnect()
	} else {
		var c *vConn
		t, c = vNewTru(7000, ReaderFunc(rd))
		p = vNewPeer(c, "10.9.9.1:5001")
		p.dial()
		ch = vChannel(t, p.addr)
	}
	vAssert(ch != nil, "no channel")
	order := vChoose("order", 2)
	for i := 0; i < 5; i++ {
		id := i
		if order == 1 {
			id = 4 - i // all but the first wait for it
		}
		p.send(p.data(id, []byte("m"), vBool("part") && id < 4))
	}
	vSleep(50 + 100*(at-1))
	switch how {
	case 1:
		ch.Close()
		dead = true
	case 2:
		p.send(vHdr(vsDisconnect, 0, nil))
		vWait()
		dead = true
	}
	vSleep(900)
	vWait()
	if n >= at {
		vAssert(ch.Destroyed(), "a closed channel does not say so")
		vAssert(n <= at, "a message was delivered after the channel was closed")
	}
	vReach("done")
}

// vCase_C14_replaced: a connection, finished or not, is closed while its peer
// connects anew: the new connection is there afterwards, under every schedule
// with a bounded number of preemptions.
func vCase_C14_replaced() {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, ReaderFunc(l.read))
	p := vNewPeer(c, "10.9.9.1:5001")
	if vBool("finished") {
		p.dial()
	} else {
		p.send(p.connectPacket())
		vWait()
		p.expect(vsServerAnswer)
	}
	old := vChannel(t, p.addr)
	vAssert(old != nil, "a connect packet did not create a channel")
	p.c.take()
	p.uuid = "second"
	p.session = []byte("second-key-second-key-second-key")
	p.next = 0
	done := make(chan bool)
	vSched(vBound("preemptions", 1, 2), 0)
	go func() { old.Close(); close(done) }()
	p.send(p.connectPacket())
	<-done
	vWait()
	vSched(-1, 0)
	p.send(p.answerPacket(p.expect(vsServerAnswer)))
	vWait()
	ch := vChannel(t, p.addr)
	vAssert(ch != nil && ch != old, "closing a connection removed the one that replaced it")
	vAssert(old.Destroyed(), "a closed channel is not destroyed")
	n := 0
	for _, e := range l.errs() {
		n += b2i(e.ch == old)
		vAssert(e.ch != ch, "a reader was told that another channel was destroyed")
	}
	vAssert(n == 1, "the reader was not told once that the channel was destroyed")
	vAlive(ch, l, p, "after its predecessor was closed")
	vReach("done")
}
