package tru

import "time"

// vPace is a client endpoint whose send delay starts at delay.
func vPace(delay int) (t *Tru, ch *Channel, l *vReaderLog, p *vPeer) {
	l = &vReaderLog{ret: true}
	t, c := vNewTru(0)
	t.SetSendDelay(delay)
	p = vNewPeer(c, "10.9.9.1:5001")
	rc := make(chan *Channel, 1)
	go func() {
		ch, err := t.Connect(p.addr, l.read)
		vAssert(err == nil, "Connect failed although the server answered")
		rc <- ch
	}()
	vWait()
	p.serveConnect()
	return t, <-rc, l, p
}

func vUS(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// vPaced writes a message and checks the spacing, the delay and how the send
// delay changes. resending: the first unacknowledged packet has been resent.
type vPacer struct {
	t    *Tru
	ch   *Channel
	p    *vPeer
	last time.Time // last data packet sent
	any  bool
	chk  time.Time // last change of the delay
}

func (v *vPacer) delay() int { return vRow(v.t, v.p.addr).Delay }

func (v *vPacer) write(resending bool) (id int) {
	d := v.delay()
	v.p.c.take()
	t0 := time.Now()
	id, err := v.ch.WriteTo([]byte("x"))
	vAssert(err == nil, "WriteTo failed")
	took := time.Since(t0)
	vWait()
	ds := v.p.got(v.p.c.take(), vsData)
	vAssert(len(ds) > 0, "a written message was not sent")
	at := ds[len(ds)-1].at
	vAssert(at.Equal(t0.Add(took)), "a message is not sent when its write returns")
	if v.any {
		vAssert(at.Sub(v.last) >= vUS(d), "two writes of a client are closer than the send delay")
	}
	vAssert(took <= vUS(d+300), "a write is delayed by more than the send delay plus 300 microseconds")
	v.last, v.any = at, true
	n := v.delay()
	switch {
	case n == d:
	case n > d:
		vAssert(resending, "the send delay goes up although nothing is being resent")
		vAssert(n == d+10, "the send delay goes up by another step than 10")
	default:
		vAssert(!resending, "the send delay goes down while packets are being resent")
		vAssert(n >= d-10 && n >= 15, "the send delay goes down by more than 10 or below 15")
	}
	if n != d {
		if !v.chk.IsZero() {
			vAssert(at.Sub(v.chk) > 29*time.Millisecond, "the send delay changes more than once in 30 ms")
		}
		v.chk = at
	}
	return
}

// vCase_C27_spacing: any send delay, any pauses between writes, all messages
// acknowledged.
func vCase_C27_spacing() {
	t, ch, _, p := vPace(vInt("delay", 0, 60_000))
	v := &vPacer{t: t, ch: ch, p: p}
	for i := 0; i < vBound("writes", 3, 4); i++ {
		if i > 0 {
			time.Sleep(time.Duration(vInt("pause", 0, 40_000_000)))
		}
		id := v.write(false)
		p.send(vHdr(vsAck, id, nil))
		vWait()
	}
	vReach("done")
}

// vCase_C27_resending: a packet is being resent while more are written.
func vCase_C27_resending() {
	t, ch, _, p := vPace(vInt("delay", 0, 20_000))
	v := &vPacer{t: t, ch: ch, p: p}
	id := v.write(false)
	time.Sleep(time.Duration(350+vConcrete(vInt("resends", 0, 2))*500) * time.Millisecond)
	vWait()
	vAssert(vRow(t, p.addr).Rsnd > 0, "an unacknowledged packet is not resent")
	d0 := v.delay()
	v.write(true)
	vAssert(v.delay() == d0+10, "the send delay does not go up while packets are being resent")
	time.Sleep(time.Duration(vInt("pause", 0, 35_000_000)))
	if vBool("acknowledged") {
		p.send(vHdr(vsAck, id, nil))
		vWait()
		v.write(false)
	} else {
		v.write(true)
	}
	vReach("done")
}

// vCase_C27_steps: the send delay with nothing to resend comes down to 15 from
// any value, one step per 30 ms.
func vCase_C27_steps() {
	d := vInt("delay", 0, 1000)
	t, ch, _, p := vPace(d)
	v := &vPacer{t: t, ch: ch, p: p}
	want := d
	for i := 0; i < vBound("steps", 4, 12); i++ {
		id := v.write(false)
		p.send(vHdr(vsAck, id, nil))
		vWait()
		got := v.delay()
		vAssert(got <= want, "the send delay goes up although nothing is being resent")
		if want > 15 {
			vAssert(got < want, "the send delay does not go down although nothing is being resent")
		}
		want = got
		time.Sleep(31 * time.Millisecond)
	}
	vReach("done")
}

// vCase_C27_others: server writes and all packets that are not data are sent
// at once, whatever the delay and also while packets are being resent.
func vCase_C27_others() {
	delay := vInt("delay", 0, 1_000_000)
	t, ch, l, p := vPace(delay)
	ch.WriteTo([]byte("x"))
	vWait()
	if vBool("resending") {
		time.Sleep(350 * time.Millisecond)
		vWait()
	}
	p.c.take()
	t0 := time.Now()
	switch vChoose("packet", 3) {
	case 0: // acknowledgement
		p.sendMsg([]byte("data"))
		vWait()
		vAssert(len(p.got(p.c.take(), vsAck)) == 1, "an acknowledgement is delayed")
		vAssert(len(l.msgs()) == 1, "a message is delayed by the send delay")
	case 1: // answer to a ping
		p.send(vHdr(vsPing, 0, nil))
		vWait()
		vAssert(len(p.got(p.c.take(), vsPong)) == 1, "an answer to a ping is delayed")
	case 2: // disconnect
		ch.Close()
		vWait()
		vAssert(len(p.got(p.c.take(), vsDisconnect)) == 1, "a disconnect is delayed")
	}
	vAssert(time.Since(t0) == 0, "a packet that is not data is delayed")
	_ = t
	vReach("done")
}

// vCase_C27_server: a server's writes are never delayed.
func vCase_C27_server() {
	t, c := vNewTru(7000)
	t.SetSendDelay(vInt("delay", 0, 1_000_000))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	ch := vChannel(t, p.addr)
	for i := 0; i < 3; i++ {
		t0 := time.Now()
		_, err := ch.WriteTo([]byte("x"))
		vAssert(err == nil, "WriteTo failed")
		vAssert(time.Since(t0) == 0, "a server's write is delayed")
		if i == 1 {
			time.Sleep(350 * time.Millisecond) // now it is being resent
			vWait()
		}
	}
	vReach("done")
}

// vCase_C27_split: the packets of a message that needs several are spaced, too.
func vCase_C27_split() {
	d := vInt("delay", 0, 25_000) // less than 30 ms: no step between packets
	t, ch, _, p := vPace(d)
	m, ok := vFieldPtr(ch, "maxDataLen").(*int)
	if !ok {
		vInconclusive("a channel's maximum data length is not an int field named maxDataLen")
	}
	*m = 4
	for i := 0; i < 2; i++ {
		low := vRow(t, p.addr).Delay
		p.c.take()
		t0 := time.Now()
		_, err := ch.WriteTo([]byte("twelve bytes"))
		vAssert(err == nil, "WriteTo failed")
		took := time.Since(t0)
		vWait()
		var at []time.Time
		for _, x := range p.c.take() {
			if x.to == p.addr && x.data[3]&^vsSplit == vsData {
				at = append(at, x.at)
				p.send(vHdr(vsAck, int(x.data[0])|int(x.data[1])<<8|int(x.data[2])<<16, nil))
			}
		}
		vWait()
		vAssert(len(at) == 3, "a message is not sent in three packets")
		if n := vRow(t, p.addr).Delay; n < low {
			low = n
		}
		for k := 1; k < 3; k++ {
			vAssert(at[k].Sub(at[k-1]) >= vUS(low), "two packets of a client are closer than the send delay")
		}
		vAssert(took <= 3*vUS(d+10+300), "a packet is delayed by more than the send delay plus 300 microseconds")
	}
	vReach("done")
}
