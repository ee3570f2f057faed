package tru

import (
	"errors"
	"time"
)

// C03: unacknowledged data is resent until acknowledged.

// vSetNext makes the channel's next packet number start.
func vSetNext(ch *Channel, start int) { vStartSend(ch, start) }

func vSentIDs(ds []vDgram, p *vPeer, ids []int, sent [][]byte) (n []int) {
	n = make([]int, len(ids))
	for _, d := range ds {
		if d.to != p.addr || d.data[3]&^vsSplit != vsData {
			continue
		}
		_, id, _ := vParse(d.data)
		found := false
		for k := range ids {
			if id == ids[k] {
				found = true
				n[k]++
				if sent[k] == nil {
					sent[k] = d.data
				} else {
					vAssertSame(d.data, sent[k], "a retransmission differs from the original packet")
				}
				break
			}
		}
		vAssert(found, "a data packet with a number that was never written was sent")
	}
	return
}

// vCase_C03_ack: three packets are pending, one acknowledgement with any number
// arrives: exactly the packet with that number stops being resent.
func vCase_C03_ack() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	start := vInt("start", 0, vLimit-1)
	vSetNext(ch, start)
	p.c.take()
	const n = 3
	ids := make([]int, n)
	sent := make([][]byte, n)
	for i := range ids {
		id, err := ch.WriteTo([]byte{byte(i), 9, 9})
		vAssert(err == nil, "WriteTo failed")
		vAssert(id == vWrap(start+i), "WriteTo returned another packet number")
		ids[i] = id
	}
	vWait()
	c := vSentIDs(p.c.take(), p, ids, sent)
	for i := range ids {
		vAssert(c[i] == 1, "a written packet was not sent exactly once")
	}
	ack := vInt("ack", 0, vLimit-1)
	p.send(vHdr(vsAck, ack, nil))
	vWait()
	time.Sleep(450 * time.Millisecond)
	vWait()
	c = vSentIDs(p.c.take(), p, ids, sent)
	for i := range ids {
		if ack == ids[i] {
			vAssert(c[i] == 0, "an acknowledged packet was sent again")
			vReach("acked")
		} else {
			vAssert(c[i] >= 1, "an unacknowledged packet was not sent again")
		}
	}
	// acknowledge everything, twice: silence
	for k := 0; k < 2; k++ {
		for i := range ids {
			p.send(vHdr(vsAck, ids[i], nil))
		}
	}
	vWait()
	p.c.take()
	time.Sleep(2 * time.Second)
	vWait()
	c = vSentIDs(p.c.take(), p, ids, sent)
	for i := range ids {
		vAssert(c[i] == 0, "an acknowledged packet was sent again")
	}
	vReach("done")
}

// vCase_C03_long: one packet is pending for a long time while others come and
// go; it is resent at every opportunity and with the same bytes.
func vCase_C03_long() {
	l := &vReaderLog{ret: true}
	_, ch, p := vClient(l)
	p.c.take()
	ids := []int{0, 1}
	sent := make([][]byte, 2)
	msg := vBytes("msg", 0, 40)
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	_, err = ch.WriteTo([]byte("second"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	p.send(vHdr(vsAck, 1, nil))
	vWait()
	c := vSentIDs(p.c.take(), p, ids, sent)
	vAssert(c[0] == 1 && c[1] == 1, "a written packet was not sent exactly once")
	total := 0
	for s := 0; s < 6; s++ {
		time.Sleep(3300 * time.Millisecond)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
		c = vSentIDs(p.c.take(), p, ids, sent)
		vAssert(c[0] >= 1, "an unacknowledged packet was not resent within the longest retransmission delay")
		vAssert(c[1] == 0, "an acknowledged packet was sent again")
		total += c[0]
	}
	vObs("total", total)
	p.send(vHdr(vsAck, 0, nil))
	vWait()
	p.c.take()
	time.Sleep(5 * time.Second)
	c = vSentIDs(p.c.take(), p, ids, sent)
	vAssert(c[0] == 0 && c[1] == 0, "an acknowledged packet was sent again")
	vReach("done")
}

// vCase_C03_giveup: a peer that acknowledges nothing for 100 retransmissions of
// a packet makes the channel be destroyed, not before.
func vCase_C03_giveup() {
	t, l, p := vServe()
	ch := vChannel(t, p.addr)
	ids := []int{0, 1, 2}
	sent := make([][]byte, 3)
	p.c.take()
	// the packet given up is alone, or the first or last of those pending
	others := vChoose("others", 3)
	if others == 1 {
		ch.WriteTo([]byte("a"))
		vWait()
		vSleep(500)
		p.send(vHdr(vsAck, 0, nil))
		vWait()
		ids = []int{1, 2, 0}
	}
	ch.WriteTo([]byte("x"))
	vWait()
	n := 0
	dead := false
	for s := 0; s < 160 && !dead; s++ {
		c := vSentIDs(p.c.take(), p, ids, sent)
		n += c[0]
		vAssert(n <= 101, "a packet was resent more than 100 times")
		if len(l.errs()) > 0 {
			dead = true
			break
		}
		vAssert(!ch.Destroyed(), "the channel was destroyed without telling the reader")
		if others > 0 && s == 3 {
			ch.WriteTo([]byte("another"))
		}
		time.Sleep(2 * time.Second)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	vObs("n", n)
	vAssert(dead, "the channel was not destroyed although nothing was acknowledged for 100 retransmissions")
	vAssert(n == 101, "the channel was destroyed before 100 retransmissions")
	e := l.errs()
	vAssert(errors.Is(e[0].err, ErrChannelDestroyed), "the reader was told something else")
	_, err := ch.WriteTo([]byte("y"))
	vAssert(err != nil, "a write on a destroyed channel succeeded")
	vReach("done")
}

// vCase_C03_race: the acknowledgement arrives while the retransmission timer
// runs, under every schedule with a bounded number of preemptions.
func vCase_C03_race() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	p.c.take()
	ids := []int{0, 1}
	sent := make([][]byte, 2)
	ch.WriteTo([]byte("a"))
	ch.WriteTo([]byte("b"))
	vWait()
	time.Sleep(150 * time.Millisecond)
	vSched(vBound("preemptions", 2, 2), 2)
	p.send(vHdr(vsAck, 0, nil))
	vWait()
	vSched(-1, 0)
	time.Sleep(150 * time.Millisecond)
	vWait()
	vSentIDs(p.c.take(), p, ids, sent)
	time.Sleep(1 * time.Second)
	vWait()
	c := vSentIDs(p.c.take(), p, ids, sent)
	vAssert(c[0] == 0, "an acknowledged packet was sent again")
	vAssert(c[1] >= 1, "an unacknowledged packet was not sent again")
	vReach("done")
}

// vCase_C03_mixed: packets written at different moments, so that they are
// backed off differently, in a single packet or in parts, one of them perhaps
// acknowledged in between: each pending one is sent again whenever its own
// retransmission time passes, whatever the others do.
func vCase_C03_mixed() {
	_, ch, _, p := vSide(vBool("client"), MaxDataLenType(5))
	p.c.take()
	pauses := []int{0, 250, 1000, 4400}
	lens := []int{3, 8} // one packet, two packets
	var ids []int
	for i := 0; i < 3; i++ {
		n := lens[vChoose("len", 2)]
		id, err := ch.WriteTo(make([]byte, n))
		vAssert(err == nil, "WriteTo failed")
		ids = append(ids, id)
		if n > 5 {
			ids = append(ids, id+1)
		}
		if i < 2 {
			for w := pauses[vChoose("pause", 4)]; w > 0; w -= 2000 {
				if w < 2000 {
					vSleep(w)
				} else {
					vSleep(2000)
				}
				p.send(vHdr(vsPing, 0, nil))
				vWait()
			}
		}
	}
	acked := vChoose("acked", len(ids)+1) // the last: none
	vWait()
	var ackedAt time.Time
	if acked < len(ids) {
		p.send(vHdr(vsAck, ids[acked], nil))
		vWait()
		ackedAt = time.Now()
	}
	for i := 0; i < 3; i++ {
		vSleep(1500)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	end := time.Now()
	base := 200
	ds := p.c.take()
	for k, id := range ids {
		var at []time.Time
		var first []byte
		for _, d := range ds {
			st, i, _ := vParse(d.data)
			if d.to == p.addr && st&^vsSplit == vsData && i == id {
				if first == nil {
					first = d.data
				}
				vAssertSame(d.data, first, "a retransmission differs from the original packet")
				at = append(at, d.at)
			}
		}
		vAssert(len(at) > 0, "a written packet was not sent")
		if k == acked {
			for _, a := range at {
				vAssert(!a.After(ackedAt), "an acknowledged packet was sent again")
			}
			continue
		}
		if acked < len(ids) {
			// a round trip was measured: other delays from then on, but
			// each within the longest one
			at = append(at, end)
			for i := 1; i < len(at); i++ {
				vAssert(at[i].Sub(at[i-1]) <= vMS(3000+120), "an unacknowledged packet was not sent again within the longest retransmission delay")
			}
			continue
		}
		at = append(at, end)
		for i := 1; i < len(at); i++ {
			d := base * i
			if d > 3000 {
				d = 3000
			}
			vAssert(at[i].Sub(at[i-1]) <= vMS(d+120), "a packet was not sent again when its retransmission time passed")
		}
	}
	vReach("done")
}

// vCase_C03_many: very many packets are pending at once: each is sent again,
// whatever its place among them, and stays pending.
func vCase_C03_many() {
	_, ch, _, p := vSide(vBool("client"))
	p.c.take()
	n := vBound("packets pending", 300, 1500)
	for i := 0; i < n; i++ {
		id, err := ch.WriteTo([]byte{byte(i), byte(i >> 8)})
		vAssert(err == nil && id == i, "WriteTo failed")
	}
	vWait()
	acked := []int{0, 1, n / 2, n - 1}[vChoose("acked", 4)]
	p.send(vHdr(vsAck, acked, nil))
	vWait()
	first := make([][]byte, n)
	count := func() []int {
		c := make([]int, n)
		for _, d := range p.c.take() {
			if d.to != p.addr || d.data[3]&^vsSplit != vsData {
				continue
			}
			_, id, _ := vParse(d.data)
			vAssert(id < n, "a data packet with a number that was never written was sent")
			if first[id] == nil {
				first[id] = d.data
			}
			vAssert(string(d.data) == string(first[id]), "a retransmission differs from the original packet")
			c[id]++
		}
		return c
	}
	c := count()
	for i := range c {
		vAssert(c[i] >= 1, "a written packet was not sent")
	}
	for k := 0; k < 3; k++ {
		vSleep(3200)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
		c = count()
		for i := range c {
			if i == acked {
				vAssert(c[i] == 0, "an acknowledged packet was sent again")
			} else {
				vAssert(c[i] >= 1, "an unacknowledged packet was not resent within the longest retransmission delay")
			}
		}
	}
	for i := 0; i < n; i++ {
		p.send(vHdr(vsAck, i, nil))
	}
	vWait()
	p.c.take()
	vSleep(3200)
	c = count()
	for i := range c {
		vAssert(c[i] == 0, "an acknowledged packet was sent again")
	}
	vReach("done")
}

// vCase_C03_parts: nothing of a split message is acknowledged, or only some
// part of it: each part left is resent unchanged every time until the channel
// is given up.
func vCase_C03_parts() {
	client := vBool("client")
	_, ch, l, p := vSide(client, MaxDataLenType(4))
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	p.c.take()
	_, err := ch.WriteTo(vBytes("message", 11, 11))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	first := make(map[int][]byte)
	n := make(map[int]int)
	acked := vChoose("acknowledged part", 4) - 1
	if acked >= 0 {
		p.send(vHdr(vsAck, vWrap(start+acked), nil))
		vWait()
	}
	for s := 0; s < 260 && len(l.errs()) == 0; s++ {
		for _, d := range p.c.take() {
			if len(d.data) < 4 || d.data[3]&^vsSplit != vsData {
				continue
			}
			_, id, _ := vParse(d.data)
			k := vWrap(id - start)
			vAssert(k < 3, "a packet was sent that is not pending")
			vAssert(k != acked || n[k] == 0, "an acknowledged packet was sent again")
			if n[k] == 0 {
				first[k] = d.data
			}
			n[k]++
			vAssertSame(d.data, first[k], "a packet was resent changed")
		}
		vSleep(1500)
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	for k := 0; k < 3; k++ {
		if k == acked {
			vAssert(n[k] == 1, "an acknowledged packet was sent again")
		} else {
			vAssert(n[k] >= 100, "a part was not resent 100 times before the channel was given up")
		}
	}
	vAssert(ch.Destroyed(), "the channel was not destroyed although nothing was acknowledged for 100 retransmissions")
	vReach("done")
}
