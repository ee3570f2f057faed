package tru

import "time"

// C04: the retransmission delay stays in its bounds and backs off.

// vCase_C04_timing: the moments of retransmission seen on the wire, for a
// measured or unmeasured round trip.
func vCase_C04_timing() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	p.c.take()
	rtts := []int{-1, 0, 1, 20, 70, 150, 400, 1400, 3500}
	k := vChoose("rtt", len(rtts))
	if rtts[k] >= 0 {
		// measure a round trip first
		id, err := ch.WriteTo([]byte("probe"))
		vAssert(err == nil, "WriteTo failed")
		vWait()
		time.Sleep(time.Duration(rtts[k]) * time.Millisecond)
		if rtts[k] == 0 {
			time.Sleep(time.Microsecond)
		}
		p.send(vHdr(vsAck, id, nil))
		vWait()
	}
	p.c.take()
	rt := ch.Triptime()
	vAssert((rt == 0) == (rtts[k] < 0), "the round trip time is not measured by an acknowledgement")
	base := 200 * time.Millisecond
	if rt != 0 {
		base = 30*time.Millisecond + rt
	}
	id, err := ch.WriteTo([]byte("probe"))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	last := time.Now()
	p.c.take()
	for n := 0; n < 5; {
		time.Sleep(10 * time.Millisecond)
		vWait()
		// the retransmission itself measures no round trip
		for _, d := range p.got(p.c.take(), vsData) {
			_, i, _ := vParse(d.data)
			vAssert(i == id, "an acknowledged packet was sent again")
			want := base
			if n > 0 {
				b := 30*time.Millisecond + rt
				if rt == 0 {
					b = 200 * time.Millisecond
				}
				want = b * time.Duration(n+1)
			}
			if want > 3*time.Second {
				want = 3 * time.Second
			}
			gap := d.at.Sub(last)
			vAssert(gap >= want, "a packet was retransmitted before its retransmission delay passed")
			vAssert(gap <= want+101*time.Millisecond, "a packet was not retransmitted when its retransmission delay had passed")
			last = d.at
			n++
		}
		vAssert(time.Since(last) < 3200*time.Millisecond, "no retransmission within the longest delay")
		if n > 0 && time.Since(last) > 2*time.Second {
			p.send(vHdr(vsPing, 0, nil))
		}
	}
	vReach("done")
}

// vCase_C04_average: the round trip used is an average: after each measurement
// it lies between the average before and what was measured, whatever the sizes
// and also when the packet was sent more than once.
func vCase_C04_average() {
	_, ch, _, p := vSide(vBool("client"))
	p.c.take()
	us := []int{150, 700, 3000, 90_000, 450_000, 2_500_000}
	prev := time.Duration(0)
	for i := 0; i < vBound("round trips", 3, 4); i++ {
		id, err := ch.WriteTo([]byte("probe"))
		vAssert(err == nil, "WriteTo failed")
		vWait()
		t0 := p.c.take()
		vAssert(len(t0) > 0, "a packet was not sent")
		time.Sleep(time.Duration(us[vChoose("round trip", len(us))]) * time.Microsecond)
		vWait()
		last := t0[len(t0)-1].at
		for _, d := range p.got(p.c.take(), vsData) {
			last = d.at
		}
		p.send(vHdr(vsAck, id, nil))
		vWait()
		tt := time.Since(last)
		avg := ch.Triptime()
		if prev == 0 {
			prev = tt
		}
		lo, hi := prev, tt
		if lo > hi {
			lo, hi = hi, lo
		}
		slack := 20 * time.Microsecond
		vAssert(avg >= lo-slack && avg <= hi+slack, "the averaged round trip is outside what was measured")
		if hi-lo > 10*slack {
			vAssert(avg > lo+(hi-lo)/50 && avg < hi-(hi-lo)/50, "the averaged round trip is not an average")
		}
		prev = avg
	}
	vReach("done")
}

// vCase_C04_several: several packets are pending at once, perhaps parts of one
// message, on either side: each keeps its own retransmission delay, over many
// retransmissions.
func vCase_C04_several() {
	_, ch, _, p := vSide(vBool("client"), MaxDataLenType(4))
	start := vInt("start", 0, vLimit-1)
	vStartSend(ch, start)
	rtt := []int{-1, 25, 1000}[vChoose("rtt", 3)]
	used := 0
	if rtt >= 0 {
		// Without a retransmission, which would be measured too
		m := 1
		if rtt > 200 {
			m = 3
		}
		for i := 0; i < m; i++ {
			id, err := ch.WriteTo([]byte("m"))
			vAssert(err == nil, "WriteTo failed")
			used++
			vSleep([]int{rtt, 190, 300}[b2i(m > 1)*(1+b2i(i > 0))])
			p.send(vHdr(vsAck, id, nil))
			vWait()
		}
	}
	p.c.take()
	base := 200 * time.Millisecond
	if rt := ch.Triptime(); rt != 0 {
		base = 30*time.Millisecond + rt
	}
	vAssert((rtt < 0) == (ch.Triptime() == 0), "the round trip time is not measured by an acknowledgement")
	n := 3
	if vBool("one split message") {
		_, err := ch.WriteTo(vBytes("message", 10, 10))
		vAssert(err == nil, "WriteTo failed")
	} else {
		for i := 0; i < n; i++ {
			_, err := ch.WriteTo(vBytes("message", 2, 2))
			vAssert(err == nil, "WriteTo failed")
			vSleep(7)
		}
	}
	last := make([]time.Time, n)
	count := make([]int, n)
	vWait()
	all := vBound("retransmissions", 24, 60)
	for count[n-1] <= all {
		for _, d := range p.c.take() {
			if len(d.data) < 4 || d.data[3]&^vsSplit != vsData {
				continue
			}
			_, id, _ := vParse(d.data)
			k := vWrap(id - start - used)
			vAssert(k < n, "a packet was sent that is not pending")
			if count[k] > 0 {
				want := base
				if count[k] > 1 {
					want = base * time.Duration(count[k])
				}
				if want > 3*time.Second {
					want = 3 * time.Second
				}
				gap := d.at.Sub(last[k])
				vAssert(gap >= want, "a packet was retransmitted before its retransmission delay passed")
				vAssert(gap <= want+101*time.Millisecond, "a packet was not retransmitted when its retransmission delay had passed")
			}
			count[k]++
			last[k] = d.at
		}
		vAssert(time.Since(last[n-1]) < 3200*time.Millisecond, "no retransmission within the longest delay")
		if count[0] > 10 {
			vSleep(1000)
		} else {
			vSleep(100)
		}
		p.send(vHdr(vsPing, 0, nil))
		vWait()
	}
	vReach("done")
}
