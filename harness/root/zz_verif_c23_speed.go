package tru

import "time"

// vTenth is the number of the current tenth of a second.
func vTenth() int64 { return time.Now().UnixNano() / 100_000_000 }

// vSpeedRow reads a channel's speeds.
func vSpeedRow(t *Tru, addr string) (send, recv int64) {
	for _, x := range t.Statistic() {
		if x.Addr == addr {
			return x.Ssec, x.Rsec
		}
	}
	vFail("a live channel is not listed")
	return
}

// vCase_C23_received, vCase_C23_sent: bursts of packets in any tenths of a
// second, the channel starting anywhere in a second; the speed is read at every
// tick, up to after traffic has stopped.
func vCase_C23_received() { vSpeedCase(false) }
func vCase_C23_sent()     { vSpeedCase(true) }

// vAtTenth waits for the next tenth of a second to begin.
func vAtTenth() { time.Sleep(time.Duration(100_000_000 - time.Now().UnixNano()%100_000_000)) }

func vSpeedCase(send bool) {
	// where in a second the channel starts
	time.Sleep(time.Duration(100*[]int{9, 0, 4, 1, 2, 3, 5, 6, 7, 8}[vChoose("start tenth", vBound("start tenths", 4, 10))]) * time.Millisecond)
	vAtTenth()
	time.Sleep(time.Duration(vInt("start offset", 0, 99_999_999)))
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	t0 := time.Now()
	counts := map[int64]int64{}
	one := func() {
		if send {
			_, err := ch.WriteTo([]byte("x"))
			vAssert(err == nil, "WriteTo failed")
			p.send(vHdr(vsAck, p.next, nil))
			p.next++
		} else {
			p.sendMsg([]byte("x"))
		}
		vWait()
		counts[vTenth()]++
	}
	check := func() {
		s, r := vSpeedRow(t, p.addr)
		got, other := r, s
		if send {
			got, other = s, r
		}
		var want int64
		for k := vTenth() - 10; k < vTenth(); k++ {
			want += counts[k]
		}
		vAssert(got <= want, "the speed exceeds the packets counted in the last ten tenths of a second")
		vAssert(got == want, "the speed is not the number of packets counted in the last ten tenths of a second")
		vAssert(other == 0, "the speed of the other direction counts these packets")
	}
	// the first burst comes in the first tenths, the next after any pause
	tick := 0 // ticks so far
	next := func() {
		tick++
		time.Sleep(time.Until(t0.Add(time.Duration(tick) * 100 * time.Millisecond)))
		vWait()
		check()
	}
	for i := 0; i < 2; i++ {
		for k := vChoose("pause", vBound("pauses", 5, 13)) * vBound("pause step", 3, 1); k > 0; k-- {
			next()
		}
		for k := 1 + vChoose("burst", 2); k > 0; k-- {
			one()
		}
		if vBool("same tenth") {
			one()
		}
	}
	for k := 0; k < 12; k++ {
		next()
	}
	s, r := vSpeedRow(t, p.addr)
	vAssert(s == 0 && r == 0, "the speed is not zero after more than a second without traffic")
	vReach("done")
}
