package tru

import "time"

// vCase_C04_formula: for every averaged round trip and every number of
// attempts, the delay set is the specified one.
func vCase_C04_formula() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	rtt := vInt("rtt", 0, 20_000_000_000)
	ra := vConcrete(vInt("attempts", 0, 101))
	*vFieldPtr(ch, "stat.tripTimeMidle").(*time.Duration) = time.Duration(rtt)
	pac := t.newPacket()
	pac.setRetransmitAttempts(ra)
	t0 := time.Now()
	ch.setRetransmitTime(pac)
	d := pac.getRetransmitTime().Sub(t0)
	base := 200 * time.Millisecond
	if rtt != 0 {
		base = 30*time.Millisecond + time.Duration(rtt)
	}
	want := base * time.Duration(ra+1)
	if want > 3*time.Second {
		want = 3 * time.Second
	}
	vAssert(d >= 30*time.Millisecond, "the retransmission delay is below 30 ms")
	vAssert(d <= 3*time.Second, "the retransmission delay is above 3 s")
	vAssert(d == want, "the retransmission delay is not (30 ms + round trip) * (attempts + 1) capped at 3 s, or 200 ms at start")
	vReach("done")
}
