package tru

import "time"

// vSpeedState gives the counter an arbitrary history: any number of packets in
// each of the last ten tenths and in the current one. What is shown is their sum
// as of the beginning of the current tenth.
func vSpeedState(s *speed) (tenth int64, hist [10]int, cur int) {
	tenth = vTenth()
	for k := range hist { // hist[k]: the tenth number tenth-1-k
		hist[k] = vInt("earlier", 0, 1<<31)
		s.sumArray[(tenth-1-int64(k))%10] = hist[k]
	}
	cur = vInt("now", 0, 1<<31)
	s.current, s.currentSum = int(tenth%10), cur
	for _, n := range hist {
		s.speed += n
	}
	return
}

// vCase_C23_step: from any history, at any time of the second, the tick in the
// next tenth shows the ten completed tenths, a packet in it counts for it.
func vCase_C23_step() {
	time.Sleep(time.Duration(100*vChoose("start tenth", 10)) * time.Millisecond)
	vAtTenth()
	s := new(speed)
	_, hist, cur := vSpeedState(s)
	shown := s.get()
	packet := vBool("packet in the same tenth")
	time.Sleep(time.Duration(vInt("when in this tenth", 0, 99_999_999)))
	if packet {
		s.add()
		cur++
	} else {
		s.add(false)
	}
	vAssert(s.get() == shown, "the speed changes within a tenth of a second")
	vAtTenth()
	time.Sleep(time.Duration(vInt("when in the next tenth", 0, 99_999_999)))
	packet = vBool("packet in the next tenth")
	if packet {
		s.add()
	} else {
		s.add(false)
	}
	want := cur
	for k := 0; k < 9; k++ {
		want += hist[k]
	}
	vAssert(s.get() == want, "the speed is not the number of packets counted in the last ten tenths of a second")
	// a whole second of ticks without packets
	for k := 0; k < 10; k++ {
		vAtTenth()
		s.add(false)
	}
	vAssert(s.get() == b2i(packet), "a packet is not counted for a second")
	vAtTenth()
	s.add(false)
	vAssert(s.get() == 0, "the speed is not zero after a second without traffic")
	vReach("done")
}
