package tru

import "strings"

func vLine(k int) string {
	return "message " + string([]byte{byte('a' + k/676), byte('a' + k/26%26), byte('a' + k%26)})
}

// vCase_C22_window: any number of messages, any position.
func vCase_C22_window() {
	s := new(statisticLog)
	if vBool("shown") {
		s.showSwap()
	}
	counts := []int{0, 1, 2, 255, 256, 257, 258, 511, 512, 513, 600}
	n := counts[vChoose("messages", len(counts))]
	for k := 0; k < n; k++ {
		s.add(vLine(k))
	}
	l := s.len()
	vAssert(l <= 256, "the log holds more than 256 messages")
	want := n
	if want > 256 {
		want = 256
	}
	vAssert(l == want, "the log does not hold the latest messages")
	i := int(vU64("position"))
	got := s.get(i)
	if i < 0 || i >= l {
		vAssert(got == "", "a position outside the log yields a message")
	} else {
		vAssert(strings.HasSuffix(got, " "+vLine(n-l+vConcrete(i))), "the log does not hold the latest messages in the order they were added")
	}
	vReach("done")
}

// vCase_C22_step: from any log of any length, one more message shifts it by at
// most one.
func vCase_C22_step() {
	s := new(statisticLog)
	n := vConcrete(vInt("messages", 0, 280))
	for k := 0; k < n; k++ {
		s.add(vLine(k))
	}
	l := s.len()
	s.add(vLine(n))
	l2 := s.len()
	vAssert(l2 == l+1 || l2 == l && l == 256, "a new message changes the log's length by more than itself")
	vAssert(strings.HasSuffix(s.get(l2-1), vLine(n)), "the newest message is not the last")
	vAssert(strings.HasSuffix(s.get(0), vLine(n+1-l2)), "the oldest message is not the first")
	vAssert(s.get(-1) == "" && s.get(l2) == "", "a position outside the log yields a message")
	vReach("done")
}

// vCase_C22_repeated: a message added again is kept again.
func vCase_C22_repeated() {
	s := new(statisticLog)
	n := vChoose("before", 3)
	for k := 0; k < n; k++ {
		s.add(vLine(k))
	}
	for k := 0; k < 3; k++ {
		s.add("the same")
		vAssert(s.len() == n+k+1, "a message that is added again is not kept")
		vAssert(strings.HasSuffix(s.get(n+k), "the same"), "the newest message is not the last")
	}
	vReach("done")
}

// vCase_C22_concurrent: messages are added from two goroutines while a third
// reads, under every schedule within the bound; the log is full.
func vCase_C22_concurrent() {
	s := new(statisticLog)
	full := 256 - 2*vConcrete(vInt("free", 0, 1))
	for k := 0; k < full; k++ {
		s.add(vLine(k))
	}
	vSched(vBound("preemptions", 2, 3), 0)
	for g := 0; g < 2; g++ {
		g := string(rune('A' + g))
		go func() {
			s.add("one " + g)
			s.add("two " + g)
		}()
	}
	for _, i := range []int{0, 255, s.len() - 1, s.len()} {
		s.get(i)
	}
	vWait()
	vSched(-1, 0)
	vAssert(s.len() == 256, "messages added at the same time are lost")
	pos := map[string]int{}
	for i := s.len() - 4; i < s.len(); i++ {
		m := s.get(i)
		pos[m[len(m)-5:]] = i
	}
	vAssert(len(pos) == 4, "messages added at the same time are lost")
	vAssert(pos["one A"] < pos["two A"] && pos["one B"] < pos["two B"], "messages are not kept in the order they were added")
	vAssert(strings.HasSuffix(s.get(0), vLine(full+4-s.len())), "the log does not hold the latest messages")
	vReach("done")
}
