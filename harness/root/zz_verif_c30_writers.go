package tru

import (
	"sort"
)

// vWritten checks that the packets sent carry the messages of each writer,
// whole, and each writer's in its order. Message contents begin with the
// writer's letter and the message's number.
func vWritten(p *vPeer, ds []vDgram, want map[byte][][]byte, ids map[string]int) {
	fs := vFrags(p, ds)
	sort.SliceStable(fs, func(i, j int) bool { return vAfter(fs[j].id, fs[i].id) })
	for i := range fs {
		vAssert(i == 0 || fs[i].id == vWrap(fs[i-1].id+1), "concurrent writes use a packet number twice or leave one out")
	}
	msgs, firsts, open := vAssemble(fs)
	vAssert(!open, "a split message is not sent whole")
	total := 0
	for _, m := range want {
		total += len(m)
	}
	vAssert(len(msgs) == total, "parts of messages written at the same time are mixed")
	next := map[byte]int{}
	for i, m := range msgs {
		vAssert(len(m) > 0, "parts of messages written at the same time are mixed")
		w := m[0]
		k := next[w]
		next[w]++
		vAssert(k < len(want[w]), "parts of messages written at the same time are mixed")
		vAssertSame(m, want[w][k], "messages written at the same time are mixed or change their order")
		if ids != nil {
			vAssert(ids[string(want[w][k])] == firsts[i], "a write returns another number than its message's")
		}
	}
}

// vAfter: packet number a comes after b.
func vAfter(a, b int) bool { d := vWrap(a - b); return d != 0 && d < vLimit/2 }

func vMsg(w byte, k, n int) []byte {
	m := []byte{w, byte('0' + k)}
	for len(m) < n {
		m = append(m, w+32)
	}
	return m[:n:n]
}

// vCase_C30_split: two goroutines write messages that need one to three
// packets, on a server's or a client's channel, under every schedule within the
// bound.
func vCase_C30_split() {
	client := vBool("client")
	_, ch, _, p := vSide(client, MaxDataLenType(4))
	start := vLimit - 2
	vStartSend(ch, start)
	p.c.take()
	want := map[byte][][]byte{}
	sizes := [][]int{{9, 2}, {3, 7}, {6}}[vChoose("sizes", vBound("sizes", 2, 3))]
	done := make(chan bool, 3)
	ids := map[string]int{}
	for _, w := range []byte{'A', 'B'} {
		for k, n := range sizes {
			want[w] = append(want[w], vMsg(w, k, n))
		}
	}
	vSched(vBound("preemptions", 1, 2), 0)
	write := func(w byte) {
		for _, m := range want[w] {
			id, err := ch.WriteTo(m)
			vAssert(err == nil, "WriteTo failed")
			vAtomic(func() { ids[string(m)] = id })
		}
		done <- true
	}
	go write('A')
	go write('B')
	<-done
	<-done
	vWait()
	vSched(-1, 0)
	vWritten(p, p.c.take(), want, ids)
	vReach("done")
}

// vCase_C30_reader: the reader answers with split messages while the
// application writes others.
func vCase_C30_reader() {
	want := map[byte][][]byte{'A': {vMsg('A', 0, 6), vMsg('A', 1, 6)}, 'B': {vMsg('B', 0, 7), vMsg('B', 1, 7)}}
	n := 0
	_, c := vNewTru(7000, MaxDataLenType(4), ReaderFunc(func(ch *Channel, pac *Packet, err error) bool {
		if err == nil {
			_, err := ch.WriteTo(want['A'][n])
			vAssert(err == nil, "WriteTo failed")
			n++
		}
		return true
	}), ConnectFunc(func(ch *Channel, err error) { vTheCh = ch }))
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	c.take()
	ch := vTheCh
	vSched(vBound("preemptions", 1, 2), 0)
	p.sendMsg([]byte("x"))
	p.sendMsg([]byte("y"))
	for _, m := range want['B'] {
		_, err := ch.WriteTo(m)
		vAssert(err == nil, "WriteTo failed")
	}
	vWait()
	vSched(-1, 0)
	vWritten(p, c.take(), want, nil)
	vReach("done")
}

var vTheCh *Channel

// vCase_C30_received: two Tru endpoints: what two goroutines write is what the
// reader gets.
func vCase_C30_received() {
	cl, sl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	a, _, ch, _, _ := vPair(cl, sl)
	_ = a
	m, ok := vFieldPtr(ch, "maxDataLen").(*int)
	if !ok {
		vInconclusive("a channel's maximum data length is not an int field named maxDataLen")
	}
	*m = 4
	done := make(chan bool, 2)
	vSched(1, 0)
	for _, w := range []byte{'A', 'B'} {
		w := w
		go func() {
			for k := 0; k < 2; k++ {
				_, err := ch.WriteTo(vMsg(w, k, 5+k))
				vAssert(err == nil, "WriteTo failed")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vSched(-1, 0)
	vWait()
	got := sl.msgs()
	vAssert(len(got) == 4, "messages written at the same time do not arrive each once")
	next := map[byte]int{}
	for _, g := range got {
		vAssert(len(g.data) > 0, "parts of messages written at the same time are mixed")
		w := g.data[0]
		k := next[w]
		next[w]++
		vAssert(k < 2, "parts of messages written at the same time are mixed")
		vAssertSame(g.data, vMsg(w, k, 5+k), "messages written at the same time are mixed or change their order")
	}
	vReach("done")
}

// vCase_C30_long: messages of more packets than any queue holds, on a slow
// socket.
func vCase_C30_long() {
	client := vBool("client")
	_, ch, _, p := vSide(client, MaxDataLenType(4))
	p.c.take()
	p.c.slow = vMS(vChoose("slow", 2))
	want := map[byte][][]byte{}
	n := 4 * vBound("packets", 16, 40)
	done := make(chan bool, 2)
	vSched(vBound("preemptions", 1, 1), 0)
	for _, w := range []byte{'A', 'B'} {
		w := w
		want[w] = [][]byte{vMsg(w, 0, n), vMsg(w, 1, 3)}
		go func() {
			for _, m := range want[w] {
				_, err := ch.WriteTo(m)
				vAssert(err == nil, "WriteTo failed")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vSched(-1, 0)
	vSleep(200)
	vWait()
	var ds []vDgram
	for _, d := range p.c.take() { // without what was resent
		again := false
		for _, e := range ds {
			again = again || d.to == e.to && string(d.data) == string(e.data)
		}
		if !again {
			ds = append(ds, d)
		}
	}
	vWritten(p, ds, want, nil)
	vReach("done")
}
