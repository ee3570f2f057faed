package tru

import "time"

// C06: datagrams never exceed the configured and the UDP size limit.

const vUDPMax = 65507

// vLimited starts a pair of endpoints, the sending one configured by conf, and
// watches all datagrams.
func vLimited(conf func() *Tru) (ch *Channel, sl *vReaderLog, biggest *int, dgs *[]vDgram) {
	sl = &vReaderLog{ret: true}
	_, cb := vNewTru(7000, ReaderFunc(sl.read))
	a := conf()
	vWait()
	biggest = new(int)
	dgs = new([]vDgram)
	ch, err := a.Connect(cb.addr.String())
	vAssert(err == nil, "Connect failed on a loss-free network")
	vWait()
	ca := a.conn.(*vConn)
	vNet.policy = func(d vDgram) []vDgram {
		if d.from == ca.addr.String() && d.data[3]&^vsSplit == vsData {
			if len(d.data) > *biggest {
				*biggest = len(d.data)
			}
			*dgs = append(*dgs, d)
		}
		return []vDgram{d}
	}
	return
}

// vCarried is the number of data bytes a data packet carries: without header
// and without what encryption adds.
func vCarried(d []byte) int {
	n := len(d) - 4
	if n > 64 {
		n -= 28
	}
	return n
}

// vConfig configures the limit: by the constructor or by the setter.
func vConfig(setter bool, c int) func() *Tru {
	return func() *Tru {
		if setter {
			t, _ := vNewTru(0)
			t.SetMaxDataLen(c)
			return t
		}
		t, _ := vNewTru(0, MaxDataLenType(c))
		return t
	}
}

// vCase_C06_small: small limits, messages of any length around them.
func vCase_C06_small() {
	setter := vBool("setter")
	c := vConcrete(vInt("limit", 1, 5))
	ch, sl, _, dgs := vLimited(vConfig(setter, c))
	n := vConcrete(vInt("len", 0, vBound("message bytes", 12, 20)))
	msg := vBytes("msg", n, n)
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	for _, d := range *dgs {
		vAssert(vCarried(d.data) <= c, "a packet carries more data than the configured limit")
	}
	time.Sleep(100 * time.Millisecond)
	m := sl.msgs()
	vAssert(len(m) == 1, "a message was not handed over exactly once")
	vAssertSame(m[0].data, msg, "a message was handed over changed")
	vReach("done")
}

// vCase_C06_middle: limits at the borders of the encryption's layout and others.
func vCase_C06_middle() {
	setter := vBool("setter")
	c := []int{16, 20, 32, 63, 64, 65, 66, 100, 508, 1024, 1472}[vChoose("limit", 11)]
	ch, sl, _, dgs := vLimited(vConfig(setter, c))
	n := c + vChoose("more", 3) - 1
	if vBool("double") {
		n += c
	}
	msg := vBytes("msg", n, n)
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	for _, d := range *dgs {
		vAssert(vCarried(d.data) <= c, "a packet carries more data than the configured limit")
	}
	m := sl.msgs()
	vAssert(len(m) == 1, "a message was not handed over exactly once")
	vAssertSame(m[0].data, msg, "a message was handed over changed")
	vReach("done")
}

// vCase_C06_any: any value whatever configured, also zero, negative and too
// large ones: long messages are sent in datagrams UDP can carry and arrive.
func vCase_C06_any() {
	setter := vBool("setter")
	c := vInt("limit", -1<<62, 1<<62)
	top := vUDPMax - 32
	// the borders and everything outside; what is between is split in
	// thousands of values that differ in nothing but the length
	vAssume(c <= 0 || c == 30000 || c >= top-2)
	if c > 0 && c <= top {
		c = vConcrete(c)
	}
	ch, sl, big, dgs := vLimited(vConfig(setter, c))
	n := []int{0, 100, top - 1, top, top + 1, top + 20, top + 29, 2*top + 5}[vChoose("len", 8)]
	msg := vBytes("msg", n, n)
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	vAssert(*big <= vUDPMax, "a datagram is larger than UDP can carry")
	for _, d := range *dgs {
		vAssert(c <= 0 || vCarried(d.data) <= c, "a packet carries more data than the configured limit")
	}
	if c == 0 && n <= top {
		vAssert(len(*dgs) == 1, "with no limit a message that fits in a datagram was split")
	}
	time.Sleep(250 * time.Millisecond)
	m := sl.msgs()
	vAssert(len(m) == 1, "a message was not handed over exactly once")
	vAssertSame(m[0].data, msg, "a message was handed over changed")
	vReach("done")
}

// vCase_C06_twice: the setter after another setting: the last valid value rules.
func vCase_C06_twice() {
	c1, c2 := []int{0, 3, 70}[vChoose("first", 3)], []int{0, 5, 80}[vChoose("second", 3)]
	ch, sl, big, dgs := vLimited(func() *Tru {
		t, _ := vNewTru(0, MaxDataLenType(c1))
		t.SetMaxDataLen(c2)
		return t
	})
	msg := vBytes("msg", 81, 81)
	_, err := ch.WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	vAssert(*big <= vUDPMax, "a datagram is larger than UDP can carry")
	for _, d := range *dgs {
		vAssert(c2 == 0 || vCarried(d.data) <= c2, "a packet carries more data than the configured limit")
	}
	if c2 == 0 {
		vAssert(len(*dgs) == 1, "with no limit a message that fits in a datagram was split")
	}
	m := sl.msgs()
	vAssert(len(m) == 1, "a message was not handed over exactly once")
	vAssertSame(m[0].data, msg, "a message was handed over changed")
	vReach("done")
}

// vCase_C06_server: the limit configured on the accepting side.
func vCase_C06_server() {
	setter := vBool("setter")
	c := []int{0, 1, 5, 64, 65, 100}[vChoose("limit", 6)]
	var t *Tru
	var conn *vConn
	if setter {
		t, conn = vNewTru(7000)
		t.SetMaxDataLen(c)
	} else {
		t, conn = vNewTru(7000, MaxDataLenType(c))
	}
	p := vNewPeer(conn, "10.9.9.1:5001")
	p.dial()
	p.c.take()
	n := []int{0, 4, 66, 101, 300}[vChoose("len", 5)]
	msg := vBytes("msg", n, n)
	_, err := vChannel(t, p.addr).WriteTo(msg)
	vAssert(err == nil, "WriteTo failed")
	vWait()
	fs := vFrags(p, p.c.take())
	for _, f := range fs {
		vAssert(c == 0 || len(f.body) <= c, "a packet carries more data than the configured limit")
	}
	if c == 0 {
		vAssert(len(fs) == 1, "with no limit a message that fits in a datagram was split")
	}
	ms, _, open := vAssemble(fs)
	vAssert(len(ms) == 1 && !open, "a message was not sent as one message")
	vAssertSame(ms[0], msg, "a message was sent changed")
	vReach("done")
}
