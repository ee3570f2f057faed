package tru

import (
	"io"
	"net"
)

// C19: the net.Conn adapter is a faithful byte carrier.

// vListener starts a listener; its socket is the last one opened.
func vListener() (net.Listener, *vConn) {
	l, err := Listen("tru", ":7000")
	vAssert(err == nil && l != nil, "Listen failed")
	vWait()
	return l, vNet.order[len(vNet.order)-1]
}

type vDialed struct {
	conn net.Conn
	err  error
}

// vAcceptGo starts an Accept.
func vAcceptGo(l net.Listener) chan vDialed {
	r := make(chan vDialed, 1)
	go func() {
		c, err := l.Accept()
		r <- vDialed{c, err}
	}()
	return r
}

// vDialGo starts a Dial to the oracle peer.
func vDialGo(addr string) chan vDialed {
	r := make(chan vDialed, 1)
	go func() {
		c, err := Dial("tru", addr)
		r <- vDialed{c, err}
	}()
	return r
}

// vAccepted accepts a connection of a new peer.
func vAccepted(l net.Listener, c *vConn, addr string) (net.Conn, *vPeer) {
	r := vAcceptGo(l)
	p := vNewPeer(c, addr)
	p.dial()
	select {
	case a := <-r:
		vAssert(a.err == nil && a.conn != nil, "Accept failed although a peer connected")
		return a.conn, p
	default:
	}
	vFail("Accept does not return a peer that connected")
	return nil, nil
}

// vDialedTo dials an oracle peer.
func vDialedTo(addr string) (net.Conn, *vPeer) {
	r := vDialGo(addr)
	vWait()
	p := vNewPeer(vNet.order[len(vNet.order)-1], addr)
	p.serveConnect()
	select {
	case a := <-r:
		vAssert(a.err == nil && a.conn != nil, "Dial failed although the peer answered")
		return a.conn, p
	default:
	}
	vFail("Dial does not return although the peer answered")
	return nil, nil
}

// vNetConn is an accepted or a dialed connection.
func vNetConn(dialed bool) (net.Conn, *vPeer, net.Listener) {
	if dialed {
		c, p := vDialedTo("10.9.9.1:5001")
		return c, p, nil
	}
	l, s := vListener()
	c, p := vAccepted(l, s, "10.9.9.1:5001")
	return c, p, l
}

// vRd is a Read that may still be blocked.
type vRd struct {
	done bool
	b    []byte
	err  error
	size int
}

func vReadGo(c net.Conn, size int) *vRd {
	r := &vRd{size: size}
	go func() {
		b := make([]byte, size)
		n, err := c.Read(b)
		vAssert(n >= 0 && n <= size, "Read returns a count that is not within the buffer")
		vAtomic(func() {
			r.b, r.err = b[:n], err
			r.done = true
		})
	}()
	return r
}

// vReadNow reads, which must not block.
func vReadNow(c net.Conn, size int, why string) *vRd {
	r := vReadGo(c, size)
	vWait()
	vAssert(r.done, why)
	return r
}

// vReadMsg reads one message through to its end with buffers of the given
// size (0: a size chosen for every read); first is a read under way, if any.
func vReadMsg(c net.Conn, first *vRd, size int, want []byte) {
	var got []byte
	r := first
	for i := 0; ; i++ {
		if r == nil {
			s := size
			if s == 0 {
				s = 1 + vChoose("read size", 3)
			}
			r = vReadGo(c, s)
		}
		vWait()
		vAssert(r.done, "Read blocks although a message or its end is waiting")
		got = append(got, r.b...)
		if r.err != nil {
			vAssert(r.err == io.EOF, "Read fails on a live connection")
			break
		}
		vAssert(len(got) <= len(want), "Read returns bytes that were not sent")
		vAssert(i <= 2*len(want)+2, "a message does not end")
		r = nil
	}
	vAssert(len(got) == len(want), "Read returns another number of bytes than were sent")
	vAssertSame(got, want, "Read returns other bytes than were sent")
}

// vCase_C19_read: messages of any length and content, read with buffers of any
// sizes, before or after they arrive.
func vCase_C19_read() {
	c, p, _ := vNetConn(vBool("dialed"))
	n := 2
	var msgs [][]byte
	var first *vRd
	early := vBool("reader waits first")
	if early {
		first = vReadGo(c, 1+vChoose("first size", 3))
		vWait()
		vAssert(!first.done, "Read returns before anything was sent")
	}
	for i := 0; i < n; i++ {
		m := vBytes("message", 0, vBound("length", 3, 4))
		msgs = append(msgs, m)
		p.sendMsg(m)
	}
	vWait()
	if vBool("empty buffer") {
		// a read into no space takes nothing
		if first == nil {
			r := vReadNow(c, 0, "a Read into an empty buffer blocks although a message waits")
			vAssert(r.err == nil || len(msgs[0]) == 0 && r.err == io.EOF, "a Read into an empty buffer fails")
			if r.err != nil {
				msgs = msgs[1:]
			}
		}
	}
	for i, m := range msgs {
		vReadMsg(c, first, i*vBound("size of later reads", 2, 0), m)
		first = nil
		vReach("message")
	}
	r := vReadGo(c, 2)
	vWait()
	vAssert(!r.done, "Read returns something that was not sent")
	m := []byte("last")
	p.sendMsg(m)
	vReadMsg(c, r, 3, m)
	vReach("done")
}

// vCase_C19_readbig: a message received in several packets, read with a buffer
// of any size up to larger than the message.
func vCase_C19_readbig() {
	c, p, _ := vNetConn(vBool("dialed"))
	var m []byte
	for i := 0; i < 3; i++ {
		f := vBytes("fragment", 1, 3)
		p.send(p.data(p.next, f, i < 2))
		p.next++
		m = append(m, f...)
	}
	vWait()
	vReadMsg(c, nil, 1+vChoose("size", 12), m)
	p.sendMsg([]byte("x"))
	vReadMsg(c, nil, 2, []byte("x"))
	vReach("done")
}

// vCase_C19_write: a write of any bytes reports its length and puts exactly
// the message on the wire.
func vCase_C19_write() {
	c, p, _ := vNetConn(vBool("dialed"))
	p.c.take()
	for i := 0; i < 2; i++ {
		m := vBytes("message", 0, vBound("length", 5, 8))
		keep := append([]byte(nil), m...)
		n, err := c.Write(m)
		vAssert(err == nil, "Write fails on a live connection")
		vAssert(n == len(keep), "Write reports another length than was written")
		vAssert(vSame(m, keep), "Write changes the data it is given")
		vWait()
		msgs, _, open := vAssemble(vFrags(p, p.c.take()))
		vAssert(!open && len(msgs) == 1, "a write is not sent as one message")
		vAssertSame(msgs[0], keep, "a write is sent changed")
		vReach("written")
	}
}

// vCase_C19_writebig: writes around the size that needs more packets.
func vCase_C19_writebig() {
	c, p, _ := vNetConn(vBool("dialed"))
	p.c.take()
	max := (&Packet{}).MaxDataLen()
	m := make([]byte, max+vChoose("over", 3)-1)
	for i := range m {
		m[i] = byte(i * 7 >> 3)
	}
	n, err := c.Write(m)
	vAssert(err == nil && n == len(m), "Write does not report the full length")
	vWait()
	msgs, _, open := vAssemble(vFrags(p, p.c.take()))
	vAssert(!open && len(msgs) == 1, "a write is not sent as one message")
	vAssertSame(msgs[0], m, "a write is sent changed")
	vReach("written")
}

// vEnded is what must hold on a connection that has ended: what is still read
// are bytes that arrived, then every read fails; writes and a second Close
// fail.
func vEnded(c net.Conn, p *vPeer, rest []byte, ends int, whole bool) {
	k := 0
	eofs := 0
	for i := 0; ; i++ {
		r := vReadNow(c, 2, "Read blocks on an ended connection")
		vAssert(k+len(r.b) <= len(rest), "Read returns bytes that were not sent")
		vAssertSame(r.b, rest[k:k+len(r.b)], "Read returns other bytes than were sent")
		k += len(r.b)
		if r.err != nil && r.err != io.EOF {
			break
		}
		eofs += b2i(r.err == io.EOF)
		vAssert(eofs <= ends, "Read reports the end of a message that was not sent")
		vAssert(i < len(rest)+2*ends+2, "reads do not fail on an ended connection")
	}
	if whole {
		vAssert(k == len(rest) && eofs == ends, "a message that arrived before the peer closed is lost")
		vReach("drained")
	}
	p.c.take()
	for i := 0; i < 2; i++ {
		r := vReadNow(c, 1+i, "Read blocks on an ended connection")
		vAssert(len(r.b) == 0 && r.err != nil && r.err != io.EOF, "Read does not fail on an ended connection")
		n, err := c.Write([]byte("late"))
		vAssert(n == 0 && err != nil, "Write does not fail on an ended connection")
		vAssert(c.Close() != nil, "a second Close reports success")
	}
	vWait()
	vAssert(len(p.got(p.c.take(), vsData)) == 0, "an ended connection sends data")
	vReach("ended")
}

// vCase_C19_end: the connection ends by either side, with reads waiting,
// messages unread or partly read.
func vCase_C19_end() {
	dialed := vBool("dialed")
	c, p, l := vNetConn(dialed)
	var rest []byte
	ends := 0
	var blocked *vRd
	switch vChoose("state", 4) {
	case 1:
		blocked = vReadGo(c, 2)
	case 2: // unread messages
		for i := 0; i < 2; i++ {
			m := vBytes("message", 1, 2)
			p.sendMsg(m)
			rest = append(rest, m...)
			ends++
		}
	case 3: // partly read
		m := vBytes("message", 2, 4)
		p.sendMsg(m)
		vWait()
		r := vReadNow(c, 1, "Read blocks although a message waits")
		vAssert(r.err == nil && len(r.b) == 1, "Read of a waiting message does not return a byte")
		rest, ends = m[1:], 1
		if vBool("read through") {
			r = vReadNow(c, 8, "Read blocks although a message waits")
			vAssert(r.err == nil && len(r.b) == len(rest), "Read does not return the rest of the message")
			vAssertSame(r.b, rest, "Read returns other bytes than were sent")
			rest = nil
		}
	}
	vWait()
	p.c.take()
	whole := true
	switch vChoose("end", 5) {
	case 0:
		vAssert(c.Close() == nil, "Close of a live connection fails")
		vWait()
		vAssert(len(p.got(p.c.take(), vsDisconnect)) == 1, "the peer is not sent one disconnect")
		whole, rest, ends = false, nil, 0 // what was not read is not wanted any more
	case 1:
		p.send(vHdr(vsDisconnect, 0, nil))
	case 2:
		vSleep(16000)
	case 3:
		if l == nil {
			vSkip("no listener")
		}
		vAssert(l.Close() == nil, "closing the listener fails")
		whole = false
	case 4:
		if dialed {
			vSkip("a server does not connect")
		}
		// the peer connects anew; the listener's accept takes it
		r := vAcceptGo(l)
		q := vNewPeer(p.c, p.addr)
		q.uuid = "peer-again"
		q.dial()
		vAssert(len(r) == 1, "Accept does not return a peer that connected")
	}
	vWait()
	if blocked != nil {
		vAssert(blocked.done, "a blocked Read is not unblocked when the connection ends")
		vAssert(len(blocked.b) == 0 && blocked.err != nil && blocked.err != io.EOF, "a blocked Read does not fail when the connection ends")
		vReach("unblocked")
	}
	vEnded(c, p, rest, ends, whole)
}

// vCase_C19_unread: a connection whose messages are not read does not stop the
// others, and loses nothing.
func vCase_C19_unread() {
	l, s := vListener()
	ca, a := vAccepted(l, s, "10.9.9.1:5001")
	cb, b := vAccepted(l, s, "10.9.9.2:5001")
	n := vBound("messages", 30, 60)
	for i := 0; i < n; i++ {
		a.sendMsg([]byte{byte(i), byte(i + 1)})
	}
	vWait()
	s.take()
	m := vBytes("message", 0, 3)
	b.sendMsg(m)
	b.send(vHdr(vsPing, 0, nil))
	vReadMsg(cb, nil, 2, m)
	vAssert(len(b.got(s.take(), vsPong)) == 1, "a connection is not served while another is not read")
	k, err := cb.Write([]byte("out"))
	vAssert(k == 3 && err == nil, "Write fails while another connection is not read")
	if vBool("closed") {
		vAssert(ca.Close() == nil, "Close of a live connection fails")
		b.sendMsg(m)
		vReadMsg(cb, nil, 3, m)
		return
	}
	for i := 0; i < n; i++ {
		vReadMsg(ca, nil, 8, []byte{byte(i), byte(i + 1)})
	}
	vReach("done")
}

// vCase_C19_schedules: reads, writes, closes and disconnects at the same time:
// whatever the schedule, nothing is lost or added and everything ends.
func vCase_C19_schedules() {
	c, p, l := vNetConn(vBool("dialed"))
	msgs := [][]byte{[]byte("abc"), []byte("de")}
	var got []byte
	eofs, rd, wr := 0, false, false
	end := vChoose("end", 3)
	vSched(vBound("preemptions", 1, 2), 0)
	go func() {
		b := make([]byte, 2)
		for {
			n, err := c.Read(b)
			if n > 0 {
				got = append(got, b[:n]...)
			}
			if err == io.EOF {
				eofs++
			} else if err != nil {
				break
			}
		}
		vAtomic(func() { rd = true })
	}()
	go func() {
		for {
			n, err := c.Write([]byte("out"))
			vAssert(err == nil && n == 3 || err != nil && n == 0, "Write reports a wrong length")
			if err != nil || end == 2 {
				break
			}
			vSleep(10)
		}
		vAtomic(func() { wr = true })
	}()
	p.sendMsg(msgs[0])
	p.sendMsg(msgs[1])
	switch end {
	case 0:
		err := c.Close()
		vAssert(err == nil, "Close of a live connection fails")
	case 1:
		p.send(vHdr(vsDisconnect, 0, nil))
	case 2:
		vWait()
		vSched(-1, 0)
		vAssert(string(got) == "abcde" && eofs == 2, "messages are not read whole while others are written")
		vAssert(wr, "Write does not return")
		vAssert(c.Close() == nil, "Close of a live connection fails")
	}
	vWait()
	vSleep(50)
	vWait()
	vSched(-1, 0)
	vAssert(rd, "a Read is not unblocked when the connection ends")
	vAssert(wr, "a Write does not fail when the connection ends")
	full := "abcde"
	vAssert(len(got) <= 5 && string(got) == full[:len(got)], "Read returns other bytes than were sent")
	vAssert(eofs <= 2 && (eofs < 1 || len(got) >= 3) && (eofs < 2 || len(got) == 5) && (eofs >= 1 || len(got) <= 3), "Read reports a wrong number of message ends")
	vAssert(c.Close() != nil, "a second Close reports success")
	_ = l
	vReach("done")
}

// vCase_C19_closes: two Closes, or a Close and the peer's disconnect, at the
// same time: at most one reports success.
func vCase_C19_closes() {
	c, p, _ := vNetConn(vBool("dialed"))
	both := vBool("both local")
	r := make(chan error, 2)
	p.c.take()
	vSched(vBound("preemptions", 1, 2), 0)
	go func() { r <- c.Close() }()
	if both {
		go func() { r <- c.Close() }()
	} else {
		p.send(vHdr(vsDisconnect, 0, nil))
		r <- io.EOF
	}
	e1, e2 := <-r, <-r
	vWait()
	vSched(-1, 0)
	vAssert(e1 != nil || e2 != nil, "two Closes report success")
	if both {
		vAssert(e1 == nil || e2 == nil, "no Close reports success")
	}
	vAssert(len(p.got(p.c.take(), vsDisconnect)) <= 1, "the peer is sent more than one disconnect")
	vEnded(c, p, nil, 0, true)
}

// vCase_C19_dialdata: what the server sends as soon as it considers the
// connection established, even before the client learns of that, is read.
func vCase_C19_dialdata() {
	r := vDialGo("10.9.9.1:5001")
	vWait()
	p := vNewPeer(vNet.order[len(vNet.order)-1], "10.9.9.1:5001")
	sched := vBool("schedules")
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	done := p.connectDone(p.expect(vsClientAnswer))
	m1, m2 := vBytes("message", 1, 2), []byte("second")
	if sched {
		vSched(vBound("preemptions", 1, 2), 0)
	}
	switch vChoose("order", 3) {
	case 0:
		p.send(done)
		p.sendMsg(m1)
		p.sendMsg(m2)
	case 1:
		p.sendMsg(m1)
		p.send(done)
		p.sendMsg(m2)
	case 2:
		p.sendMsg(m1)
		p.sendMsg(m2)
		vWait()
		p.send(done)
	}
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 1, "Dial does not return although the peer answered")
	a := <-r
	vAssert(a.err == nil && a.conn != nil, "Dial failed although the peer answered")
	vReadMsg(a.conn, nil, 2, m1)
	vReadMsg(a.conn, nil, 3, m2)
	vReach("done")
}

// vCase_C19_dialgone: the server leaves as soon as it has accepted.
func vCase_C19_dialgone() {
	r := vDialGo("10.9.9.1:5001")
	vWait()
	p := vNewPeer(vNet.order[len(vNet.order)-1], "10.9.9.1:5001")
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	done := p.connectDone(p.expect(vsClientAnswer))
	vSched(vBound("preemptions", 1, 2), 0)
	p.send(done)
	p.send(vHdr(vsDisconnect, 0, nil))
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 1, "Dial does not return although the peer answered")
	a := <-r
	if a.err == nil {
		vAssert(a.conn != nil, "Dial returns neither a connection nor an error")
		vEnded(a.conn, p, nil, 0, true)
	}
	vReach("done")
}

// vCase_C19_writers: two writers at the same time; both messages are sent
// whole.
func vCase_C19_writers() {
	c, p, _ := vNetConn(vBool("dialed"))
	p.c.take()
	r := make(chan bool, 2)
	vSched(vBound("preemptions", 1, 2), 0)
	for _, s := range []string{"first", "other"} {
		s := s
		go func() {
			n, err := c.Write([]byte(s))
			vAssert(err == nil && n == 5, "Write fails on a live connection")
			r <- true
		}()
	}
	<-r
	<-r
	vWait()
	vSched(-1, 0)
	msgs, _, _ := vAssemble(vFrags(p, p.c.take()))
	vAssert(len(msgs) == 2, "two writes are not sent as two messages")
	x, y := string(msgs[0]), string(msgs[1])
	vAssert(x == "first" && y == "other" || x == "other" && y == "first", "a write is sent changed")
	vReach("done")
}

// vCase_C19_many: very many unread messages, then the end of the connection by
// the peer: all are read, whole and one by one.
func vCase_C19_many() {
	c, p, _ := vNetConn(vBool("dialed"))
	n := vBound("messages", 150, 400)
	var rest []byte
	for i := 0; i < n; i++ {
		m := []byte{byte(i), byte(i >> 8)}
		p.sendMsg(m)
		rest = append(rest, m...)
		vWait()
	}
	k := 0
	if vBool("read some") {
		vReadMsg(c, nil, 8, rest[:2])
		k++
	}
	if vBool("ended") {
		p.send(vHdr(vsDisconnect, 0, nil))
		vWait()
	}
	for ; k < n; k++ {
		vReadMsg(c, nil, 8, rest[2*k:2*k+2])
	}
	vReach("done")
}

// vCase_C19_readers: two Reads wait at the same time; messages arrive, or the
// connection ends: every Read returns.
func vCase_C19_readers() {
	c, p, _ := vNetConn(vBool("dialed"))
	size := []int{1, 8}[vChoose("buffers", 2)]
	x, y := vReadGo(c, size), vReadGo(c, size)
	vWait()
	vAssert(!x.done && !y.done, "Read returns before anything was sent")
	end := vChoose("end", 4)
	vSched(vBound("preemptions", 1, 2), 0)
	switch end {
	case 0:
		p.sendMsg([]byte("ab"))
		p.sendMsg([]byte("cd"))
	case 1:
		vAssert(c.Close() == nil, "Close of a live connection fails")
	case 2:
		p.send(vHdr(vsDisconnect, 0, nil))
	case 3:
		p.sendMsg([]byte("ab"))
		vWait()
		p.send(vHdr(vsDisconnect, 0, nil))
	}
	vWait()
	vSched(-1, 0)
	vAssert(x.done && y.done, "a waiting Read is not woken")
	fails := func(r *vRd) bool { return len(r.b) == 0 && r.err != nil && r.err != io.EOF }
	switch end {
	case 0, 3:
		// together they take what is there, in order, and leave the rest
		eofs := 0
		for _, r := range []*vRd{x, y} {
			eofs += b2i(r.err == io.EOF)
			vAssert(r.err == nil || r.err == io.EOF, "a Read fails although a message or its end waits")
		}
		want, ends := "abcd", 2
		if end == 3 {
			want, ends = "ab", 1
		}
		var rest []byte
		for i := 0; i < 6 && eofs < ends; i++ {
			r := vReadNow(c, 8, "Read blocks although a message or its end is waiting")
			vAssert(r.err == nil || r.err == io.EOF, "a Read fails although a message or its end waits")
			rest = append(rest, r.b...)
			eofs += b2i(r.err == io.EOF)
		}
		xy := string(x.b) + string(y.b) + string(rest)
		yx := string(y.b) + string(x.b) + string(rest)
		vAssert(eofs == ends && (xy == want || yx == want), "two Reads do not return the messages once")
	default:
		vAssert(fails(x) && fails(y), "a waiting Read does not fail when the connection ends")
	}
	vReach("done")
}
