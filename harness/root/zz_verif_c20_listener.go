package tru

import (
	"io"
	"net"
	"strconv"
)

// C20: a listener returns each peer once and stops when closed. (The helpers
// of C19 are repeated: each property's harness stands alone.)

type vAcc struct {
	conn net.Conn
	err  error
}

func vListen20(addr string) (net.Listener, *vConn) {
	n := len(vNet.order)
	l, err := Listen("tru", addr)
	vAssert(err == nil && l != nil, "Listen failed")
	vWait()
	vAssert(len(vNet.order) == n+1, "Listen does not open a socket of its own")
	return l, vNet.order[n]
}

func vAcc20(l net.Listener) chan vAcc {
	r := make(chan vAcc, 1)
	go func() {
		c, err := l.Accept()
		r <- vAcc{c, err}
	}()
	return r
}

// vRead20 reads from a connection whose data has arrived.
func vRead20(c net.Conn, want []byte, why string) {
	type rd struct {
		b   []byte
		err error
	}
	r := make(chan rd, 1)
	var got []byte
	for i := 0; i <= len(want)+1; i++ {
		go func() {
			b := make([]byte, 64)
			n, err := c.Read(b)
			r <- rd{b[:n], err}
		}()
		vWait()
		vAssert(len(r) == 1, why)
		x := <-r
		got = append(got, x.b...)
		if x.err != nil {
			vAssert(x.err == io.EOF, why)
			break
		}
	}
	vAssertSame(got, want, why)
}

// vPeers20 checks the accepted connections against the peers: each peer has
// one connection of its own, with its address, its data, and to which it is
// the one that receives.
func vPeers20(l net.Listener, ps []*vPeer, cs []net.Conn, msgs [][]byte) {
	vAssert(len(cs) == len(ps), "not every peer that connected is accepted once")
	for i, p := range ps {
		n := 0
		for _, c := range cs {
			vAssert(c.RemoteAddr() != nil && c.LocalAddr() != nil, "a connection has no addresses")
			if c.RemoteAddr().String() != p.addr {
				continue
			}
			n++
			vAssert(c.LocalAddr().String() == p.c.addr.String(), "a connection's local address is not the listener's")
			if msgs[i] != nil {
				vRead20(c, msgs[i], "a peer's data cannot be read from its connection")
			}
			p.c.take()
			k, err := c.Write([]byte("hello"))
			vAssert(k == 5 && err == nil, "an accepted connection cannot be written to")
			vWait()
			fs := vFrags(p, p.c.take())
			vAssert(len(fs) == 1 && string(fs[0].body) == "hello", "what is written to an accepted connection is not sent to its peer")
		}
		vAssert(n == 1, "a peer that connected is not accepted exactly once")
	}
}

// vCase_C20_accept: peers connect in any order relative to the Accepts, and
// send data at once.
func vCase_C20_accept() {
	l, s := vListen20(":7000")
	n := 1 + vChoose("peers", vBound("peers", 3, 4))
	var ps []*vPeer
	var cs []net.Conn
	var msgs [][]byte
	var waiting []chan vAcc
	accepts := 0
	take := func() {
		var left []chan vAcc
		for _, r := range waiting {
			if len(r) == 1 {
				a := <-r
				vAssert(a.err == nil && a.conn != nil, "Accept fails on a live listener")
				cs = append(cs, a.conn)
			} else {
				left = append(left, r)
			}
		}
		waiting = left
	}
	for len(ps) < n || accepts < n {
		if accepts < n && (len(ps) == n || vBool("accept next")) {
			waiting = append(waiting, vAcc20(l))
			accepts++
		} else {
			p := vNewPeer(s, "10.9.9."+strconv.Itoa(len(ps)+1)+":5001")
			p.session = []byte("0123456789abcdef0123456789ABCDE" + strconv.Itoa(len(ps)))
			p.dial()
			var m []byte
			if vBool("data at once") {
				m = vBytes("data", 1, 2)
				p.sendMsg(m)
			}
			ps = append(ps, p)
			msgs = append(msgs, m)
		}
		vWait()
		take()
		want := accepts
		if len(ps) < want {
			want = len(ps)
		}
		vAssert(len(cs) == want, "an Accept does not return although a peer connected, or returns without one")
	}
	r := vAcc20(l)
	vWait()
	vAssert(len(r) == 0, "Accept returns a connection no peer made")
	vPeers20(l, ps, cs, msgs)
	vReach("done")
}

// vCase_C20_schedules: peers connect, send and are accepted at the same time.
func vCase_C20_schedules() {
	l, s := vListen20(":7000")
	a, b := vNewPeer(s, "10.9.9.1:5001"), vNewPeer(s, "10.9.9.2:5001")
	b.session = []byte("fedcba9876543210FEDCBA9876543210")
	one := vBool("one accepter")
	early := vBool("accept first")
	r := make(chan vAcc, 4)
	accept := func() {
		if one {
			go func() {
				for i := 0; i < 2; i++ {
					c, err := l.Accept()
					r <- vAcc{c, err}
				}
			}()
			return
		}
		for i := 0; i < 2; i++ {
			go func() {
				c, err := l.Accept()
				r <- vAcc{c, err}
			}()
		}
	}
	if early {
		accept()
		vWait()
	}
	a.send(a.connectPacket())
	b.send(b.connectPacket())
	vWait()
	ds := s.take()
	fa, fb := a.got(ds, vsServerAnswer), b.got(ds, vsServerAnswer)
	vAssert(len(fa) == 1 && len(fb) == 1, "a connect packet is not answered once")
	xa, xb := a.answerPacket(fa[0].data), b.answerPacket(fb[0].data)
	vSched(vBound("preemptions", 1, 2), 0)
	a.send(xa)
	a.sendMsg([]byte("from a"))
	b.send(xb)
	b.sendMsg([]byte("from b"))
	if !early {
		accept()
	}
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 2, "not every peer that connected is accepted")
	x, y := <-r, <-r
	vAssert(x.err == nil && y.err == nil, "Accept fails on a live listener")
	vPeers20(l, []*vPeer{a, b}, []net.Conn{x.conn, y.conn}, [][]byte{[]byte("from a"), []byte("from b")})
	vReach("done")
}

// vCase_C20_close: closing unblocks waiting Accepts, later ones fail, what was
// accepted ends, a new listener works on the same port.
func vCase_C20_close() {
	vNet.strict = true
	l, s := vListen20(":7000")
	var c net.Conn
	switch vChoose("before", 3) {
	case 1: // an accepted connection
		r := vAcc20(l)
		p := vNewPeer(s, "10.9.9.1:5001")
		p.dial()
		vAssert(len(r) == 1, "Accept does not return a peer that connected")
		c = (<-r).conn
	case 2: // one not accepted yet
		p := vNewPeer(s, "10.9.9.1:5001")
		p.dial()
	}
	var rs []chan vAcc
	if c != nil || len(s.sent) == 0 {
		for i := vChoose("waiting accepts", 3); i > 0; i-- {
			rs = append(rs, vAcc20(l))
		}
	}
	vWait()
	vAssert(l.Close() == nil, "closing a listener fails")
	vWait()
	for _, r := range rs {
		vAssert(len(r) == 1, "a waiting Accept is not unblocked when the listener is closed")
		a := <-r
		vAssert(a.err != nil && a.conn == nil, "a waiting Accept does not return an error when the listener is closed")
		vReach("unblocked")
	}
	for i := 0; i < 2; i++ {
		r := vAcc20(l)
		vWait()
		vAssert(len(r) == 1, "Accept blocks on a closed listener")
		a := <-r
		vAssert(a.err != nil && a.conn == nil, "Accept on a closed listener does not return an error")
	}
	if vBool("close again") {
		done := make(chan bool, 1)
		go func() { l.Close(); done <- true }()
		vWait()
		vAssert(len(done) == 1, "closing a listener again blocks")
	}
	vAssert(s.once, "a closed listener keeps its port")
	// a new listener
	l2, s2 := vListen20(":7000")
	r := vAcc20(l2)
	p := vNewPeer(s2, "10.9.9.7:5001")
	p.dial()
	p.sendMsg([]byte("again"))
	vWait()
	vAssert(len(r) == 1, "a new listener does not accept")
	a := <-r
	vAssert(a.err == nil && a.conn != nil, "Accept fails on a new listener")
	vPeers20(l2, []*vPeer{p}, []net.Conn{a.conn}, [][]byte{[]byte("again")})
	vReach("done")
}

// vCase_C20_closesched: Accept, Close and a peer connecting at the same time.
func vCase_C20_closesched() {
	l, s := vListen20(":7000")
	p := vNewPeer(s, "10.9.9.1:5001")
	p.send(p.connectPacket())
	vWait()
	x := p.answerPacket(p.expect(vsServerAnswer))
	vSched(vBound("preemptions", 1, 2), 0)
	r := vAcc20(l)
	p.send(x)
	l.Close()
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 1, "a waiting Accept is not unblocked when the listener is closed")
	a := <-r
	vAssert((a.err == nil) != (a.conn == nil), "Accept returns neither a connection nor an error")
	if a.conn != nil {
		vAssert(a.conn.RemoteAddr().String() == p.addr, "Accept returns a connection of another peer")
		_, err := a.conn.Write([]byte("x"))
		vAssert(err != nil, "a connection of a closed listener can be written to")
	}
	r = vAcc20(l)
	vWait()
	vAssert(len(r) == 1, "Accept blocks on a closed listener")
	a = <-r
	vReach("done")
}

// vCase_C20_backlog: peers that are not accepted do not stop the endpoint, and
// are all accepted later.
func vCase_C20_backlog() {
	l, s := vListen20(":7000")
	r := vAcc20(l)
	q := vNewPeer(s, "10.9.8.1:5001")
	q.dial()
	c := (<-r).conn
	n := vBound("peers", 140, 300)
	var ps []*vPeer
	var msgs [][]byte
	for i := 0; i < n; i++ {
		p := vNewPeer(s, "10.9.9.1:"+strconv.Itoa(5001+i))
		p.dial()
		m := []byte("data " + strconv.Itoa(i))
		p.sendMsg(m)
		ps = append(ps, p)
		msgs = append(msgs, m)
	}
	vWait()
	q.sendMsg([]byte("served"))
	vWait()
	vRead20(c, []byte("served"), "a connection is not served while peers wait to be accepted")
	var cs []net.Conn
	for i := 0; i < n; i++ {
		r := vAcc20(l)
		vWait()
		vAssert(len(r) == 1, "Accept does not return a peer that connected")
		a := <-r
		vAssert(a.err == nil && a.conn != nil, "Accept fails on a live listener")
		cs = append(cs, a.conn)
	}
	vPeers20(l, ps, cs, msgs)
	vReach("done")
}

// vCase_C20_gone: peers that leave before they are accepted: every other peer
// is still accepted once; a connection returned for one that left has ended.
func vCase_C20_gone() {
	l, s := vListen20(":7000")
	var ps []*vPeer
	gone := map[string]bool{}
	for i := 0; i < 3; i++ {
		p := vNewPeer(s, "10.9.9."+strconv.Itoa(i+1)+":5001")
		p.dial()
		if i < 2 && vBool("leaves") {
			p.send(vHdr(vsDisconnect, 0, nil))
			vWait()
			gone[p.addr] = true
		}
		ps = append(ps, p)
	}
	seen := map[string]int{}
	for i := 0; i < 3; i++ {
		r := vAcc20(l)
		vWait()
		if len(r) == 0 {
			break
		}
		a := <-r
		vAssert(a.err == nil && a.conn != nil, "Accept fails on a live listener")
		seen[a.conn.RemoteAddr().String()]++
		_, err := a.conn.Write([]byte("x"))
		vAssert((err != nil) == gone[a.conn.RemoteAddr().String()], "an accepted connection is not in its peer's state")
	}
	for _, p := range ps {
		vAssert(seen[p.addr] == 1 || gone[p.addr] && seen[p.addr] == 0, "a peer that connected is not accepted exactly once")
	}
	vReach("done")
}

// vCase_C20_again: duplicated handshake packets make no further connection; a
// peer that connects anew is accepted anew.
func vCase_C20_again() {
	l, s := vListen20(":7000")
	p := vNewPeer(s, "10.9.9.1:5001")
	cp := p.connectPacket()
	p.send(cp)
	vWait()
	sa := p.expect(vsServerAnswer)
	ca := p.answerPacket(sa)
	p.send(ca)
	vWait()
	switch vChoose("repeated", 3) {
	case 1:
		p.send(ca)
	case 2:
		p.send(cp)
	}
	vWait()
	r := vAcc20(l)
	vWait()
	vAssert(len(r) == 1, "Accept does not return a peer that connected")
	a := <-r
	switch vChoose("repeated later", 3) {
	case 1:
		p.send(ca)
	case 2:
		p.send(cp)
	}
	vWait()
	r = vAcc20(l)
	vWait()
	vAssert(len(r) == 0, "a repeated handshake packet makes another connection")
	vPeers20(l, []*vPeer{p}, []net.Conn{a.conn}, [][]byte{nil})
	q := vNewPeer(s, p.addr)
	q.uuid = "peer-anew"
	q.dial()
	q.sendMsg([]byte("anew"))
	vWait()
	vAssert(len(r) == 1, "a peer that connects anew is not accepted")
	b := <-r
	vAssert(b.err == nil && b.conn != nil, "Accept fails on a live listener")
	vPeers20(l, []*vPeer{q}, []net.Conn{b.conn}, [][]byte{[]byte("anew")})
	_, err := a.conn.Write([]byte("x"))
	vAssert(err != nil, "the connection a peer has replaced can be written to")
	vReach("done")
}

// vCase_C20_several: listeners on several ports, dialled connections before
// and after them: each listener accepts its own peers.
func vCase_C20_several() {
	vNet.strict = true
	var d chan vAcc
	dial := func() {
		d = make(chan vAcc, 1)
		go func() {
			c, err := Dial("tru", "10.9.9.50:5001")
			d <- vAcc{c, err}
		}()
		vWait()
		var p *vPeer
		for _, s := range vNet.order {
			for _, g := range s.take() {
				if g.to == "10.9.9.50:5001" && len(g.data) > 4 && g.data[3] == vsConnect {
					p = vNewPeer(s, "10.9.9.50:5001")
					p.send(p.serverAnswer(g.data))
				}
			}
		}
		vAssert(p != nil, "Dial sends no connect packet")
		vWait()
		p.send(p.connectDone(p.expect(vsClientAnswer)))
		vWait()
		vAssert(len(d) == 1, "Dial does not return although the peer answered")
		x := <-d
		vAssert(x.err == nil && x.conn != nil, "Dial failed although the peer answered")
		vAssert(x.conn.RemoteAddr().String() == p.addr, "a dialled connection's remote address is not the peer's")
		vAssert(x.conn.LocalAddr().String() == p.c.addr.String(), "a dialled connection's local address is not its socket's")
		p.sendMsg([]byte("reply"))
		vWait()
		vRead20(x.conn, []byte("reply"), "a peer's data cannot be read from a dialled connection")
	}
	when := vChoose("dial when", 4)
	if when == 1 {
		dial()
	}
	l1, s1 := vListen20(":7001")
	if when == 2 {
		dial()
	}
	l2, s2 := vListen20(":7002")
	if when == 3 {
		dial()
	}
	vAssert(l1.Addr() != nil && l1.Addr().String() == s1.addr.String(), "a listener's address is not where it listens")
	vAssert(l2.Addr() != nil && l2.Addr().String() == s2.addr.String(), "a listener's address is not where it listens")
	r1, r2 := vAcc20(l1), vAcc20(l2)
	vWait()
	vAssert(len(r1) == 0 && len(r2) == 0, "Accept returns a connection no peer made")
	p1 := vNewPeer(s1, "10.9.9.1:5001")
	p1.dial()
	vWait()
	vAssert(len(r1) == 1 && len(r2) == 0, "a peer is not accepted by the listener it connected to")
	p2 := vNewPeer(s2, "10.9.9.1:5001")
	p2.dial()
	vWait()
	vAssert(len(r2) == 1, "a peer is not accepted by the listener it connected to")
	a1, a2 := <-r1, <-r2
	p1.sendMsg([]byte("one"))
	p2.sendMsg([]byte("two"))
	vWait()
	vPeers20(l1, []*vPeer{p1}, []net.Conn{a1.conn}, [][]byte{[]byte("one")})
	vPeers20(l2, []*vPeer{p2}, []net.Conn{a2.conn}, [][]byte{[]byte("two")})
	if vBool("close one") {
		vAssert(l1.Close() == nil, "closing a listener fails")
		vWait()
		p2.sendMsg([]byte("more"))
		vWait()
		vRead20(a2.conn, []byte("more"), "closing a listener ends another one's connections")
		vReach("closed")
	}
	_, err := Listen("tru", ":7002")
	vAssert(err != nil, "Listen on a port in use reports no error")
	vReach("done")
}

// vCase_C20_dialclosed: dialling works after listeners have been closed, and
// listening after.
func vCase_C20_dialclosed() {
	vNet.strict = true
	n := vChoose("closed listeners", 3)
	for i := 0; i < n; i++ {
		l, _ := vListen20(":7000")
		l.Close()
		vWait()
	}
	d := make(chan vAcc, 1)
	go func() {
		c, err := Dial("tru", "10.9.9.50:5001")
		d <- vAcc{c, err}
	}()
	vWait()
	s := vNet.order[len(vNet.order)-1]
	p := vNewPeer(s, "10.9.9.50:5001")
	p.serveConnect()
	vAssert(len(d) == 1, "Dial does not return although the peer answered")
	x := <-d
	vAssert(x.err == nil && x.conn != nil, "Dial failed although the peer answered")
	p.sendMsg([]byte("reply"))
	vWait()
	vRead20(x.conn, []byte("reply"), "a peer's data cannot be read from a dialled connection")
	vReach("done")
}

// vCase_C20_address: malformed addresses are reported as errors and leave
// nothing behind. (Symbolic bytes are kept away from the sign characters: "+7"
// is a number to the standard library.)
func vCase_C20_address() {
	b := vBytes("address", 0, vBound("length", 3, 4))
	colons, digits, rest := 0, 0, 0
	for _, c := range b {
		vAssume(c != '+' && c != '-' && c != '_')
		if c == ':' {
			colons++
		} else if c >= '0' && c <= '9' {
			if colons > 0 {
				digits++
			}
		} else if colons > 0 {
			rest++
		}
	}
	if colons == 1 && digits > 0 && rest == 0 {
		return // well formed
	}
	vNet.strict = true
	type res struct {
		l   net.Listener
		err error
	}
	r := make(chan res, 1)
	go func() {
		l, err := Listen("tru", string(b))
		r <- res{l, err}
	}()
	vWait()
	vAssert(len(r) == 1, "Listen does not return")
	x := <-r
	vAssert(x.err != nil, "a malformed listen address is accepted")
	vAssert(len(vNet.conns) == 0, "a refused address leaves a socket open")
	vReach("refused")
}

// vCase_C20_badaddress: concrete malformed addresses, listening and dialling.
func vCase_C20_badaddress() {
	bad := []string{"", ":", "x", "7000", "host:port", ":70000", ":-1", "a:b:c", "1:2:3", ":7000x", ": 7000", ":99999999999999999999"}
	a := bad[vChoose("address", len(bad))]
	if vBool("dial") {
		d := make(chan error, 1)
		go func() {
			c, err := Dial("tru", a)
			vAssert(err == nil || c == nil, "a failed Dial returns a connection")
			d <- err
		}()
		vSleep(6000)
		vWait()
		vAssert(len(d) == 1, "Dial to a malformed address does not return")
		vAssert(<-d != nil, "Dial to a malformed address reports success")
		vReach("dial")
		return
	}
	l, err := Listen("tru", a)
	vAssert(err != nil, "a malformed listen address is accepted")
	_ = l
	vWait()
	vAssert(len(vNet.conns) == 0, "a refused address leaves a socket open")
	// and a good one works after it
	l2, s := vListen20(":7000")
	r := vAcc20(l2)
	p := vNewPeer(s, "10.9.9.1:5001")
	p.dial()
	vAssert(len(r) == 1, "Accept does not return a peer that connected")
	vReach("listen")
}

// vCase_C20_accepters: more Accepts than peers; a peer comes while they wait
// and another Accept starts: each peer is returned once, the others wait on.
func vCase_C20_accepters() {
	l, s := vListen20(":7000")
	a, b := vNewPeer(s, "10.9.9.1:5001"), vNewPeer(s, "10.9.9.2:5001")
	b.session = []byte("fedcba9876543210FEDCBA9876543210")
	a.send(a.connectPacket())
	b.send(b.connectPacket())
	vWait()
	ds := s.take()
	fa, fb := a.got(ds, vsServerAnswer), b.got(ds, vsServerAnswer)
	vAssert(len(fa) == 1 && len(fb) == 1, "a connect packet is not answered once")
	xa, xb := a.answerPacket(fa[0].data), b.answerPacket(fb[0].data)
	r := make(chan vAcc, 8)
	acc := func() {
		c, err := l.Accept()
		r <- vAcc{c, err}
	}
	go acc()
	if vBool("two wait") {
		go acc()
	}
	vWait()
	vSched(vBound("preemptions", 2, 3), 0)
	a.send(xa)
	go acc()
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 1, "not exactly one of several Accepts returns the only peer")
	x := <-r
	vAssert(x.err == nil && x.conn != nil, "Accept fails on a live listener")
	b.send(xb)
	vWait()
	vAssert(len(r) == 1, "not exactly one of several Accepts returns the second peer")
	y := <-r
	vAssert(y.err == nil && y.conn != nil, "Accept fails on a live listener")
	vPeers20(l, []*vPeer{a, b}, []net.Conn{x.conn, y.conn}, [][]byte{nil, nil})
	vReach("done")
}
