package tru

// C16: received messages are dispatched to the right reader.

// vCase_C16_dispatch: a channel with or without a reader of its own, an
// endpoint with or without a common one, each claiming what it pleases.
func vCase_C16_dispatch() {
	client := vBool("client")
	hasOwn, hasCommon := vBool("own reader"), vBool("common reader")
	type call struct {
		own  bool
		ch   *Channel
		data string
		nilp bool
		err  error
		id   int
	}
	var calls []call
	n := 3
	claim := make([]bool, n)
	for i := range claim {
		claim[i] = vBool("claim")
	}
	k := 0
	own := func(ch *Channel, pac *Packet, err error) bool {
		calls = append(calls, call{true, ch, string(pac.Data()), pac == nil, err, pac.ID()})
		k++
		return claim[k-1]
	}
	common := func(ch *Channel, pac *Packet, err error) bool {
		calls = append(calls, call{false, ch, string(pac.Data()), pac == nil, err, pac.ID()})
		return vBool("common claims")
	}
	var par []interface{}
	if hasCommon {
		par = append(par, ReaderFunc(common))
	}
	var ch *Channel
	var p *vPeer
	if client {
		var t *Tru
		var c *vConn
		t, c = vNewTru(0, par...)
		p = vNewPeer(c, "10.9.9.1:5001")
		go func() {
			if hasOwn {
				ch, _ = t.Connect(p.addr, own)
			} else {
				ch, _ = t.Connect(p.addr)
			}
		}()
		vWait()
		p.serveConnect()
	} else {
		if hasOwn {
			par = append(par, ConnectFunc(func(c *Channel, err error) { vSetReader(c, own) }))
		}
		var t *Tru
		var c *vConn
		t, c = vNewTru(7000, par...)
		p = vNewPeer(c, "10.9.9.1:5001")
		p.dial()
		ch = vChannel(t, p.addr)
	}
	vAssert(ch != nil, "no channel")
	msgs := make([][]byte, n)
	for i := range msgs {
		msgs[i] = vBytes("msg", 0, 2)
		p.sendMsg(msgs[i])
	}
	vWait()
	j := 0
	next := func() call {
		vAssert(j < len(calls), "a message was not given to the reader it belongs to")
		j++
		return calls[j-1]
	}
	for i := range msgs {
		if hasOwn {
			c := next()
			vAssert(c.own, "a message was given to the common reader before the channel's own")
			vAssert(c.ch == ch && c.err == nil && !c.nilp && c.id == i, "a reader was given another channel or packet")
			vAssertSame([]byte(c.data), msgs[i], "a reader was given other data")
			if claim[i] {
				continue
			}
		}
		if hasCommon {
			c := next()
			vAssert(!c.own, "a message was given to the channel's own reader twice")
			vAssert(c.ch == ch && c.err == nil && !c.nilp && c.id == i, "a reader was given another channel or packet")
			vAssertSame([]byte(c.data), msgs[i], "a reader was given other data")
		}
	}
	vAssert(j == len(calls), "a message was given to a reader it does not belong to, or twice")
	vReach("done")
}

// vCase_C16_channels: messages of two channels, each with a reader of its own
// or none, in any interleaving.
func vCase_C16_channels() {
	var t *Tru
	common := &vReaderLog{}
	logs := []*vReaderLog{{ret: vBool("claims")}, {ret: vBool("claims")}}
	has := []bool{vBool("reader"), vBool("reader")}
	i := 0
	connected := func(c *Channel, err error) {
		if has[i] {
			vSetReader(c, logs[i].read)
		}
		i++
	}
	t, c := vNewTru(7000, ReaderFunc(common.read), ConnectFunc(connected))
	ps := []*vPeer{vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, "10.9.9.2:5001")}
	var chs []*Channel
	for _, p := range ps {
		p.dial()
		chs = append(chs, vChannel(t, p.addr))
	}
	var want [2][]string
	var wantCommon []string
	for k := 0; k < 4; k++ {
		w := vChoose("which", 2)
		m := string(rune('a' + k))
		ps[w].sendMsg([]byte(m))
		if has[w] {
			want[w] = append(want[w], m)
		}
		if !has[w] || !logs[w].ret {
			wantCommon = append(wantCommon, m)
		}
	}
	vWait()
	for w := range ps {
		m := logs[w].msgs()
		vAssert(len(m) == len(want[w]), "a channel's reader was not given exactly its channel's messages")
		for k := range m {
			vAssert(m[k].ch == chs[w] && string(m[k].data) == want[w][k], "a channel's reader was given another message")
		}
	}
	m := common.msgs()
	vAssert(len(m) == len(wantCommon), "the common reader was not given exactly the unclaimed messages")
	for k := range m {
		vAssert(string(m[k].data) == wantCommon[k], "the common reader was given another message")
		a := 0
		if m[k].ch == chs[1] {
			a = 1
		}
		vAssert(m[k].ch == chs[a], "the common reader was given another channel")
	}
	vReach("done")
}

// vCase_C16_connect: the reader given to Connect gets every message the server
// sends, from the moment the server considers the connection established: also
// those that arrive before Connect returns, or before the packet that tells
// the client.
func vCase_C16_connect() {
	common := vBool("common reader")
	ol, gl := &vReaderLog{ret: true}, &vReaderLog{ret: true}
	var par []interface{}
	if common {
		par = append(par, ReaderFunc(gl.read))
	}
	t, c := vNewTru(0, par...)
	p := vNewPeer(c, "10.9.9.1:5001")
	r := make(chan *Channel, 1)
	go func() {
		ch, err := t.Connect(p.addr, ol.read)
		vAssert(err == nil && ch != nil, "Connect failed although the server answered")
		r <- ch
	}()
	vWait()
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	done := p.connectDone(p.expect(vsClientAnswer))
	m := vBytes("message", 1, 2)
	vSched(vBound("preemptions", 1, 2), 0)
	if vBool("data first") {
		p.sendMsg(m)
		p.send(done)
	} else {
		p.send(done)
		p.sendMsg(m)
	}
	vWait()
	vSched(-1, 0)
	vAssert(len(r) == 1, "Connect does not return although the server answered")
	ch := <-r
	got := ol.msgs()
	vAssert(len(gl.msgs()) == 0, "a message for the reader given to Connect went to the common reader")
	vAssert(len(got) == 1, "a message that arrives as Connect ends does not reach the reader given to Connect")
	vAssertSame(got[0].data, m, "the reader is given other data than was sent")
	vAssert(got[0].ch == ch, "the reader is given another channel")
	vReach("done")
}
