package tru

import (
	"net"
	"time"
)

// C36: whatever the application, the network and the timers do at the same
// time, the endpoint's memory is accessed in order.

// vRaceOp is something the application or the network does.
type vRaceOp struct {
	name string
	do   func(w *vRaceT)
	b    bool // needs the other peer
}

// vRaceT is a server endpoint with two peers.
type vRaceT struct {
	t    *Tru
	a, b *vPeer
	ca   *Channel
	cb   *Channel
}

func (w *vRaceT) deliv(pac *Packet, err error) {
	if pac != nil {
		pac.ID()
		pac.Data()
	}
}

var vRaceOps = []vRaceOp{
	{"a message is written", func(w *vRaceT) { w.ca.WriteTo([]byte("hello")) }, false},
	{"a message of several packets is written", func(w *vRaceT) { w.ca.WriteTo(make([]byte, 20)) }, false},
	{"a message is written with a delivery callback", func(w *vRaceT) {
		w.ca.WriteTo([]byte("hello"), w.deliv, 700*time.Millisecond)
	}, false},
	{"a message is written to the other peer", func(w *vRaceT) { w.t.WriteTo([]byte("hello"), w.b.addr) }, true},
	{"the statistics are asked for", func(w *vRaceT) {
		st := w.t.Statistic()
		st.NumRows()
	}, false},
	{"the statistics are printed", func(w *vRaceT) {
		w.t.StatisticMinilog()
		w.t.StatisticPrint()
		vSleep(250)
		w.t.StatisticPrintRunning()
		w.t.StatisticPrintStop()
	}, false},
	{"the channels are visited", func(w *vRaceT) {
		w.t.ForEachChannel(func(ch *Channel) {
			ch.Addr()
			ch.Triptime()
			ch.ServerMode()
			ch.Destroyed()
			_ = ch.String() + ch.IP().String()
			ch.Port()
		})
	}, false},
	{"a channel is closed", func(w *vRaceT) { w.ca.Close() }, false},
	{"the endpoint is closed", func(w *vRaceT) { w.t.Close() }, true},
	{"another endpoint is connected to", func(w *vRaceT) {
		q := vNewPeer(w.a.c, "10.9.9.5:5001")
		go vRaceServe(q)
		w.t.Connect(q.addr)
	}, false},
	{"a datagram is written outside channels", func(w *vRaceT) { w.t.WriteToPunch([]byte("x"), w.a.addr) }, false},
	{"a message arrives", func(w *vRaceT) { w.a.sendMsg([]byte("hello")) }, false},
	{"a message arrives early, then the missing one", func(w *vRaceT) {
		w.a.send(w.a.data(vWrap(w.a.next+1), []byte("early"), false))
		w.a.send(w.a.data(w.a.next, []byte("first"), vBool("more")))
	}, false},
	{"a message arrives from the other peer", func(w *vRaceT) { w.b.sendMsg([]byte("hello")) }, true},
	{"an acknowledgement arrives", func(w *vRaceT) {
		w.a.send(vHdr(vsAck, vInt("id", 0, 2), nil))
	}, false},
	{"a ping and a pong arrive", func(w *vRaceT) {
		w.a.send(vHdr(vsPing, 0, nil))
		w.a.send(vHdr(vsPong, 0, nil))
	}, false},
	{"a disconnect arrives", func(w *vRaceT) { w.a.send(vHdr(vsDisconnect, 0, nil)) }, false},
	{"a peer connects", func(w *vRaceT) {
		q := vNewPeer(w.a.c, "10.9.9.6:5001")
		q.send(q.connectPacket())
	}, false},
	{"a peer connects again", func(w *vRaceT) {
		q := vNewPeer(w.a.c, w.a.addr)
		q.send(q.connectPacket())
	}, false},
	{"a punch arrives", func(w *vRaceT) { w.a.send(vHdr(vsPunch, 0, []byte("punch"))) }, false},
}

// vRacePair chooses two of n things, in either order where it is thorough.
func vRacePair(n int) (i, j int) {
	if vBound("orders of the two", 1, 2) == 2 {
		return vChoose("one", n), vChoose("other", n)
	}
	k := vChoose("pair", n*(n+1)/2)
	for i = 0; k > i; i++ {
		k -= i + 1
	}
	return i, k
}

// vRaceServe answers the endpoint's connect to q, without waiting for
// everything to settle.
func vRaceServe(q *vPeer) {
	find := func(status byte) []byte {
		for k := 0; k < 5; k++ {
			vSleep(10)
			for _, d := range q.c.sent {
				if d.to == q.addr && len(d.data) > 4 && d.data[3] == status {
					return d.data
				}
			}
		}
		return nil
	}
	if cn := find(vsConnect); cn != nil {
		q.send(q.serverAnswer(cn))
		if ca := find(vsClientAnswer); ca != nil {
			q.send(q.connectDone(ca))
		}
	}
}

// vCase_C36_pairs: any two things happen at the same time, with timers running
// for a while after.
//
//verif:timeout 400
func vCase_C36_pairs() {
	w := &vRaceT{}
	n := len(vRaceOps)
	i, j := vRacePair(n)
	var c *vConn
	w.t, c = vNewTru(7000, MaxDataLenType(10), func(ch *Channel, pac *Packet, err error) bool {
		if pac != nil {
			pac.ID()
			pac.Data()
		}
		if ch != nil {
			ch.ServerMode()
			ch.Destroyed()
		}
		return true
	}, PunchFunc(func(addr net.Addr, data []byte) {}))
	w.a, w.b = vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, vSecond)
	w.a.session = []byte("0123456789abcdef0123456789abcdef01234567")
	w.a.dial()
	w.ca = vChannel(w.t, w.a.addr)
	if vRaceOps[i].b || vRaceOps[j].b {
		w.b.dial()
		w.cb = vChannel(w.t, w.b.addr)
	}
	id, err := w.ca.WriteTo([]byte("pending"))
	vAssert(err == nil && id >= 0, "WriteTo failed")
	w.a.send(w.a.data(vWrap(w.a.next+3), []byte("early"), false))
	vWait()
	vSched(vBound("preemptions", 1, 2), 0)
	vRace(true)
	go vRaceOps[i].do(w)
	go vRaceOps[j].do(w)
	vSleep(1)
	vPreempt(0)
	vSleep(400)
	vRace(false)
	vSched(-1, 0)
	vReach("done")
}

// vCase_C36_timers: anything happens at the moment the timers fire: those of
// retransmission, speed, the statistics screen, keepalive and inactivity.
//
//verif:timeout 400
func vCase_C36_timers() {
	w := &vRaceT{}
	i := vChoose("one", len(vRaceOps))
	late := vBound("orders with the timers", 1, 2) == 1 || vBool("late")
	at := []int{500, 6500, 4500}[vChoose("at", vBound("moments", 2, 3))]
	var c *vConn
	w.t, c = vNewTru(7000, MaxDataLenType(10), func(ch *Channel, pac *Packet, err error) bool {
		return true
	})
	w.a = vNewPeer(c, "10.9.9.1:5001")
	w.a.session = []byte("0123456789abcdef0123456789abcdef01234567")
	w.a.dial()
	w.ca = vChannel(w.t, w.a.addr)
	w.b, w.cb = w.a, w.ca
	id, err := w.ca.WriteTo([]byte("pending"), w.deliv, 500*time.Millisecond)
	vAssert(err == nil && id >= 0, "WriteTo failed")
	if at == 500 {
		w.t.StatisticMinilog()
		w.t.StatisticPrint()
	}
	vSleep(at - 1)
	vSched(vBound("preemptions of timers", 1, 2), 0)
	vRace(true)
	go func() {
		vSleep(1)
		if late {
			vSleep(0)
		}
		vRaceOps[i].do(w)
	}()
	vSleep(2)
	vPreempt(0)
	vSleep(150)
	vRace(false)
	vSched(-1, 0)
	vReach("done")
}

// vRaceConnT is a listener with two accepted connections.
type vRaceConnT struct {
	l    net.Listener
	a, b net.Conn
	p, q *vPeer
}

var vRaceConnOps = []func(w *vRaceConnT){
	func(w *vRaceConnT) { w.a.Read(make([]byte, 3)) },
	func(w *vRaceConnT) { w.a.Write([]byte("hello")) },
	func(w *vRaceConnT) { w.a.Close() },
	func(w *vRaceConnT) {
		_ = w.a.RemoteAddr().String() + w.a.LocalAddr().String()
		w.a.SetDeadline(time.Time{})
	},
	func(w *vRaceConnT) { w.b.Read(make([]byte, 3)) },
	func(w *vRaceConnT) { w.b.Close() },
	func(w *vRaceConnT) { w.l.Accept() },
	func(w *vRaceConnT) { w.l.Close() },
	func(w *vRaceConnT) { w.l.Addr() },
	func(w *vRaceConnT) { w.p.sendMsg([]byte("hello")) },
	func(w *vRaceConnT) { w.q.sendMsg([]byte("hello")) },
	func(w *vRaceConnT) { w.p.send(vHdr(vsAck, vInt("id", 0, 1), nil)) },
	func(w *vRaceConnT) { w.p.send(vHdr(vsDisconnect, 0, nil)) },
	func(w *vRaceConnT) {
		r := vNewPeer(w.p.c, "10.9.9.6:5001")
		vRaceDial(r)
	},
	func(w *vRaceConnT) {
		r := vNewPeer(w.p.c, w.p.addr)
		vRaceDial(r)
	},
	func(w *vRaceConnT) {
		c, err := Dial("tru", "10.9.9.7:5001")
		if err == nil {
			c.Close()
		}
	},
}

// vRaceDials is the first of the operations which connect.
const vRaceDials = 13

// vRaceDial is a peer's handshake, without waiting for everything to settle.
func vRaceDial(r *vPeer) {
	from := len(r.c.sent)
	r.send(r.connectPacket())
	for k := 0; k < 5; k++ {
		vSleep(10)
		for _, d := range r.c.sent[from:] {
			if d.to == r.addr && len(d.data) > 4 && d.data[3] == vsServerAnswer {
				r.send(r.answerPacket(d.data))
				return
			}
		}
	}
}

// vCase_C36_conns: the same for the connection interface.
//
//verif:timeout 300
func vCase_C36_conns() {
	w := &vRaceConnT{}
	n := len(vRaceConnOps)
	i, j := vRacePair(n)
	k := len(vNet.order)
	l, err := Listen("tru", ":7000")
	vAssert(err == nil, "Listen failed")
	vWait()
	c := vNet.order[k]
	accept := func() (x net.Conn) {
		go func() { x, _ = l.Accept() }()
		vWait()
		vAssert(x != nil, "a peer that connected is not accepted")
		return
	}
	w.l = l
	w.p, w.q = vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, vSecond)
	w.p.dial()
	w.a = accept()
	w.q.dial()
	w.b = accept()
	w.a.Write([]byte("pending"))
	w.p.sendMsg([]byte("unread"))
	vWait()
	vSched(vBound("preemptions of connections", 1, 2), 0)
	vRace(true)
	// while another peer connects the other thing happens at any step of it
	at := 0
	if i >= vRaceDials {
		at = []int{0, 10, 11}[vChoose("at", vBound("moments of connecting", 2, 3))]
	}
	go vRaceConnOps[i](w)
	go func() {
		vSleep(at)
		vRaceConnOps[j](w)
	}()
	vSleep(at + 1)
	vPreempt(0)
	vSleep(700)
	vRace(false)
	vSched(-1, 0)
	vReach("done")
}

// vCase_C36_connect: an endpoint connects to two others while it is used and
// closed.
//
//verif:timeout 300
func vCase_C36_connect() {
	t, c := vNewTru(0, func(ch *Channel, pac *Packet, err error) bool { return true })
	p, q := vNewPeer(c, "10.9.9.1:5001"), vNewPeer(c, vSecond)
	ops := []func(){
		func() {},
		func() { t.Close() },
		func() { t.Statistic() },
		func() {
			t.ForEachChannel(func(ch *Channel) {
				ch.Close()
			})
		},
		func() {
			t.ForEachChannel(func(ch *Channel) {
				ch.WriteTo([]byte("hello"))
			})
		},
		func() { t.Connect(p.addr) },
		func() { t.WriteTo([]byte("hello"), p.addr) },
		func() { p.send(vHdr(vsDisconnect, 0, nil)) },
		func() { p.send(p.connectPacket()) },
	}
	op := vChoose("op", len(ops))
	at := []int{10, 20, 0, 30}[vChoose("at", vBound("times of it", 2, 4))]
	vSched(vBound("preemptions of connects", 1, 2), 0)
	vRace(true)
	connect := func(p *vPeer) {
		ch, err := t.Connect(p.addr)
		if err == nil {
			ch.ServerMode()
			ch.WriteTo([]byte("hello"))
			ch.Close()
		}
	}
	go connect(p)
	go connect(q)
	go vRaceServe(p)
	go vRaceServe(q)
	go func() {
		vSleep(at)
		ops[op]()
	}()
	vSleep(45)
	vPreempt(0)
	vSleep(5900)
	vRace(false)
	vSched(-1, 0)
	vReach("done")
}
