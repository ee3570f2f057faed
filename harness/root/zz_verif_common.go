// Environment shared by the harnesses: an in-memory datagram network standing
// in for the UDP socket, and an independent implementation of the wire
// protocol (the oracle peer).
package tru

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"hash"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- network ----

type vDgram struct {
	from, to string
	data     []byte
	at       time.Time
}

type vConn struct {
	net    *vNetT
	addr   *net.UDPAddr
	in     chan vDgram
	closed chan struct{}
	once   bool
	sent   []vDgram      // everything written through this socket
	slow   time.Duration // what each write takes
	taken  int
}

type vNetT struct {
	mu    sync.Mutex
	conns map[string]*vConn
	order []*vConn
	// policy decides what happens with a datagram sent by an endpoint: it
	// returns the datagrams to deliver now. nil: deliver unchanged.
	policy func(d vDgram) []vDgram
	fail   error // error of the next ListenPacket
	strict bool  // all endpoints are on one host: a port can be used once
}

var vNet = &vNetT{conns: map[string]*vConn{}}

// vNewConn opens a socket; endpoint i gets the address 10.0.0.i:port.
func vNewConn(port int) *vConn {
	n := len(vNet.order) + 1
	if port == 0 {
		port = 40000 + n
	}
	c := &vConn{net: vNet, addr: &net.UDPAddr{IP: net.IP{10, 0, 0, byte(n)}, Port: port}, in: make(chan vDgram, 4096), closed: make(chan struct{})}
	vNet.conns[c.addr.String()] = c
	vNet.order = append(vNet.order, c)
	return c
}

//verif:swap net.ListenPacket
func vListenPacket(network, address string) (net.PacketConn, error) {
	vNet.mu.Lock()
	defer vNet.mu.Unlock()
	if vNet.fail != nil {
		return nil, vNet.fail
	}
	i := strings.LastIndexByte(address, ':')
	port, err := strconv.Atoi(address[i+1:])
	if err != nil {
		return nil, err
	}
	if port < 0 || port > 65535 {
		return nil, errors.New("invalid port")
	}
	for _, c := range vNet.conns {
		if vNet.strict && c.addr.Port == port {
			return nil, errors.New("address already in use")
		}
	}
	return vNewConn(port), nil
}

//verif:swap net.ResolveUDPAddr
func vResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	i := strings.LastIndexByte(address, ':')
	if i < 0 {
		return nil, errors.New("missing port in address")
	}
	port, err := strconv.Atoi(address[i+1:])
	if err != nil {
		return nil, err
	}
	var ip net.IP
	for _, s := range strings.Split(address[:i], ".") {
		n, err := strconv.Atoi(s)
		if err != nil {
			return nil, err
		}
		ip = append(ip, byte(n))
	}
	return &net.UDPAddr{IP: ip, Port: port}, nil
}

//go:norace
func (c *vConn) ReadFrom(b []byte) (int, net.Addr, error) {
	vQuiet(true)
	defer vQuiet(false)
	select {
	case <-c.closed:
		return 0, nil, net.ErrClosed
	default:
	}
	select {
	case d := <-c.in:
		n := copy(b, d.data)
		a, _ := vResolveUDPAddr("udp", d.from)
		return n, a, nil
	case <-c.closed:
		return 0, nil, net.ErrClosed
	}
}

//go:norace
func (c *vConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	if c.slow > 0 {
		time.Sleep(c.slow)
	}
	vQuiet(true)
	defer vQuiet(false)
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	if c.once {
		return 0, net.ErrClosed
	}
	if len(b) > 65507 {
		return 0, errors.New("message too long")
	}
	d := vDgram{from: c.addr.String(), to: addr.String(), data: append([]byte(nil), b...), at: time.Now()}
	c.sent = append(c.sent, d)
	out := []vDgram{d}
	if c.net.policy != nil {
		out = c.net.policy(d)
	}
	for _, x := range out {
		c.net.deliver(x)
	}
	return len(b), nil
}

// deliver hands a datagram to the socket bound to its destination, if any.
//
//go:norace
func (n *vNetT) deliver(d vDgram) {
	if c := n.conns[d.to]; c != nil {
		select {
		case c.in <- d:
		default:
		}
	}
}

func (c *vConn) Close() error {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	if c.once {
		return net.ErrClosed
	}
	c.once = true
	close(c.closed)
	delete(c.net.conns, c.addr.String())
	return nil
}

func (c *vConn) LocalAddr() net.Addr                { return c.addr }
func (c *vConn) SetDeadline(t time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(t time.Time) error { return nil }

// inject delivers a datagram as if it came from address from.
//
//go:norace
func (c *vConn) inject(from string, data []byte) {
	vQuiet(true)
	defer vQuiet(false)
	c.in <- vDgram{from: from, to: c.addr.String(), data: data}
}

// take returns the datagrams written since the last take.
func (c *vConn) take() []vDgram {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	s := c.sent[c.taken:]
	c.taken = len(c.sent)
	return s
}

// ---- wire format oracle ----

const (
	vsConnect = iota
	vsServerAnswer
	vsClientAnswer
	vsDone
	vsData
	vsAck
	vsPing
	vsPong
	vsDisconnect
	vsPunch
	vsSplit = 0x80
)

const vLimit = 0x100000

// vHdr builds a datagram.
func vHdr(status byte, id int, data []byte) []byte {
	h := []byte{byte(id), byte(id >> 8), byte(id >> 16), status}
	return append(h, data...)
}

// vParse takes a datagram apart.
func vParse(b []byte) (status byte, id int, data []byte) {
	vAssert(len(b) >= 4, "a datagram shorter than its header was sent")
	return b[3], int(b[0]) | int(b[1])<<8 | int(b[2])<<16, b[4:]
}

// vKey derives the key of a packet from the session key, as documented: a hash
// of session key and packet number, of a width chosen by the length.
func vKey(session []byte, id int, n int) []byte {
	var h hash.Hash
	switch {
	case n <= 16:
		h = md5.New()
	case n <= 20:
		h = sha1.New()
	case n <= 32:
		h = sha256.New()
	case n <= 64:
		h = sha512.New()
	default:
		h = sha256.New()
	}
	k := append([]byte(nil), session...)
	k = append(k, byte(id), byte(id>>8), byte(id>>16), 0)
	h.Write(k)
	return h.Sum(nil)
}

func vGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// vEnc encrypts message data for packet id.
func vEnc(session []byte, id int, data []byte) []byte {
	n := len(data)
	key := vKey(session, id, n)
	if n <= 64 {
		out := make([]byte, n)
		for i := 0; i < n; i++ {
			out[i] = data[i] ^ key[i%len(key)]
		}
		return out
	}
	nonce := make([]byte, 12)
	io.ReadFull(rand.Reader, nonce)
	return vGCM(key).Seal(nonce, nonce, data, nil)
}

// vDec decrypts; ok is false when authentication fails.
func vDec(session []byte, id int, data []byte) (out []byte, ok bool) {
	n := len(data)
	key := vKey(session, id, n)
	if n <= 64 {
		out = make([]byte, n)
		for i := 0; i < n; i++ {
			out[i] = data[i] ^ key[i%len(key)]
		}
		return out, true
	}
	out, err := vGCM(key).Open(nil, data[:12], data[12:], nil)
	return out, err == nil
}

// vConnData is the payload of the connect packets.
func vConnData(uuid string, data []byte) []byte {
	b := []byte{byte(len(uuid))}
	b = append(b, uuid...)
	return append(b, data...)
}

func vParseConn(b []byte) (uuid string, data []byte) {
	vAssert(len(b) >= 1 && len(b) >= 1+int(b[0]), "malformed connect packet sent")
	n := int(b[0])
	return string(b[1 : 1+n]), b[1+n:]
}

// ---- the oracle peer ----

// vPeer is a peer that is not a Tru endpoint: it speaks the wire protocol
// through injected datagrams.
type vPeer struct {
	c       *vConn // socket of the endpoint under test
	addr    string // our address
	key     *rsa.PrivateKey
	session []byte
	uuid    string
	pem     []byte
	next    int // next packet number we send
}

var vPeerKey *rsa.PrivateKey

func vNewPeer(c *vConn, addr string) *vPeer {
	p := &vPeer{c: c, addr: addr}
	if vPeerKey == nil {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		vPeerKey = k
	}
	p.key = vPeerKey
	der, err := x509.MarshalPKIXPublicKey(&p.key.PublicKey)
	if err != nil {
		panic(err)
	}
	p.pem = pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})
	p.uuid = "peer-" + addr
	p.session = []byte("0123456789abcdef0123456789ABCDEF")
	return p
}

func (p *vPeer) send(b []byte) { p.c.inject(p.addr, b) }

func vRSAEnc(pub *rsa.PublicKey, b []byte) (out []byte) {
	for i := 0; i < len(b); i += 62 {
		e := i + 62
		if e > len(b) {
			e = len(b)
		}
		d, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, pub, b[i:e], nil)
		if err != nil {
			panic(err)
		}
		out = append(out, d...)
	}
	return
}

func vRSADec(k *rsa.PrivateKey, b []byte) (out []byte, ok bool) {
	for i := 0; i < len(b); i += 128 {
		e := i + 128
		if e > len(b) {
			e = len(b)
		}
		d, err := rsa.DecryptOAEP(sha256.New(), nil, k, b[i:e], nil)
		if err != nil {
			return nil, false
		}
		out = append(out, d...)
	}
	return out, true
}

func vPubFromPEM(b []byte) *rsa.PublicKey {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil
	}
	k, err := x509.ParsePKIXPublicKey(bl.Bytes)
	if err != nil {
		return nil
	}
	pk, _ := k.(*rsa.PublicKey)
	return pk
}

// connectPacket is the first handshake datagram of a client.
func (p *vPeer) connectPacket() []byte { return vHdr(vsConnect, 0, vConnData(p.uuid, p.pem)) }

// answerPacket turns the server's answer into the client's answer, carrying
// the session key.
func (p *vPeer) answerPacket(sa []byte) []byte {
	st, _, d := vParse(sa)
	vAssert(st == vsServerAnswer, "handshake: the answer to connect is not a server answer")
	uuid, enc := vParseConn(d)
	vAssert(uuid == p.uuid, "handshake: the server answer carries another connection id")
	pub, ok := vRSADec(p.key, enc)
	vAssert(ok, "handshake: the server answer cannot be decrypted with the client key")
	pk := vPubFromPEM(pub)
	vAssert(pk != nil, "handshake: the server answer does not carry a public key")
	return vHdr(vsClientAnswer, 0, vConnData(p.uuid, vRSAEnc(pk, p.session)))
}

// dial establishes a channel with the endpoint under test (as its client).
func (p *vPeer) dial() {
	p.send(p.connectPacket())
	vWait()
	sa := p.expect(vsServerAnswer)
	p.send(p.answerPacket(sa))
	vWait()
	p.expect(vsDone)
}

// expect returns the only datagram sent to us since the last look that is not
// a keepalive, which must have the given status.
func (p *vPeer) expect(status byte) []byte {
	for _, d := range p.c.take() {
		if d.to != p.addr || len(d.data) < 4 {
			continue
		}
		if d.data[3] == status {
			return d.data
		}
	}
	vFail("an expected reply was not sent: " + vStatusName(status))
	return nil
}

func vStatusName(s byte) string {
	switch s {
	case vsConnect:
		return "connect"
	case vsServerAnswer:
		return "server answer"
	case vsClientAnswer:
		return "client answer"
	case vsDone:
		return "connect done"
	case vsData:
		return "data"
	case vsData | vsSplit:
		return "data (more fragments)"
	case vsAck:
		return "ack"
	case vsPing:
		return "ping"
	case vsPong:
		return "pong"
	case vsDisconnect:
		return "disconnect"
	case vsPunch:
		return "punch"
	}
	return "unknown"
}

// got returns the datagrams of the given status sent to us since the last look.
func (p *vPeer) got(ds []vDgram, status byte) (out []vDgram) {
	for _, d := range ds {
		if d.to == p.addr && len(d.data) >= 4 && d.data[3] == status {
			out = append(out, d)
		}
	}
	return
}

// data builds an encrypted data packet.
func (p *vPeer) data(id int, msg []byte, more bool) []byte {
	st := byte(vsData)
	if more {
		st |= vsSplit
	}
	return vHdr(st, id, vEnc(p.session, id, msg))
}

// sendMsg sends the next message in one packet.
func (p *vPeer) sendMsg(msg []byte) (id int) {
	id = p.next
	p.send(p.data(id, msg, false))
	p.next = (p.next + 1) % vLimit
	return
}

// ---- endpoints ----

// vRecv is what a reader was given.
type vRecv struct {
	ch   *Channel
	data []byte
	id   int
	err  error
	nilp bool
}

type vReaderLog struct {
	mu  sync.Mutex
	got []vRecv
	ret bool
}

func (l *vReaderLog) read(ch *Channel, pac *Packet, err error) bool {
	r := vRecv{ch: ch, err: err, nilp: pac == nil}
	if pac != nil {
		r.data = append([]byte(nil), pac.Data()...)
		r.id = pac.ID()
	}
	l.mu.Lock()
	l.got = append(l.got, r)
	l.mu.Unlock()
	return l.ret
}

// msgs are the messages among what was received.
func (l *vReaderLog) msgs() (out []vRecv) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, r := range l.got {
		if r.err == nil && !r.nilp {
			out = append(out, r)
		}
	}
	return
}

func (l *vReaderLog) errs() (out []vRecv) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, r := range l.got {
		if r.err != nil {
			out = append(out, r)
		}
	}
	return
}

// vNewTru starts an endpoint on the in-memory network.
func vNewTru(port int, params ...interface{}) (*Tru, *vConn) {
	t, err := New(port, params...)
	vAssert(err == nil, "New failed")
	vWait()
	return t, vNet.order[len(vNet.order)-1]
}

// vServe starts an endpoint with a reader log and one connected oracle peer.
func vServe(params ...interface{}) (*Tru, *vReaderLog, *vPeer) {
	l := &vReaderLog{ret: true}
	t, c := vNewTru(7000, append([]interface{}{ReaderFunc(l.read)}, params...)...)
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	return t, l, p
}

// vChannel returns the endpoint's channel with the peer.
func vChannel(t *Tru, addr string) (ch *Channel) {
	t.ForEachChannel(func(c *Channel) {
		if c != nil && c.Addr().String() == addr {
			ch = c
		}
	})
	return
}

// vClient starts an endpoint that connects to an oracle peer acting as server.
func vClient(l *vReaderLog, params ...interface{}) (*Tru, *Channel, *vPeer) {
	t, c := vNewTru(0, params...)
	p := vNewPeer(c, "10.9.9.1:5001")
	type res struct {
		ch  *Channel
		err error
	}
	rc := make(chan res, 1)
	go func() {
		var ch *Channel
		var err error
		if l != nil {
			ch, err = t.Connect(p.addr, l.read)
		} else {
			ch, err = t.Connect(p.addr)
		}
		rc <- res{ch, err}
	}()
	vWait()
	p.serveConnect()
	r := <-rc
	vAssert(r.err == nil && r.ch != nil, "Connect failed although the server answered")
	return t, r.ch, p
}

// serveConnect answers the endpoint's Connect as the server does.
func (p *vPeer) serveConnect() {
	p.send(p.serverAnswer(p.expect(vsConnect)))
	vWait()
	p.send(p.connectDone(p.expect(vsClientAnswer)))
	vWait()
}

func (p *vPeer) serverAnswer(cn []byte) []byte {
	_, _, d := vParse(cn)
	uuid, pub := vParseConn(d)
	p.uuid = uuid
	pk := vPubFromPEM(pub)
	vAssert(pk != nil, "handshake: the connect packet does not carry a public key")
	return vHdr(vsServerAnswer, 0, vConnData(uuid, vRSAEnc(pk, p.pem)))
}

func (p *vPeer) connectDone(ca []byte) []byte {
	_, _, d := vParse(ca)
	uuid, enc := vParseConn(d)
	vAssert(uuid == p.uuid, "handshake: the client answer carries another connection id")
	key, ok := vRSADec(p.key, enc)
	vAssert(ok && len(key) > 0, "handshake: the client answer does not carry a session key for the server")
	p.session = key
	return vHdr(vsDone, 0, vConnData(uuid, nil))
}

// vMark is the content of the message whose number is off past the start.
func vMark(off int) []byte {
	return []byte{0xA5, byte(off), byte(off >> 8), byte(off >> 16)}
}

// vStart puts the receive side of a channel at packet number start (as after
// start messages, modulo the number space).
func vStart(ch *Channel, start int) { ch.expectedID = uint32(start) }

// vWrap reduces a packet number.
func vWrap(n int) int { return (n + vLimit) % vLimit }

// vPair starts two endpoints and connects the first to the second.
func vPair(cl, sl *vReaderLog) (a, b *Tru, ch *Channel, ca, cb *vConn) {
	b, cb = vNewTru(7000, ReaderFunc(sl.read))
	a, ca = vNewTru(0)
	var err error
	ch, err = a.Connect(cb.addr.String(), cl.read)
	vAssert(err == nil, "Connect failed on a loss-free network")
	vWait()
	ca.take()
	cb.take()
	return
}

// vFaults is a network that may lose, duplicate or delay each datagram, with a
// budget of faults among the first window datagrams.
func vFaults(budget, window int) {
	seen := 0
	vNet.policy = func(d vDgram) []vDgram {
		if budget <= 0 || seen >= window {
			return []vDgram{d}
		}
		seen++
		switch vChoose("fault", 4) {
		case 1: // lost
			budget--
			return nil
		case 2: // duplicated
			budget--
			return []vDgram{d, d}
		case 3: // delayed past later datagrams
			budget--
			go func() {
				time.Sleep(70 * time.Millisecond)
				vNet.mu.Lock()
				vNet.deliver(d)
				vNet.mu.Unlock()
			}()
			return nil
		}
		return []vDgram{d}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (d *vDeliv) cb(pac *Packet, err error) {
	d.mu.Lock()
	d.n++
	d.err = err
	d.at = time.Now()
	d.id = pac.ID()
	d.mu.Unlock()
}

// vDeliv records the calls of a delivery callback.
type vDeliv struct {
	mu  sync.Mutex
	n   int
	err error
	at  time.Time
	id  int
}

// vStartSend puts the send side of a channel at packet number start.
func vStartSend(ch *Channel, start int) {
	p, ok := vFieldPtr(ch, "id").(*uint32)
	if !ok {
		vInconclusive("the channel's next packet number is not a uint32 field named id")
	}
	*p = uint32(start)
}

// vAlive checks that the endpoint serves an established peer in both
// directions: its next message is acknowledged and delivered, a message to it
// is sent with the right key.
func vAlive(ch *Channel, l *vReaderLog, p *vPeer, why string) {
	p.c.take()
	n := len(l.msgs())
	msg := []byte("alive?")
	id := p.sendMsg(msg)
	vWait()
	out, err := ch.WriteTo([]byte("yes"))
	vAssert(err == nil, why+": writing to an established connection fails")
	vWait()
	m := l.msgs()
	vAssert(len(m) == n+1, why+": a message of an established connection is not delivered")
	vAssertSame(m[n].data, msg, why+": a message of an established connection is delivered changed")
	vAssert(m[n].ch == ch, why+": a message arrived on another channel")
	ds := p.c.take()
	acks := p.got(ds, vsAck)
	vAssert(len(acks) == 1, why+": a message of an established connection is not acknowledged")
	_, a, _ := vParse(acks[0].data)
	vAssert(a == id, why+": an acknowledgement carries another number")
	found := false
	for _, d := range p.got(ds, vsData) {
		_, i, body := vParse(d.data)
		if i == out {
			b, ok := vDec(p.session, i, body)
			vAssert(ok && string(b) == "yes", why+": a message to an established connection is not encrypted with its key")
			found = true
		}
	}
	vAssert(found, why+": a message to an established connection is not sent")
	p.send(vHdr(vsAck, out, nil))
	vWait()
}

// vFrag is what the sender put on the wire for one data packet.
type vFrag struct {
	id   int
	more bool
	body []byte
}

// vFrags decrypts the data packets sent to the peer, in the order sent.
func vFrags(p *vPeer, ds []vDgram) (out []vFrag) {
	for _, d := range ds {
		if d.to != p.addr || len(d.data) < 4 || d.data[3]&^vsSplit != vsData {
			continue
		}
		st, id, enc := vParse(d.data)
		b, ok := vDec(p.session, id, enc)
		vAssert(ok, "a data packet sent on an established connection cannot be decrypted by its peer")
		out = append(out, vFrag{id, st&vsSplit != 0, b})
	}
	return
}

// vAssemble puts fragments together into messages, as the protocol defines.
func vAssemble(fs []vFrag) (msgs [][]byte, firsts []int, open bool) {
	var cur []byte
	for _, f := range fs {
		if !open {
			firsts = append(firsts, f.id)
		}
		cur = append(cur, f.body...)
		open = f.more
		if !open {
			msgs = append(msgs, append([]byte{}, cur...))
			cur = nil
		}
	}
	return
}

// vSide starts an endpoint with one channel in server or client mode.
func vSide(client bool, params ...interface{}) (t *Tru, ch *Channel, l *vReaderLog, p *vPeer) {
	if client {
		l = &vReaderLog{ret: true}
		t, ch, p = vClient(l, params...)
		return
	}
	t, l, p = vServe(params...)
	ch = vChannel(t, p.addr)
	return
}

// vSetReader gives a channel a reader of its own.
func vSetReader(ch *Channel, f ReaderFunc) {
	p, ok := vFieldPtr(ch, "reader").(*ReaderFunc)
	if !ok {
		vInconclusive("a channel's own reader is not a ReaderFunc field named reader")
	}
	*p = f
}

// vSecond is the address of the second of two peers.
var vSecond = "10.9.9.2:5001"

// vTwoPeers starts a server endpoint with two connected oracle peers.
func vTwoPeers(params ...interface{}) (t *Tru, l *vReaderLog, a, b *vPeer, ca, cb *Channel) {
	t, l, a = vServe(params...)
	b = vNewPeer(a.c, vSecond)
	b.session = []byte("fedcba9876543210FEDCBA9876543210")
	b.dial()
	ca, cb = vChannel(t, a.addr), vChannel(t, b.addr)
	vAssert(ca != nil && cb != nil && ca != cb, "two peers do not have two channels")
	return
}

// vRow is a channel's row of the statistics, without what time changes.
func vRow(t *Tru, addr string) (r ChannelStatistic) {
	for _, x := range t.Statistic() {
		if x.Addr == addr {
			r = x
			r.Ssec, r.Rsec = 0, 0
			return
		}
	}
	vFail("a live channel is not listed: " + addr)
	return
}

func vMS(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func vSleep(ms int) { time.Sleep(vMS(ms)) }

// vTerm is the terminal the endpoint runs on.
var vTerm struct {
	is   bool
	w, h int
}

//verif:swap github.com/teonet-go/tru/term.GetSize
func vTermSize(fd int) (width, height int, err error) {
	if !vTerm.is {
		return 0, 0, errors.New("not a terminal")
	}
	return vTerm.w, vTerm.h, nil
}
