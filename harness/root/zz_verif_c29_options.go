package tru

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/teonet-go/tru/teolog"
)

// vCase_C29_order: any of the options, in any order, each in either form.
func vCase_C29_order() {
	type given struct {
		reader, connect, punch, logger, level, filter, maxlen bool
	}
	var g given
	l := &vReaderLog{ret: true}
	connects, punches := 0, 0
	var punched []byte
	var punchAddr string
	onConnect := func(ch *Channel, err error) {
		vAssert(ch != nil && err == nil, "the connect callback gets no channel")
		connects++
	}
	onPunch := func(a net.Addr, data []byte) {
		punches++
		punched, punchAddr = data, a.String()
	}
	lg := teolog.New()
	switch vChoose("before", 3) {
	case 1: // another endpoint with a logger of its own
		vNewTru(7001, "debug", teolog.Filter{"nothing"})
	case 2: // the logger has been set up differently
		lg.SetLevel("info")
		lg.SetFilter("something else")
	}
	levels := []string{"Connect", "debugvvv", "error"}
	level := 0
	filters := []teolog.Filter{{"tru created"}, {"no such message"}}
	filter := 0
	var par []interface{}
	left := []int{0, 1, 2, 3, 4, 5, 6}
	for i := 0; i < vBound("options", 3, 4); i++ {
		k := vChoose("option", len(left))
		o := left[k]
		left = append(left[:k:k], left[k+1:]...)
		switch o {
		case 0:
			g.reader = true
			if vBool("form") {
				par = append(par, ReaderFunc(l.read))
			} else {
				par = append(par, l.read)
			}
		case 1:
			g.connect = true
			if vBool("form") {
				par = append(par, ConnectFunc(onConnect))
			} else {
				par = append(par, onConnect)
			}
		case 2:
			g.punch = true
			if vBool("form") {
				par = append(par, PunchFunc(onPunch))
			} else {
				par = append(par, onPunch)
			}
		case 3:
			g.logger = true
			par = append(par, lg)
		case 4:
			g.level = true
			level = vChoose("level", 3)
			par = append(par, levels[level])
		case 5:
			g.filter = true
			filter = vChoose("filter", 2)
			par = append(par, filters[filter])
		case 6:
			g.maxlen = true
			par = append(par, MaxDataLenType(8))
		}
	}
	vStdoutTake()
	t, err := New(7000, par...)
	vAssert(err == nil && t != nil, "New refuses documented options")
	vWait()
	c := vNet.order[len(vNet.order)-1]
	out := vStdoutTake()
	n := strings.Count(out, "tru created")
	vAssert(n == b2i(g.level && level < 2 && !(g.filter && filter == 1)), "logger, level and filter options do not select what is printed")
	if g.logger && g.level {
		vAssert(strings.EqualFold(lg.String(), levels[level]), "the level option does not set the level of the logger given")
	}
	if g.logger && g.filter {
		vAssert(lg.Filter() == filters[filter][0], "the filter option does not set the filter of the logger given")
	}
	if g.logger {
		lg.SetLevel("none")
		lg.ClearFilter()
	}
	p := vNewPeer(c, "10.9.9.1:5001")
	p.dial()
	if g.logger {
		vAssert(vStdoutTake() == "", "the endpoint does not use the logger given")
	}
	vAssert(connects == b2i(g.connect), "the connect callback option does not take effect")
	p.send(vHdr(vsPunch, 0, []byte("punch")))
	p.sendMsg([]byte("hello"))
	vWait()
	vAssert(punches == b2i(g.punch), "the punch callback option does not take effect")
	vAssert(!g.punch || string(punched) == "punch" && punchAddr == p.addr, "the punch callback gets something else")
	m := l.msgs()
	vAssert(len(m) == b2i(g.reader), "the reader option does not take effect")
	vAssert(!g.reader || string(m[0].data) == "hello", "the reader gets something else")
	c.take()
	_, err = vChannel(t, p.addr).WriteTo(make([]byte, 20))
	vAssert(err == nil, "WriteTo failed")
	vWait()
	fs := vFrags(p, c.take())
	vAssert(len(fs) == 1+2*b2i(g.maxlen), "the maximum data length option does not take effect")
	vAssert(t.Hotkey() == nil && !t.StatisticPrintRunning(), "hotkeys or statistics run although not asked for")
	vReach("done")
}

// vCase_C29_maxlen: the option sets the maximum as SetMaxDataLen does.
func vCase_C29_maxlen() {
	n := vInt("length", -2, 70000)
	t1, c1 := vNewTru(7000, MaxDataLenType(n))
	p1 := vNewPeer(c1, "10.9.9.1:5001")
	t2, c2 := vNewTru(7001)
	t2.SetMaxDataLen(n)
	p2 := vNewPeer(c2, "10.9.9.1:5001")
	p1.dial()
	p2.dial()
	ch1, ch2 := vChannel(t1, p1.addr), vChannel(t2, p2.addr)
	m1, ok1 := vFieldPtr(ch1, "maxDataLen").(*int)
	m2, ok2 := vFieldPtr(ch2, "maxDataLen").(*int)
	if !ok1 || !ok2 {
		vInconclusive("a channel's maximum data length is not an int field named maxDataLen")
	}
	vAssert(*m1 == *m2, "the maximum data length option does something else than SetMaxDataLen")
	vReach("done")
}

type vOddType struct{}

// vCase_C29_wrong: an option of an undocumented type, among documented ones:
// New reports an error and leaves nothing running.
func vCase_C29_wrong() {
	odd := []interface{}{7, int64(7), true, 1.5, []byte("connect"), nil, vOddType{}, &vOddType{}, func() {}, func(*Channel, *Packet) {}, error(errors.New("x"))}[vChoose("odd", 11)]
	doc := []interface{}{Stat(true), Stat(false), Hotkey(false), MaxDataLenType(8), "none"}
	var par []interface{}
	if vBool("before") {
		par = append(par, doc[vChoose("documented", len(doc))])
	}
	par = append(par, odd)
	if vBool("after") {
		par = append(par, doc[vChoose("documented", len(doc))])
	}
	timers := vTimers()
	_, err := New(7000, par...)
	vAssert(err != nil, "New accepts an option of an undocumented type")
	vWait()
	time.Sleep(1200 * time.Millisecond)
	vWait()
	vAssert(vTimers() == timers, "a refused New leaves a timer running")
	vAssert(len(vNet.order) == 0, "a refused New opens a socket")
	vReach("done")
}

// vCase_C29_noport: the port cannot be opened: New reports it and leaves
// nothing running.
func vCase_C29_noport() {
	vNet.fail = errors.New("address already in use")
	doc := []interface{}{Stat(true), MaxDataLenType(8), "none"}
	timers := vTimers()
	_, err := New(7000, doc[vChoose("documented", len(doc))])
	vAssert(err != nil, "New does not report that the port cannot be opened")
	time.Sleep(1200 * time.Millisecond)
	vWait()
	vAssert(vTimers() == timers, "a failed New leaves a timer running")
	vReach("done")
}

// vCase_C29_stat: the statistics option starts printing, and Close ends it.
func vCase_C29_stat() {
	on := vBool("on")
	opts := []interface{}{Stat(on), MaxDataLenType(8)}
	if vBool("order") {
		opts[0], opts[1] = opts[1], opts[0]
	}
	t, _ := vNewTru(7000, opts...)
	vAssert(t.StatisticPrintRunning() == on, "the statistics option does not take effect")
	vStdoutTake()
	time.Sleep(1100 * time.Millisecond)
	vWait()
	vAssert(strings.Count(vStdoutTake(), "TRU 10.0.0.1:7000") == 2*b2i(on), "the statistics are not printed every half second")
	t.Close()
	vAssert(!t.StatisticPrintRunning(), "the statistics are printed after Close")
	vReach("done")
}

// vCase_C29_hotkey: the hotkey option starts the menu.
//
//verif:opt native=no
func vCase_C29_hotkey() {
	keys := make(chan []byte, 1)
	vGetchCh = keys
	on := vBool("on")
	opts := []interface{}{Hotkey(on), MaxDataLenType(8)}
	if vBool("order") {
		opts[0], opts[1] = opts[1], opts[0]
	}
	t, _ := vNewTru(7000, opts...)
	vAssert((t.Hotkey() != nil) == on, "the hotkey option does not take effect")
	vAssert(vGetchN == b2i(on), "the hotkey menu does not wait for a key")
	vStdoutTake()
	if on {
		keys <- []byte("h")
		vWait()
		vAssert(strings.Contains(vStdoutTake(), t.Hotkey().String()), "the help key does not print the help")
		vAssert(vGetchN == 2, "the hotkey menu does not go on")
	}
	vReach("done")
}

var (
	vGetchCh chan []byte
	vGetchN  int
)

//verif:model github.com/teonet-go/tru/term.Getch
func vGetch() []byte {
	vGetchN++
	return <-vGetchCh
}
