package tru

import (
	"os"
	"strings"

	"github.com/teonet-go/tru/teolog"
)

// C33: the endpoint's hotkey menu does what its help says, and nothing else.

// vMenuT is the keyboard and what became of the application.
type vMenuT struct {
	keys  chan []byte
	typed []byte // a line typed when asked for
	exits []int
}

var vMenu *vMenuT

//verif:swap github.com/teonet-go/tru/term.Getch
func vMenuGetch() []byte { return <-vMenu.keys }

//verif:swap os.Exit
func vMenuExit(code int) {
	vMenu.exits = append(vMenu.exits, code)
	select {}
}

//verif:model (*os.File).Read
func vMenuRead(f *os.File, b []byte) (int, error) {
	n := copy(b, vMenu.typed)
	vMenu.typed = vMenu.typed[n:]
	return n, nil
}

// vType is a line that will be typed.
func vType(line []byte) {
	vMenu.typed = append(append([]byte{}, line...), '\n')
	if vNative() {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		w.Write(vMenu.typed)
		os.Stdin = r
	}
}

// vMenuStart is an endpoint with a menu and a connected peer.
func vMenuStart(params ...interface{}) (t *Tru, l *vReaderLog, p *vPeer) {
	vMenu = &vMenuT{keys: make(chan []byte)}
	t, l, p = vServe(append([]interface{}{Hotkey(true)}, params...)...)
	vAssert(t.Hotkey() != nil, "the menu is not started although asked for")
	vWait()
	vStdoutTake()
	return
}

// vKey presses a key and returns what is printed.
func vMenuKey(k ...byte) string {
	vStdoutTake()
	select {
	case vMenu.keys <- k:
	default:
		vFail("the menu does not wait for a key")
	}
	vWait()
	return vStdoutTake()
}

var vLevels = []string{"None", "Error", "User", "Info", "Connect", "Debug", "DebugV", "DebugVV", "DebugVVV"}

// vMenuState is what the menu is expected to have done.
type vMenuState struct {
	level     int  // the level when logging is not suspended
	suspended bool // until the next key
	filter    string
	print     bool
	minilog   bool
}

func (s *vMenuState) check(t *Tru) {
	want := s.level
	if s.suspended {
		want = 0
	}
	vAssert(int(log.Level()) == want, "the logger's level is not what the keys pressed make it")
	vAssert(log.Filter() == s.filter, "the logger's filter is not what the keys pressed make it")
	vAssert(t.StatisticPrintRunning() == s.print, "the statistics are printed or not against the keys pressed")
	vAssert(len(vMenu.exits) == 0, "the application ends without being asked to")
}

// vMenuOps are the keys with a meaning, and some without.
func (s *vMenuState) key(t *Tru) (stop bool) {
	s.suspended = false
	switch vChoose("key", 10) {
	case 0:
		out := vMenuKey([]byte("h?")[vChoose("help", 2)])
		vAssert(strings.Contains(out, "show this help screen") && strings.Contains(out, "quit from application"), "the help does not show the menu")
		s.suspended = true
	case 1:
		s.print = !s.print
		vMenuKey('u')
	case 2:
		s.minilog = !s.minilog
		out := vMenuKey('U')
		vAssert(strings.Contains(out, "show") == s.minilog, "the state of the minilog printed is wrong")
	case 3:
		s.level = (s.level + 1) % len(vLevels)
		out := vMenuKey('l')
		vAssert(strings.Contains(out, vLevels[s.level]), "the new level is not printed")
	case 4:
		out := vMenuKey('L')
		vAssert(strings.Contains(out, vLevels[s.level]), "the level is not printed")
		s.suspended = true
	case 5: // Ctrl+L
		n := vChoose("level", 3)
		vType([]byte([]string{"debugvv", " Error\t", "zzz"}[n]))
		vMenuKey(12)
		s.level = []int{7, 1, 0}[n]
	case 6:
		n := vChoose("filter", 2)
		text := []string{"", "a||b"}[n]
		vType([]byte(text))
		out := vMenuKey('f')
		vAssert(strings.Contains(out, s.filter), "the filter is not printed")
		s.filter = []string{"", "a || b"}[n]
	case 7:
		vMenuKey(13)
	case 8: // a key without a meaning
		k := vBytes("key", 1, 3)
		if len(k) == 1 {
			for _, c := range []byte("h?uUlLfq\r\x03\x0c") {
				vAssume(k[0] != c)
			}
		}
		vMenuKey(k...)
	case 9:
		vMenuKey(3)
		stop = true
	}
	return
}

// vCase_C33_keys: any keys in any order, at any level and filter to begin with.
func vCase_C33_keys() {
	s := &vMenuState{level: []int{0, 8, 5, 1}[vChoose("level", vBound("levels", 2, 4))], filter: ""}
	params := []interface{}{vLevels[s.level]}
	if vBool("filter") {
		params = append(params, teolog.Logfilter("x"))
		s.filter = "x"
	}
	t, l, p := vMenuStart(params...)
	s.check(t)
	for i := 0; i < vBound("keys", 3, 4); i++ {
		if s.key(t) {
			s.check(t)
			vSleep(10)
			vMenuGone()
			break
		}
		s.check(t)
	}
	vAssert(t.StatisticMinilog() == !s.minilog, "the minilog is not what the keys pressed make it")
	vAlive(vChannel(t, p.addr), l, p, "after the keys")
	vReach("done")
}

// vMenuGone checks that no key is waited for.
func vMenuGone() {
	select {
	case vMenu.keys <- []byte("u"):
		vFail("the menu waits for a key after it was stopped")
	default:
	}
}

// vCase_C33_application: the application sets the level itself after a key that
// does not suspend logging; the next key does not undo that.
func vCase_C33_application() {
	s := &vMenuState{level: 5}
	t, _, _ := vMenuStart("Debug")
	if s.key(t) || s.suspended {
		vReach("not applicable")
		return
	}
	n := vInt("level", 0, 8)
	log.SetLevel(n)
	s.level = n
	s.check(t)
	if !s.key(t) {
		vReach("done")
	}
	s.check(t)
}

// vCase_C33_quit: the application is left from the menu, with any number of
// peers connected, perhaps with statistics printed and after another key.
func vCase_C33_quit() {
	t, l, p := vMenuStart("Debug")
	q := vNewPeer(p.c, "10.9.9.2:5002")
	q.dial()
	switch vChoose("before", 3) {
	case 1:
		vMenuKey('u')
		vSleep(vInt("ms", 0, 1200))
	case 2:
		vMenuKey('h')
	}
	p.c.take()
	vMenuKey('q')
	vSleep(1)
	vWait()
	vAssert(len(vMenu.exits) == 1 && vMenu.exits[0] == 0, "the application does not end with success")
	ds := p.c.take()
	for _, x := range []*vPeer{p, q} {
		vAssert(len(x.got(ds, vsDisconnect)) == 1, "a peer is not told when the application is left")
	}
	vAssert(len(t.Statistic()) == 0, "a channel is left when the application is left")
	vAssert(!t.StatisticPrintRunning(), "the statistics are printed when the application is left")
	vAssert(len(l.errs()) > 0, "the reader is not told when the application is left")
	vMenuGone()
	vReach("done")
}

// vCase_C33_traffic: messages go both ways, and are logged, while keys are
// pressed; what is logged between a key that suspends logging and the next one
// is not printed.
func vCase_C33_traffic() {
	t, l, p := vMenuStart("DebugVVV")
	ch := vChannel(t, p.addr)
	mark := vBytes("message", 3, 3)
	k := []byte("hLlU")[vChoose("key", 4)]
	lv := 8
	vMenuKey(k)
	if k == 'l' {
		lv = 0
	}
	send := func() string {
		vStdoutTake()
		p.sendMsg(mark)
		vWait()
		_, err := ch.WriteTo(mark)
		vAssert(err == nil, "WriteTo failed")
		vWait()
		return vStdoutTake()
	}
	n := len(l.msgs())
	out := send()
	vAssert(len(l.msgs()) == n+1, "a message is not delivered while the menu shows something")
	quiet := k == 'h' || k == 'L' || lv == 0
	vAssert(quiet == (out == ""), "what is logged is not what the keys pressed make it")
	x := vU8("next key")
	for _, c := range []byte("h?uUlLfq\r\x03\x0c") {
		vAssume(x != c)
	}
	vMenuKey(x)
	out = send()
	vAssert((lv == 0) == (out == ""), "logging is not resumed by the next key")
	vAssertSame(l.msgs()[n+1].data, mark, "a message is changed while keys are pressed")
	vReach("done")
}
