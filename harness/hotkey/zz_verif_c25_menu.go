package hotkey

import (
	"strings"
	"sync"
)

// C25: the hotkey menu runs exactly the pressed key's action.

type vKeysT struct {
	mu    sync.Mutex
	ch    chan []byte
	calls int // reads started
}

var vKeys *vKeysT

//verif:swap github.com/teonet-go/tru/term.Getch
func vGetch() []byte {
	vKeys.mu.Lock()
	vKeys.calls++
	vKeys.mu.Unlock()
	return <-vKeys.ch
}

// vLogT is what ran, in order.
type vLogT struct {
	mu sync.Mutex
	ev []vEv
}

type vEv struct {
	what string
	n    int
	key  []byte
}

func (l *vLogT) add(what string, n int, key []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.ev = append(l.ev, vEv{what, n, append([]byte(nil), key...)})
}

func (l *vLogT) take() (ev []vEv) {
	l.mu.Lock()
	defer l.mu.Unlock()
	ev, l.ev = l.ev, nil
	return
}

func vReset() *vLogT {
	vKeys = &vKeysT{ch: make(chan []byte, 100)}
	return &vLogT{}
}

func vPress(key []byte) {
	vKeys.ch <- key
	vWait()
}

// vCase_C25_keys: any registrations, of keys and of several keys at once, some
// for the same code, in every form; any keys pressed.
func vCase_C25_keys() {
	l := vReset()
	h := New()
	h.AddUnknown(func(_ *Hotkey, ch []byte) { l.add("unknown", 0, ch) })
	type reg struct {
		code []byte
		n    int
	}
	var regs []reg
	n := 0
	first := vChoose("form", 5)
	add := func() {
		n++
		k := n
		f := func(hh *Hotkey) {
			vAssert(hh == h, "an action is given another menu")
			l.add("action", k, nil)
		}
		code := vBytes("code", 1, vBound("code length", 2, 2))
		code2 := []byte{'z', vU8("code")}
		switch (first + n) % 5 {
		case 0:
			h.Add(code, "d", f)
			regs = append(regs, reg{code, k})
		case 1:
			h.Add(string(code), "d", f)
			regs = append(regs, reg{code, k})
		case 2:
			h.Add([]string{string(code), string(code2)}, "d", f)
			regs = append(regs, reg{code, k}, reg{code2, k})
		case 3:
			h.Add(KeyCode{Code: code, Name: "name"}, "d", f)
			regs = append(regs, reg{code, k})
		case 4:
			h.Add([]KeyCode{{Code: code}, {Code: code2, Name: "other"}}, "d", f)
			regs = append(regs, reg{code, k}, reg{code2, k})
		}
	}
	press := func() {
		key := vBytes("key", 0, 2)
		want := 0
		for _, r := range regs {
			if len(r.code) == len(key) && vSame(r.code, key) {
				want = r.n
			}
		}
		vPress(key)
		ev := l.take()
		vAssert(len(ev) == 1, "a key press does not run exactly one action")
		if want == 0 {
			vAssert(ev[0].what == "unknown", "a key that is not registered runs an action")
			vAssert(len(ev[0].key) == len(key) && vSame(ev[0].key, key), "the unknown key handler is given another key")
		} else {
			vAssert(ev[0].what == "action" && ev[0].n == want, "a key press runs another action than the one most recently registered for it")
		}
	}
	add()
	add()
	h.Run()
	vWait()
	press()
	add()
	press()
	vReach("done")
}

// vCase_C25_nil: keys without an action and no unknown key handler.
func vCase_C25_nil() {
	l := vReset()
	h := New()
	h.AddUnknown(nil)
	h.Add("n", "nothing", nil)
	h.Add("a", "something", func(*Hotkey) { l.add("action", 1, nil) })
	h.Run()
	vWait()
	for i := 0; i < 3; i++ {
		key := vBytes("key", 0, 1)
		vPress(key)
		ev := l.take()
		vAssert(len(ev) == b2i(len(key) == 1 && key[0] == 'a'), "a key press runs another action than its own")
	}
	vReach("done")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// vCase_C25_next: one-shot actions, set outside, in actions, in the unknown key
// handler and in one-shot actions, taken back or replaced.
func vCase_C25_next() {
	l := vReset()
	h := New()
	pend := 0 // the one-shot action expected to run at the next key
	seq := 0
	var set func(depth int)
	set = func(depth int) {
		switch vChoose("one-shot", 3) {
		case 0:
		case 1:
			seq++
			k := seq
			pend = k
			h.NextKeyAction(func(ch []byte) {
				l.add("next", k, ch)
				pend = 0
				if depth > 0 {
					set(depth - 1)
				}
			})
		case 2:
			pend = 0
			h.NextKeyAction(nil)
		}
	}
	h.AddUnknown(func(_ *Hotkey, ch []byte) {
		l.add("unknown", 0, ch)
		set(0)
	})
	h.Add("a", "", func(*Hotkey) {
		l.add("action", 0, nil)
		set(0)
	})
	h.Add("b", "", nil)
	set(1)
	h.Run()
	vWait()
	for i := 0; i < vBound("keys", 3, 4); i++ {
		key := []byte{"abx"[vChoose("key", 3)]}
		want := pend
		vPress(key)
		ev := l.take()
		if want != 0 {
			vAssert(len(ev) > 0 && ev[0].what == "next" && ev[0].n == want, "a one-shot action is not run before the key's action")
			vAssert(vSame(ev[0].key, key), "a one-shot action is given another key")
			ev = ev[1:]
		}
		switch key[0] {
		case 'a':
			vAssert(len(ev) == 1 && ev[0].what == "action", "a key's action is not run exactly once")
		case 'b':
			vAssert(len(ev) == 0, "a key without an action runs one")
		default:
			vAssert(len(ev) == 1 && ev[0].what == "unknown", "an unknown key does not run its handler exactly once")
		}
	}
	vReach("done")
}

// vCase_C25_stop: Stop, from an action, the unknown key handler, a one-shot
// action or another goroutine: no further key is read, the stop actions have
// run, each once.
func vCase_C25_stop() {
	l := vReset()
	h := New()
	nstop := vConcrete(vInt("stop actions", 0, 2))
	for i := 0; i < nstop; i++ {
		k := i
		h.SetStopAction(func() { l.add("stop", k, nil) })
	}
	stops := func(ev []vEv) (n int) {
		for _, e := range ev {
			if e.what == "stop" {
				vAssert(e.n == n, "the stop actions do not run in the order they were set")
				n++
			}
		}
		return
	}
	h.AddUnknown(func(_ *Hotkey, ch []byte) { h.Stop(); l.add("unknown", 0, ch) })
	h.Add("q", "", func(*Hotkey) { h.Stop(); l.add("action", 0, nil) })
	h.Add("a", "", func(*Hotkey) { l.add("action", 1, nil) })
	h.Run()
	vWait()
	vPress([]byte("a"))
	vAssert(len(l.take()) == 1 && vKeys.calls == 2, "the menu does not go on after a key")
	outside := false
	switch vChoose("how", 4) {
	case 0:
		vPress([]byte("q"))
	case 1:
		vPress([]byte("x"))
	case 2:
		h.NextKeyAction(func([]byte) { h.Stop() })
		vPress([]byte("a"))
	case 3:
		h.Stop()
		outside = true
	}
	vAssert(stops(l.take()) == nstop, "the stop actions have not run exactly once")
	vWait()
	if outside {
		// the read in progress ends with the next key
		vPress([]byte("a"))
	}
	calls := vKeys.calls
	vAssert(calls == 2, "a key is read after Stop")
	l.take()
	for i := 0; i < 3; i++ {
		vPress([]byte("a"))
	}
	vAssert(vKeys.calls == calls, "a key is read after Stop")
	vAssert(len(l.take()) == 0, "an action is run after Stop")
	vReach("done")
}

// vCase_C25_order: a burst of keys runs its actions in the order pressed.
func vCase_C25_order() {
	l := vReset()
	h := New()
	for i, s := range []string{"a", "b", "c"} {
		k := i
		h.Add(s, "", func(*Hotkey) { l.add("action", k, nil) })
	}
	var want []int
	for i := 0; i < 4; i++ {
		k := vChoose("key", 3)
		want = append(want, k)
		vKeys.ch <- []byte{"abc"[k]}
	}
	h.Run()
	vWait()
	ev := l.take()
	vAssert(len(ev) == len(want), "not every key ran its action once")
	for i := range ev {
		vAssert(ev[i].n == want[i], "actions do not run in the order of the keys")
	}
	vReach("done")
}

// vCase_C25_concurrent: keys are registered while the menu runs, under every
// schedule within the bound.
func vCase_C25_concurrent() {
	l := vReset()
	h := New()
	h.AddUnknown(func(_ *Hotkey, ch []byte) { l.add("unknown", 0, ch) })
	h.Add("a", "", func(*Hotkey) { l.add("action", 1, nil) })
	vSched(vBound("preemptions", 2, 3), 0)
	h.Run()
	vKeys.ch <- []byte("a")
	vKeys.ch <- []byte("b")
	h.Add("b", "", func(*Hotkey) { l.add("action", 2, nil) })
	h.Add("c", "", func(*Hotkey) { l.add("action", 3, nil) })
	help := h.String()
	vKeys.ch <- []byte("c")
	vWait()
	vSched(-1, 0)
	vAssert(strings.Count(help, "\n") == 3, "the help does not list every action")
	ev := l.take()
	vAssert(len(ev) == 3, "not every key ran one action")
	vAssert(ev[0].n == 1, "a key's action was not run")
	vAssert(ev[1].n == 2 || ev[1].what == "unknown", "a key ran another key's action")
	vAssert(ev[2].n == 3, "a key's action was not run")
	vReach("done")
}

// vCase_C25_help: the help has one line for each registered action that is
// still reachable, with its keys' names and its description.
func vCase_C25_help() {
	vReset()
	vMapOrder(true)
	h := New()
	d := []string{}
	add := func(keys interface{}, names ...string) {
		desc := "D" + string(rune('0'+len(d)))
		h.Add(keys, desc, nil)
		d = append(d, desc)
	}
	set := vChoose("set", 4)
	switch set {
	case 0:
		add("b")
		add([]string{"a", "c"})
	case 1:
		add(KeyCode{Code: []byte{1}, Name: "up"})
		add([]KeyCode{{Code: []byte{2}, Name: "down"}, {Code: []byte{3}}})
		add("z")
	case 2:
		add([]string{"a", "b"})
		add("a") // "b" still runs the first
	case 3:
		add("a")
		add("a") // the first is gone
	}
	help := h.String()
	for i, desc := range d {
		n := 1
		if set == 3 && i == 0 {
			n = 0
		}
		vAssert(strings.Count(help, desc+"\n") == n, "the help does not list each action once")
	}
	if set == 1 {
		vAssert(strings.Contains(help, "up") && strings.Contains(help, "down"), "the help does not name a key")
	}
	vReach("done")
}
