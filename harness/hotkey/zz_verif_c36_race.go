package hotkey

import "sync"

// C36: a running menu may be used from other goroutines.

type vKeysT struct {
	ch   chan []byte
	mu   sync.Mutex
	seen []string
}

var vKeys *vKeysT

//verif:swap github.com/teonet-go/tru/term.Getch
func vGetch() []byte { return <-vKeys.ch }

func (k *vKeysT) add(s string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.seen = append(k.seen, s)
}

var vMenuRaceOps = []func(h *Hotkey){
	func(h *Hotkey) { h.Add("b", "other", func(h *Hotkey) { vKeys.add("b") }) },
	func(h *Hotkey) { h.Add([]string{"a", "c"}, "same", func(h *Hotkey) { vKeys.add("a") }) },
	func(h *Hotkey) { h.AddUnknown(func(h *Hotkey, ch []byte) { vKeys.add("?") }) },
	func(h *Hotkey) { h.NextKeyAction(func(ch []byte) { vKeys.add("next") }) },
	func(h *Hotkey) { h.SetStopAction(func() { vKeys.add("stop") }) },
	func(h *Hotkey) { h.Stop() },
	func(h *Hotkey) { _ = h.String() },
	func(h *Hotkey) { h.SetState(h.State()) },
	func(h *Hotkey) { vKeys.ch <- []byte("a") },
	func(h *Hotkey) { vKeys.ch <- []byte("b") },
	func(h *Hotkey) { vKeys.ch <- []byte("s") },
}

// vCase_C36_menu: any two things are done with a running menu at the same
// time.
func vCase_C36_menu() {
	vKeys = &vKeysT{ch: make(chan []byte, 100)}
	n := len(vMenuRaceOps)
	i := vChoose("one", n)
	j := vChoose("other", n)
	vSched(vBound("preemptions", 2, 3), 0)
	vRace(true)
	h := New().SetState(1).Run()
	h.Add("a", "menu", func(h *Hotkey) {
		vKeys.add("a")
		h.NextKeyAction(func(ch []byte) { vKeys.add("next") })
	})
	h.Add("s", "stop", func(h *Hotkey) { h.Stop() })
	h.AddUnknown(func(h *Hotkey, ch []byte) { vKeys.add("?") })
	go vMenuRaceOps[i](h)
	go vMenuRaceOps[j](h)
	vWait()
	vKeys.ch <- []byte("x")
	vWait()
	vRace(false)
	vSched(-1, 0)
	vReach("done")
}
