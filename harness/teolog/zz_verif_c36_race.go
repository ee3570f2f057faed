package teolog

// C36: the logger may be used and set up by several goroutines.

var vLogRaceOps = []func(l *Teolog){
	func(l *Teolog) { l.Error.Println("an error") },
	func(l *Teolog) { l.Debug.Println("a debug message") },
	func(l *Teolog) { l.SetLevel(3) },
	func(l *Teolog) { l.SetLevel("debugvvv") },
	func(l *Teolog) { l.SwitchLevel() },
	func(l *Teolog) { l.SetFilter("error || message") },
	func(l *Teolog) { l.SetFilter(Filter{"x"}) },
	func(l *Teolog) { l.ClearFilter() },
	func(l *Teolog) { l.SetFlags(0) },
	func(l *Teolog) { _ = l.String() + l.Filter() + l.Levels() + l.Level().String() },
}

// vCase_C36_logger: any two things are done with one logger at the same time.
// Afterwards the levels of its loggers are those of the level it reports.
func vCase_C36_logger() {
	n := len(vLogRaceOps)
	i := vChoose("one", n)
	j := vChoose("other", n)
	l := New()
	l.SetLevel([]int{1, 8}[vChoose("level", 2)])
	l.SetFilter([]string{"", "a"}[vChoose("filter", 2)])
	vSched(vBound("preemptions", 2, 3), 0)
	vRace(true)
	go vLogRaceOps[i](l)
	go vLogRaceOps[j](l)
	vWait()
	vRace(false)
	vSched(-1, 0)
	level := int(l.Level())
	l.ClearFilter()
	vStdoutTake()
	for k, x := range l.levels {
		x.Println("message")
		vAssert((vStdoutTake() != "") == (k < level), "the messages printed are not those of the logger's level")
	}
	vReach("done")
}
