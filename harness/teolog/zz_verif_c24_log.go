package teolog

import (
	"log"
	"strings"
)

// C24: the logger shows exactly the selected levels and filter matches.

func vLoggers(l *Teolog) []*log.Logger {
	return []*log.Logger{l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}
}

var vNames = []string{"none", "error", "user", "info", "connect", "debug", "debugv", "debugvv", "debugvvv"}

// vShown is what is printed when every logger prints a message of its own.
func vShown(l *Teolog) (shown [8]bool) {
	vStdoutTake()
	for i, x := range vLoggers(l) {
		x.Println("message", i)
	}
	out := vStdoutTake()
	for i := range shown {
		m := "message " + string(rune('0'+i)) + "\n"
		n := strings.Count(out, m)
		vAssert(n <= 1, "a message is printed more than once")
		shown[i] = n == 1
	}
	return
}

func vWantLevel(l *Teolog, level int) {
	shown := vShown(l)
	for i := range shown {
		// 0 prints nothing, 1 errors, 2 also user messages, ...
		if i < level {
			vAssert(shown[i], "a message of the level is not printed")
		} else {
			vAssert(!shown[i], "a message beyond the level is printed")
		}
	}
	vAssert(int(l.Level()) == level, "the level reported is not the level set")
	vAssert(strings.EqualFold(l.String(), vNames[level]), "the level's name is not the name of the level set")
}

// vCase_C24_level: after any sequence of level changes, by number, by constant
// or by name in any case and with spaces, exactly the messages of the level and
// of the more important ones are printed.
func vCase_C24_level() {
	l := New()
	if vBool("flags") {
		l.SetFlags(0)
	}
	level := 0
	for i := 0; i < vBound("changes", 2, 3); i++ {
		switch vChoose("how", 4) {
		case 0:
			level = vInt("level", 0, 8)
			l.SetLevel(level)
		case 1:
			level = vInt("level", 0, 8)
			l.SetLevel(LogLevel(level))
		case 2:
			level = vConcrete(vInt("level", 0, 8))
			s := vNames[level]
			switch vChoose("spelling", 3) {
			case 1:
				s = strings.ToUpper(s)
			case 2:
				s = "  " + strings.ToUpper(s[:1]) + s[1:] + " "
			}
			l.SetLevel(s)
		case 3:
			level = (level + 1) % 9
			vAssert(int(l.SwitchLevel()) == level, "switching does not go to the next level")
		}
		level = vConcrete(level)
		vWantLevel(l, level)
	}
	vReach("done")
}

// vCase_C24_names: names and levels convert back and forth; "all" is the last
// level; every other name means no output.
func vCase_C24_names() {
	l := New()
	level := vConcrete(vInt("level", 0, 8))
	name := LogLevel(level).String()
	l.SetLevel((level + 3) % 9)
	l.SetLevel(name)
	vWantLevel(l, level)
	vAssert(strings.EqualFold(name, vNames[level]), "a level has another level's name")
	vAssert(strings.Contains(strings.ToLower(l.Levels()), vNames[level]), "a level is not described")
	l.SetLevel("all")
	vWantLevel(l, 8)
	l.SetLevel([]string{"", "unknown", "errors", "debugvvvv", "level", "-", "8"}[vChoose("unknown", 7)])
	vWantLevel(l, 0)
	vReach("done")
}

// vCase_C24_unknown: any name, up to 7 bytes, that is no level's name means
// no output.
func vCase_C24_unknown() {
	l := New()
	b := vBytes("name", 1, vBound("length", 5, 7))
	for _, c := range b {
		vAssume(c >= 'a' && c <= 'z')
	}
	s := string(b)
	known := s == "all"
	for _, n := range vNames {
		known = known || s == n
	}
	vAssume(!known)
	l.SetLevel(8)
	l.SetLevel(s)
	vAssert(l.Level() == 0, "an unknown name is taken for a level")
	vReach("done")
}

// vCase_C24_switch: switching cycles through all nine levels.
func vCase_C24_switch() {
	l := New()
	start := vConcrete(vInt("start", 0, 8))
	l.SetLevel(start)
	for i := 1; i <= 10; i++ {
		l.SwitchLevel()
		vWantLevel(l, (start+i)%9)
	}
	vReach("done")
}

// vCase_C24_filter: any message and any alternatives: it is printed exactly
// when it contains at least one of them, and then unchanged.
func vCase_C24_filter() {
	l := New()
	l.SetFlags(0)
	l.SetLevel("all")
	n := vConcrete(vInt("alternatives", 1, 2))
	var alts [][]byte
	for i := 0; i < n; i++ {
		b := vBytes("alternative", 0, vBound("filter length", 3, 4))
		for _, c := range b {
			vAssume(c > ' ' && c < 0x7f && c != '|')
		}
		alts = append(alts, b)
	}
	set := vChoose("how", 3)
	switch set {
	case 0: // one string
		s := string(alts[0])
		if n > 1 {
			s += []string{"||", " || ", "||  "}[vChoose("separator", 3)] + string(alts[1])
		}
		if vBool("padding") {
			s = " " + s + "\t"
		}
		l.SetFilter(s)
	case 1: // Logfilter
		s := string(alts[0])
		if n > 1 {
			s += " || " + string(alts[1])
		}
		l.SetFilter(Logfilter(s))
	case 2: // Filter
		var f Filter
		for _, a := range alts {
			f = append(f, string(a))
		}
		l.SetFilter(f)
	}
	msg := vBytes("message", 0, vBound("message length", 4, 6))
	for _, c := range msg {
		vAssume(c >= ' ' && c < 0x7f)
	}
	line := append([]byte("[user] "), msg...)
	line = append(line, '\n')
	want := false
	for _, a := range alts {
		want = want || strings.Contains(string(line), string(a))
	}
	vStdoutTake()
	if vBool("println") {
		l.User.Println(string(msg))
	} else {
		l.User.Print(string(msg))
	}
	out := vStdoutTake()
	if want {
		vAssert(len(out) == len(line), "a message that matches the filter is not printed once")
		vAssertSame([]byte(out), line, "a message is printed changed")
	} else {
		vAssert(out == "", "a message that does not match the filter is printed")
	}
	l.ClearFilter()
	l.User.Print(string(msg))
	out = vStdoutTake()
	vAssert(len(out) == len(line), "a message is not printed after the filter was cleared")
	vReach("done")
}

// vCase_C24_filterlevel: a filter does not print messages beyond the level.
func vCase_C24_filterlevel() {
	l := New()
	level := vConcrete(vInt("level", 0, 8))
	l.SetLevel(level)
	l.SetFilter("message 2 || message 5||none")
	vAssert(l.Filter() == "message 2 || message 5 || none", "the filter reported is not the filter set")
	shown := vShown(l)
	for i := range shown {
		vAssert(shown[i] == (i < level && (i == 2 || i == 5)), "with a filter another message than one of the level that matches is printed")
	}
	l.SetLevel((level + 1) % 9)
	shown = vShown(l)
	for i := range shown {
		vAssert(shown[i] == (i < (level+1)%9 && (i == 2 || i == 5)), "changing the level loses the filter")
	}
	l.SetFilter("message 1")
	shown = vShown(l)
	for i := range shown {
		vAssert(shown[i] == (i < (level+1)%9 && i == 1), "a new filter does not replace the old one")
	}
	l.ClearFilter()
	vWantLevel(l, (level+1)%9)
	vReach("done")
}

// vCase_C24_manyfilters: many alternatives: one that is matched is enough,
// wherever it stands; an empty filter prints everything.
func vCase_C24_manyfilters() {
	l := New()
	l.SetFlags(0)
	l.SetLevel(8)
	n := 1 + vConcrete(vInt("alternatives", 0, vBound("alternatives", 11, 39)))
	k := vConcrete(vInt("the matching one", 0, n))
	vAssume(k <= n)
	var alts []string
	for i := 0; i < n; i++ {
		alts = append(alts, "alternative "+string([]byte{byte('a' + i/10), byte('a' + i%10)}))
	}
	switch vChoose("how", 3) {
	case 0:
		l.SetFilter(strings.Join(alts, "||"))
	case 1:
		l.SetFilter(Logfilter(strings.Join(alts, " || ")))
	case 2:
		l.SetFilter(Filter(alts))
	}
	msg := "has alternative zz"
	if k < n {
		msg = "has " + alts[k]
	}
	vStdoutTake()
	l.Debug.Print(msg)
	vAssert((vStdoutTake() != "") == (k < n), "a message is not printed exactly when it matches an alternative")
	if vBool("empty") {
		l.SetFilter("") // everything contains it
	} else {
		l.ClearFilter()
	}
	l.Debug.Print("anything")
	vAssert(vStdoutTake() != "", "a message is not printed after the filter was cleared")
	vReach("done")
}
