package tru

import (
	"fmt"
	"strconv"
	"strings"
)

// C35: the statistics screen shows what the statistics say.

// vScreenT is a terminal with h rows that shows a frame.
type vScreenT struct {
	rows    map[int]string // what is written, by row
	cleared map[int]bool   // rows cleared
	row     int            // cursor's row, 0: where the application writes
	col     bool           // something is written in the row
	saved   int
	region  int // first row of the scroll region, 0: everything
	nowrap  bool
}

// show is what the terminal does with s.
func (t *vScreenT) show(s string) {
	for s != "" {
		if s[0] == '\n' {
			vAssert(t.row > 0, "a frame is written where the application writes")
			t.row++
			t.col = false
			s = s[1:]
			continue
		}
		if s[0] != 27 {
			i := strings.IndexAny(s, "\n\033")
			if i < 0 {
				i = len(s)
			}
			vAssert(t.row > 0, "a frame is written where the application writes")
			vAssert(t.cleared[t.row], "a row of the screen is written without clearing what was there")
			t.rows[t.row] += s[:i]
			t.col = true
			s = s[i:]
			continue
		}
		i := 2
		for i < len(s) && (s[i] < 'A' || s[i] > 'Z') && (s[i] < 'a' || s[i] > 'z') {
			i++
		}
		vAssert(len(s) > i && s[1] == '[', "a frame has a broken terminal command")
		arg, cmd := s[2:i], s[i]
		s = s[i+1:]
		switch {
		case cmd == 's':
			t.saved = t.row
		case cmd == 'u':
			t.row = t.saved
		case (cmd == 'f' || cmd == 'H') && (arg == "1;1" || arg == ""):
			t.row, t.col = 1, false
		case cmd == 'K':
			if !t.col {
				t.cleared[t.row] = true
			}
		case cmd == 'l' && arg == "?7":
			t.nowrap = true
		case cmd == 'h' && arg == "?7":
			t.nowrap = false
		case cmd == 'r' && arg == "":
			t.region = 0
		case cmd == 'r':
			n, err := strconv.Atoi(strings.TrimSuffix(arg, ";"))
			vAssert(err == nil, "a frame has a broken scroll region")
			t.region = n
			// setting it moves the cursor home
			t.row, t.col = 1, false
		default:
			vInconclusive("unknown terminal command " + arg + string(cmd))
		}
	}
}

func vNewScreen() *vScreenT {
	return &vScreenT{rows: map[int]string{}, cleared: map[int]bool{}}
}

// vFrames are the frames in what was printed.
func vFrames(out string) (frames []string) {
	if out == "" {
		return
	}
	for _, f := range strings.Split(out, "\033[s")[1:] {
		frames = append(frames, "\033[s"+f)
	}
	return
}

// vNum tells a shown number.
func vNum(n int64) string { return strconv.Itoa(vConcrete(int(n))) }

// vCells are the cells of a channel's row but for the trip time.
func vCells(r ChannelStatistic) []string {
	return []string{vNum(r.Send), vNum(r.Ssec), vNum(r.Rsnd), vNum(r.Ack), vNum(r.AckD), vNum(r.Recv), vNum(r.Rsec),
		vNum(r.Drop), vNum(int64(r.SQ)), vNum(int64(r.RQ)), vNum(int64(r.RTA))}
}

// vScreenCheck is what a frame has to show.
func vScreenCheck(t *Tru, f string, log []string) {
	s := vNewScreen()
	s.show(f)
	vAssert(s.row == 0, "the cursor is not put back after a frame")
	vAssert(!s.nowrap, "wrapping is left off after a frame")
	vAssert(strings.HasPrefix(s.rows[1], "TRU "+t.LocalAddr().String()+","), "the screen does not begin with the endpoint's address")

	// The table
	st := t.Statistic()
	lines := 0
	if s := st.String(); s != "" {
		lines = strings.Count(s, "\n") + 1
	}
	vAssert(st.NumRows() == lines, "the number of the table's rows told is not the number of its rows")
	row := 2
	if len(st) > 0 {
		row++ // a line
		title := strings.Fields(s.rows[row])
		want := strings.Fields("ADDR SEND SSEC RSND ACK ACKD RECV RSEC DROP SQ RQ RTA DELAY TT")
		vAssert(strings.Join(title, " ") == strings.Join(want, " "), "the table's title is wrong")
		row += 2
	}
	sum := make([]int64, 11)
	for i, r := range st {
		vAssert(i == 0 || st[i-1].Addr < r.Addr, "the channels are not in the order of their addresses")
		got := strings.Fields(s.rows[row])
		vAssert(len(got) == 14 && got[0] == r.Addr, "a channel's row is not shown in its place")
		for k, c := range vCells(r) {
			vAssert(got[1+k] == c, "a channel's row does not show its statistics")
			n, _ := strconv.Atoi(c)
			sum[k] += int64(n)
		}
		vAssert(got[12] == vNum(int64(r.Delay)), "a channel's row does not show its send delay")
		vAssert(got[13] == fmt.Sprintf("%.3f", r.TT), "a channel's row does not show its trip time")
		row++
	}
	if len(st) > 0 {
		row++ // a line
	}
	if len(st) > 1 {
		got := strings.Fields(s.rows[row])
		vAssert(len(got) == len(sum), "the totals are not shown")
		for k := range sum {
			vAssert(got[k] == strconv.Itoa(int(sum[k])), "a total is not the sum of its column")
		}
		row++
	}

	// The minilog
	shown := 0
	for last := row + 300; row < last; row++ {
		if strings.TrimSpace(s.rows[row]) == "" {
			continue
		}
		shown++
	}
	row -= 300
	vAssert(shown <= len(log), "the screen shows what is not in the log")
	top := 0
	for i := 0; i < shown; i++ {
		for top = row; strings.TrimSpace(s.rows[top]) == ""; top++ {
		}
		vAssert(strings.TrimSpace(s.rows[top]) == log[len(log)-shown+i], "the minilog does not show the latest messages in order")
		row = top + 1
	}

	// The scroll region begins below what is shown, in the terminal
	table := 0
	if len(st) > 0 {
		table = len(st) + 4
	}
	if len(st) > 1 {
		table++
	}
	small := vTerm.is && vTerm.h < table+4
	vAssert(s.region >= row || small, "the scroll region covers what the screen shows")
	if vTerm.is {
		if log != nil {
			vAssert(small || s.region <= vTerm.h, "the scroll region is below the terminal")
			vAssert(shown == len(log) || s.region >= vTerm.h, "messages that fit are not shown")
		} else {
			vAssert(s.region <= table+4, "the scroll region leaves rows unused")
		}
	} else {
		vAssert(shown == len(log), "messages of the log are not shown")
	}
}

// vScreenEarlier fills the endpoint's log with n messages.
func vScreenEarlier(t *Tru, n int) (log []string) {
	m, ok := vFieldPtr(t, "statMsgs.msgs").(*[]string)
	if !ok {
		vInconclusive("the event log's messages are not a []string field named msgs")
	}
	for len(*m) < n {
		*m = append(*m, "earlier "+strconv.Itoa(len(*m)))
	}
	return append([]string{}, *m...)
}

// vScreenPeers connects n peers, in any order of their addresses.
func vScreenPeers(t *Tru, c *vConn, n int) (ps []*vPeer) {
	for i := 0; i < n; i++ {
		q := vNewPeer(c, "10.9.9."+strconv.Itoa(7-2*i)+":5001")
		q.session = append([]byte("fedcba9876543210FEDCBA987654321"), byte(i))
		q.dial()
		ps = append(ps, q)
	}
	return
}

// vScreenTraffic is what happens on a channel.
func vScreenTraffic(t *Tru, p *vPeer, ev int) {
	ch := vChannel(t, p.addr)
	switch ev {
	case 0:
	case 1: // something is sent
		ch.WriteTo([]byte("hello"))
	case 2: // something is sent and acknowledged, twice
		id, _ := ch.WriteTo([]byte("hello"))
		p.send(vHdr(vsAck, id, nil))
		p.send(vHdr(vsAck, id, nil))
	case 3: // something is received, and again, and something early
		p.sendMsg([]byte("hello"))
		p.send(p.data(vWrap(p.next-1), []byte("hello"), false))
		p.send(p.data(vWrap(p.next+1), []byte("early"), false))
	}
}

// vCase_C35_table: the table shows every channel's statistics.
//
//verif:timeout 400
func vCase_C35_table() {
	l := &vReaderLog{}
	t, c := vNewTru(8000, l.read)
	n := vChoose("channels", 4)
	ps := vScreenPeers(t, c, n)
	t.StatisticPrint()
	vAssert(t.StatisticPrintRunning(), "printing is started and does not run")
	for _, p := range ps {
		vScreenTraffic(t, p, vChoose("traffic", 4))
	}
	vWait()
	vStdoutTake()
	for k := 0; k < vBound("frames", 2, 3); k++ {
		vSleep(500)
		vWait()
		fs := vFrames(vStdoutTake())
		vAssert(len(fs) == 1, "a frame is not printed every half a second")
		vScreenCheck(t, fs[0], nil)
		if k == 0 && n > 0 && vBool("one leaves") {
			vChannel(t, ps[0].addr).Close()
		}
	}
	vReach("done")
}

// vCase_C35_minilog: below the table the latest messages of the log are shown,
// as many as the terminal has room for.
//
//verif:timeout 400
func vCase_C35_minilog() {
	t, c := vNewTru(8000, (&vReaderLog{}).read)
	ps := vScreenPeers(t, c, vChoose("channels", 3))
	if vTerm.is = vBool("terminal"); vTerm.is {
		vTerm.w, vTerm.h = 80, vConcrete(vInt("rows", 1, vBound("rows", 18, 40)))
	}
	have := vScreenEarlier(t, vConcrete(vInt("earlier", 0, vBound("earlier", 8, 30))))
	on := vBool("minilog")
	if on {
		vAssert(t.StatisticMinilog(), "the minilog is turned on and reports off")
	}
	t.StatisticPrint()
	vStdoutTake()
	for k := 0; k < 2; k++ {
		vSleep(500)
		vWait()
		fs := vFrames(vStdoutTake())
		vAssert(len(fs) == 1, "a frame is not printed every half a second")
		var log []string
		if on {
			log = append([]string{}, vMsgs35(t)...)
		}
		vScreenCheck(t, fs[0], log)
		if k == 0 {
			switch vChoose("then", 3) {
			case 0:
				on = !on
				vAssert(t.StatisticMinilog() == on, "the minilog's new state is not reported")
			case 1:
				if len(ps) == 0 {
					vSkip("no channels")
				}
				vChannel(t, ps[0].addr).Close()
				vAssert(len(vMsgs35(t)) > len(have), "a channel's end is not logged")
			case 2:
			}
		}
	}
	vReach("done")
}

func vMsgs35(t *Tru) []string { return vScreenEarlier(t, 0) }

// vCase_C35_stop: started any number of times, stopped and started again,
// frames are printed only while they should be.
//
//verif:timeout 300
func vCase_C35_stop() {
	t, _, p := vServe()
	ch := vChannel(t, p.addr)
	running := false
	age := 0 // since the last change
	vStdoutTake()
	for k := 0; k < vBound("steps", 4, 5); k++ {
		switch vChoose("step", 4) {
		case 0:
			t.StatisticPrint()
			vAssert(vFrames(vStdoutTake()) == nil, "a frame is printed at once")
			if !running || age > 0 {
				age = 0
			}
			running = true
		case 1:
			vStdoutTake()
			t.StatisticPrintStop()
			out := vStdoutTake()
			vAssert(strings.Contains(out, "\033[r") == running, "the scroll region is not given back when printing stops")
			vAssert(len(vFrames(out)) == 0, "stopping prints a frame")
			running = false
			age = 0
		case 2:
			d := []int{1, 250, 499}[vChoose("ms", 3)]
			vStdoutTake()
			vSleep(d)
			vWait()
			fs := len(vFrames(vStdoutTake()))
			if running {
				vAssert(fs <= 2, "more frames than one every half a second")
			} else {
				vAssert(fs == 0, "a frame is printed though printing is stopped")
			}
			age += d
		case 3:
			p.send(vHdr(vsPing, 0, nil))
			vSleep(1001)
			vWait()
			vStdoutTake()
			vSleep(1000)
			vWait()
			fs := vFrames(vStdoutTake())
			if !running {
				vAssert(len(fs) == 0, "frames are printed though printing is stopped")
			} else {
				vAssert(len(fs) == 2, "a frame is not printed every half a second")
			}
			age += 2001
		}
		vAssert(t.StatisticPrintRunning() == running, "printing is reported wrong")
	}
	ch.WriteTo([]byte("hello"))
	vWait()
	vAssert(len(p.got(p.c.take(), vsData)) > 0, "the endpoint does not work any more")
	vReach("done")
}

// vCase_C35_live: frames are printed while channels work, come and go, in any
// schedule: nothing blocks, and the next frame is right.
//
//verif:timeout 300
func vCase_C35_live() {
	l := &vReaderLog{}
	t, _, p := vServe(l.read)
	ch := vChannel(t, p.addr)
	if vBool("minilog") {
		t.StatisticMinilog()
	}
	t.StatisticPrint()
	vWait()
	vStdoutTake()
	what := vChoose("what", 4)
	vSched(vBound("preemptions", 2, 3), 0)
	done := make(chan bool)
	go func() {
		switch what {
		case 0:
			ch.WriteTo([]byte("hello"))
		case 1:
			ch.Close()
		case 2:
			p.sendMsg([]byte("hello"))
		case 3:
			t.StatisticMinilog()
		}
		close(done)
	}()
	vSleep(500)
	<-done
	vSched(-1, 0)
	vWait()
	vStdoutTake()
	vSleep(500)
	vWait()
	fs := vFrames(vStdoutTake())
	vAssert(len(fs) == 1, "a frame is not printed every half a second")
	s := vNewScreen()
	s.show(fs[0])
	vAssert(s.row == 0 && !s.nowrap, "the terminal is not left as it was")
	vReach("done")
}
