package term

import (
	"errors"
	"io"
	"os"
	"runtime"
	"sync"

	"golang.org/x/sys/unix"
)

// C26: reading a key leaves the terminal as it was.

// vTermT is the terminal: one mode per file descriptor, and the keys typed.
type vTermT struct {
	mu     sync.Mutex
	mode   map[int]unix.Termios
	fail   map[int]bool // not a terminal
	setErr int          // the setErr-th change fails, 0: none
	sets   int
	waits  []unix.Termios // modes while a key was waited for
	typed  []byte
	rerr   error
	reads  int
	asked  int // buffer length of the last read
	wr     *os.File
	more   bool
}

var vTerm *vTermT

//verif:swap golang.org/x/sys/unix.IoctlGetTermios
func vGetTermios(fd int, req uint) (*unix.Termios, error) {
	vTerm.mu.Lock()
	defer vTerm.mu.Unlock()
	if req != unix.TCGETS {
		return nil, errors.New("not a request to read the mode")
	}
	m, ok := vTerm.mode[fd]
	if !ok || vTerm.fail[fd] {
		return nil, errors.New("inappropriate ioctl for device")
	}
	return &m, nil
}

//verif:swap golang.org/x/sys/unix.IoctlSetTermios
func vSetTermios(fd int, req uint, value *unix.Termios) error {
	vTerm.mu.Lock()
	defer vTerm.mu.Unlock()
	if req != unix.TCSETS && req != unix.TCSETSW && req != unix.TCSETSF {
		return errors.New("not a request to set the mode")
	}
	if _, ok := vTerm.mode[fd]; !ok || vTerm.fail[fd] {
		return errors.New("inappropriate ioctl for device")
	}
	vTerm.sets++
	if vTerm.sets == vTerm.setErr {
		return errors.New("interrupted")
	}
	vTerm.mode[fd] = *value
	return nil
}

//verif:model (*os.File).Fd
func vFd(f *os.File) uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	return 0
}

//verif:model (*os.File).Read
func vRead(f *os.File, b []byte) (int, error) {
	vTerm.waits = append(vTerm.waits, vTerm.mode[0])
	vTerm.reads++
	vTerm.asked = len(b)
	if vTerm.rerr != nil {
		return 0, vTerm.rerr
	}
	n := copy(b, vTerm.typed)
	vTerm.typed = vTerm.typed[n:]
	return n, nil
}

// vFeed types the keys once the mode was changed (native runs; the symbolic
// engine uses vRead).
func vFeed() {
	if !vNative() {
		return
	}
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdin = r
	vTerm.mu.Lock()
	n, fd := vTerm.sets, int(r.Fd())
	vTerm.mode[fd] = vTerm.mode[0]
	vTerm.mu.Unlock()
	go func() {
		for i := 0; i < 3000000; i++ {
			vTerm.mu.Lock()
			ok := vTerm.sets > n
			vTerm.mu.Unlock()
			if ok {
				break
			}
			runtime.Gosched()
		}
		vTerm.mu.Lock()
		vTerm.waits = append(vTerm.waits, vTerm.mode[fd])
		vTerm.mu.Unlock()
		if vTerm.rerr == nil {
			w.Write(vTerm.typed)
		}
		w.Close()
	}()
}

// vMode is the mode of the standard input.
func vMode() unix.Termios {
	vTerm.mu.Lock()
	defer vTerm.mu.Unlock()
	if vNative() {
		return vTerm.mode[int(os.Stdin.Fd())]
	}
	return vTerm.mode[0]
}

// vAnyMode is any terminal mode.
func vAnyMode() (m unix.Termios) {
	m.Iflag, m.Oflag, m.Cflag, m.Lflag = vU32("iflag"), vU32("oflag"), vU32("cflag"), vU32("lflag")
	m.Line = vU8("line")
	m.Cc[unix.VINTR], m.Cc[unix.VMIN], m.Cc[unix.VTIME], m.Cc[unix.VEOF], m.Cc[18] = vU8("vintr"), vU8("vmin"), vU8("vtime"), vU8("veof"), vU8("cc18")
	m.Ispeed, m.Ospeed = vU32("ispeed"), vU32("ospeed")
	return
}

// vWaiting is the mode in which a key is waited for, from the mode before.
func vWaiting(m unix.Termios) unix.Termios {
	m.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG
	m.Cc[unix.VMIN] = 1
	m.Cc[unix.VTIME] = 0
	return m
}

// vCase_C26_getch: any mode, any key of up to 3 bytes, or a failing read.
func vCase_C26_getch() {
	m := vAnyMode()
	vTerm = &vTermT{mode: map[int]unix.Termios{0: m}}
	for i := 0; i < vBound("keys", 2, 3); i++ {
		key := vBytes("key", 1, 3)
		vTerm.typed = append([]byte(nil), key...)
		vTerm.rerr = nil
		if vBool("read fails") {
			vTerm.rerr = io.EOF
		}
		vTerm.waits = nil
		vFeed()
		got := Getch()
		vAssert(vMode() == m, "the terminal's mode after reading a key is not the mode before")
		vAssert(len(vTerm.waits) == 1, "a key is not read once")
		vAssert(vTerm.waits[0] == vWaiting(m), "while waiting for a key the mode differs in something else than echo, line buffering, signals and the read's minimum")
		if vTerm.rerr != nil {
			vAssert(len(got) == 0, "a key was returned although reading failed")
			continue
		}
		vAssert(len(got) == len(key), "not the bytes read are returned")
		vAssertSame(got, key, "not the bytes read are returned")
	}
	vReach("done")
}

// vCase_C26_anykey: waiting for any key behaves alike.
func vCase_C26_anykey() {
	m := vAnyMode()
	vTerm = &vTermT{mode: map[int]unix.Termios{0: m}, typed: []byte{vU8("key")}}
	if vBool("read fails") {
		vTerm.rerr = io.EOF
	}
	vFeed()
	Anykey()
	vAssert(vMode() == m, "the terminal's mode after reading a key is not the mode before")
	vAssert(len(vTerm.waits) == 1 && vTerm.waits[0] == vWaiting(m), "while waiting for a key the mode differs in something else than echo, line buffering, signals and the read's minimum")
	vReach("done")
}

// vCase_C26_notterm: reading a key where there is no terminal, or where its
// mode cannot be changed, changes nothing.
func vCase_C26_notterm() {
	m := vAnyMode()
	vTerm = &vTermT{mode: map[int]unix.Termios{0: m}, typed: []byte{'x'}}
	if vBool("no terminal") {
		vTerm.fail = map[int]bool{0: true}
	} else {
		vTerm.setErr = 1
	}
	if vNative() {
		vFeed()
		if vTerm.fail != nil {
			vTerm.fail[int(os.Stdin.Fd())] = true
		}
	}
	func() {
		defer func() { recover() }()
		Getch()
	}()
	vAssert(vMode() == m, "the mode of the terminal was changed although reading a key failed")
	vReach("done")
}

// vCase_C26_state: saving and restoring the state of any descriptor, nested in
// any order, brings back exactly the saved mode and touches no other
// descriptor.
func vCase_C26_state() {
	m := vAnyMode()
	other := m
	other.Lflag ^= 1
	vTerm = &vTermT{mode: map[int]unix.Termios{3: m, 4: other}}
	vAssert(IsTerminal(3) && !IsTerminal(5), "a terminal is not told from another file")
	s, err := GetState(3)
	vAssert(err == nil && s != nil, "the state of a terminal cannot be read")
	vAssert(vTerm.mode[3] == m, "reading the state changes the mode")
	a, err := MakeNonBlock(3)
	vAssert(err == nil && a != nil, "the mode of a terminal cannot be changed")
	vAssert(vTerm.mode[3] == vWaiting(m), "the mode set is not the previous one without echo, line buffering and signals")
	switch vChoose("then", 4) {
	case 0:
		vAssert(RestoreState(3, a) == nil, "the state cannot be restored")
	case 1:
		b, err := MakeNonBlock(3)
		vAssert(err == nil, "the mode of a terminal cannot be changed")
		vAssert(RestoreState(3, b) == nil, "the state cannot be restored")
		vAssert(vTerm.mode[3] == vWaiting(m), "restoring the inner state does not bring back the outer mode")
		vAssert(RestoreState(3, a) == nil, "the state cannot be restored")
	case 2:
		vAssert(RestoreState(3, s) == nil, "the state cannot be restored")
	case 3: // the saved state is not tied to the mode set later
		c, err := GetState(3)
		vAssert(err == nil, "the state of a terminal cannot be read")
		vAssert(RestoreState(3, a) == nil && vTerm.mode[3] == m, "restoring does not bring back the mode before")
		vAssert(RestoreState(3, c) == nil && vTerm.mode[3] == vWaiting(m), "restoring does not bring back the mode saved")
		vAssert(RestoreState(3, a) == nil, "the state cannot be restored")
	}
	vAssert(vTerm.mode[3] == m, "restoring does not bring back the mode before")
	vAssert(vTerm.mode[4] == other, "the mode of another descriptor was changed")
	_, err = MakeNonBlock(5)
	vAssert(err != nil, "changing the mode of what is no terminal succeeds")
	_, err = GetState(5)
	vAssert(err != nil, "reading the mode of what is no terminal succeeds")
	vTerm.setErr = vTerm.sets + 1
	_, err = MakeNonBlock(3)
	vAssert(err != nil && vTerm.mode[3] == m, "a failed change of the mode is not reported")
	vReach("done")
}
