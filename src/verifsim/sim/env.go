package sim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
)

func runtimeGoexit() { runtime.Goexit() }

// ---------------------------------------------------------------- process

// processExit is the tree under test ending the process: in the simulation
// the run is over and counts as a crash.
func processExit(code int, why string) {
	w := W
	if w == nil || Passthrough {
		os.Exit(code)
	}
	if w.cur.exiting {
		return
	}
	w.Crashed = &Crash{Task: w.cur.Name, Value: why, Stack: string(debug.Stack())}
	w.Log("CRASH %s", why)
	if w.cur == w.main {
		panic(StuckError{why})
	}
	w.wakeMain()
	w.exitTask()
}

// Exit replaces os.Exit.
func Exit(code int) { processExit(code, fmt.Sprintf("the process exits with status %d", code)) }

// LogFatal and the others replace log.Fatal and its relatives.
func LogFatal(v ...any)                 { processExit(1, "log.Fatal: "+fmt.Sprint(v...)) }
func LogFatalf(format string, v ...any) { processExit(1, "log.Fatal: "+fmt.Sprintf(format, v...)) }

func LoggerFatal(l *log.Logger, v ...any)   { LogFatal(v...) }
func LoggerFatalln(l *log.Logger, v ...any) { LogFatal(v...) }
func LoggerFatalf(l *log.Logger, format string, v ...any) {
	LogFatalf(format, v...)
}

// ---------------------------------------------------------------- clock

// Now replaces time.Now.
func Now() time.Time {
	w := W
	if w == nil {
		return time.Now()
	}
	w.yield(w.cur.site, 1)
	return w.Clock()
}

// Clock reads the simulated clock without yielding; every reading advances
// it a little.
func (w *World) Clock() time.Time {
	w.now += 1 + int64(w.Env.Intn(2000))
	return w.ClockValue()
}

// ClockValue is the clock without advancing it.
func (w *World) ClockValue() time.Time {
	n := nowStart + w.now + w.skew
	n -= n % w.opt.ClockGran
	return time.Unix(0, n)
}

// Jump changes the wall clock by d (a step of the system clock).
func (w *World) Jump(d time.Duration) { w.skew += int64(d) }

// Advance moves simulated time forward.
func (w *World) Advance(d time.Duration) { w.now += int64(d) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer replaces time.Timer.
type Timer struct {
	C       <-chan time.Time
	c       chan time.Time
	f       func()
	gen     int
	pending bool
	nt      *time.Timer
}

func (t *Timer) arm(d time.Duration) {
	t.gen++
	g := t.gen
	t.pending = true
	W.spawn("timer", true, nil, func() {
		Sleep(d)
		if t.gen != g || !t.pending {
			return
		}
		t.pending = false
		if t.f != nil {
			t.f()
			return
		}
		Select(true, S[time.Time](t.c)(Now()))
	})
}

func NewTimer(d time.Duration) *Timer {
	c := MkChan(make(chan time.Time, 1))
	if W == nil {
		nt := time.NewTimer(d)
		return &Timer{C: nt.C, nt: nt}
	}
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if W == nil {
		return &Timer{nt: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.nt != nil {
		return t.nt.Stop()
	}
	p := t.pending
	t.pending = false
	return p
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.nt != nil {
		return t.nt.Reset(d)
	}
	p := t.pending
	t.arm(d)
	return p
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	stop bool
	nt   *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	if W == nil {
		nt := time.NewTicker(d)
		return &Ticker{C: nt.C, nt: nt}
	}
	c := MkChan(make(chan time.Time, 1))
	t := &Ticker{C: c}
	W.spawn("ticker", true, nil, func() {
		for !t.stop {
			Sleep(d)
			Select(true, S[time.Time](c)(Now()))
		}
	})
	return t
}

func (t *Ticker) Stop() {
	t.stop = true
	if t.nt != nil {
		t.nt.Stop()
	}
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---------------------------------------------------------------- OS

// OS is the simulated operating system: what getrusage, the memory
// statistics, the goroutine count and /proc/self/fd answer.
type OS struct {
	// Rusage answers a getrusage call.
	Rusage func(who int, r *syscall.Rusage) error
	// MemStats answers runtime.ReadMemStats.
	MemStats func(m *runtime.MemStats)
	// Goroutines answers runtime.NumGoroutine.
	Goroutines func() int
	// OpenDir answers opening a directory: entry names or an error.
	OpenDir func(name string) ([]string, error)
	// ReadFault, if set, is returned when the directory is read.
	ReadFault func() error
}

func newOS() *OS {
	return &OS{
		Rusage: func(who int, r *syscall.Rusage) error {
			*r = syscall.Rusage{}
			return nil
		},
		MemStats:   func(m *runtime.MemStats) { m.Sys = 1 << 20; m.HeapReleased = 0 },
		Goroutines: func() int { return 1 },
		OpenDir:    func(string) ([]string, error) { return []string{"0", "1", "2", "3"}, nil },
		ReadFault:  func() error { return nil },
	}
}

func Getrusage(who int, r *syscall.Rusage) error {
	if W == nil {
		return syscall.Getrusage(who, r)
	}
	SY(0)
	return W.OS.Rusage(who, r)
}

func ReadMemStats(m *runtime.MemStats) {
	if W == nil {
		runtime.ReadMemStats(m)
		return
	}
	SY(0)
	W.OS.MemStats(m)
}

func NumGoroutine() int {
	if W == nil {
		return runtime.NumGoroutine()
	}
	return W.OS.Goroutines()
}

// File replaces *os.File for the few files the library opens.
type File struct {
	real  *os.File
	names []string
	open  bool
	pos   int
	n     int
}

// Opened counts the attempts to open a directory; ReadFaultFor, if set, decides
// whether reading the n-th one fails.
var (
	Opened       int
	ReadFaultFor func(n int) error
)

// OpenFiles counts simulated files opened and not yet closed.
var OpenFiles int

func Open(name string) (*File, error) {
	if W == nil {
		f, err := os.Open(name)
		if err != nil {
			return nil, err
		}
		return &File{real: f}, nil
	}
	SY(0)
	Opened++
	n := Opened
	names, err := W.OS.OpenDir(name)
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	OpenFiles++
	return &File{names: names, open: true, n: n}, nil
}

func (f *File) Close() error {
	if f.real != nil {
		return f.real.Close()
	}
	if f == nil || !f.open {
		return os.ErrClosed
	}
	f.open = false
	OpenFiles--
	return nil
}

func (f *File) Name() string { return "simfile" }

func (f *File) Readdirnames(n int) ([]string, error) {
	if f.real != nil {
		return f.real.Readdirnames(n)
	}
	SY(0)
	if !f.open {
		return nil, os.ErrClosed
	}
	err := W.OS.ReadFault()
	if err == nil && ReadFaultFor != nil {
		err = ReadFaultFor(f.n)
	}
	if err != nil {
		return f.names[:len(f.names)/2], err
	}
	rest := f.names[f.pos:]
	if n <= 0 {
		f.pos = len(f.names)
		return append([]string(nil), rest...), nil
	}
	if len(rest) == 0 {
		return nil, io.EOF
	}
	if n > len(rest) {
		n = len(rest)
	}
	f.pos += n
	return append([]string(nil), rest[:n]...), nil
}

type dirEntry string

func (d dirEntry) Name() string               { return string(d) }
func (d dirEntry) IsDir() bool                { return false }
func (d dirEntry) Type() fs.FileMode          { return fs.ModeSymlink }
func (d dirEntry) Info() (fs.FileInfo, error) { return nil, errors.New("no info") }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.real != nil {
		return f.real.ReadDir(n)
	}
	names, err := f.Readdirnames(n)
	var out []fs.DirEntry
	for _, x := range names {
		out = append(out, dirEntry(x))
	}
	return out, err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	if W == nil {
		return os.ReadDir(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

type fileInfo string

func (d fileInfo) Name() string       { return string(d) }
func (d fileInfo) Size() int64        { return 0 }
func (d fileInfo) Mode() fs.FileMode  { return fs.ModeSymlink }
func (d fileInfo) ModTime() time.Time { return time.Time{} }
func (d fileInfo) IsDir() bool        { return false }
func (d fileInfo) Sys() any           { return nil }

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if f.real != nil {
		return f.real.Readdir(n)
	}
	names, err := f.Readdirnames(n)
	var out []fs.FileInfo
	for _, x := range names {
		out = append(out, fileInfo(x))
	}
	return out, err
}

func (f *File) Stat() (fs.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return fileInfo("simfile"), nil
}

// IoutilReadDir replaces ioutil.ReadDir.
func IoutilReadDir(name string) ([]fs.FileInfo, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Readdir(-1)
}
