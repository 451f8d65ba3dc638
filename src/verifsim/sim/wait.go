package sim

import "unsafe"

// Waiter parks one task until Wake.
type Waiter struct {
	t     *Task
	woken bool
}

func NewWaiter() *Waiter { return &Waiter{t: W.cur} }

func (x *Waiter) Wait(why string) {
	if x.woken {
		return
	}
	W.block(why, 0, nil)
}

func (x *Waiter) Wake() {
	x.woken = true
	W.makeReady(x.t)
}

// Exiting reports whether the current task is being torn down.
func Exiting() bool { return W != nil && W.cur.exiting }

// SYcur is a synchronisation yield at the current site.
func SYcur() {
	if w := W; w != nil {
		w.yield(w.cur.site, w.opt.Policy.SyncWeight)
	}
}

// Fatal models a runtime fatal error: it cannot be recovered.
func Fatal(msg string) {
	w := W
	w.Crashed = &Crash{Task: w.cur.Name, Value: "fatal error: " + msg}
	w.Log("FATAL %s", msg)
	if w.cur == w.main {
		panic(StuckError{"fatal error: " + msg})
	}
	w.wakeMain()
}

// AtomicSyncObj is AtomicSync for any object.
func AtomicSyncObj[T any](p *T) { AtomicSync(unsafe.Pointer(p)) }
