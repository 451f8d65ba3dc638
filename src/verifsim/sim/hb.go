package sim

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Happens-before tracking: vector clocks per task and per synchronisation
// object, and shadow state per memory location accessed by instrumented code.

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func (t *Task) tickVC() { t.vc[t.ID]++ }

func (t *Task) at(i int) uint32 {
	if i < len(t.vc) {
		return t.vc[i]
	}
	return 0
}

// VC is the clock of a synchronisation object.
type VC struct{ c []uint32 }

// Acquire orders the object's releases before the current task.
func (v *VC) Acquire() {
	if w := W; w != nil && w.opt.Race {
		w.cur.vc = joinVC(w.cur.vc, v.c)
	}
}

// Release orders the current task's past before later acquires.
func (v *VC) Release() {
	if w := W; w != nil && w.opt.Race {
		v.c = joinVC(v.c, w.cur.vc)
		w.cur.tickVC()
	}
}

// AtomicSync is a sequentially consistent access to p: acquire and release.
func AtomicSync(p unsafe.Pointer) {
	w := W
	if w == nil || !w.opt.Race || p == nil {
		return
	}
	v := w.objVC[p]
	if v == nil {
		v = new([]uint32)
		w.objVC[p] = v
	}
	w.cur.vc = joinVC(w.cur.vc, *v)
	*v = joinVC(*v, w.cur.vc)
	w.cur.tickVC()
}

// AtomicLoad is an atomic read of p: an acquire. An access that is not
// atomic must be ordered with it all the same.
func AtomicLoad(p unsafe.Pointer) {
	w := W
	if w == nil || !w.opt.Race || p == nil {
		return
	}
	if v := w.objVC[p]; v != nil {
		w.cur.vc = joinVC(w.cur.vc, *v)
	}
	w.atomicAccess(p, false)
}

// AtomicStore is an atomic write, or read and write, of p.
func AtomicStore(p unsafe.Pointer) {
	w := W
	if w == nil || !w.opt.Race || p == nil {
		return
	}
	v := w.objVC[p]
	if v == nil {
		v = new([]uint32)
		w.objVC[p] = v
	}
	w.cur.vc = joinVC(w.cur.vc, *v)
	w.atomicAccess(p, true)
	*v = joinVC(*v, w.cur.vc)
	w.cur.tickVC()
}

// atomicAccess checks an atomic access against accesses that are not.
func (w *World) atomicAccess(p unsafe.Pointer, write bool) {
	s := w.shadow[p]
	if s == nil {
		s = &shadow{w: epoch{task: -1}}
		w.shadow[p] = s
	}
	t, site := w.cur, w.cur.site
	if s.w.task >= 0 && s.w.task != t.ID && t.at(s.w.task) < s.w.clock {
		w.addRace("write-atomic", s.w, site)
	}
	if !write {
		s.ar = note(s.ar, t, site)
		return
	}
	for _, e := range s.reads {
		if e.task != t.ID && t.at(e.task) < e.clock {
			w.addRace("read-atomic-write", e, site)
		}
	}
	s.aw = note(s.aw, t, site)
}

func note(es []epoch, t *Task, site int) []epoch {
	for i := range es {
		if es[i].task == t.ID {
			es[i].clock, es[i].site = t.vc[t.ID], site
			return es
		}
	}
	return append(es, epoch{t.ID, t.vc[t.ID], site})
}

type epoch struct {
	task  int
	clock uint32
	site  int
}

type shadow struct {
	w     epoch
	reads []epoch
	// atomic accesses, the last one of every task
	ar, aw []epoch
}

// Race is a pair of conflicting accesses not ordered by happens-before.
type Race struct {
	Kind         string // "write-write", "read-write", "write-read"
	First, Later string // sites
	Tasks        [2]string
}

func (r Race) String() string {
	return fmt.Sprintf("%s race: %s by %s, then %s by %s, not ordered", r.Kind, r.First, r.Tasks[0], r.Later, r.Tasks[1])
}

func (w *World) addRace(kind string, e epoch, site int) {
	if len(w.Races) < 8 {
		w.Races = append(w.Races, Race{Kind: kind, First: SiteName(e.site), Later: SiteName(site),
			Tasks: [2]string{w.tasks[e.task].Name, w.cur.Name}})
	}
}

func (w *World) access(p unsafe.Pointer, write bool, site int) {
	s := w.shadow[p]
	if s == nil {
		s = &shadow{w: epoch{task: -1}}
		w.shadow[p] = s
	}
	t := w.cur
	if s.w.task >= 0 && s.w.task != t.ID && t.at(s.w.task) < s.w.clock {
		if write {
			w.addRace("write-write", s.w, site)
		} else {
			w.addRace("write-read", s.w, site)
		}
	}
	for _, e := range s.aw {
		if e.task != t.ID && t.at(e.task) < e.clock {
			w.addRace("atomic-write-access", e, site)
		}
	}
	if write {
		for _, e := range s.reads {
			if e.task != t.ID && t.at(e.task) < e.clock {
				w.addRace("read-write", e, site)
			}
		}
		for _, e := range s.ar {
			if e.task != t.ID && t.at(e.task) < e.clock {
				w.addRace("atomic-read-write", e, site)
			}
		}
		s.reads = s.reads[:0]
		s.w = epoch{t.ID, t.vc[t.ID], site}
		return
	}
	for i := range s.reads {
		if s.reads[i].task == t.ID {
			s.reads[i].clock = t.vc[t.ID]
			s.reads[i].site = site
			return
		}
	}
	s.reads = append(s.reads, epoch{t.ID, t.vc[t.ID], site})
}

var leafCache = map[reflect.Type][]uintptr{}

// leaves lists the offsets of the scalar parts of a type.
func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []uintptr
	var walk func(t reflect.Type, off uintptr)
	walk = func(t reflect.Type, off uintptr) {
		if len(out) > 64 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			if isSyncType(t) {
				return
			}
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, off+t.Field(i).Offset)
			}
		case reflect.Array:
			for i := 0; i < t.Len() && i < 64; i++ {
				walk(t.Elem(), off+uintptr(i)*t.Elem().Size())
			}
		default:
			if t.Size() > 0 {
				out = append(out, off)
			}
		}
	}
	walk(t, 0)
	leafCache[t] = out
	return out
}

func isSyncType(t reflect.Type) bool {
	switch t.PkgPath() {
	case "verifsim/simsync", "verifsim/simatomic", "sync", "sync/atomic":
		return true
	}
	return false
}

func touch[T any](w *World, p *T, write bool, site int) {
	if !w.opt.Race || w.cur.exiting || p == nil {
		return
	}
	base := unsafe.Pointer(p)
	for _, off := range leaves(reflect.TypeFor[T]()) {
		w.access(unsafe.Add(base, off), write, site)
	}
}

// Rd records a read of *p and yields before it.
func Rd[T any](p *T, site int) *T {
	w := W
	if w == nil {
		return p
	}
	w.yield(site, 1)
	touch(w, p, false, site)
	return p
}

// Wr records a write of *p and yields before it.
func Wr[T any](p *T, site int) *T {
	w := W
	if w == nil {
		return p
	}
	w.yield(site, 1)
	touch(w, p, true, site)
	return p
}

// St returns a function that stores its argument in *p. The location is
// evaluated first, then the value, then the store happens as one step.
func St[T any](p *T, site int) func(T) {
	return func(v T) {
		if w := W; w != nil {
			w.yield(site, 1)
			touch(w, p, true, site)
		}
		*p = v
	}
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	w := W
	if w == nil {
		return m
	}
	w.yield(site, 1)
	if w.opt.Race && m != nil && !w.cur.exiting {
		w.access(mapPtr(m), false, site)
	}
	return m
}

// MW records a write of map m.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	w := W
	if w == nil {
		return m
	}
	w.yield(site, 1)
	if w.opt.Race && m != nil && !w.cur.exiting {
		w.access(mapPtr(m), true, site)
	}
	return m
}

// AP records what an append of n elements to s does to the memory of s: it
// writes the elements behind s if there is room, else it reads s.
func AP[S ~[]E, E any](s S, n, site int) S {
	w := W
	if w == nil {
		return s
	}
	w.yield(site, 1)
	if !w.opt.Race || w.cur.exiting || n <= 0 {
		return s
	}
	l := len(s)
	if l+n > cap(s) {
		if l <= 256 {
			for i := range s {
				touch(w, &s[i], false, site)
			}
		}
		return s
	}
	room := s[l : l+n]
	for i := range room {
		if i < 64 {
			touch(w, &room[i], true, site)
		}
	}
	return s
}

// WS records a write of every element of a slice (copy, clear).
func WS[S ~[]E, E any](s S, site int) S {
	w := W
	if w == nil {
		return s
	}
	w.yield(site, 1)
	if w.opt.Race && !w.cur.exiting && len(s) <= 256 {
		for i := range s {
			touch(w, &s[i], true, site)
		}
	}
	return s
}

// RS records a read of every element of a slice (range loops).
func RS[S ~[]E, E any](s S, site int) S {
	w := W
	if w == nil {
		return s
	}
	w.yield(site, 1)
	if w.opt.Race && !w.cur.exiting && len(s) <= 256 {
		for i := range s {
			touch(w, &s[i], false, site)
		}
	}
	return s
}
