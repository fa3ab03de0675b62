package rt

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

// Data races are decided by happens-before: every task has a vector clock,
// every synchronisation passes clocks on, and two accesses to one address, one
// of them a write, that no chain of synchronisation orders are a race, whether
// or not they came close in this schedule.

// VC is a vector clock, indexed by task.
type VC []uint32

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) clone() VC { return append(VC(nil), v...) }

// SiteNames are the places of the instrumented statements.
var SiteNames []string

func siteName(s uint32) string {
	if i := int(s) - 100; i >= 0 && i < len(SiteNames) {
		return SiteNames[i]
	}
	return fmt.Sprintf("site %d", s)
}

type access struct {
	task  int
	clock uint32
	site  uint32
	name  string
	lib   bool // by a library, into memory that it was given
}

type cell struct {
	proc  *Proc
	w     access
	r     access   // the last read, if there is one reader
	reads []access // the reads, if there are several
}

// Race is the detector of one run.
type Race struct {
	s        *Sim
	mem      map[unsafe.Pointer]*cell
	maps     map[unsafe.Pointer]*cell
	Accesses int
	Cells    int
	Syncs    int
	Shared   int // accesses to what another task had accessed
	finished VC
	atomics  map[unsafe.Pointer]VC
	off      int
	lib      bool
}

// DetectRaces turns the detector on for this run.
func (s *Sim) DetectRaces() {
	s.race = &Race{s: s, mem: map[unsafe.Pointer]*cell{}, maps: map[unsafe.Pointer]*cell{}, atomics: map[unsafe.Pointer]VC{}}
}

// RaceCounts reports what the detector saw.
func (s *Sim) RaceCounts() (accesses, cells, syncs, shared int) {
	if s.race == nil {
		return
	}
	return s.race.Accesses, s.race.Cells + len(s.race.mem) + len(s.race.maps), s.race.Syncs, s.race.Shared
}

func (r *Race) here() *Task {
	t := r.s.cur
	if t == nil || t.killed {
		return nil
	}
	return t
}

func (t *Task) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// Snapshot is the current task's clock, to be passed on later (nil if there is
// no detector); what the task does from now on is not covered by it.
func Snapshot() VC {
	s := S
	if s == nil || s.race == nil {
		return nil
	}
	t := s.race.here()
	if t == nil {
		if s.cur == nil {
			return s.firedVC
		}
		return nil
	}
	s.race.Syncs++
	v := t.vc.clone()
	t.tick()
	return v
}

// Release adds the current task's clock to v.
func Release(v *VC) {
	if n := Snapshot(); n != nil {
		v.join(n)
	}
}

// Acquire orders what v covers before what the current task does next.
func Acquire(v VC) {
	s := S
	if s == nil || s.race == nil || v == nil {
		return
	}
	if t := s.race.here(); t != nil {
		s.race.Syncs++
		t.vc.join(v)
	}
}

func (s *Sim) acquireFor(t *Task, v VC) {
	if s.race != nil && v != nil {
		t.vc.join(v)
	}
}

// AcquireFinished orders all tasks that have ended before the current one.
func (s *Sim) AcquireFinished() {
	if s.race != nil {
		Acquire(s.race.finished)
	}
}

// NoRaces runs f without recording its accesses.
func NoRaces(f func()) {
	if S == nil || S.race == nil {
		f()
		return
	}
	S.race.off++
	defer func() { S.race.off-- }()
	f()
}

const maxCells = 1500000

func (r *Race) cell(m map[unsafe.Pointer]*cell, p unsafe.Pointer, t *Task) *cell {
	c := m[p]
	if c == nil || c.proc != t.Proc {
		if len(r.mem)+len(r.maps) > maxCells {
			r.Cells += len(r.mem) + len(r.maps)
			for k := range r.mem {
				delete(r.mem, k)
			}
			for k := range r.maps {
				delete(r.maps, k)
			}
		}
		c = &cell{proc: t.Proc}
		m[p] = c
	}
	return c
}

func (t *Task) sees(a access) bool {
	return a.clock == 0 || a.task == t.ID || a.clock <= t.vc.at(a.task)
}

func (r *Race) report(t *Task, kind string, a access, old string, what string) {
	if r.s.Viol != nil {
		return
	}
	r.s.Fail("race", "data race on %s: %s at %s by %s#%d and %s at %s by %s#%d are not ordered by any synchronisation",
		what, kind, siteName(t.site), t.Name, t.ID, old, siteName(a.site), a.name, a.task)
}

func (r *Race) read(m map[unsafe.Pointer]*cell, p unsafe.Pointer, t *Task, what func() string) {
	r.Accesses++
	c := r.cell(m, p, t)
	if c.w.clock != 0 && c.w.task != t.ID {
		r.Shared++
	}
	if !t.sees(c.w) && !(r.lib && c.w.lib) {
		r.report(t, "read", c.w, "write", what())
	}
	a := access{t.ID, t.vc.at(t.ID), t.site, t.Name, r.lib}
	if c.reads == nil {
		if c.r.clock == 0 || c.r.task == t.ID || t.sees(c.r) {
			c.r = a
			return
		}
		c.reads = []access{c.r, a}
		return
	}
	for i := range c.reads {
		if c.reads[i].task == t.ID {
			c.reads[i] = a
			return
		}
	}
	c.reads = append(c.reads, a)
}

func (r *Race) write(m map[unsafe.Pointer]*cell, p unsafe.Pointer, t *Task, what func() string) {
	r.Accesses++
	c := r.cell(m, p, t)
	if c.w.clock != 0 && c.w.task != t.ID || c.r.clock != 0 && c.r.task != t.ID || c.reads != nil {
		r.Shared++
	}
	if !t.sees(c.w) && !(r.lib && c.w.lib) {
		r.report(t, "write", c.w, "write", what())
	}
	if !t.sees(c.r) && !(r.lib && c.r.lib) {
		r.report(t, "write", c.r, "read", what())
	}
	for _, a := range c.reads {
		if !t.sees(a) && !(r.lib && a.lib) {
			r.report(t, "write", a, "read", what())
		}
	}
	c.w = access{t.ID, t.vc.at(t.ID), t.site, t.Name, r.lib}
	c.r, c.reads = access{}, nil
}

func active() (*Race, *Task) {
	s := S
	if s == nil || s.race == nil || s.race.off > 0 {
		return nil, nil
	}
	t := s.race.here()
	if t == nil || t.Proc == s.Root {
		return nil, nil
	}
	if t.vc.at(t.ID) == 0 {
		t.tick()
	}
	return s.race, t
}

type leaf struct {
	off  uintptr
	name string
}

var layouts = map[reflect.Type][]leaf{}

// layout lists the words of a type that an access to a whole value touches.
func layout(t reflect.Type) []leaf {
	if l, ok := layouts[t]; ok {
		return l
	}
	var out []leaf
	var walk func(t reflect.Type, off uintptr, name string)
	walk = func(t reflect.Type, off uintptr, name string) {
		if t.Size() == 0 || len(out) > 256 {
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			if strings.Contains(t.PkgPath(), "/zzsim/") {
				return // a lock, wait group, ...
			}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				walk(f.Type, off+f.Offset, name+"."+f.Name)
			}
		case reflect.Array:
			for i := 0; i < t.Len() && i < 64; i++ {
				walk(t.Elem(), off+uintptr(i)*t.Elem().Size(), name+"[]")
			}
		default:
			out = append(out, leaf{off, name})
		}
	}
	walk(t, 0, "")
	layouts[t] = out
	return out
}

func touch[T any](p *T, w bool) {
	r, t := active()
	if r == nil || p == nil {
		return
	}
	typ := reflect.TypeOf(p).Elem()
	for _, l := range layout(typ) {
		name := l.name
		what := func() string { return "a " + typ.String() + name }
		a := unsafe.Pointer(uintptr(unsafe.Pointer(p)) + l.off)
		if w {
			r.write(r.mem, a, t, what)
		} else {
			r.read(r.mem, a, t, what)
		}
	}
}

// Rd reports a read of *p.
func Rd[T any](p *T) *T { touch(p, false); return p }

// Wr reports a write of *p.
func Wr[T any](p *T) *T { touch(p, true); return p }

func mapKey[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// RdM reports a read of a map.
func RdM[M ~map[K]V, K comparable, V any](m M) M {
	if r, t := active(); r != nil && m != nil {
		r.read(r.maps, mapKey[M, K, V](m), t, func() string { return fmt.Sprintf("a map %T", m) })
	}
	return m
}

// WrM reports a write to a map.
func WrM[M ~map[K]V, K comparable, V any](m M) M {
	if r, t := active(); r != nil && m != nil {
		r.write(r.maps, mapKey[M, K, V](m), t, func() string { return fmt.Sprintf("a map %T", m) })
	}
	return m
}

const maxElems = 256

// App is append, which writes to the spare capacity of its operand.
func App[S ~[]E, E any](x S) func(...E) S {
	return func(y ...E) S {
		if r, _ := active(); r != nil && len(y) > 0 {
			n := len(y)
			if n > maxElems {
				n = maxElems
			}
			for i := 0; i < n; i++ {
				Rd(&y[i])
			}
			if len(x)+len(y) <= cap(x) {
				z := x[:len(x)+n]
				for i := len(x); i < len(z); i++ {
					Wr(&z[i])
				}
			} else {
				for i := 0; i < len(x) && i < maxElems; i++ {
					Rd(&x[i])
				}
			}
		}
		return append(x, y...)
	}
}

// Copy is copy.
func Copy[D ~[]E, Q ~[]E, E any](d D, q Q) int {
	if r, _ := active(); r != nil {
		for i := 0; i < len(d) && i < len(q) && i < maxElems; i++ {
			Rd(&q[i])
			Wr(&d[i])
		}
	}
	return copy(d, q)
}

// LibRead and LibWrite report what a library (the file system) did with memory
// that it was given. Two accesses by libraries are never a race: it may be
// memory that a library keeps for itself and hands on in its own way.
func LibRead(b []byte)  { libTouch(b, false) }
func LibWrite(b []byte) { libTouch(b, true) }

func libTouch(b []byte, w bool) {
	r, _ := active()
	if r == nil {
		return
	}
	r.lib = true
	for i := range b {
		if i < 32 || i == len(b)-1 {
			touch(&b[i], w)
		}
	}
	r.lib = false
}

// RdS and WrS report a read and a write of the elements of a slice.
func RdS[Q ~[]E, E any](q Q) Q {
	if r, _ := active(); r != nil {
		for i := 0; i < len(q) && i < maxElems; i++ {
			touch(&q[i], false)
		}
	}
	return q
}

func WrS[Q ~[]E, E any](q Q) Q {
	if r, _ := active(); r != nil {
		for i := 0; i < len(q) && i < maxElems; i++ {
			touch(&q[i], true)
		}
	}
	return q
}

// Use and UseW report the use of a library's value that is not made for
// concurrent use, such as a buffer.
func Use[T any](p *T) *T  { useOf(p, false); return p }
func UseW[T any](p *T) *T { useOf(p, true); return p }

func useOf[T any](p *T, w bool) {
	r, t := active()
	if r == nil || p == nil {
		return
	}
	what := func() string { return fmt.Sprintf("a %T", *p) }
	if w {
		r.write(r.mem, unsafe.Pointer(p), t, what)
	} else {
		r.read(r.mem, unsafe.Pointer(p), t, what)
	}
}

// Into reports that a library is given a value to fill.
func Into[T any](p *T) *T { touch(p, true); return p }

// Deep reports that all of a value is read, as for encoding it.
func Deep(x any) any {
	if r, _ := active(); r != nil {
		n := 0
		deep(reflect.ValueOf(x), 0, &n)
	}
	return x
}

func deep(v reflect.Value, depth int, n *int) {
	*n++
	if *n > 2000 || depth > 8 || !v.IsValid() {
		return
	}
	if v.CanInterface() {
		switch v.Interface().(type) {
		case json.Marshaler, encoding.TextMarshaler, error:
			return
		}
	}
	leafAt := func(v reflect.Value) {
		if !v.CanAddr() {
			return
		}
		if r, t := active(); r != nil {
			r.read(r.mem, unsafe.Pointer(v.UnsafeAddr()), t, func() string { return "a " + v.Type().String() })
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		leafAt(v)
		deep(v.Elem(), depth+1, n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Tag.Get("json") != "-" {
				deep(v.Field(i), depth+1, n)
			}
		}
	case reflect.Slice:
		leafAt(v)
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), depth+1, n)
		}
	case reflect.Map:
		leafAt(v)
		if r, t := active(); r != nil && !v.IsNil() {
			r.read(r.maps, v.UnsafePointer(), t, func() string { return "a map " + v.Type().String() })
		}
		for _, k := range v.MapKeys() {
			deep(v.MapIndex(k), depth+1, n)
		}
	default:
		leafAt(v)
	}
}

// SliceIter is for i, v := range s.
type SliceIter[E any] struct {
	s []E
	i int
}

// RangeSlice starts one.
func RangeSlice[Q ~[]E, E any](q Q) (*SliceIter[E], int, E) {
	var e E
	return &SliceIter[E]{s: q}, 0, e
}

// Next moves on.
func (it *SliceIter[E]) Next(k *int, v *E) bool {
	if it.i >= len(it.s) {
		return false
	}
	if k != nil {
		*k = it.i
	}
	*v = *Rd(&it.s[it.i])
	it.i++
	return true
}

// Forget starts the current task as one that nothing is ordered before: what
// started it was outside the process.
func Forget() {
	s := S
	if s == nil || s.race == nil {
		return
	}
	if t := s.race.here(); t != nil {
		own := t.vc.at(t.ID)
		t.vc = nil
		t.tick()
		t.vc[t.ID] = own + 1
	}
}

// AtomicAcquire and AtomicRelease order the atomic operations on one address.
func AtomicAcquire(p unsafe.Pointer) {
	if s := S; s != nil && s.race != nil {
		Acquire(s.race.atomics[p])
	}
}

// AtomicRelease follows an atomic write.
func AtomicRelease(p unsafe.Pointer) {
	if s := S; s != nil && s.race != nil {
		v := s.race.atomics[p]
		Release(&v)
		s.race.atomics[p] = v
	}
}
