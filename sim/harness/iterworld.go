package main

import (
	"github.com/jtejido/linear"
	simrt "verifsimrt"
	sync "verifsimrt/simsync"
)

// IWorld: iterators are live objects, advanced step by step by several clients
// while the vectors change under them.
type iterObj struct {
	it  linear.EntryIterator
	v   *IVec
	pos int
}
type heldEntry struct {
	e   linear.Entry
	idx int
	val float64
}
type IVec struct {
	mu   sync.Mutex
	o    *VObj
	its  []*iterObj
	held []heldEntry
}
type IWorld struct {
	vs     []*IVec
	alive  int  // further iterators, and entries, to keep
	shared bool // no locks: nobody changes anything, every task has its own iterators
	own    [][]*iterObj
	ownH   [][]heldEntry
}

func newIWorld(c *Case, t *T) *IWorld {
	w := &IWorld{alive: c.Cfg["alive"], shared: c.Cfg["shared"] == 1, own: make([][]*iterObj, len(c.Tasks)), ownH: make([][]heldEntry, len(c.Tasks))}
	for i := range c.Init {
		o := &c.Init[i]
		if o.K != "v" {
			continue
		}
		r := NewRng(o.S)
		r.odd = float64(c.Cfg["odd"]) / 100
		n := max(0, o.Arg(2))
		cls := clsArr
		if o.Arg(1) == clsFor {
			cls = clsFor
		}
		d := intVec(r, n)
		safely(t, func() {
			w.vs = append(w.vs, &IVec{o: &VObj{v: buildVec(r, cls, d), d: d, cls: cls}})
		})
	}
	return w
}

func (w *IWorld) Do(t *T, i int, op *Op) {
	if len(w.vs) == 0 {
		return
	}
	v := w.vs[abs(op.Arg(0))%len(w.vs)]
	its, held := &v.its, &v.held
	if w.shared {
		its, held = &w.own[t.ID], &w.ownH[t.ID]
	} else {
		v.mu.Lock()
		defer v.mu.Unlock()
	}
	r := NewRng(op.S)
	var it *iterObj
	if n := len(*its); n > 0 {
		it = (*its)[abs(op.Arg(1))%n]
		v = it.v
	}
	fail := func(f string, a ...interface{}) { t.fail("iterator:"+op.K, f, a...) }
	t.beginExec()
	switch op.K {
	case "newIter":
		v = w.vs[abs(op.Arg(0))%len(w.vs)]
		var x linear.EntryIterator
		out := t.call(nil, func() { x = v.o.v.Iterator() })
		if !out.OK() {
			fail("Iterator() ended with %v", out)
			return
		}
		n := &iterObj{it: x, v: v}
		if len(*its) < 6+w.alive {
			*its = append(*its, n)
		} else {
			(*its)[r.Intn(len(*its))] = n
		}
	case "next", "drain":
		if it == nil {
			return
		}
		k := 1
		if op.K == "drain" {
			k = len(v.o.d) + 2
		}
		for ; k > 0; k-- {
			var e linear.Entry
			out := t.call(nil, func() { e = it.it.Next() })
			if it.pos >= len(v.o.d) {
				if out.Kind != "panic" {
					fail("Next beyond the end of a vector of dimension %d ended with %v", len(v.o.d), out)
					return
				}
				t.inc("rejected-request")
				break
			}
			if !out.OK() {
				fail("Next at position %d of %d ended with %v", it.pos, len(v.o.d), out)
				return
			}
			if e.Index() != it.pos || !eqF(e.Value(), v.o.d[it.pos]) {
				fail("Next at position %d gave (%d,%v); the entry holds %v", it.pos, e.Index(), e.Value(), v.o.d[it.pos])
				return
			}
			h := heldEntry{e, it.pos, v.o.d[it.pos]}
			if len(*held) < 12+w.alive {
				*held = append(*held, h)
			} else {
				(*held)[r.Intn(len(*held))] = h
			}
			it.pos++
			t.hashF(h.val)
		}
	case "hasNext":
		if it == nil {
			return
		}
		var b bool
		out := t.call(nil, func() { b = it.it.HasNext() })
		if !out.OK() || b != (it.pos < len(v.o.d)) {
			fail("HasNext at position %d of %d gave %v (%v)", it.pos, len(v.o.d), b, out)
			return
		}
	case "change":
		if w.shared {
			return
		}
		o := v.o
		n := len(o.d)
		out := t.call(nil, func() {
			switch k := r.Intn(5); {
			case k <= 1 && n > 0:
				i, x := r.Intn(n), smallInt(r)
				if it != nil && it.pos < n && r.Chance(0.5) {
					i = it.pos // what that iterator reaches next
				}
				o.v.SetEntry(i, x)
				o.d[i] = x
			case k == 2:
				x := scal(r)
				o.v.MapAdd(x)
				for i := range o.d {
					o.d[i] += x
				}
			case k == 3:
				d := intVec(r, n)
				o.v.CopyFrom(buildVec(r, r.Pick(clsArr, clsFor), d))
				copy(o.d, d)
			case n > 0:
				d := intVec(r, r.Range(1, n))
				p := r.Range(0, n-len(d))
				o.v.SetSubVector(p, buildVec(r, r.Pick(clsArr, clsFor), d))
				copy(o.d[p:], d)
			}
		})
		if !out.OK() {
			fail("changing the vector ended with %v", out)
			return
		}
		t.inc("changed-under-iterator")
	case "use":
		// library operations that iterate the vector themselves
		o := v.o
		l1, dot := 0.0, 0.0
		for _, e := range o.d {
			dot += e * e
			if e < 0 {
				e = -e
			}
			l1 += e
		}
		var a, b float64
		out := t.call(nil, func() { a, b = linear.VecL1Norm(o.v), linear.VecDotProduct(o.v, o.v) })
		if !out.OK() || !eqF(a, l1) || !eqF(b, dot) {
			fail("L1 norm and square are %v and %v, want %v and %v (%v)", a, b, l1, dot, out)
			return
		}
	}
	t.endExec()
	t.note("%s", op.K)
	t.inc("iterator-op")
	for k, h := range *held {
		if h.e.Index() != h.idx || !eqF(h.e.Value(), h.val) {
			fail("entry %d handed out earlier was (%d,%v) and is now (%d,%v)", k, h.idx, h.val, h.e.Index(), h.e.Value())
			return
		}
	}
	// every other iterator still stands where it stood
	// (not asked every time: asking must not be what keeps an iterator right)
	if r.Chance(0.15) {
		for _, x := range *its {
			if x.it.HasNext() != (x.pos < len(x.v.o.d)) {
				fail("an iterator at position %d of %d says HasNext %v", x.pos, len(x.v.o.d), x.it.HasNext())
				return
			}
		}
	}
	(&X{t: t}).sameV(op.K, v.o)
}

func (w *IWorld) Finish(t *T) {
	simrt.Fuel(fuelPerCall)
	defer simrt.Fuel(0)
	fin := func(its []*iterObj) {
		for _, x := range its {
			for p := x.pos; p < len(x.v.o.d); p++ {
				if !x.it.HasNext() {
					t.fail("iterator:finish", "iterator at %d of %d is exhausted", p, len(x.v.o.d))
					return
				}
				e := x.it.Next()
				if e.Index() != p || !eqF(e.Value(), x.v.o.d[p]) {
					t.fail("iterator:finish", "Next at %d gave (%d,%v), the entry holds %v", p, e.Index(), e.Value(), x.v.o.d[p])
					return
				}
			}
		}
	}
	for _, v := range w.vs {
		fin(v.its)
		(&X{t: t}).sameV("iteration", v.o)
	}
	for _, o := range w.own {
		fin(o)
	}
}
