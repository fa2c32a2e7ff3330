package main

// Loops: unrolled when their conditions are decided by constants, otherwise
// cut at the header with inferred and given invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugLoops = os.Getenv("GOVC_DEBUG") != ""

const unrollLimit = 2000

func (ex *Exec) buffered(f func()) []*Obligation {
	var b []*Obligation
	saved := ex.buf
	ex.buf = &b
	defer func() { ex.buf = saved }()
	f()
	return b
}

func (ex *Exec) execLoop(fr *frame, l *loopInfo, it *item) (exits []*item, outs []Outcome) {
	outer := it.constExit
	n0 := l.n0
	l.n0 = it.st.n
	defer func() { l.n0 = n0 }()
	it.constExit = false
	defer func() {
		for _, e := range exits {
			e.constExit = outer
		}
	}()
	var backs []*item
	var obls []*Obligation
	var e1 []*item
	var o1 []Outcome
	trial := it.clone()
	trialFailed := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupportedErr); ok && ex.pure == 0 && !ex.initMode {
					if debugLoops {
						fmt.Printf("trial of a loop in %s: %v\n", fr.fn.Name(), u)
					}
					trialFailed = true
					return
				}
				panic(r)
			}
		}()
		ex.trialing++
		defer func() { ex.trialing-- }()
		obls = ex.buffered(func() { e1, backs, o1 = ex.run(fr, []*item{trial}, l) })
	}()
	cut := trialFailed
	for _, b := range backs {
		if !b.constExit {
			cut = true
		}
	}
	if !cut || ex.initMode {
		if ex.pure == 0 && len(backs) > 0 {
			ex.loopsUnr++
		}
		saved := len(*ex.buf)
		*ex.buf = append(*ex.buf, obls...)
		exits, outs = e1, o1
		for k := 0; len(backs) > 0; k++ {
			if k > unrollLimit {
				ex.unsupported("loop in %s unrolled too far", fr.fn.Name())
			}
			backs = ex.mergeItems(fr, l.header, backs)
			for _, b := range backs {
				b.constExit = false
			}
			var e []*item
			var o []Outcome
			e, backs, o = ex.run(fr, backs, l)
			exits = append(exits, e...)
			outs = append(outs, o...)
			for _, b := range backs {
				if !b.constExit && ex.pure == 0 {
					if ex.initMode {
						ex.unsupported("loop in %s neither bounded nor cut", fr.fn.Name())
					}
					// only the first iterations were decided
					*ex.buf = (*ex.buf)[:saved]
					return ex.cutLoop(fr, l, it)
				}
			}
		}
		return
	}
	if ex.pure > 0 {
		ex.unsupported("unbounded loop in a specification (%s)", fr.fn.Name())
	}
	return ex.cutLoop(fr, l, it)
}

// place is something a loop changes: a phi, or a path in an object.
type place struct {
	phi   *ssa.Phi
	obj   *Obj
	path  []PathElem
	typ   types.Type
	app   bool // only appended to (sequences, strings, the strings of abstract values)
	dead  bool // never read before it is written to in each iteration
	stale bool // pointers: moved between existing objects
	full  bool // sequences: contents unknown after all
}

func (p *place) key() string {
	if p.phi != nil {
		return "phi " + p.phi.Name()
	}
	return fmt.Sprintf("%d%s %v", p.obj.id, p.obj.name, p.path)
}

func (ex *Exec) placeVal(it *item, p *place) Value {
	if p.phi != nil {
		return it.env[p.phi]
	}
	return ex.walk(it.st, ex.objVal(it.st, p.obj), p.path)
}

type cand struct {
	name string
	f    func(it *item, k *Term) *Term // nil: not expressible
}

type loopRun struct {
	head  *item
	k     *Term
	exits []*item
	backs []*item
	outs  []Outcome
	obls  []*Obligation
	mark  int
}

func (ex *Exec) cutLoop(fr *frame, l *loopInfo, entry *item) ([]*item, []Outcome) {
	places := map[string]*place{}
	var order []string
	addPlace := func(p *place) bool {
		k := p.key()
		if q, ok := places[k]; ok {
			ch := false
			if q.app && !p.app {
				q.app, q.full = false, true
				ch = true
			}
			if p.stale && !q.stale {
				q.stale = true
				ch = true
			}
			return ch
		}
		places[k] = p
		order = append(order, k)
		return true
	}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	dead := deadAtHead(l, entry)
	// what changes is looked for under the given invariants, until they fail
	given := ex.givenCands(fr, entry)
	cands := given
	candsMade := false
	groups := map[string]int{} // sequences sharing one unknown tail
	for round := 0; ; round++ {
		if round > 60 {
			ex.unsupported("no fixed point for a loop in %s", fr.fn.Name())
		}
		lr := &loopRun{}
		lr.head = ex.havoc(fr, l, entry, places, order, groups, lr)
		for _, c := range cands {
			if t := c.f(lr.head, lr.k); t != nil {
				lr.head.st.assume(t)
			}
		}
		if lr.head.st.dead {
			// contradictory candidates cannot happen: they hold on entry
			ex.unsupported("contradictory invariants for a loop in %s", fr.fn.Name())
		}
		// run one arbitrary iteration
		start := lr.head.clone()
		headSnap := lr.head
		lr.mark = objSeq
		start.st.mark = objSeq
		before := ex.gaveUp
		ex.gaveUp = ""
		ex.softGive++
		lr.obls = ex.buffered(func() {
			defer func() { ex.softGive-- }()
			lr.exits, lr.backs, lr.outs = ex.run(fr, []*item{start}, l)
		})
		gave := ex.gaveUp
		ex.gaveUp = before
		for _, b := range lr.backs {
			b.st.tidy()
		}
		// what does it change?
		changed := false
		for _, b := range lr.backs {
			for _, ph := range phis {
				ex.diffVal(headSnap, b, headSnap.env[ph], b.env[ph], &place{phi: ph, typ: ph.Type()}, addPlace, &changed)
			}
			for o, v := range b.st.heap {
				if o.fresh && o.id > lr.mark {
					continue
				}
				if o.fresh && !headSnap.st.made(o) {
					continue
				}
				if dead[o] {
					if addPlace(&place{obj: o, typ: o.typ, dead: true}) {
						changed = true
					}
					continue
				}
				ex.diffVal(headSnap, b, ex.objVal(headSnap.st, o), v, &place{obj: o, typ: o.typ}, addPlace, &changed)
			}
		}
		if changed {
			if debugLoops {
				fmt.Printf("loop %s round %d: places %v\n", fr.fn.Name(), round, order)
			}
			candsMade = false
			cands = given
			// sequences: group those which start equal
			groups = ex.groupSeqs(entry, places, order)
			continue
		}
		if !candsMade {
			candsMade = true
			cands = append(ex.makeCands(fr, l, entry, places, order), ex.mapCands(lr, entry, places, order)...)
			if debugLoops {
				fmt.Printf("loop %s: %d candidates, groups %v\n", fr.fn.Name(), len(cands), groups)
			}
			if len(cands) > 0 {
				continue
			}
		}
		// check groups
		regroup := false
		for _, b := range lr.backs {
			if ex.splitGroups(b, places, order, groups) {
				regroup = true
			}
		}
		if regroup {
			continue
		}
		// check candidates
		drop := map[*cand]bool{}
		ex.checkCands(cands, lr, drop)
		if len(drop) > 0 {
			var keep []*cand
			for _, c := range cands {
				if !drop[c] {
					keep = append(keep, c)
				}
			}
			if debugLoops {
				for c := range drop {
					fmt.Printf("loop %s: dropped %s\n", fr.fn.Name(), c.name)
				}
			}
			cands = keep
			continue
		}
		// stable
		if debugLoops {
			for _, c := range cands {
				fmt.Printf("loop %s: kept %s\n", fr.fn.Name(), c.name)
			}
		}
		if gave != "" {
			if ex.softGive == 0 {
				panic(unsupportedErr{gave})
			}
			ex.gaveUp = gave
		}
		ex.loopsCut++
		*ex.buf = append(*ex.buf, lr.obls...)
		for _, b := range lr.backs {
			for _, c := range cands {
				if t := c.f(b, Add(lr.k, TInt(1))); t != nil {
					ex.oblige(b.st, "inv", ex.fnName(fr.fn)+" loop: "+c.name, ex.pos(l.header.Instrs[0].Pos()), t)
				}
			}
			if ex.progress {
				ex.obligeProgress(fr, l, lr, b)
			}
		}
		ex.invs += len(cands)
		return lr.exits, lr.outs
	}
}

// tidy simplifies the values of global variables with what is known.
func (st *State) tidy() {
	for o, v := range st.heap {
		t, ok := v.(*Term)
		if !ok || o.global == nil || t.isConst() {
			continue
		}
		n := t
		if t.sort == SBool {
			n = st.simp(t)
		} else {
			n = st.simpI(t)
		}
		if n != t {
			st.heap[o] = n
		}
	}
}

// havoc makes the state at the loop head of an arbitrary iteration.
func (ex *Exec) havoc(fr *frame, l *loopInfo, entry *item, places map[string]*place, order []string, groups map[string]int, lr *loopRun) *item {
	it := entry.clone()
	st := it.st
	base := st.event(fr.fn.Name() + ".loop")
	lr.k = base.term("?k", SInt)
	if len(lr.k.axioms) == 0 {
		lr.k.axioms = append(lr.k.axioms, mk(OLe, SBool, "", TInt(0), lr.k))
	}
	for i, key := range order {
		p := places[key]
		o := base.sub(fmt.Sprintf(".%d", i))
		old := ex.placeVal(entry, p)
		var v Value
		switch x := old.(type) {
		case *SliceV:
			if p.app {
				q := ex.sliceSeq(st, x)
				g := base.sub(fmt.Sprintf(".g%d", groups[key]))
				var tail Seg
				if isByte(x.elem) {
					s := g.term("?bytes", SStr)
					tail = Seg{str: s, off: TInt(0), n: Len(s)}
				} else {
					tail = Seg{org: g, off: TInt(0), n: lenTerm(g)}
				}
				r := ex.newSlice(st, x.elem, q.concat(&SeqV{elem: x.elem, segs: []Seg{tail}}))
				r.capT = nil
				nt := o.term("?nil", SBool)
				if len(nt.axioms) == 0 {
					nt.axioms = append(nt.axioms, Implies(nt, Eq(tail.len(), TInt(0))))
				}
				r.nilT = And(x.nilT, nt)
				v = r
			} else {
				v = symVal(sliceTypeOf(p, x), o)
			}
		case *SeqV:
			n := x.length()
			if isByte(x.elem) {
				s := o.term("?bytes", SStr)
				st.assume(Eq(Len(s), n))
				v = &SeqV{elem: x.elem, segs: []Seg{{str: s, off: TInt(0), n: n}}}
			} else {
				v = &SeqV{elem: x.elem, segs: []Seg{{org: o, off: TInt(0), n: n}}}
			}
		case *PtrV:
			np := symVal(types.NewPointer(x.elem), o).(*PtrV)
			if p.stale {
				np = &PtrV{elem: np.elem, nilT: np.nilT, obj: &Obj{typ: x.elem, name: "stale", stale: true}}
			}
			v = np
		case *MapV, *MapData, *IterV, *FuncV, *OpaqueV:
			ex.unsupported("loop in %s changes a %T", fr.fn.Name(), old)
		case *IfaceV:
			v = &IfaceV{sym: o, st: x.st}
			if x.st == nil {
				v.(*IfaceV).st = p.typ
			}
		case *Term:
			t := o.term("", x.sort)
			if p.typ != nil {
				t = withRange(p.typ, t)
			}
			if p.app {
				t = Concat(x, t)
			}
			v = t
		case *StructV:
			v = symVal(x.T, o)
			if p.app {
				y := v.(*StructV)
				for i := range y.F {
					if s, ok := x.get(i).(*Term); ok && s.sort == SStr {
						y.F[i] = Concat(s, y.get(i).(*Term))
					} else {
						y.F[i] = x.get(i)
					}
				}
			}
		default:
			ex.unsupported("loop in %s changes a %T", fr.fn.Name(), old)
		}
		if p.phi != nil {
			it.env[p.phi] = v
		} else {
			ex.store(st, &PtrV{elem: p.typ, nilT: TFalse, obj: p.obj, path: p.path}, v)
		}
	}
	it.constExit = false
	return it
}

func sliceTypeOf(p *place, x *SliceV) types.Type {
	return types.NewSlice(x.elem)
}

// diffVal finds the places where b's value differs from the head's.
func (ex *Exec) diffVal(head, back *item, a, b Value, p *place, add func(*place) bool, changed *bool) {
	report := func(q *place) {
		if add(q) {
			*changed = true
		}
	}
	if ident(a, b) {
		return
	}
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			report(p)
			return
		}
		if _, abs := absOf(x.T); abs {
			if !valSame(x, y) {
				np := *p
				np.app = true
				for i := range x.F {
					if s, ok := x.get(i).(*Term); ok && s.sort == SStr {
						t, ok := y.get(i).(*Term)
						np.app = np.app && ok && PrefixOf(s, t) == TTrue
					} else if !valSame(x.get(i), y.get(i)) {
						np.app = false
					}
				}
				report(&np)
			}
			return
		}
		stt := under(x.T).(*types.Struct)
		for i := range x.F {
			if x.F[i] == nil && y.F[i] == nil && originEq(x.org, y.org) && x.zero == y.zero {
				continue
			}
			if p.phi != nil {
				if !valSame(x.get(i), y.get(i)) {
					report(p)
					return
				}
				continue
			}
			ex.diffVal(head, back, x.get(i), y.get(i), &place{obj: p.obj, path: append(append([]PathElem{}, p.path...), PathElem{field: i}), typ: stt.Field(i).Type()}, add, changed)
		}
		return
	case *SliceV:
		y := b.(*SliceV)
		if valSame(x, y) && valSame(ex.sliceSeq(head.st, x), ex.sliceSeq(back.st, y)) {
			return
		}
		q, r := ex.sliceSeq(head.st, x), ex.sliceSeq(back.st, y)
		if valSame(q, r) {
			return
		}
		if len(r.segs) == 0 && len(q.segs) == 0 {
			return
		}
		np := *p
		np.app = seqPrefix(q, r)
		report(&np)
		return
	case *SeqV:
		y := b.(*SeqV)
		if valSame(x, y) {
			return
		}
		if p.phi == nil && len(x.segs) == len(y.segs) {
			report(p)
			return
		}
		report(p)
		return
	case *IterV:
		if y := b.(*IterV); y.i == x.i {
			return
		}
		report(p)
		return
	case *PtrV:
		if valSame(a, b) {
			return
		}
		y := b.(*PtrV)
		if y.obj != nil && !(y.obj.fresh) && y.obj != x.obj {
			np := *p
			np.stale = true
			report(&np)
			return
		}
		report(p)
		return
	}
	if !valSame(a, b) {
		if s, ok := a.(*Term); ok && s.sort == SStr {
			np := *p
			np.app = PrefixOf(s, b.(*Term)) == TTrue
			report(&np)
			return
		}
		report(p)
	}
}

// nonEmptySegs leaves out what is certainly empty.
func nonEmptySegs(q *SeqV) []Seg {
	var l []Seg
	for _, s := range q.segs {
		if s.vals == nil && s.n != nil && s.n.isConst() && s.n == TInt(0) {
			continue
		}
		l = append(l, s)
	}
	return l
}

// seqPrefix: r certainly starts with q
func seqPrefix(q, r *SeqV) bool {
	if isByte(q.elem) {
		s, ok1 := q.bytesOf()
		t, ok2 := r.bytesOf()
		return ok1 && ok2 && PrefixOf(s, t) == TTrue
	}
	a, b := nonEmptySegs(q), nonEmptySegs(r)
	for i, x := range a {
		if i >= len(b) {
			return false
		}
		y := b[i]
		if x.vals != nil {
			if y.vals == nil || len(y.vals) < len(x.vals) || i < len(a)-1 && len(y.vals) != len(x.vals) {
				return false
			}
			for j := range x.vals {
				if !valSame(x.vals[j], y.vals[j]) {
					return false
				}
			}
			continue
		}
		if y.vals != nil || x.str != y.str || !originEq(x.org, y.org) || x.off != y.off || x.n != y.n {
			return false
		}
	}
	return true
}

func (ex *Exec) groupSeqs(entry *item, places map[string]*place, order []string) map[string]int {
	g := map[string]int{}
	var reps []string
	for i, k := range order {
		p := places[k]
		x, ok := ex.placeVal(entry, p).(*SliceV)
		if !p.app || !ok {
			continue
		}
		g[k] = i
		for _, r := range reps {
			y := ex.placeVal(entry, places[r]).(*SliceV)
			if types.Identical(x.elem, y.elem) && valSame(ex.sliceSeq(entry.st, x), ex.sliceSeq(entry.st, y)) {
				g[k] = g[r]
				break
			}
		}
		if g[k] == i {
			reps = append(reps, k)
		}
	}
	return g
}

func (ex *Exec) splitGroups(b *item, places map[string]*place, order []string, groups map[string]int) bool {
	split := false
	reps := map[int][]string{} // group -> representatives of its parts
	next := 100000 + len(groups)
	for _, g := range groups {
		if g >= next {
			next = g + 1
		}
	}
	ng := map[string]int{}
	for _, k := range order {
		xs, ok := ex.placeVal(b, places[k]).(*SliceV)
		if !places[k].app || !ok {
			continue
		}
		g := groups[k]
		x := ex.sliceSeq(b.st, xs)
		done := false
		for _, r := range reps[g] {
			y := ex.sliceSeq(b.st, ex.placeVal(b, places[r]).(*SliceV))
			c := TFalse
			if valSame(x, y) {
				c = TTrue
			} else {
				c = b.st.simp(ex.trySeqEq(b.st, x, y))
			}
			if c != TTrue && c != TFalse && checkSat(append(append([]*Term{}, b.st.pc...), Not(c)), time.Second) == Unsat {
				c = TTrue
			}
			if c == TTrue {
				ng[k] = ng[r]
				done = true
				break
			}
		}
		if !done {
			if len(reps[g]) == 0 {
				ng[k] = g
			} else {
				ng[k] = next
				next++
				split = true
			}
			reps[g] = append(reps[g], k)
		}
	}
	for k, v := range ng {
		groups[k] = v
	}
	return split
}

func (ex *Exec) trySeqEq(st *State, x, y *SeqV) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				t = TFalse
				return
			}
			panic(r)
		}
	}()
	return ex.seqEq(st, st, x, y, 0)
}

// ---- candidate invariants

func (ex *Exec) makeCands(fr *frame, l *loopInfo, entry *item, places map[string]*place, order []string) []*cand {
	var cs []*cand
	add := func(name string, f func(it *item, k *Term) *Term) { cs = append(cs, &cand{name, f}) }
	type pv struct {
		key string
		p   *place
		v0  *Term
	}
	var ints, all []pv
	term := func(it *item, p *place) *Term {
		t, _ := ex.placeVal(it, p).(*Term)
		return t
	}
	for _, k := range order {
		p := places[k]
		if p.dead {
			continue
		}
		switch v := ex.placeVal(entry, p).(type) {
		case *Term:
			x := pv{k, p, v}
			all = append(all, x)
			if v.sort == SInt {
				ints = append(ints, x)
			}
		case *IfaceV:
			p := p
			z := entry.st.simp(v.isNil())
			if z.isConst() {
				add("nil-ness of "+k, func(it *item, _ *Term) *Term {
					return Eq(ex.placeVal(it, p).(*IfaceV).isNil(), z)
				})
			}
			if v.typ != nil {
				tg := v.tag()
				add("type of "+k, func(it *item, _ *Term) *Term { return Eq(ex.placeVal(it, p).(*IfaceV).tag(), tg) })
			}
		case *PtrV:
			p := p
			z := entry.st.simp(v.nilT)
			if z.isConst() {
				add("nil-ness of "+k, func(it *item, _ *Term) *Term { return Eq(ex.placeVal(it, p).(*PtrV).nilT, z) })
			}
		case *StructV:
			p, k := p, k
			if _, abs := absOf(v.T); !abs {
				break
			}
			for i := range v.F {
				i := i
				v0, ok := v.get(i).(*Term)
				if !ok {
					continue
				}
				part := func(it *item) *Term {
					t, _ := ex.placeVal(it, p).(*StructV).get(i).(*Term)
					return t
				}
				add(fmt.Sprintf("%s part %d unchanged", k, i), func(it *item, _ *Term) *Term { return Eq(part(it), v0) })
				if v0.sort == SStr {
					add(fmt.Sprintf("%s part %d extends", k, i), func(it *item, _ *Term) *Term { return PrefixOf(v0, part(it)) })
				}
			}
		}
	}
	for _, x := range all {
		x := x
		add(x.key+" unchanged", func(it *item, _ *Term) *Term { return Eq(term(it, x.p), x.v0) })
		if x.v0.sort == SStr {
			add(x.key+" extends", func(it *item, _ *Term) *Term { return PrefixOf(x.v0, term(it, x.p)) })
		}
	}
	for _, x := range ints {
		x := x
		add(x.key+" counts iterations", func(it *item, k *Term) *Term { return Eq(term(it, x.p), Add(x.v0, k)) })
		add(x.key+" does not fall", func(it *item, k *Term) *Term { return Le(x.v0, term(it, x.p)) })
		for _, y := range ints {
			if y.key >= x.key {
				continue
			}
			y := y
			if d := Sub(x.v0, y.v0); d.isConst() {
				add(x.key+" follows "+y.key, func(it *item, k *Term) *Term { return Eq(term(it, x.p), Add(term(it, y.p), d)) })
			}
		}
	}
	// abstract values which start equal
	for i, k := range order {
		p := places[k]
		v, ok := ex.placeVal(entry, p).(*StructV)
		if !ok {
			continue
		}
		if _, abs := absOf(v.T); !abs {
			continue
		}
		for _, l := range order[:i] {
			q := places[l]
			w, ok := ex.placeVal(entry, q).(*StructV)
			if !ok || !types.Identical(v.T, w.T) || len(v.F) != len(w.F) || !valSame(v, w) {
				continue
			}
			add(k+" = "+l, func(it *item, _ *Term) *Term {
				x, y := ex.placeVal(it, p).(*StructV), ex.placeVal(it, q).(*StructV)
				var cs []*Term
				for i := range x.F {
					cs = append(cs, Eq(x.get(i).(*Term), y.get(i).(*Term)))
				}
				return And(cs...)
			})
			break
		}
	}
	// interface values which start equal
	for i, k := range order {
		p := places[k]
		v, ok := ex.placeVal(entry, p).(*IfaceV)
		if !ok {
			continue
		}
		for _, l := range order[:i] {
			q := places[l]
			w, ok := ex.placeVal(entry, q).(*IfaceV)
			if !ok || !types.Identical(v.st, w.st) || !valSame(v, w) {
				continue
			}
			add(k+" = "+l, func(it *item, _ *Term) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
						t = nil
					}
				}()
				return ex.deepEq(it.st, ex.placeVal(it, p), ex.placeVal(it, q))
			})
			break
		}
	}
	// booleans related to each other
	for i, x := range all {
		if x.v0.sort != SBool {
			continue
		}
		for _, y := range all[:i] {
			if y.v0.sort != SBool || x.v0 != y.v0 {
				continue
			}
			x, y := x, y
			add(x.key+" = "+y.key, func(it *item, _ *Term) *Term { return Eq(term(it, x.p), term(it, y.p)) })
		}
	}
	for i, x := range all {
		if x.v0.sort != SStr {
			continue
		}
		for _, y := range all[:i] {
			if y.v0.sort != SStr || x.v0 != y.v0 {
				continue
			}
			x, y := x, y
			add(x.key+" = "+y.key, func(it *item, _ *Term) *Term { return Eq(term(it, x.p), term(it, y.p)) })
		}
	}
	// lengths of sequences
	for _, k := range order {
		p := places[k]
		v, ok := ex.placeVal(entry, p).(*SliceV)
		if !ok {
			continue
		}
		n0 := v.n
		k := k
		ln := func(it *item) *Term { return ex.placeVal(it, p).(*SliceV).n }
		add("len of "+k+" counts iterations", func(it *item, kk *Term) *Term { return Eq(ln(it), Add(n0, kk)) })
		for _, x := range ints {
			x := x
			if d := Sub(n0, x.v0); d.isConst() {
				add("len of "+k+" follows "+x.key, func(it *item, _ *Term) *Term { return Eq(ln(it), Add(term(it, x.p), d)) })
			}
		}
	}
	// bounds from the loop's own conditions
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		for _, side := range []ssa.Value{c.X, c.Y} {
			n := ex.invariantVal(l, entry, side)
			if n == nil || n.sort != SInt {
				continue
			}
			for _, x := range ints {
				x := x
				add(x.key+" <= bound", func(it *item, _ *Term) *Term { return Le(term(it, x.p), n) })
				add(x.key+" < bound", func(it *item, _ *Term) *Term { return Lt(term(it, x.p), n) })
				add(x.key+" >= bound", func(it *item, _ *Term) *Term { return Le(n, term(it, x.p)) })
			}
		}
	}
	// invariants given for this function
	ex.givenInvs(fr, entry, func(sf *SpecFn, args, olds []Value) {
		if ex.placeCands(sf, entry, places, order, args, olds, add) {
			return
		}
		add("given "+sf.name, ex.givenInv(sf, args, olds))
	})
	// prefixes of the universally quantified facts the contract speaks of
	for _, fa := range ex.topForalls {
		for _, x := range ints {
			x, fa := x, fa
			for d := int64(0); d <= 1; d++ {
				d := TInt(d)
				add(fmt.Sprintf("prefix fact to %s+%v", x.key, d), func(it *item, _ *Term) *Term {
					return Forall(fa.v, Add(term(it, x.p), d), fa.body)
				})
			}
		}
	}
	return holdOnEntry(entry, cs)
}

// givenInvs are the invariants given for a function.
func (ex *Exec) givenInvs(fr *frame, entry *item, f func(sf *SpecFn, args, olds []Value)) {
	if ex.specs == nil {
		return
	}
	tn := ex.targetName(fr.fn)
	for _, sf := range append(append([]*SpecFn{}, ex.specs.by["inv"][tn]...), ex.specs.by["inv"]["any"]...) {
		args := ex.topArgs
		olds := ex.topOlds
		if fr.fn != ex.topFn && tn == sf.target {
			args, olds = nil, nil
			for _, p := range fr.fn.Params {
				args = append(args, entry.env[p])
			}
		}
		f(sf, args, olds)
	}
}

func (ex *Exec) givenInv(sf *SpecFn, args, olds []Value) func(*item, *Term) *Term {
	return func(it *item, k *Term) *Term {
		b := bindArgs(args, olds, nil)
		b["k"] = k
		return ex.evalSpec(it.st, sf, b)
	}
}

// givenCands are those which don't speak of places the loop changes.
func (ex *Exec) givenCands(fr *frame, entry *item) []*cand {
	var cs []*cand
	ex.givenInvs(fr, entry, func(sf *SpecFn, args, olds []Value) {
		if len(placeParams(sf)) == 0 {
			cs = append(cs, &cand{"given " + sf.name, ex.givenInv(sf, args, olds)})
		}
	})
	return holdOnEntry(entry, cs)
}

// holdOnEntry keeps what holds on entry.
func holdOnEntry(entry *item, cs []*cand) []*cand {
	var out []*cand
	for _, c := range cs {
		t := c.f(entry, TInt(0))
		if t == nil {
			continue
		}
		t = entry.st.simp(t)
		if t == TFalse {
			continue
		}
		if t != TTrue && !proves(entry.st.pc, t, 500*time.Millisecond) {
			continue
		}
		out = append(out, c)
	}
	return out
}

// mapCands: for a sequence which every iteration appends one element to, that
// each element is the same function of its position. Only symbols for the
// function's own arguments and counters may occur in it.
func (ex *Exec) mapCands(lr *loopRun, entry *item, places map[string]*place, order []string) (cs []*cand) {
	type counter struct{ v0, now *Term }
	var counters []counter
	var cps []*place
	isCounter := map[*Term]bool{lr.k: true}
	for _, key := range order {
		p := places[key]
		v0, ok := ex.placeVal(entry, p).(*Term)
		if !ok || v0.sort != SInt {
			continue
		}
		if now, ok := ex.placeVal(lr.head, p).(*Term); ok {
			counters = append(counters, counter{v0, now})
			cps = append(cps, p)
			isCounter[now] = true
		}
	}
	for _, key := range order {
		p := places[key]
		x, ok := ex.placeVal(entry, p).(*SliceV)
		if !ok || !p.app || isByte(x.elem) || len(lr.backs) == 0 {
			continue
		}
		split := func(it *item) (tail Seg, more []Value, ok bool) {
			y, isSlice := ex.placeVal(it, p).(*SliceV)
			if !isSlice {
				return
			}
			n := len(ex.sliceSeq(entry.st, x).segs)
			segs := ex.sliceSeq(it.st, y).segs
			if len(segs) < n {
				return
			}
			segs = segs[n:]
			tail.n = TInt(0)
			if len(segs) > 0 && segs[0].org != nil {
				tail, segs = segs[0], segs[1:]
			}
			if len(segs) > 0 && segs[0].vals != nil {
				more, segs = segs[0].vals, segs[1:]
			}
			return tail, more, len(segs) == 0
		}
		var f *Term
		usable := true
		for _, b := range lr.backs {
			_, more, ok := split(b)
			if !ok || len(more) != 1 {
				usable = false
				break
			}
			t, ok := more[0].(*Term)
			if !ok || f != nil && f != t {
				usable = false
				break
			}
			f = t
		}
		if debugLoops {
			fmt.Printf("map cand %s: %v %v\n", key, usable, f)
		}
		if !usable || f == nil {
			continue
		}
		apps := map[*Term]bool{}
		collectApps(f, apps)
		for a := range apps {
			if isCounter[a] {
				continue
			}
			if len(a.name) < 2 || a.name[0] != 'p' && a.name[0] != 'o' || a.name[1] < '0' || a.name[1] > '9' {
				usable = false
			}
		}
		if !usable {
			continue
		}
		at := func(i *Term) *Term {
			m := map[*Term]*Term{lr.k: i}
			for _, c := range counters {
				m[c.now] = Add(c.v0, i)
			}
			return Subst(f, m)
		}
		elem := x.elem
		v := BoundVar("e" + strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' {
				return r
			}
			return '_'
		}, key))
		cs = append(cs, &cand{"elements of " + key, func(it *item, k *Term) *Term {
			var same []*Term
			for i, p := range cps {
				now, ok := ex.placeVal(it, p).(*Term)
				if !ok {
					return nil
				}
				same = append(same, Eq(now, Add(counters[i].v0, k)))
			}
			tail, more, ok := split(it)
			if !ok {
				return nil
			}
			same = append(same, Eq(Add(tail.n, TInt(int64(len(more)))), k))
			if tail.org != nil {
				e, isTerm := symVal(elem, tail.org.at("[]", Add(tail.off, v))).(*Term)
				if !isTerm {
					return nil
				}
				same = append(same, Forall(v, tail.n, Eq(e, at(v))))
			}
			for i, y := range more {
				t, ok := y.(*Term)
				if !ok {
					return nil
				}
				same = append(same, Eq(t, at(Add(tail.n, TInt(int64(i))))))
			}
			return And(same...)
		}})
	}
	return cs
}

// invariantVal: the value of an operand which does not change in the loop.
func (ex *Exec) invariantVal(l *loopInfo, entry *item, v ssa.Value) *Term {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return nil
		}
		if t, ok := ex.constVal(c).(*Term); ok {
			return t
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if x := call.Call.Args[0]; true {
					if in2, ok := x.(ssa.Instruction); ok && l.blocks[in2.Block()] {
						return nil
					}
					switch s := entry.env[x].(type) {
					case *SliceV:
						return s.n
					case *Term:
						return Len(s)
					}
				}
			}
		}
		return nil
	}
	t, _ := entry.env[v].(*Term)
	return t
}

func (ex *Exec) checkCands(cands []*cand, lr *loopRun, drop map[*cand]bool) {
	type job struct {
		c *cand
		t *Term
		b *item
	}
	var jobs []job
	for _, b := range lr.backs {
		for _, c := range cands {
			if drop[c] {
				continue
			}
			t := c.f(b, Add(lr.k, TInt(1)))
			if t == nil {
				drop[c] = true
				continue
			}
			t = b.st.simp(t)
			if t == TTrue {
				continue
			}
			if t == TFalse {
				if checkSat(b.st.pc, time.Second) != Unsat {
					drop[c] = true
				}
				continue
			}
			jobs = append(jobs, job{c, t, b})
		}
	}
	if len(jobs) == 0 {
		return
	}
	res := make([]bool, len(jobs))
	parallel(len(jobs), func(i int) {
		res[i] = jobs[i].b.st.linear(jobs[i].t) == 1 || proves(jobs[i].b.st.pc, jobs[i].t, 1500*time.Millisecond)
		if !res[i] && strings.HasPrefix(jobs[i].c.name, "given") {
			o := &Obligation{pc: jobs[i].b.st.pc, goal: jobs[i].t}
			discharge(o, []stage{{"cvc5", 4 * time.Second}, {"z3-new", 6 * time.Second}})
			res[i] = o.status == Unsat
			if !res[i] && debugLoops {
				fmt.Printf("not kept %s: %v\n", jobs[i].c.name, o.status)
				for _, p := range o.pc {
					fmt.Println("   pc", p)
				}
				fmt.Println("   goal", o.goal)
			}
		}
	})
	for i, j := range jobs {
		if !res[i] {
			drop[j.c] = true
		}
	}
}

func (ex *Exec) obligeProgress(fr *frame, l *loopInfo, lr *loopRun, b *item) {
	var gs []*Term
	if ex.ticks != nil {
		t0 := ex.objVal(lr.head.st, ex.ticks).(*Term)
		t1 := ex.objVal(b.st, ex.ticks).(*Term)
		gs = append(gs, Lt(t0, t1))
	}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch x := lr.head.env[ph].(type) {
		case *Term:
			y := b.env[ph].(*Term)
			if x.sort == SInt {
				// rising towards a bound which the loop tests
				for _, n := range ex.loopBounds(l, lr.head) {
					gs = append(gs, And(Lt(x, y), Le(y, n)), And(Lt(y, x), Le(n, y)))
				}
			}
			if x.sort == SStr {
				gs = append(gs, Lt(Len(y), Len(x)))
			}
		case *SliceV:
			y := b.env[ph].(*SliceV)
			gs = append(gs, Lt(y.n, x.n))
		}
	}
	ex.oblige(b.st, "progress", ex.fnName(fr.fn)+": every iteration makes progress", ex.pos(firstPos(l.header)), Or(gs...))
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// loopBounds are the values loop exits compare with, which the loop doesn't
// change.
func (ex *Exec) loopBounds(l *loopInfo, it *item) (ns []*Term) {
	for _, b := range sortedBlocks(l) {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		if c, ok := br.Cond.(*ssa.BinOp); ok {
			for _, s := range []ssa.Value{c.Y, c.X} {
				if n := ex.invariantVal(l, it, s); n != nil && n.sort == SInt {
					ns = append(ns, n)
				}
			}
		}
	}
	return ns
}

var _ = strings.TrimSpace

// deadAtHead are the local structs used only in a loop, where they are written
// to as a whole before anything else is done with them.
func deadAtHead(l *loopInfo, entry *item) map[*Obj]bool {
	m := map[*Obj]bool{}
	for v, val := range entry.env {
		a, ok := v.(*ssa.Alloc)
		if !ok || l.blocks[a.Block()] {
			continue
		}
		if _, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Struct); !ok {
			continue
		}
		p, ok := val.(*PtrV)
		if !ok || p.obj == nil || len(p.path) > 0 {
			continue
		}
		index := func(in ssa.Instruction) int {
			for i, x := range in.Block().Instrs {
				if x == in {
					return i
				}
			}
			return -1
		}
		var uses []ssa.Instruction
		for _, r := range *a.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				uses = append(uses, r)
			}
		}
		for _, r := range uses {
			s, ok := r.(*ssa.Store)
			if !ok || s.Addr != a || s.Val == a {
				continue
			}
			first := true
			for _, u := range uses {
				if !l.blocks[u.Block()] || u != r && !(s.Block() != u.Block() && s.Block().Dominates(u.Block()) || s.Block() == u.Block() && index(s) < index(u)) {
					first = false
					break
				}
			}
			if first {
				m[p.obj] = true
			}
		}
	}
	return m
}

func sortedBlocks(l *loopInfo) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}
