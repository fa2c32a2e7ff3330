package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"time"
)

type State struct {
	heap  map[*Obj]Value
	pc    []*Term
	lits  map[*Term]bool
	eqs   map[*Term]*Term
	vars  map[*Term]bool
	trace *traceNode
	dead  bool
	n     int // counter for naming unknowns
	mark  int // objects numbered above it are fresh (vFreshFrom)
}

type traceNode struct {
	prev *traceNode
	msg  string
	alt  *traceNode
}

func newState() *State {
	return &State{heap: map[*Obj]Value{}, lits: map[*Term]bool{}, eqs: map[*Term]*Term{}, vars: map[*Term]bool{}}
}

func (st *State) clone() *State {
	n := &State{heap: make(map[*Obj]Value, len(st.heap)), lits: make(map[*Term]bool, len(st.lits)), eqs: make(map[*Term]*Term, len(st.eqs)), vars: make(map[*Term]bool, len(st.vars)), trace: st.trace, dead: st.dead, n: st.n, mark: st.mark}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append(make([]*Term, 0, len(st.pc)+8), st.pc...)
	for k := range st.lits {
		n.lits[k] = true
	}
	for k, v := range st.eqs {
		n.eqs[k] = v
	}
	for k := range st.vars {
		n.vars[k] = true
	}
	return n
}

func (st *State) note(format string, a ...interface{}) {
	st.trace = &traceNode{prev: st.trace, msg: fmt.Sprintf(format, a...)}
}
func (st *State) events() []string {
	var out []string
	for n := st.trace; n != nil; n = n.prev {
		out = append(out, n.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// taints lists the calls of functions without a model made on the way here.
func (st *State) taints() []string {
	seen := map[*traceNode]bool{}
	var out []string
	var walk func(n *traceNode)
	walk = func(n *traceNode) {
		for ; n != nil && !seen[n]; n = n.prev {
			seen[n] = true
			if strings.HasPrefix(n.msg, "unmodelled ") {
				out = append(out, n.msg)
			}
			walk(n.alt)
		}
	}
	walk(st.trace)
	return out
}

func (st *State) event(name string) *Origin {
	st.n++
	return &Origin{path: fmt.Sprintf("%s#%d%s", name, st.n, epochTag())}
}

// epoch tells apart the unknowns of the functions verified in one run.
var epoch int

func epochTag() string {
	if epoch == 0 {
		return ""
	}
	return fmt.Sprintf("~%d", epoch)
}

func collectApps(t *Term, m map[*Term]bool) {
	switch t.op {
	case OApp:
		if m[t] {
			return
		}
		m[t] = true
	}
	for _, a := range t.args {
		collectApps(a, m)
	}
}

func (st *State) assume(t *Term) {
	t = st.simp(t)
	if t == TTrue {
		return
	}
	if t == TFalse {
		st.dead = true
		st.pc = append(st.pc, t)
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc, t)
	st.lits[t] = true
	if t.op == OEq && t.args[1].isConst() {
		st.eqs[t.args[0]] = t.args[1]
	} else if t.op == OEq && t.args[0].isConst() {
		st.eqs[t.args[1]] = t.args[0]
	}
	if t.op == ONot && t.args[0].op == OEq && t.args[0].args[0].op == OApp && len(t.args[0].args[0].args) == 0 && t.args[0].args[1].isConst() && t.sort == SBool {
		if x := t.args[0].args[0]; x.sort == SStr || x.sort == SInt && wideRange(st, x) {
			return // an excluded value leaves all other values possible
		}
	}
	collectApps(t, st.vars)
}

func wideRange(st *State, x *Term) bool {
	lo, hi := termBounds(st, x)
	return lo == nil || hi == nil || new(big.Int).Sub(hi, lo).BitLen() > 20
}

// simp simplifies a condition using what is assumed syntactically.
func (st *State) simp(t *Term) *Term {
	if t.sort != SBool || t.isConst() {
		return t
	}
	if st.lits[t] {
		return TTrue
	}
	if st.lits[Not(t)] {
		return TFalse
	}
	switch t.op {
	case ONot:
		return Not(st.simp(t.args[0]))
	case OAnd, OOr:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = st.simp(a)
		}
		if t.op == OAnd {
			return And(args...)
		}
		return Or(args...)
	case OIte:
		return Ite(st.simp(t.args[0]), st.simp(t.args[1]), st.simp(t.args[2]))
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.sort == SBool {
			return Eq(st.simp(a), st.simp(b))
		}
		ca, oka := st.eqs[a]
		cb, okb := st.eqs[b]
		if oka && b.isConst() {
			return TBool(ca == b)
		}
		if okb && a.isConst() {
			return TBool(cb == a)
		}
		if oka && okb {
			return TBool(ca == cb)
		}
		if na, nb := st.simpI(a), st.simpI(b); na != a || nb != b {
			return Eq(na, nb)
		}
	case OLe, OLt:
		a, b := st.simpI(t.args[0]), st.simpI(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			r := rebuild(t, []*Term{a, b})
			if st.lits[r] {
				return TTrue
			}
			return r
		}
	case OPrefix, OSuffix, OContains:
		a, b := st.simpI(t.args[0]), st.simpI(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			return rebuild(t, []*Term{a, b})
		}
	}
	return t
}

// simpI replaces terms known to equal constants.
func (st *State) simpI(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if c, ok := st.eqs[t]; ok {
		return c
	}
	switch t.op {
	case OAdd, OConcat, OLen, OMul:
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = st.simpI(a)
			same = same && args[i] == a
		}
		if !same {
			return rebuild(t, args)
		}
	case OIte:
		c := st.simp(t.args[0])
		if c == TTrue {
			return st.simpI(t.args[1])
		}
		if c == TFalse {
			return st.simpI(t.args[2])
		}
	}
	return t
}

// independent: both outcomes of the condition are certainly possible, because
// it is a single literal about a term nothing is assumed about.
func (st *State) independent(t *Term) bool {
	if t.op == ONot {
		t = t.args[0]
	}
	var x *Term
	switch {
	case t.op == OApp:
		x = t
	case t.op == OEq && t.args[0].op == OApp && t.args[1].isConst():
		x = t.args[0]
	default:
		return false
	}
	if st.vars[x] {
		return false
	}
	for _, a := range x.axioms {
		if x.sort == SBool && a.op == OEq && (a.args[0] == x || a.args[1] == x) {
			// equivalent to something nothing is assumed about
			y := a.args[0]
			if y == x {
				y = a.args[1]
			}
			if y.op == OEq && y.args[0].op == OApp && y.args[1].isConst() && y.args[0].sort == SInt && !st.vars[y.args[0]] {
				lo, hi := termBounds(st, y.args[0])
				c := y.args[1].ival
				if (lo == nil || lo.Cmp(c) <= 0) && (hi == nil || hi.Cmp(c) > 0) {
					continue
				}
			}
		}
		if a.op == OLe && (a.args[0] == x || a.args[1] == x) && (a.args[0].isConst() || a.args[1].isConst()) {
			continue
		}
		if a.op == OAnd && len(a.args) == 2 && a.args[0].op == OLe && a.args[1].op == OLe && (a.args[0].args[0].isConst() || a.args[0].args[1].isConst()) && (a.args[1].args[0].isConst() || a.args[1].args[1].isConst()) {
			continue
		}
		return false
	}
	if t.op == OEq && x.sort == SInt {
		lo, hi := termBounds(st, x)
		c := t.args[1].ival
		if lo != nil && c.Cmp(lo) < 0 || hi != nil && c.Cmp(hi) > 0 || lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return false
		}
	}
	// another application of the same function could be equal
	if len(x.args) > 0 {
		for v := range st.vars {
			if v.op == OApp && v.name == x.name && !st.differentArgs(v, x) {
				return false
			}
		}
	}
	return true
}

// differentArgs: the applications certainly have different arguments.
func (st *State) differentArgs(x, y *Term) bool {
	if len(x.args) != len(y.args) {
		return true
	}
	for i, a := range x.args {
		b := y.args[i]
		if a.sort != b.sort {
			return true
		}
		if a.sort == SInt && st.linear(Eq(a, b)) == -1 {
			return true
		}
	}
	return false
}

var pruneTimeout = 400 * time.Millisecond

// split decides a condition: which of its outcomes are possible here.
func (ex *Exec) split(st *State, t *Term) (canTrue, canFalse bool) {
	t = st.simp(t)
	if t == TTrue {
		return true, false
	}
	if t == TFalse {
		return false, true
	}
	if ex.pure > 0 || ex.lazy || st.independent(t) {
		return true, true
	}
	switch st.linear(t) {
	case 1:
		return true, false
	case -1:
		return false, true
	}
	rt := checkSat(append(cone(st.pc, t), t), pruneTimeout)
	if rt == Unsat {
		return false, true
	}
	rf := checkSat(append(cone(st.pc, t), Not(t)), pruneTimeout)
	if rf == Unsat {
		return true, false
	}
	return true, true
}

// decide: 1 if certainly true, -1 if certainly false, 0 otherwise
func (ex *Exec) decide(st *State, t *Term) int {
	t = st.simp(t)
	if t == TTrue {
		return 1
	}
	if t == TFalse {
		return -1
	}
	if ex.pure > 1000 {
		return 0
	}
	if r := st.linear(t); r != 0 {
		return r
	}
	if checkSat(append(cone(st.pc, t), Not(t)), pruneTimeout) == Unsat {
		return 1
	}
	if checkSat(append(cone(st.pc, t), t), pruneTimeout) == Unsat {
		return -1
	}
	return 0
}

// ---- memory

func (ex *Exec) objVal(st *State, o *Obj) Value {
	if o != nil && o.stale {
		ex.unsupported("use of a pointer which a loop moves between objects")
	}
	if v, ok := st.heap[o]; ok {
		return v
	}
	if v, ok := ex.base[o]; ok {
		return v
	}
	if o.init == nil {
		o.init = zeroVal(o.typ)
	}
	return o.init
}

func (ex *Exec) load(st *State, p *PtrV) Value {
	return ex.walk(st, ex.objVal(st, p.obj), p.path)
}

func (ex *Exec) walk(st *State, v Value, path []PathElem) Value {
	for _, e := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.get(e.field)
		case *SeqV:
			v = x.at(e.idx, func(t *Term) int { return ex.decide(st, t) })
			if v == nil {
				ex.unsupported("element %v of a sequence", e.idx)
			}
		default:
			ex.unsupported("access path into %T", v)
		}
	}
	return v
}

func (ex *Exec) store(st *State, p *PtrV, val Value) {
	old := ex.objVal(st, p.obj)
	st.heap[p.obj] = ex.update(st, old, p.path, val)
}

func (ex *Exec) update(st *State, v Value, path []PathElem, val Value) Value {
	if len(path) == 0 {
		return val
	}
	e := path[0]
	switch x := v.(type) {
	case *StructV:
		return x.with(e.field, ex.update(st, x.get(e.field), path[1:], val))
	case *SeqV:
		return ex.updateSeq(st, x, e.idx, path[1:], val)
	}
	ex.unsupported("store into %T", v)
	return nil
}

func (ex *Exec) updateSeq(st *State, q *SeqV, i *Term, rest []PathElem, val Value) Value {
	r := &SeqV{elem: q.elem, segs: append([]Seg{}, q.segs...)}
	for k, s := range r.segs {
		n := s.len()
		last := k == len(r.segs)-1
		if !last {
			d := ex.decide(st, Lt(i, n))
			if d == 0 {
				ex.unsupported("store at an unknown index")
			}
			if d < 0 {
				i = Sub(i, n)
				continue
			}
		}
		c, ok := i.intConst()
		switch {
		case s.vals != nil && ok:
			vs := append([]Value{}, s.vals...)
			vs[c] = ex.update(st, vs[c], rest, val)
			r.segs[k].vals = vs
		case s.vals != nil:
			vs := append([]Value{}, s.vals...)
			for j := range vs {
				m, ok := mergeVal(Eq(i, TInt(int64(j))), ex.update(st, vs[j], rest, val), vs[j])
				if !ok {
					ex.unsupported("store at an unknown index")
				}
				vs[j] = m
			}
			r.segs[k].vals = vs
		case s.str != nil && len(rest) == 0:
			b, ok2 := val.(*Term).intConst()
			var bt *Term
			if ok2 {
				bt = TStr(string([]byte{byte(b)}))
			} else {
				bt = byteStr(val.(*Term))
			}
			base := Substr(s.str, s.off, s.n)
			ns := Concat(Substr(base, TInt(0), i), bt, Substr(base, Add(i, TInt(1)), Sub(Sub(s.n, i), TInt(1))))
			r.segs[k] = Seg{str: ns, off: TInt(0), n: s.n}
		default:
			ex.unsupported("store into an unknown sequence")
		}
		return r
	}
	ex.unsupported("store into an empty sequence")
	return nil
}

func byteStr(b *Term) *Term {
	if c, ok := b.intConst(); ok {
		return TStr(string([]byte{byte(c)}))
	}
	t := App("byte", SStr, b)
	if len(t.axioms) == 0 {
		t.axioms = append(t.axioms, Eq(Len(t), TInt(1)), Eq(mk(OAt, SInt, "", t, TInt(0)), b))
	}
	return t
}

// sliceSeq returns the contents of a slice.
func (ex *Exec) sliceSeq(st *State, s *SliceV) *SeqV {
	if s.obj == nil {
		return &SeqV{elem: s.elem}
	}
	q := ex.objVal(st, s.obj).(*SeqV)
	off, n := st.simpI(s.off), st.simpI(s.n)
	r, ok := q.sub(off, n)
	if !ok {
		ex.unsupported("part of a slice")
	}
	return r
}

func (ex *Exec) newSlice(st *State, elem types.Type, q *SeqV) *SliceV {
	o := newObj(types.NewSlice(elem), "slice", q, true)
	st.heap[o] = q
	n := q.length()
	return &SliceV{elem: elem, nilT: TFalse, obj: o, off: TInt(0), n: n, capT: n}
}

func (ex *Exec) bytesSlice(st *State, s *Term) *SliceV {
	return ex.newSlice(st, types.Typ[types.Uint8], &SeqV{elem: types.Typ[types.Uint8], segs: []Seg{{str: s, off: TInt(0), n: Len(s)}}})
}

func (ex *Exec) sliceBytes(st *State, s *SliceV) *Term {
	t, ok := ex.sliceSeq(st, s).bytesOf()
	if !ok {
		ex.unsupported("bytes of a slice")
	}
	return t
}

func (ex *Exec) alloc(st *State, t types.Type, name string, init Value) *PtrV {
	o := newObj(t, name, init, true)
	st.heap[o] = init
	return &PtrV{elem: t, nilT: TFalse, obj: o}
}
