package main

// Forward symbolic execution of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

type Exec struct {
	unfolding        bool
	unfolded         map[*Term]bool
	L                *Loaded
	base             map[*Obj]Value
	globals          map[*ssa.Global]*Obj
	symGlob          map[*ssa.Global]bool
	pure             int
	noMerge          int
	lazy             bool // infeasible paths are followed too
	softGive         int
	gaveUp           string
	tagWrites        []tagWrite
	initMode         bool
	inHook           int
	buf              *[]*Obligation
	obls             []*Obligation
	curFn            string // function under contract
	topFn            *ssa.Function
	depth            int
	stack            []*ssa.Function
	specs            *Specs
	progress         bool // generate termination obligations
	safety           bool
	used             map[string]bool // trusted contracts used
	unknown          map[string]bool // unmodelled functions
	inlined          map[string]bool
	modular          map[*ssa.Function]bool
	loopsCut         int
	loopsUnr         int
	invs             int
	frames           map[*ssa.Function]*frameInfo
	deadline         time.Time
	steps            int
	specPanics       [][]*Term // where specifications panic
	foralls          []forallRec
	covers           []*cover
	trialing         int
	ticks            *Obj
	topArgs, topOlds []Value
	topForalls       []forallRec
}

type forallRec struct {
	n    *Term
	v    *Term
	body *Term
}

type cover struct {
	label string
	pcs   [][]*Term
}

type Obligation struct {
	fn, label, kind, pos string
	pc                   []*Term
	goal                 *Term
	trace                []string
	taint                []string
	// result
	status Result
	solver string
	dur    time.Duration
	model  []string
}

type Outcome struct {
	st  *State
	res Value // a TupleV for several results, nil for none
}

type deferNode struct {
	prev *deferNode
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type item struct {
	b         *ssa.BasicBlock
	st        *State
	env       map[ssa.Value]Value
	defers    *deferNode
	constExit bool
}

func (it *item) clone() *item {
	n := *it
	n.st = it.st.clone()
	n.env = make(map[ssa.Value]Value, len(it.env)+4)
	for k, v := range it.env {
		n.env[k] = v
	}
	return &n
}

type frame struct {
	*frameInfo
	free   []Value
	args   []Value
	parent *frame
}

type frameInfo struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loopInfo
	order map[*ssa.BasicBlock]int
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n0     int // events before the loop
}

func (ex *Exec) unsupported(format string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(format, a...) + ex.where()})
}

func (ex *Exec) where() string {
	var s []string
	for _, f := range ex.stack {
		s = append(s, f.Name())
	}
	return " [in " + strings.Join(s, " > ") + "]"
}

func (ex *Exec) info(fn *ssa.Function) *frameInfo {
	if fi, ok := ex.frames[fn]; ok {
		return fi
	}
	fi := &frameInfo{fn: fn, loops: map[*ssa.BasicBlock]*loopInfo{}, order: map[*ssa.BasicBlock]int{}}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		fi.order[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if seen[b] && s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	// liveness
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				// phi inputs along this edge are read in the predecessor
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, p)
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// phis of b itself are live on entry after evaluation
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					cur[p] = true
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	fi.live = live
	ex.frames[fn] = fi
	return fi
}

// ---- obligations

func (ex *Exec) oblige(st *State, kind, label, pos string, goal *Term) {
	if ex.pure > 0 || ex.initMode {
		return
	}
	o := &Obligation{fn: ex.curFn, label: label, kind: kind, pos: pos, pc: append([]*Term{}, st.pc...), goal: st.simp(goal), trace: st.events(), taint: st.taints()}
	*ex.buf = append(*ex.buf, o)
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.L.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/aclindsa/ofxgo/cmd/ofx.", "")
	return strings.ReplaceAll(s, "github.com/aclindsa/ofxgo.", "")
}

// safe adds a run-time safety obligation and assumes it from there on.
// It returns false if the path cannot continue.
func (ex *Exec) safe(st *State, kind string, in ssa.Instruction, cond *Term) bool {
	c := st.simp(cond)
	if c == TTrue {
		return true
	}
	if ex.pure > 0 || ex.initMode {
		if c == TFalse {
			if ex.pure > 0 {
				ex.specPanics = append(ex.specPanics, append([]*Term{}, st.pc...))
			}
			st.dead = true
			return false
		}
		if ex.pure > 0 {
			return true
		}
	}
	p := ""
	if in != nil {
		p = ex.pos(in.Pos())
	}
	label := kind
	if in != nil && in.Parent() != nil {
		label = ex.fnName(in.Parent()) + ": " + kind
	}
	ex.oblige(st, "safety", label, p, c)
	st.assume(c)
	return !st.dead
}

// ---- running a function

func (ex *Exec) callBody(st *State, fn *ssa.Function, args, free []Value) []Outcome {
	if len(ex.stack) > 80 {
		ex.unsupported("recursion too deep calling %s", fn.Name())
	}
	if ex.pure == 0 && !ex.initMode && ex.inHook == 0 {
		ex.inlined[ex.fnName(fn)] = true
	}
	ex.stack = append(ex.stack, fn)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	fr := &frame{frameInfo: ex.info(fn), free: free, args: args}
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = free[i]
	}
	it := &item{b: fn.Blocks[0], st: st, env: env}
	_, _, outs := ex.run(fr, []*item{it}, nil)
	if ex.noMerge == 0 {
		outs = ex.mergeOutcomes(outs)
	}
	return outs
}

func (ex *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 || len(outs) > 400 {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		merged := false
		for i := len(res) - 1; i >= 0 && i >= len(res)-8; i-- {
			if m, ok := ex.mergeOutcome(res[i], o); ok {
				res[i] = m
				merged = true
				break
			}
		}
		if !merged {
			res = append(res, o)
		}
	}
	return res
}

func (ex *Exec) mergeOutcome(a, b Outcome) (Outcome, bool) {
	c, pc, ok := mergeCond(a.st, b.st)
	if !ok {
		return a, false
	}
	mg := &merger{ex: ex, a: a.st, b: b.st, c: c}
	v, ok := mg.val(a.res, b.res)
	if !ok {
		return a, false
	}
	st, ok := mg.states(pc)
	if !ok {
		return a, false
	}
	return Outcome{st, v}, true
}

func (ex *Exec) run(fr *frame, start []*item, within *loopInfo) (exits, backs []*item, outs []Outcome) {
	pend := map[*ssa.BasicBlock][]*item{}
	for _, s := range start {
		pend[s.b] = append(pend[s.b], s)
	}
	route := func(n *item) {
		if n.st.dead {
			return
		}
		if within != nil {
			if n.b == within.header {
				backs = append(backs, n)
				return
			}
			if !within.blocks[n.b] {
				exits = append(exits, n)
				return
			}
		}
		pend[n.b] = append(pend[n.b], n)
	}
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || fr.order[x] < fr.order[b] {
				b = x
			}
		}
		its := ex.mergeItems(fr, b, pend[b])
		delete(pend, b)
		for _, it := range its {
			ex.steps++
			if ex.steps%64 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
				ex.unsupported("time limit of this function's exploration")
			}
			if l := fr.loops[b]; l != nil && l != within {
				es, os := ex.execLoop(fr, l, it)
				outs = append(outs, os...)
				for _, e := range es {
					route(e)
				}
				continue
			}
			next, os := ex.execFrom(fr, it, 0, within)
			outs = append(outs, os...)
			for _, n := range next {
				route(n)
			}
		}
	}
	return
}

func (ex *Exec) mergeItems(fr *frame, b *ssa.BasicBlock, its []*item) []*item {
	if len(its) < 2 || ex.noMerge > 0 {
		return its
	}
	var res []*item
	for _, it := range its {
		merged := false
		for i := len(res) - 1; i >= 0 && i >= len(res)-8; i-- {
			if m := ex.mergeItem(fr, b, res[i], it); m != nil {
				res[i] = m
				merged = true
				break
			}
		}
		if !merged {
			res = append(res, it)
		}
	}
	return res
}

func (ex *Exec) mergeItem(fr *frame, b *ssa.BasicBlock, x, y *item) *item {
	if x.defers != y.defers {
		return nil
	}
	c, pc, ok := mergeCond(x.st, y.st)
	if !ok {
		return nil
	}
	mg := &merger{ex: ex, a: x.st, b: y.st, c: c}
	env := map[ssa.Value]Value{}
	for v := range fr.live[b] {
		a, ok1 := x.env[v]
		e, ok2 := y.env[v]
		if !ok1 && !ok2 {
			continue
		}
		if ok1 != ok2 {
			return nil
		}
		m, ok := mg.val(a, e)
		if !ok {
			return nil
		}
		env[v] = m
	}
	st, ok := mg.states(pc)
	if !ok {
		return nil
	}
	return &item{b: b, st: st, env: env, defers: x.defers, constExit: x.constExit && y.constExit}
}

func (ex *Exec) val(it *item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &PtrV{elem: x.Type().(*types.Pointer).Elem(), nilT: TFalse, obj: ex.globalObj(x)}
	case *ssa.Function:
		return &FuncV{fn: x, nilT: TFalse}
	case *ssa.Builtin:
		return &FuncV{bi: x, nilT: TFalse}
	}
	r, ok := it.env[v]
	if !ok {
		ex.unsupported("no value for %s %s", v.Name(), v)
	}
	if t, ok := r.(*Term); ok && !t.isConst() && len(it.st.pc) > 0 {
		if t.sort == SBool {
			return it.st.simp(t)
		}
		return it.st.simpI(t)
	}
	return r
}

func (ex *Exec) globalObj(g *ssa.Global) *Obj {
	if o, ok := ex.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := newObj(t, g.String(), nil, false)
	o.global = g
	if ex.L.isLocal(g.Pkg) {
		o.init = zeroVal(t)
	} else {
		o.init = symVal(t, &Origin{path: g.String()})
		if iv, ok := o.init.(*IfaceV); ok && isErrorType(t) {
			// package level error values are not nil
			tag := iv.tag()
			tag.axioms = append(tag.axioms, Not(Eq(tag, TInt(0))))
		}
		if pv, ok := o.init.(*PtrV); ok {
			pv.nilT = TFalse
		}
	}
	ex.globals[g] = o
	return o
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return TBool(constant.BoolVal(c.Value))
	case constant.String:
		return TStr(constant.StringVal(c.Value))
	}
	s, ok := sortOf(c.Type())
	if !ok {
		ex.unsupported("constant %v of type %v", c, c.Type())
	}
	switch s {
	case SInt:
		v, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int)
		if !ok {
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			v = big.NewInt(i)
		}
		return TBig(v)
	case SReal:
		r, ok := new(big.Rat).SetString(c.Value.ExactString())
		if !ok {
			ex.unsupported("constant %v", c)
		}
		return TReal(r)
	}
	ex.unsupported("constant %v", c)
	return nil
}

// jump moves an item along an edge, evaluating the phis of the target.
func (ex *Exec) jump(it *item, to *ssa.BasicBlock) *item {
	var from int = -1
	for i, p := range to.Preds {
		if p == it.b {
			from = i
			break
		}
	}
	vals := map[ssa.Value]Value{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if from < 0 {
			ex.unsupported("edge")
		}
		vals[p] = ex.val(it, p.Edges[from])
	}
	for k, v := range vals {
		it.env[k] = v
	}
	it.b = to
	return it
}

// fromCall: whether a condition is computed from the result of a call made in
// the loop. After a call which observed something such a condition may be
// decided only because a hook has asked the same.
func fromCall(l *loopInfo, v ssa.Value, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !l.blocks[in.Block()] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			return true
		}
	case *ssa.Phi:
		return false
	case *ssa.Alloc:
		return storedFromCall(l, x, seen)
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && fromCall(l, *o, seen) {
			return true
		}
	}
	return false
}

// storedFromCall: a variable of the loop is given the result of a call.
func storedFromCall(l *loopInfo, x *ssa.Alloc, seen map[ssa.Value]bool) bool {
	for _, r := range *x.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == x && fromCall(l, s.Val, seen) {
			return true
		}
	}
	return false
}

func (ex *Exec) execFrom(fr *frame, it *item, idx int, within *loopInfo) (next []*item, outs []Outcome) {
	b := it.b
	for i := idx; i < len(b.Instrs); i++ {
		if it.st.dead {
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			next = append(next, ex.jump(it, b.Succs[0]))
			return
		case *ssa.If:
			c := it.st.simp(ex.val(it, x.Cond).(*Term))
			if within != nil && c.isConst() && !(it.st.n > within.n0 && fromCall(within, x.Cond, map[ssa.Value]bool{})) && (!within.blocks[b.Succs[0]] || !within.blocks[b.Succs[1]]) {
				it.constExit = true
			}
			ct, cf := ex.split(it.st, c)
			// both edges may lead to the same block
			if ct && cf {
				o := it.clone()
				it.st.assume(c)
				o.st.assume(Not(c))
				if !it.st.dead {
					next = append(next, ex.jumpVia(it, b, 0))
				}
				if !o.st.dead {
					next = append(next, ex.jumpVia(o, b, 1))
				}
			} else if ct {
				it.st.assume(c)
				next = append(next, ex.jumpVia(it, b, 0))
			} else {
				it.st.assume(Not(c))
				next = append(next, ex.jumpVia(it, b, 1))
			}
			return
		case *ssa.Return:
			var res Value
			switch len(x.Results) {
			case 0:
			case 1:
				res = ex.val(it, x.Results[0])
			default:
				var t TupleV
				for _, r := range x.Results {
					t = append(t, ex.val(it, r))
				}
				res = t
			}
			outs = append(outs, Outcome{it.st, res})
			return
		case *ssa.Panic:
			if ex.pure == 0 {
				ex.oblige(it.st, "safety", ex.fnName(fr.fn)+": panic is unreachable", ex.pos(x.Pos()), TFalse)
			} else {
				ex.specPanics = append(ex.specPanics, append([]*Term{}, it.st.pc...))
			}
			return
		case *ssa.Call:
			os := ex.call(it, &x.Call, in)
			if len(os) == 0 {
				return
			}
			for j, o := range os {
				n := it
				if j < len(os)-1 {
					n = &item{b: it.b, defers: it.defers, constExit: it.constExit, env: make(map[ssa.Value]Value, len(it.env)+4)}
					for k, v := range it.env {
						n.env[k] = v
					}
				}
				n.st = o.st
				n.env[x] = o.res
				if len(os) == 1 {
					break
				}
				nn, oo := ex.execFrom(fr, n, i+1, within)
				next = append(next, nn...)
				outs = append(outs, oo...)
			}
			if len(os) > 1 {
				return
			}
			continue
		case *ssa.Defer:
			fv, args := ex.callTarget(it, &x.Call)
			it.defers = &deferNode{it.defers, &x.Call, fv, args}
			continue
		case *ssa.RunDefers:
			its := []*item{it}
			for it.defers != nil {
				var nits []*item
				d := it.defers
				for _, t := range its {
					os := ex.callValue(t, t.st, d.call, d.fn, d.args, in)
					for j, o := range os {
						n := t
						if j < len(os)-1 {
							n = t.clone()
						}
						n.st = o.st
						n.defers = d.prev
						nits = append(nits, n)
					}
				}
				its = nits
				if len(its) == 0 {
					return
				}
				it = its[0]
			}
			if len(its) > 1 {
				for _, t := range its {
					nn, oo := ex.execFrom(fr, t, i+1, within)
					next = append(next, nn...)
					outs = append(outs, oo...)
				}
				return
			}
			continue
		case *ssa.Lookup:
			if _, ok := under(x.X.Type()).(*types.Map); ok {
				os := ex.lookup(it, x)
				if len(os) == 1 {
					it.st = os[0].st
					it.env[x] = os[0].res
					continue
				}
				for _, o := range os {
					n := it.clone()
					n.st = o.st
					n.env[x] = o.res
					nn, oo := ex.execFrom(fr, n, i+1, within)
					next = append(next, nn...)
					outs = append(outs, oo...)
				}
				return
			}
		case *ssa.TypeAssert:
			os := ex.typeAssert(it, x)
			if len(os) == 1 {
				it.st = os[0].st
				it.env[x] = os[0].res
				continue
			}
			for _, o := range os {
				n := it.clone()
				n.st = o.st
				n.env[x] = o.res
				nn, oo := ex.execFrom(fr, n, i+1, within)
				next = append(next, nn...)
				outs = append(outs, oo...)
			}
			return
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			ex.unsupported("concurrency: %s", in)
		}
		if !ex.step(it, in) {
			return
		}
	}
	return
}

func (ex *Exec) jumpVia(it *item, b *ssa.BasicBlock, i int) *item {
	to := b.Succs[i]
	if b.Succs[0] == b.Succs[1] {
		// two edges into the same block: phis see them separately
		k := 0
		for pi, p := range to.Preds {
			if p == b {
				if k == i {
					vals := map[ssa.Value]Value{}
					for _, in := range to.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						vals[ph] = ex.val(it, ph.Edges[pi])
					}
					for a, v := range vals {
						it.env[a] = v
					}
					it.b = to
					return it
				}
				k++
			}
		}
	}
	return ex.jump(it, to)
}

// step executes an instruction without control flow; false ends the path.
func (ex *Exec) step(it *item, in ssa.Instruction) bool {
	st := it.st
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		it.env[x] = ex.alloc(st, t, x.Comment, zeroVal(t))
	case *ssa.BinOp:
		r := ex.binary(it, x)
		if r == nil {
			return false
		}
		it.env[x] = r
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := ex.val(it, x.X).(*PtrV)
			if !ex.safe(st, "nil pointer dereference", in, Not(p.nilT)) || p.obj == nil {
				return false
			}
			v := ex.load(st, p)
			if t, ok := v.(*Term); ok && !t.isConst() {
				if t.sort == SBool {
					v = st.simp(t)
				} else {
					v = st.simpI(t)
				}
			}
			it.env[x] = v
		case token.NOT:
			it.env[x] = Not(ex.val(it, x.X).(*Term))
		case token.SUB:
			it.env[x] = ex.arith(st, x.Type(), Neg(ex.val(it, x.X).(*Term)))
		case token.XOR:
			it.env[x] = ex.arith(st, x.Type(), Sub(TInt(-1), ex.val(it, x.X).(*Term)))
		default:
			ex.unsupported("operator %s", x)
		}
	case *ssa.ChangeType:
		it.env[x] = retype(ex.val(it, x.X), x.Type())
	case *ssa.ChangeInterface:
		v := ex.val(it, x.X).(*IfaceV)
		it.env[x] = &IfaceV{typ: v.typ, val: v.val, sym: v.sym, st: v.st}
	case *ssa.Convert:
		v := ex.convert(it, x)
		if v == nil {
			return false
		}
		it.env[x] = v
	case *ssa.MakeInterface:
		it.env[x] = &IfaceV{typ: x.X.Type(), val: ex.val(it, x.X), st: x.Type()}
	case *ssa.MakeClosure:
		var free []Value
		for _, b := range x.Bindings {
			free = append(free, ex.val(it, b))
		}
		it.env[x] = &FuncV{fn: x.Fn.(*ssa.Function), free: free, nilT: TFalse}
	case *ssa.MakeMap:
		o := newObj(x.Type(), "map", &MapData{}, true)
		st.heap[o] = &MapData{}
		it.env[x] = &MapV{obj: o, T: under(x.Type()).(*types.Map)}
	case *ssa.MakeSlice:
		n := ex.val(it, x.Len).(*Term)
		elem := under(x.Type()).(*types.Slice).Elem()
		if k, ok := n.intConst(); ok && k <= 4096 {
			if isByte(elem) {
				it.env[x] = ex.bytesSlice(st, TStr(strings.Repeat("\x00", int(k))))
			} else {
				q := &SeqV{elem: elem}
				if k > 0 {
					vs := []Value{}
					for i := int64(0); i < k; i++ {
						vs = append(vs, zeroVal(elem))
					}
					q.segs = []Seg{{vals: vs}}
				}
				it.env[x] = ex.newSlice(st, elem, q)
			}
		} else {
			if !ex.safe(st, "makeslice: length out of range", in, Le(TInt(0), n)) {
				return false
			}
			ex.unsupported("make of unknown length")
		}
	case *ssa.MapUpdate:
		m := ex.val(it, x.Map).(*MapV)
		if m.nil {
			ex.safe(st, "assignment to entry in nil map", in, TFalse)
			return false
		}
		ex.mapSet(st, m, ex.val(it, x.Key), ex.val(it, x.Value))
	case *ssa.Extract:
		t := ex.val(it, x.Tuple).(TupleV)
		v := t[x.Index]
		if tt, ok := v.(*Term); ok && !tt.isConst() {
			if tt.sort == SBool {
				v = st.simp(tt)
			} else {
				v = st.simpI(tt)
			}
		}
		it.env[x] = v
	case *ssa.Field:
		s, ok := ex.val(it, x.X).(*StructV)
		if !ok {
			ex.unsupported("field of %T", ex.val(it, x.X))
		}
		if _, abs := absOf(s.T); abs {
			ex.unsupported("field of abstract %v", s.T)
		}
		it.env[x] = s.get(x.Field)
	case *ssa.FieldAddr:
		p := ex.val(it, x.X).(*PtrV)
		if !ex.safe(st, "nil pointer dereference", in, Not(p.nilT)) || p.obj == nil {
			return false
		}
		if _, abs := absOf(p.elem); abs {
			ex.unsupported("field of abstract %v", p.elem)
		}
		ft := under(p.elem).(*types.Struct).Field(x.Field).Type()
		it.env[x] = &PtrV{elem: ft, nilT: TFalse, obj: p.obj, path: append(append([]PathElem{}, p.path...), PathElem{field: x.Field})}
	case *ssa.IndexAddr:
		i := ex.val(it, x.Index).(*Term)
		switch c := ex.val(it, x.X).(type) {
		case *SliceV:
			if !ex.safe(st, "index out of range", in, And(Le(TInt(0), i), Lt(i, c.n))) || c.obj == nil {
				return false
			}
			it.env[x] = &PtrV{elem: c.elem, nilT: TFalse, obj: c.obj, path: []PathElem{{idx: Add(c.off, i)}}}
		case *PtrV: // pointer to array
			if !ex.safe(st, "nil pointer dereference", in, Not(c.nilT)) || c.obj == nil {
				return false
			}
			at := under(c.elem).(*types.Array)
			if !ex.safe(st, "index out of range", in, And(Le(TInt(0), i), Lt(i, TInt(at.Len())))) {
				return false
			}
			it.env[x] = &PtrV{elem: at.Elem(), nilT: TFalse, obj: c.obj, path: append(append([]PathElem{}, c.path...), PathElem{idx: i})}
		default:
			ex.unsupported("index of %T", c)
		}
	case *ssa.Index:
		i := ex.val(it, x.Index).(*Term)
		switch c := ex.val(it, x.X).(type) {
		case *SeqV:
			if !ex.safe(st, "index out of range", in, And(Le(TInt(0), i), Lt(i, c.length()))) {
				return false
			}
			v := c.at(i, func(t *Term) int { return ex.decide(st, t) })
			if v == nil {
				ex.unsupported("array element")
			}
			it.env[x] = v
		case *Term:
			if !ex.safe(st, "index out of range", in, And(Le(TInt(0), i), Lt(i, Len(c)))) {
				return false
			}
			it.env[x] = byteAt(c, i)
		default:
			ex.unsupported("index of %T", c)
		}
	case *ssa.Lookup: // string
		s := ex.val(it, x.X).(*Term)
		i := ex.val(it, x.Index).(*Term)
		if !ex.safe(st, "index out of range", in, And(Le(TInt(0), i), Lt(i, Len(s)))) {
			return false
		}
		it.env[x] = byteAt(s, i)
	case *ssa.Slice:
		return ex.slice(it, x)
	case *ssa.Store:
		p := ex.val(it, x.Addr).(*PtrV)
		if !ex.safe(st, "nil pointer dereference", in, Not(p.nilT)) || p.obj == nil {
			return false
		}
		ex.store(st, p, ex.val(it, x.Val))
	case *ssa.Range:
		switch c := ex.val(it, x.X).(type) {
		case *MapV:
			if c.nil {
				it.env[x] = &IterV{m: &MapData{}}
				return true
			}
			if c.obj == nil {
				ex.unsupported("range over an unknown map")
			}
			d := ex.objVal(st, c.obj).(*MapData)
			it.env[x] = ex.newIter(st, d)
		case *Term:
			s, ok := c.strConst()
			if !ok {
				ex.unsupported("range over an unknown string")
			}
			d := &MapData{}
			for i, r := range s {
				d.keys = append(d.keys, TInt(int64(i)))
				d.vals = append(d.vals, TInt(int64(r)))
			}
			it.env[x] = ex.newIter(st, d)
		default:
			ex.unsupported("range over %T", c)
		}
	case *ssa.Next:
		v := ex.val(it, x.Iter).(*PtrV)
		iv := st.heap[v.obj].(*IterV)
		tt := x.Type().(*types.Tuple)
		if iv.i >= len(iv.m.keys) {
			it.env[x] = TupleV{TFalse, safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())}
		} else {
			it.env[x] = TupleV{TTrue, iv.m.keys[iv.i], iv.m.vals[iv.i]}
			st.heap[v.obj] = &IterV{m: iv.m, i: iv.i + 1}
		}
	default:
		ex.unsupported("instruction %T", in)
	}
	return true
}

func (ex *Exec) newIter(st *State, d *MapData) *PtrV {
	o := newObj(types.Typ[types.Int], "iter", nil, true)
	st.heap[o] = &IterV{m: d}
	return &PtrV{elem: types.Typ[types.Int], nilT: TFalse, obj: o}
}

func safeZero(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zeroVal(t)
}

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		n := *x
		// field names may be the same; keep the origin only if filled lazily
		if x.org != nil || x.zero {
			m := newStruct(t, x.org, x.zero)
			copy(m.F, x.F)
			return m
		}
		n.T = t
		return &n
	case *SliceV:
		n := *x
		n.elem = under(t).(*types.Slice).Elem()
		return &n
	case *PtrV:
		n := *x
		n.elem = under(t).(*types.Pointer).Elem()
		return &n
	case *MapV:
		n := *x
		return &n
	}
	return v
}

func termBounds(st *State, t *Term) (lo, hi *big.Int) {
	if t.isConst() {
		return t.ival, t.ival
	}
	upd := func(a *Term) {
		if a.op != OLe {
			return
		}
		if a.args[1] == t && a.args[0].isConst() && (lo == nil || a.args[0].ival.Cmp(lo) > 0) {
			lo = a.args[0].ival
		}
		if a.args[0] == t && a.args[1].isConst() && (hi == nil || a.args[1].ival.Cmp(hi) < 0) {
			hi = a.args[1].ival
		}
	}
	for _, a := range t.axioms {
		if a.op == OAnd {
			for _, b := range a.args {
				upd(b)
			}
		}
		upd(a)
	}
	switch t.op {
	case OLen:
		lo, hi = big.NewInt(0), maxLen
	case OIndexOf:
		lo, hi = big.NewInt(-1), maxLen
	case OIte:
		l1, h1 := termBounds(st, t.args[1])
		l2, h2 := termBounds(st, t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
	case OAdd:
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := termBounds(st, a)
			if l == nil {
				lo = nil
			}
			if h == nil {
				hi = nil
			}
			if lo != nil {
				lo = new(big.Int).Add(lo, l)
			}
			if hi != nil {
				hi = new(big.Int).Add(hi, h)
			}
		}
	case OMul:
		if t.args[0].isConst() && len(t.args) == 2 {
			l, h := termBounds(st, t.args[1])
			if l != nil && h != nil {
				a, b := new(big.Int).Mul(t.args[0].ival, l), new(big.Int).Mul(t.args[0].ival, h)
				if a.Cmp(b) > 0 {
					a, b = b, a
				}
				lo, hi = a, b
			}
		}
	case OMod:
		if c := t.args[1]; c.isConst() {
			m := new(big.Int).Sub(new(big.Int).Abs(c.ival), big.NewInt(1))
			lo, hi = new(big.Int).Neg(m), m
		}
	}
	return
}

// arith wraps the mathematical result r to the range of type t.
func (ex *Exec) arith(st *State, t types.Type, r *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok || r.sort != SInt {
		return r
	}
	if r.isConst() {
		return TBig(wrapBig(r.ival, lo, hi))
	}
	l, h := termBounds(st, r)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	in := And(mk(OLe, SBool, "", TBig(lo), r), mk(OLe, SBool, "", r, TBig(hi)))
	if ex.pure == 0 {
		if st.certain(in) {
			return r
		}
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	// results of sums and differences are off by at most one modulus
	if r.op == OAdd {
		return Ite(Lt(TBig(hi), r), Sub(r, TBig(m)), Ite(Lt(r, TBig(lo)), Add(r, TBig(m)), r))
	}
	return Ite(in, r, App("wrap:"+t.String(), SInt, r))
}

func wrapBig(v, lo, hi *big.Int) *big.Int {
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	r := new(big.Int).Sub(v, lo)
	r.Mod(r, m)
	return r.Add(r, lo)
}

func (ex *Exec) binary(it *item, x *ssa.BinOp) Value {
	st := it.st
	a, b := ex.val(it, x.X), ex.val(it, x.Y)
	switch x.Op {
	case token.EQL:
		return ex.equal(st, a, b)
	case token.NEQ:
		return Not(ex.equal(st, a, b))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		ex.unsupported("operator %v on %T", x.Op, a)
	}
	t := x.Type()
	switch x.Op {
	case token.ADD:
		if p.sort == SStr {
			return Concat(p, q)
		}
		if ph, ok := x.X.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
			return Add(p, q)
		}
		return ex.arith(st, t, Add(p, q))
	case token.SUB:
		return ex.arith(st, t, Sub(p, q))
	case token.MUL:
		return ex.arith(st, t, Mul(p, q))
	case token.QUO, token.REM:
		if p.sort == SReal {
			if q.isConst() && q.rval.Sign() != 0 {
				return Mul(TReal(new(big.Rat).Inv(q.rval)), p)
			}
			return App("real/", SReal, p, q)
		}
		if !ex.safe(st, "integer division by zero", x, Not(Eq(q, TInt(0)))) {
			return nil
		}
		if x.Op == token.QUO {
			return ex.arith(st, t, DivT(p, q))
		}
		return ModT(p, q)
	case token.LSS, token.GTR:
		if x.Op == token.GTR {
			p, q = q, p
		}
		if p.sort == SStr {
			return StrLt(p, q)
		}
		return Lt(p, q)
	case token.LEQ, token.GEQ:
		if x.Op == token.GEQ {
			p, q = q, p
		}
		if p.sort == SStr {
			return Not(StrLt(q, p))
		}
		return Le(p, q)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if p.isConst() && q.isConst() {
			r := new(big.Int)
			switch x.Op {
			case token.AND:
				r.And(p.ival, q.ival)
			case token.OR:
				r.Or(p.ival, q.ival)
			case token.XOR:
				r.Xor(p.ival, q.ival)
			case token.AND_NOT:
				r.AndNot(p.ival, q.ival)
			case token.SHL:
				r.Lsh(p.ival, uint(q.ival.Uint64()))
			case token.SHR:
				r.Rsh(p.ival, uint(q.ival.Uint64()))
			}
			return ex.arith(st, t, TBig(r))
		}
		r := withRange(t, App("bits"+x.Op.String(), SInt, p, q))
		return r
	}
	ex.unsupported("operator %v", x.Op)
	return nil
}

// equal is Go's == on two values.
func (ex *Exec) equal(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, ex.equal(st, x.get(i), y.get(i)))
		}
		return And(cs...)
	case *SeqV:
		return ex.deepEq(st, a, b)
	case *PtrV:
		y := b.(*PtrV)
		if y.nilT == TTrue {
			return x.nilT
		}
		if x.nilT == TTrue {
			return y.nilT
		}
		if x.obj != nil && x.obj.stale || y.obj != nil && y.obj.stale {
			ex.unsupported("use of a pointer which a loop moves between objects")
		}
		if x.obj == y.obj && pathEq(x.path, y.path) {
			return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT)))
		}
		return And(x.nilT, y.nilT)
	case *SliceV:
		if y := b.(*SliceV); y.nilT == TTrue {
			return x.nilT
		} else if x.nilT == TTrue {
			return y.nilT
		}
	case *MapV:
		if y := b.(*MapV); y.nil {
			return ex.mapNil(x)
		} else if x.nil {
			return ex.mapNil(y)
		}
	case *FuncV:
		if y := b.(*FuncV); y.nilT == TTrue {
			return x.nilT
		} else if x.nilT == TTrue {
			return y.nilT
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok { // comparison with a concrete value
			return ex.deepEq(st, a, b)
		}
		if y.typ == nil && y.sym == nil {
			return x.isNil()
		}
		if x.typ == nil && x.sym == nil {
			return y.isNil()
		}
		if x.typ != nil && y.typ != nil {
			if !types.Identical(x.typ, y.typ) {
				return TFalse
			}
			return ex.equal(st, x.val, y.val)
		}
		if x.sym != nil && y.sym != nil && originEq(x.sym, y.sym) {
			return TTrue
		}
		if x.typ != nil && x.sym == nil {
			x, y = y, x
		}
		if y.typ != nil { // x unknown, y known
			return And(Eq(x.tag(), y.tag()), ex.equal(st, ex.ifaceVal(x, y.typ), y.val))
		}
		return ifaceEq("ifaceeq:", x, y)
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		if ok && valSame(x, y) {
			return TTrue
		}
		if ok && x.kind == "rtype" && y.kind == "rtype" {
			return TBool(types.Identical(x.data.(types.Type), y.data.(types.Type)))
		}
	}
	ex.unsupported("comparison of %T", a)
	return nil
}

// ifaceEq: two unknown interface values are equal.
func ifaceEq(kind string, x, y *IfaceV) *Term {
	if x.sym.path > y.sym.path {
		x, y = y, x
	}
	return Or(originSame(x.sym, y.sym), And(Eq(x.tag(), y.tag()), App(kind+x.sym.path+":"+y.sym.path, SBool, append(append([]*Term{}, x.sym.args...), y.sym.args...)...)))
}

func (ex *Exec) mapNil(m *MapV) *Term {
	if m.nil {
		return TTrue
	}
	if m.org != nil {
		return m.org.term("?nil", SBool)
	}
	return TFalse
}

// ifaceVal is the value of an unknown interface if it holds type t.
func (ex *Exec) ifaceVal(v *IfaceV, t types.Type) Value {
	if v.sym == nil {
		return v.val
	}
	return symVal(t, v.sym.sub("!"+types.TypeString(t, nil)))
}

func (ex *Exec) typeAssert(it *item, x *ssa.TypeAssert) []Outcome {
	st := it.st
	v := ex.val(it, x.X).(*IfaceV)
	t := x.AssertedType
	var cond *Term
	var val Value
	if types.IsInterface(t) {
		val = &IfaceV{typ: v.typ, val: v.val, sym: v.sym, st: t}
		switch {
		case v.typ == nil && v.sym == nil:
			cond = TFalse
		case v.typ != nil:
			cond = TBool(types.Implements(v.typ, under(t).(*types.Interface)))
		case v.st != nil && types.Implements(v.st, under(t).(*types.Interface)):
			cond = Not(v.isNil())
		default:
			cond = And(Not(v.isNil()), App("implements:"+types.TypeString(t, nil), SBool, v.tag()))
		}
	} else {
		switch {
		case v.typ == nil && v.sym == nil:
			cond = TFalse
		case v.typ != nil:
			cond = TBool(types.Identical(v.typ, t))
			if cond == TTrue {
				val = v.val
			}
		default:
			cond = Eq(v.tag(), typeTag(t))
			val = ex.ifaceVal(v, t)
		}
	}
	if !x.CommaOk {
		if !ex.safe(st, "type assertion to "+types.TypeString(t, nil), x, cond) || val == nil {
			return nil
		}
		return []Outcome{{st, val}}
	}
	if val == nil {
		val = zeroVal(t)
	}
	c := st.simp(cond)
	ct, cf := ex.split(st, c)
	var outs []Outcome
	if ct {
		s := st
		if cf {
			s = st.clone()
		}
		s.assume(c)
		if !s.dead {
			outs = append(outs, Outcome{s, TupleV{val, TTrue}})
		}
	}
	if cf {
		s := st
		s.assume(Not(c))
		if !s.dead {
			outs = append(outs, Outcome{s, TupleV{zeroVal(t), TFalse}})
		}
	}
	return outs
}

func (ex *Exec) convert(it *item, x *ssa.Convert) Value {
	st := it.st
	v := ex.val(it, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		lo, hi, _ := intRange(x.Type())
		if t.isConst() {
			return TBig(wrapBig(t.ival, lo, hi))
		}
		flo, fhi, _ := intRange(x.X.Type())
		if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return t
		}
		l, h := termBounds(st, t)
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			return t
		}
		in := And(mk(OLe, SBool, "", TBig(lo), t), mk(OLe, SBool, "", t, TBig(hi)))
		if ex.pure == 0 && st.certain(in) {
			return t
		}
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		if new(big.Int).Sub(fhi, flo).Cmp(m) < 0 { // same width
			return Ite(Lt(TBig(hi), t), Sub(t, TBig(m)), Ite(Lt(t, TBig(lo)), Add(t, TBig(m)), t))
		}
		return Ite(in, t, withRange(x.Type(), App("wrap:"+x.Type().String(), SInt, t)))
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		return ex.bytesSlice(st, v.(*Term))
	case tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return ex.sliceBytes(st, v.(*SliceV))
	case tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		if c, ok := v.(*Term).intConst(); ok {
			return TStr(string(rune(c)))
		}
		return App("runestr", SStr, v.(*Term))
	case fb != nil && tb != nil && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsFloat != 0:
		t := v.(*Term)
		if t.sort == SInt {
			if t.isConst() {
				return ToReal(t)
			}
			return App("float:"+tb.Name(), SReal, t) // rounding unknown
		}
		return t
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return withRange(x.Type(), App("trunc:"+x.Type().String(), SInt, v.(*Term)))
	}
	if _, ok := from.(*types.Pointer); ok {
		if _, ok := to.(*types.Pointer); ok {
			return retype(v, x.Type())
		}
	}
	ex.unsupported("conversion %v to %v", x.X.Type(), x.Type())
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (ex *Exec) slice(it *item, x *ssa.Slice) bool {
	st := it.st
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.val(it, v).(*Term)
	}
	lo, hi := get(x.Low), get(x.High)
	if lo == nil {
		lo = TInt(0)
	}
	switch c := ex.val(it, x.X).(type) {
	case *Term:
		if hi == nil {
			hi = Len(c)
		}
		if !ex.safe(st, "slice bounds out of range", x, And(Le(TInt(0), lo), Le(lo, hi), Le(hi, Len(c)))) {
			return false
		}
		it.env[x] = Substr(c, lo, Sub(hi, lo))
	case *SliceV:
		if hi == nil {
			hi = c.n
		}
		max := c.n
		if c.capT != nil {
			max = c.capT
		}
		if !ex.safe(st, "slice bounds out of range", x, And(Le(TInt(0), lo), Le(lo, hi), Le(hi, max))) {
			return false
		}
		if c.obj != nil && hi != c.n && ex.decide(st, Le(hi, c.n)) != 1 {
			ex.unsupported("slice beyond length")
		}
		var cp *Term
		if c.capT != nil {
			cp = Sub(c.capT, lo)
		}
		nilT := c.nilT
		it.env[x] = &SliceV{elem: c.elem, nilT: nilT, obj: c.obj, off: Add(c.off, lo), n: Sub(hi, lo), capT: cp}
	case *PtrV:
		if !ex.safe(st, "nil pointer dereference", x, Not(c.nilT)) || c.obj == nil {
			return false
		}
		at := under(c.elem).(*types.Array)
		if hi == nil {
			hi = TInt(at.Len())
		}
		if !ex.safe(st, "slice bounds out of range", x, And(Le(TInt(0), lo), Le(lo, hi), Le(hi, TInt(at.Len())))) {
			return false
		}
		if len(c.path) > 0 {
			// a slice of an array inside another object: only read
			q := ex.load(st, c).(*SeqV)
			s := ex.newSlice(st, at.Elem(), q)
			s.off, s.n = lo, Sub(hi, lo)
			it.env[x] = s
			return true
		}
		it.env[x] = &SliceV{elem: at.Elem(), nilT: TFalse, obj: c.obj, off: lo, n: Sub(hi, lo), capT: Sub(TInt(at.Len()), lo)}
	default:
		ex.unsupported("slice of %T", c)
	}
	return true
}

// ---- maps

func (ex *Exec) mapSet(st *State, m *MapV, k, v Value) {
	if m.obj == nil {
		ex.unsupported("update of an unknown map")
	}
	d := ex.objVal(st, m.obj).(*MapData)
	n := &MapData{keys: append([]Value{}, d.keys...), vals: append([]Value{}, d.vals...)}
	for i, kk := range n.keys {
		c := st.simp(ex.equal(st, kk, k))
		if c == TTrue {
			n.vals[i] = v
			st.heap[m.obj] = n
			return
		}
		if c != TFalse {
			ex.unsupported("update of a map at an unknown key")
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	st.heap[m.obj] = n
}

func (ex *Exec) mapGet(st *State, m *MapV, k Value, elem types.Type) []Outcome {
	found := func(s *State, v Value, ok *Term) Outcome { return Outcome{s, TupleV{v, ok}} }
	if m.nil {
		return []Outcome{found(st, zeroVal(elem), TFalse)}
	}
	if m.obj == nil {
		kt, ok := k.(*Term)
		if !ok {
			ex.unsupported("key of an unknown map")
		}
		okT := m.org.at("?has", kt).term("", SBool)
		v := symVal(elem, m.org.at("[k]", kt))
		if z, ok := mergeVal(okT, v, zeroVal(elem)); ok {
			return []Outcome{found(st, z, okT)}
		}
		s2 := st.clone()
		st.assume(okT)
		s2.assume(Not(okT))
		return []Outcome{found(st, v, TTrue), found(s2, zeroVal(elem), TFalse)}
	}
	d := ex.objVal(st, m.obj).(*MapData)
	var outs []Outcome
	var mv Value = zeroVal(elem)
	mok := TFalse
	mergeable := true
	type cv struct {
		c *Term
		v Value
	}
	var cases []cv
	for i := range d.keys {
		c := st.simp(ex.equal(st, d.keys[i], k))
		if c == TTrue {
			return []Outcome{found(st, d.vals[i], TTrue)}
		}
		if c == TFalse {
			continue
		}
		cases = append(cases, cv{c, d.vals[i]})
	}
	if len(cases) == 0 {
		return []Outcome{found(st, zeroVal(elem), TFalse)}
	}
	for i := len(cases) - 1; i >= 0 && mergeable; i-- {
		m, ok := mergeVal(cases[i].c, cases[i].v, mv)
		if !ok {
			mergeable = false
			break
		}
		mv = m
		mok = Or(mok, cases[i].c)
	}
	if mergeable {
		return []Outcome{found(st, mv, mok)}
	}
	// one path per key
	rest := st
	for _, c := range cases {
		ct, cf := ex.split(rest, c.c)
		if !ct {
			continue
		}
		s := rest
		if cf {
			s = rest.clone()
		}
		s.assume(c.c)
		outs = append(outs, found(s, c.v, TTrue))
		if !cf {
			return outs
		}
		rest.assume(Not(c.c))
	}
	return append(outs, found(rest, zeroVal(elem), TFalse))
}

func (ex *Exec) lookup(it *item, x *ssa.Lookup) []Outcome {
	m := ex.val(it, x.X).(*MapV)
	elem := under(x.X.Type()).(*types.Map).Elem()
	outs := ex.mapGet(it.st, m, ex.val(it, x.Index), elem)
	if !x.CommaOk {
		for i := range outs {
			outs[i].res = outs[i].res.(TupleV)[0]
		}
	}
	return outs
}

// ---- merging of states

// mergeCond finds the condition which tells two states apart.
func mergeCond(a, b *State) (c *Term, pc []*Term, ok bool) {
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	in := map[*Term]bool{}
	for _, t := range a.pc[k:] {
		in[t] = true
	}
	var common, ra, rb []*Term
	cm := map[*Term]bool{}
	for _, t := range b.pc[k:] {
		if in[t] {
			common = append(common, t)
			cm[t] = true
		} else {
			rb = append(rb, t)
		}
	}
	for _, t := range a.pc[k:] {
		if !cm[t] {
			ra = append(ra, t)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return nil, nil, false
	}
	x, y := And(ra...), And(rb...)
	if x == y {
		return nil, nil, false
	}
	pc = append(append([]*Term{}, a.pc[:k]...), common...)
	if o := Or(x, y); o != TTrue {
		pc = append(pc, o)
	}
	// the shorter side makes the simpler condition
	return x, pc, true
}

type merger struct {
	ex   *Exec
	a, b *State
	c    *Term
	add  map[*Obj]Value
}

func (m *merger) val(x, y Value) (Value, bool) {
	if x == nil && y == nil {
		return nil, true
	}
	if x == nil || y == nil {
		return nil, false
	}
	saved := mergeSliceHook
	mergeSliceHook = m.slices
	defer func() { mergeSliceHook = saved }()
	return mergeVal(m.c, x, y)
}

func (m *merger) slices(x, y *SliceV) (Value, bool) {
	get := func(st *State, s *SliceV) (q *SeqV, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupportedErr); is {
					q, ok = nil, false
					return
				}
				panic(r)
			}
		}()
		return m.ex.sliceSeq(st, s), true
	}
	p, ok1 := get(m.a, x)
	q, ok2 := get(m.b, y)
	if !ok1 || !ok2 {
		return nil, false
	}
	if isByte(x.elem) {
		s, o1 := p.bytesOf()
		t, o2 := q.bytesOf()
		if !o1 || !o2 {
			return nil, false
		}
		u := Ite(m.c, s, t)
		return m.fresh(x.elem, &SeqV{elem: x.elem, segs: []Seg{{str: u, off: TInt(0), n: Len(u)}}}, Ite(m.c, x.nilT, y.nilT)), true
	}
	if p.length() == TInt(0) && q.length() == TInt(0) {
		return m.fresh(x.elem, &SeqV{elem: x.elem}, Ite(m.c, x.nilT, y.nilT)), true
	}
	v, ok := mergeVal(m.c, p, q)
	if !ok {
		return nil, false
	}
	return m.fresh(x.elem, v.(*SeqV), Ite(m.c, x.nilT, y.nilT)), true
}

func (m *merger) fresh(elem types.Type, q *SeqV, nilT *Term) *SliceV {
	o := newObj(types.NewSlice(elem), "slice", q, true)
	if m.add == nil {
		m.add = map[*Obj]Value{}
	}
	m.add[o] = q
	n := q.length()
	return &SliceV{elem: elem, nilT: nilT, obj: o, off: TInt(0), n: n, capT: nil}
}

func (m *merger) states(pc []*Term) (*State, bool) {
	st := newState()
	// values first: they may fail
	for o, v := range m.a.heap {
		w, ok := m.b.heap[o]
		if !ok {
			if o.fresh && m.a.made(o) && !m.b.made(o) {
				st.heap[o] = v
				continue
			}
			w = m.ex.objVal(m.b, o)
		}
		if w == v {
			st.heap[o] = v
			continue
		}
		x, ok := m.heapVal(v, w)
		if !ok || m.stages(o, v, w) {
			return nil, false
		}
		st.heap[o] = x
	}
	for o, w := range m.b.heap {
		if _, ok := m.a.heap[o]; ok {
			continue
		}
		if o.fresh {
			st.heap[o] = w
			continue
		}
		if m.stages(o, m.ex.objVal(m.a, o), w) {
			return nil, false
		}
		x, ok := m.heapVal(m.ex.objVal(m.a, o), w)
		if !ok {
			return nil, false
		}
		st.heap[o] = x
	}
	for o, v := range m.add {
		st.heap[o] = v
	}
	for _, t := range pc {
		st.assume(t)
	}
	st.n = m.a.n
	if m.b.n > st.n {
		st.n = m.b.n
	}
	st.mark = m.a.mark
	if m.b.mark > st.mark {
		st.mark = m.b.mark
	}
	st.trace = m.a.trace
	if m.b.trace != m.a.trace {
		st.trace = &traceNode{m.a.trace, "(merged with another path)", m.b.trace}
	}
	return st, true
}

// stages: different known values of a ghost variable which counts the stages
// of an automaton. Such paths are kept apart.
func (m *merger) stages(o *Obj, v, w Value) bool {
	if o.global == nil || !strings.HasSuffix(o.global.Name(), "Stage") {
		return false
	}
	a, ok1 := v.(*Term)
	b, ok2 := w.(*Term)
	return ok1 && ok2 && a != b && m.ex.isGhost(o.global)
}

func (m *merger) heapVal(v, w Value) (Value, bool) {
	switch x := v.(type) {
	case *MapData:
		if valSame(v, w) {
			return v, true
		}
		y := w.(*MapData)
		if len(x.keys) != len(y.keys) {
			return nil, false
		}
		n := &MapData{}
		for i := range x.keys {
			if !valSame(x.keys[i], y.keys[i]) {
				return nil, false
			}
			z, ok := m.val(x.vals[i], y.vals[i])
			if !ok {
				return nil, false
			}
			n.keys = append(n.keys, x.keys[i])
			n.vals = append(n.vals, z)
		}
		return n, true
	case *IterV:
		y := w.(*IterV)
		return v, x.i == y.i && x.m == y.m
	}
	return m.val(v, w)
}

func (st *State) made(o *Obj) bool { _, ok := st.heap[o]; return ok }

// ---- structural equality

// deepEq is equality of contents: slices by their elements, pointers by what
// they point to.
func (ex *Exec) deepEq(st *State, a, b Value) *Term { return ex.deepEq2(st, st, a, b, 0) }

func (ex *Exec) deepEq2(sa, sb *State, a, b Value, depth int) *Term {
	if depth > 24 {
		ex.unsupported("comparison too deep")
	}
	if sa == sb && valSame(a, b) {
		return TTrue
	}
	rec := func(x, y Value) *Term { return ex.deepEq2(sa, sb, x, y, depth+1) }
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return TFalse
		}
		if sa == sb && sameOrigin(x, y) {
			return TTrue
		}
		var cs []*Term
		for i := range x.F {
			if x.F[i] == nil && y.F[i] == nil && originEq(x.org, y.org) && x.zero == y.zero && sa == sb {
				continue
			}
			c := rec(x.get(i), y.get(i))
			if c == TFalse {
				return c
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case *SeqV:
		return ex.seqEq(sa, sb, x, b.(*SeqV), depth)
	case *PtrV:
		y := b.(*PtrV)
		if x.nilT == TTrue {
			return y.nilT
		}
		if y.nilT == TTrue {
			return x.nilT
		}
		if x.obj == y.obj && pathEq(x.path, y.path) && (sa == sb || valSame(ex.objVal(sa, x.obj), ex.objVal(sb, y.obj))) {
			return Eq(x.nilT, y.nilT)
		}
		return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT), rec(ex.load(sa, x), ex.load(sb, y))))
	case *SliceV:
		y := b.(*SliceV)
		return ex.seqEq(sa, sb, ex.sliceSeq(sa, x), ex.sliceSeq(sb, y), depth)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return TFalse
		}
		if x.typ == nil && x.sym == nil {
			return y.isNil()
		}
		if y.typ == nil && y.sym == nil {
			return x.isNil()
		}
		if x.typ != nil && y.typ != nil {
			if !types.Identical(x.typ, y.typ) {
				return TFalse
			}
			return rec(x.val, y.val)
		}
		if x.sym != nil && y.sym != nil {
			if originEq(x.sym, y.sym) {
				return TTrue
			}
			return ifaceEq("ifacesame:", x, y)
		}
		if x.sym == nil {
			x, y = y, x
		}
		return And(Eq(x.tag(), y.tag()), rec(ex.ifaceVal(x, y.typ), y.val))
	case *MapV:
		y := b.(*MapV)
		if x.nil || y.nil {
			return Eq(ex.mapNil(x), ex.mapNil(y))
		}
		if x.obj != nil && y.obj != nil {
			d, e := ex.objVal(sa, x.obj).(*MapData), ex.objVal(sb, y.obj).(*MapData)
			if len(d.keys) != len(e.keys) {
				return TFalse
			}
			var cs []*Term
			for i, k := range d.keys {
				hit := false
				for j, l := range e.keys {
					if valSame(k, l) {
						cs = append(cs, rec(d.vals[i], e.vals[j]))
						hit = true
					}
				}
				if !hit {
					return TFalse
				}
			}
			return And(cs...)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.nilT == TTrue {
				return y.nilT
			}
			if y.nilT == TTrue {
				return x.nilT
			}
			if valSame(x, y) {
				return TTrue
			}
			return TFalse
		}
	case *OpaqueV:
		if valSame(a, b) {
			return TTrue
		}
		if y, ok := b.(*OpaqueV); ok && x.kind == "rtype" && y.kind == "rtype" {
			return TBool(types.Identical(x.data.(types.Type), y.data.(types.Type)))
		}
		return TFalse
	case TupleV:
		y := b.(TupleV)
		var cs []*Term
		for i := range x {
			cs = append(cs, rec(x[i], y[i]))
		}
		return And(cs...)
	case nil:
		return TBool(b == nil)
	case *MapData:
		y := b.(*MapData)
		if len(x.keys) != len(y.keys) {
			return TFalse
		}
		var cs []*Term
		for i := range x.keys {
			cs = append(cs, rec(x.keys[i], y.keys[i]), rec(x.vals[i], y.vals[i]))
		}
		return And(cs...)
	}
	ex.unsupported("deep comparison of %T and %T", a, b)
	return nil
}

func (ex *Exec) seqEq(sa, sb *State, p, q *SeqV, depth int) *Term {
	if isByte(p.elem) {
		s, ok1 := p.bytesOf()
		t, ok2 := q.bytesOf()
		if ok1 && ok2 {
			return Eq(s, t)
		}
	}
	// strip equal leading segments
	a, b := append([]Seg{}, p.segs...), append([]Seg{}, q.segs...)
	var cs []*Term
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		if x.vals != nil && y.vals != nil {
			k := len(x.vals)
			if len(y.vals) < k {
				k = len(y.vals)
			}
			for i := 0; i < k; i++ {
				c := ex.deepEq2(sa, sb, x.vals[i], y.vals[i], depth+1)
				if c == TFalse {
					return c
				}
				cs = append(cs, c)
			}
			cut := func(l []Seg, k int) []Seg {
				if len(l[0].vals) == k {
					return l[1:]
				}
				l[0] = Seg{vals: l[0].vals[k:]}
				return l
			}
			a, b = cut(a, k), cut(b, k)
			continue
		}
		if x.vals == nil && y.vals == nil && originEq(x.org, y.org) && x.str == y.str && x.off == y.off {
			if x.n == y.n {
				a, b = a[1:], b[1:]
				continue
			}
			if len(a) == 1 && len(b) == 1 {
				return And(append(cs, Eq(x.n, y.n))...)
			}
		}
		break
	}
	if len(a) == 0 && len(b) == 0 {
		return And(cs...)
	}
	pa, pb := &SeqV{elem: p.elem, segs: a}, &SeqV{elem: p.elem, segs: b}
	n, m := pa.length(), pb.length()
	cs = append(cs, Eq(n, m))
	if len(a) == 0 || len(b) == 0 {
		return And(cs...)
	}
	if len(a) == 1 && len(b) == 1 {
		v := ex.newBound()
		x := pa.at(v, func(*Term) int { return 0 })
		y := pb.at(v, func(*Term) int { return 0 })
		if x != nil && y != nil {
			cs = append(cs, Forall(v, n, ex.deepEq2(sa, sb, x, y, depth+1)))
			return And(cs...)
		}
	}
	ex.unsupported("comparison of sequences")
	return nil
}

var boundSeq int

func (ex *Exec) newBound() *Term {
	boundSeq++
	return BoundVar(fmt.Sprintf("i!%d", boundSeq))
}

func sortedFns(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func parallel(n int, f func(int)) {
	ch := make(chan int)
	done := make(chan bool)
	w := 8
	if n < w {
		w = n
	}
	for i := 0; i < w; i++ {
		go func() {
			for j := range ch {
				f(j)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	for i := 0; i < w; i++ {
		<-done
	}
}

// originSame: the two unknowns are the same one.
func originSame(x, y *Origin) *Term {
	if x.path != y.path || len(x.args) != len(y.args) {
		return TFalse
	}
	c := TTrue
	for i, a := range x.args {
		if a.sort != y.args[i].sort {
			return TFalse
		}
		c = And(c, Eq(a, y.args[i]))
	}
	return c
}
