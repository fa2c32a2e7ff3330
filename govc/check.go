package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- state shared by all functions: the program after initialisation

type Base struct {
	L       *Loaded
	S       *Specs
	heap    map[*Obj]Value
	globals map[*ssa.Global]*Obj
	symGlob map[*ssa.Global]bool
	frames  map[*ssa.Function]*frameInfo
}

func newBase(l *Loaded, s *Specs) (b *Base, err error) {
	b = &Base{L: l, S: s, heap: map[*Obj]Value{}, globals: map[*ssa.Global]*Obj{}, symGlob: map[*ssa.Global]bool{}, frames: map[*ssa.Function]*frameInfo{}}
	ex := newExec(b)
	ex.initMode = true
	st := newState()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("package initialisation: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	initFn := l.pkgs[l.Main.Path()].Members["init"].(*ssa.Function)
	outs := ex.callBody(st, initFn, nil, nil)
	if len(outs) != 1 {
		return nil, fmt.Errorf("package initialisation: %d outcomes", len(outs))
	}
	b.heap = outs[0].st.heap
	b.findMutated()
	return b, nil
}

// findMutated: globals which the code changes after initialisation are unknown
// when a function starts.
func (b *Base) findMutated() {
	for _, p := range b.L.pkgs {
		for _, fn := range allFuncs(b.L.Prog, p) {
			if b.L.isSpec(fn) || fn.Name() == "init" && fn.Parent() == nil || len(fn.Blocks) == 0 {
				continue
			}
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || !b.L.isLocal(g.Pkg) {
							continue
						}
						if !b.writesIn(in, g, true, map[ssa.Value]bool{}) {
							continue
						}
						b.symGlob[g] = true
					}
				}
			}
		}
	}
}

// writesThrough tells whether the code may write what v, an address or a value
// holding addresses, leads to; if strict also when v gets out of sight.
func (b *Base) writesThrough(v ssa.Value, strict bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return strict
	}
	for _, r := range *v.Referrers() {
		if b.writesIn(r, v, strict, seen) {
			return true
		}
	}
	return false
}

func (b *Base) writesIn(in ssa.Instruction, v ssa.Value, strict bool, seen map[ssa.Value]bool) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.BinOp, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Field, *ssa.Extract:
		return false
	case *ssa.UnOp:
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return b.writesThrough(x, false, seen)
		}
		return false
	case *ssa.FieldAddr:
		return b.writesThrough(x, strict, seen)
	case *ssa.IndexAddr:
		return x.X == v && b.writesThrough(x, strict, seen)
	case *ssa.Slice:
		return x.X == v && b.writesThrough(x, strict, seen)
	case *ssa.Phi:
		return b.writesThrough(x, strict, seen)
	case *ssa.Store:
		return x.Addr == v || strict
	case *ssa.MapUpdate:
		return x.Map == v || strict
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap":
				return false
			case "copy", "delete", "clear":
				return len(x.Call.Args) > 0 && x.Call.Args[0] == v
			}
			return strict
		}
		fn := x.Call.StaticCallee()
		if fn == nil || len(fn.Params) != len(x.Call.Args) {
			return strict
		}
		if readOnlyFns[fn.String()] {
			return false
		}
		if fn.Pkg == nil || !b.L.isLocal(fn.Pkg) || len(fn.Blocks) == 0 {
			return strict
		}
		for i, a := range x.Call.Args {
			if a == v && b.writesThrough(fn.Params[i], strict, seen) {
				return true
			}
		}
		return false
	}
	return strict
}

// readOnlyFns do not write what their arguments hold.
var readOnlyFns = map[string]bool{"strings.Join": true, "sort.SearchStrings": true, "fmt.Sprint": true}

func allFuncs(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, n := range sortedKeys(p.Members) {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn != nil && fn.Synthetic == "" {
						add(fn)
					}
				}
			}
		}
	}
	return out
}

func newExec(b *Base) *Exec {
	ex := &Exec{L: b.L, base: map[*Obj]Value{}, globals: map[*ssa.Global]*Obj{}, symGlob: b.symGlob, specs: b.S,
		used: map[string]bool{}, unknown: map[string]bool{}, inlined: map[string]bool{}, modular: map[*ssa.Function]bool{}, frames: b.frames}
	var buf []*Obligation
	ex.buf = &buf
	for o, v := range b.heap {
		ex.base[o] = v
	}
	ex.globals = b.globals
	return ex
}

// ---- verifying one function

type FnReport struct {
	Name        string
	Pos         string
	Unsupported string
	Obls        []*Obligation
	Outcomes    int
	Vacuous     bool
	Contracts   []string
	ex          *Exec
	Dur         time.Duration
}

func (b *Base) verify(target string, fn *ssa.Function, limit time.Duration) (rep *FnReport) {
	t0 := time.Now()
	epoch++
	ex := newExec(b)
	rep = &FnReport{Name: target, ex: ex}
	defer func() {
		rep.Dur = time.Since(t0)
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				rep.Unsupported = u.msg
				rep.Obls = *ex.buf
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				debug.PrintStack()
			}
			rep.Unsupported = fmt.Sprintf("internal error: %v", r) + ex.where()
			rep.Obls = *ex.buf
		}
	}()
	if fn == nil {
		rep.Unsupported = "the function under contract is gone"
		return
	}
	rep.Pos = ex.pos(fn.Pos())
	if fn.Blocks == nil {
		rep.Unsupported = "no body"
		return
	}
	ex.topFn = fn
	ex.curFn = target
	ex.deadline = time.Now().Add(limit)
	ex.progress = b.S.Progress
	st := newState()
	for g := range b.symGlob {
		o := ex.globalObj(g)
		t := g.Type().(*types.Pointer).Elem()
		st.heap[o] = symVal(t, &Origin{path: "global:" + g.Name() + epochTag()})
	}
	args := paramVals(fn)
	olds := ex.oldValues(st, fn.Signature, args)
	ex.topArgs, ex.topOlds = args, olds
	states := ex.runHooksAll(st, "setup", target, bindArgs(args, olds, nil))
	if g := ex.ghostTicks(); g != nil {
		ex.ticks = g
	}
	checks := append(append([]*SpecFn{}, b.S.by["ensures"][target]...), b.S.by["contract"][target]...)
	for _, c := range checks {
		rep.Contracts = append(rep.Contracts, c.name)
	}
	isContract := len(b.S.by["contract"][target]) > 0
	for _, st := range states {
		ex.noteTopForalls(st, fn, checks, bindArgs(args, olds, nil))
		for _, rq := range b.S.by["requires"][target] {
			st.assume(ex.evalSpec(st, rq, bindArgs(args, olds, nil)))
		}
		if st.dead {
			continue
		}
		entry := map[*Obj]Value{}
		for o, v := range st.heap {
			entry[o] = v
		}
		mark := objSeq
		if b.S.Paths[target] {
			ex.noMerge++
			ex.lazy = true
		}
		outs := ex.callBody(st, fn, args, nil)
		if b.S.Paths[target] {
			ex.noMerge--
			ex.lazy = false
		}
		rep.Outcomes += len(outs)
		if debugLoops {
			fmt.Printf("%s: %d outcomes\n", target, len(outs))
		}
		for _, o := range outs {
			bb := bindArgs(args, olds, resultList(o.res))
			for _, c := range checks {
				g := ex.evalSpec(o.st, c, bb)
				ex.oblige(o.st, "ensures", c.name, rep.Pos, g)
			}
			if isContract {
				ex.frameCheck(o.st, entry, mark, target, bb, rep.Pos)
			}
		}
		live := len(outs) == 0
		for _, o := range outs {
			if checkSat(o.st.pc, 2*time.Second) != Unsat {
				live = true
				break
			}
		}
		if !live {
			rep.Vacuous = true
		}
	}
	if len(states) == 0 {
		rep.Vacuous = true
	}
	rep.Obls = *ex.buf
	return
}

func paramVals(fn *ssa.Function) []Value {
	var args []Value
	for i, p := range fn.Params {
		v := symVal(p.Type(), &Origin{path: fmt.Sprintf("p%d%s", i, epochTag())})
		if pv, ok := v.(*PtrV); ok {
			n := *pv
			n.nilT = TFalse
			v = &n
		}
		if iv, ok := v.(*IfaceV); ok && !isErrorType(p.Type()) {
			tag := iv.tag()
			c := Not(Eq(tag, TInt(0)))
			has := false
			for _, a := range tag.axioms {
				has = has || a == c
			}
			if !has {
				tag.axioms = append(tag.axioms, c)
			}
		}
		args = append(args, v)
	}
	return args
}

func (ex *Exec) runHooksAll(st *State, kind, target string, b binding) []*State {
	states := []*State{st}
	for _, k := range []string{"any", target} {
		var next []*State
		for _, s := range states {
			next = append(next, ex.runHooks(s, kind, k, b, nil)...)
		}
		states = next
	}
	return states
}

func (ex *Exec) ghostTicks() *Obj {
	p := ex.L.pkgs[ex.L.Main.Path()]
	if g, ok := p.Members["vTicks"].(*ssa.Global); ok {
		return ex.globalObj(g)
	}
	return nil
}

// noteTopForalls collects the universally quantified facts of the contract
// as candidates for loop invariants.
func (ex *Exec) noteTopForalls(st *State, fn *ssa.Function, checks []*SpecFn, b binding) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				return
			}
			panic(r)
		}
	}()
	s := st.clone()
	bb := binding{}
	for k, v := range b {
		bb[k] = v
	}
	for i, r := range resultList(resultVal(fn.Signature, &Origin{path: "result" + epochTag()})) {
		bb[fmt.Sprintf("r%d", i)] = r
	}
	ex.foralls = nil
	for _, c := range checks {
		ex.evalSpec(s, c, bb)
	}
	seen := map[*Term]bool{}
	for _, f := range ex.foralls {
		if f.body.isConst() || seen[f.body] || strings.Contains(f.body.String(), "result") {
			continue
		}
		seen[f.body] = true
		ex.topForalls = append(ex.topForalls, f)
	}
}

// frameCheck: a function whose contract is used by its callers changes only
// what its modifies clause names.
func (ex *Exec) frameCheck(st *State, entry map[*Obj]Value, mark int, target string, b binding, pos string) {
	type pl struct {
		o *Obj
		p []PathElem
	}
	var allowed []pl
	for _, mf := range ex.specs.by["modifies"][target] {
		for _, p := range ex.evalPtrs(st, mf, b) {
			allowed = append(allowed, pl{p.obj, p.path})
		}
	}
	ok := func(o *Obj, path []PathElem) bool {
		for _, a := range allowed {
			if a.o == o && len(a.p) <= len(path) && pathEq(a.p, path[:len(a.p)]) {
				return true
			}
		}
		return false
	}
	var cs []*Term
	var cmp func(o *Obj, path []PathElem, x, y Value)
	cmp = func(o *Obj, path []PathElem, x, y Value) {
		if ok(o, path) || valSame(x, y) {
			return
		}
		sx, ok1 := x.(*StructV)
		sy, ok2 := y.(*StructV)
		if ok1 && ok2 && len(sx.F) == len(sy.F) {
			for i := range sx.F {
				if sx.F[i] == nil && sy.F[i] == nil && originEq(sx.org, sy.org) {
					continue
				}
				cmp(o, append(append([]PathElem{}, path...), PathElem{field: i}), sx.get(i), sy.get(i))
			}
			return
		}
		tx, ok1 := x.(*Term)
		ty, ok2 := y.(*Term)
		if ok1 && ok2 {
			cs = append(cs, Eq(tx, ty))
			return
		}
		cs = append(cs, TFalse)
	}
	for o, v := range st.heap {
		if o.fresh && o.id > mark {
			continue
		}
		if o.global != nil && (strings.HasPrefix(o.global.Name(), "g") || o.global.Name() == "vTicks") && ex.isGhost(o.global) {
			continue
		}
		old, had := entry[o]
		if !had {
			if o.fresh {
				continue
			}
			old = ex.objVal(&State{heap: entry}, o)
		}
		cmp(o, nil, old, v)
	}
	ex.oblige(st, "frame", target+" changes only what its contract says", pos, And(cs...))
}

func (ex *Exec) isGhost(g *ssa.Global) bool {
	return strings.HasPrefix(baseName(ex.L.Fset.Position(g.Pos()).Filename), specPrefix)
}

func baseName(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

// ---- discharging

type quant struct {
	proxies map[*Term]*Term // Forall -> proxy
	order   []*Term
	extra   []*Term
	done    map[[2]*Term]bool
	sk      map[*Term]*Term
}

func (q *quant) strip(t *Term) *Term {
	m := map[*Term]*Term{}
	var rec func(t *Term, bound map[*Term]bool)
	seen := map[*Term]bool{}
	rec = func(t *Term, bound map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OForall {
			if !freeBound(t, map[*Term]bool{}) {
				m[t] = q.proxy(t)
			}
			return
		}
		for _, a := range t.args {
			rec(a, bound)
		}
	}
	rec(t, nil)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func (q *quant) proxy(f *Term) *Term {
	if p, ok := q.proxies[f]; ok {
		return p
	}
	p := App(fmt.Sprintf("fa!%d", f.id), SBool)
	q.proxies[f] = p
	q.order = append(q.order, f)
	sk := App(fmt.Sprintf("sk!%d", f.id), SInt)
	q.sk[f] = sk
	v, n, body := f.args[0], f.args[1], f.args[2]
	q.extra = append(q.extra, Or(p, And(Le(TInt(0), sk), Lt(sk, n), q.strip(Not(Subst(body, map[*Term]*Term{v: sk}))))))
	return p
}

func indexTerms(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	set := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && strings.Contains(t.name, "[]") {
			for _, a := range t.args {
				if a.sort == SInt && !freeBound(a, map[*Term]bool{}) {
					set[a] = true
				}
			}
		}
		if t.op == OApp && strings.HasPrefix(t.name, "sk!") {
			set[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, a := range t.axioms {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var out []*Term
	for t := range set {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// groundQuery turns pc and not goal into a quantifier free query whose
// unsatisfiability proves the goal.
func groundQuery(pc []*Term, goal *Term) []*Term {
	q := &quant{proxies: map[*Term]*Term{}, done: map[[2]*Term]bool{}, sk: map[*Term]*Term{}}
	var ts []*Term
	for _, t := range pc {
		ts = append(ts, q.strip(t))
	}
	ts = append(ts, q.strip(Not(goal)))
	if len(q.order) == 0 {
		return ts
	}
	for round := 0; round < 3; round++ {
		all := append(append([]*Term{}, ts...), q.extra...)
		idx := indexTerms(all)
		if len(idx) > 80 {
			idx = idx[:80]
		}
		n := 0
		for i := 0; i < len(q.order) && i < 200; i++ {
			f := q.order[i]
			for _, t := range idx {
				k := [2]*Term{f, t}
				if q.done[k] {
					continue
				}
				q.done[k] = true
				n++
				v, nn, body := f.args[0], f.args[1], f.args[2]
				inst := q.strip(Subst(body, map[*Term]*Term{v: t}))
				q.extra = append(q.extra, Implies(And(q.proxies[f], Le(TInt(0), t), Lt(t, nn)), inst))
			}
		}
		if n == 0 {
			break
		}
	}
	return append(ts, q.extra...)
}

var proveCache sync.Map

// Making queries extends the terms they are made of, so one at a time.
var queryMu sync.Mutex

func proves(pc []*Term, goal *Term, timeout time.Duration) bool {
	if goal == TTrue {
		return true
	}
	queryMu.Lock()
	if !speaksOfRec(goal) {
		pc = withoutRec(pc)
	}
	q := smtQuery(groundQuery(cone(pc, goal), goal))
	queryMu.Unlock()
	if v, ok := proveCache.Load(q); ok {
		return v.(bool)
	}
	r, _ := solve("z3-new", q, timeout, nil)
	proveCache.Store(q, r == Unsat)
	return r == Unsat
}

type stage struct {
	solver  string
	timeout time.Duration
}

// hardStop ends the search for proofs.
var hardStop time.Time

func discharge(o *Obligation, stages []stage) {
	t0 := time.Now()
	defer func() { o.dur = time.Since(t0) }()
	if o.goal == TTrue {
		o.status, o.solver = Unsat, "symbolic execution"
		return
	}
	queryMu.Lock()
	ts := groundQuery(o.pc, o.goal)
	for _, t := range ts {
		if t == TFalse {
			queryMu.Unlock()
			o.status, o.solver = Unsat, "symbolic execution"
			return
		}
	}
	q := smtQuery(ts)
	var gets []string
	var names []string
	for _, t := range modelTerms(ts) {
		p := newPrinter()
		gets = append(gets, p.expr(t, true))
		names = append(names, t.String())
	}
	queryMu.Unlock()
	o.status = Unknown
	for _, s := range stages {
		if !hardStop.IsZero() && time.Now().After(hardStop) {
			return
		}
		r, vals := solve(s.solver, q, s.timeout, gets)
		if r == Unknown {
			continue
		}
		o.status, o.solver = r, s.solver
		for i, v := range vals {
			if i < len(names) {
				o.model = append(o.model, names[i]+" := "+trimGet(v, gets[i]))
			}
		}
		return
	}
}

func trimGet(v, g string) string {
	v = strings.TrimPrefix(strings.TrimSpace(v), "((")
	v = strings.TrimSuffix(v, "))")
	v = strings.TrimPrefix(v, g)
	return strings.TrimSpace(v)
}

func modelTerms(ts []*Term) []*Term {
	m := map[*Term]bool{}
	for _, t := range ts {
		collectApps(t, m)
	}
	var out []*Term
	for t := range m {
		if len(t.args) == 0 && !strings.HasPrefix(t.name, "fa!") {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}
