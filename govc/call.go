package main

import (
	"time"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A value for errors made by errors.New, fmt.Errorf and library models.
var errStringType = func() *types.Named {
	pkg := types.NewPackage("errors", "errors")
	st := types.NewStruct([]*types.Var{types.NewField(token.NoPos, pkg, "text", types.Typ[types.String], false)}, nil)
	n := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "errorString", nil), st, nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, pkg, "e", n), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, pkg, "", types.Typ[types.String])), false)
	n.AddMethod(types.NewFunc(token.NoPos, pkg, "Error", sig))
	return n
}()

func errVal(text *Term) *IfaceV {
	return &IfaceV{typ: errStringType, val: &StructV{T: errStringType, F: []Value{text}}, st: types.Universe.Lookup("error").Type()}
}

var errorType = types.Universe.Lookup("error").Type()

func nilErr() *IfaceV { return &IfaceV{st: errorType} }

// fork: an outcome for each of the two values of cond.
func (ex *Exec) fork(st *State, cond *Term, yes, no func(*State) []Outcome) []Outcome {
	c := st.simp(cond)
	ct, cf := ex.split(st, c)
	var outs []Outcome
	if ct {
		s := st
		if cf {
			s = st.clone()
		}
		s.assume(c)
		if !s.dead {
			outs = append(outs, yes(s)...)
		}
	}
	if cf {
		st.assume(Not(c))
		if !st.dead {
			outs = append(outs, no(st)...)
		}
	}
	return outs
}

func (ex *Exec) callTarget(it *item, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fv Value
	if c.IsInvoke() {
		fv = ex.val(it, c.Value)
	} else {
		fv = ex.val(it, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(it, a))
	}
	return fv, args
}

func (ex *Exec) call(it *item, c *ssa.CallCommon, in ssa.Instruction) []Outcome {
	fv, args := ex.callTarget(it, c)
	return ex.callValue(it, it.st, c, fv, args, in)
}

func (ex *Exec) callValue(it *item, st *State, c *ssa.CallCommon, fv Value, args []Value, in ssa.Instruction) []Outcome {
	if c.IsInvoke() {
		v := fv.(*IfaceV)
		if !ex.safe(st, "nil pointer dereference (method of a nil interface)", in, Not(v.isNil())) {
			return nil
		}
		return ex.invoke(st, v, c.Value.Type(), c.Method, args, in)
	}
	f, ok := fv.(*FuncV)
	if !ok {
		ex.unsupported("call of %T", fv)
	}
	if f.bi != nil {
		return ex.builtin(it, st, f.bi, c, args, in)
	}
	return ex.callFuncV(st, f, args, in, c.Signature())
}

func (ex *Exec) callFuncV(st *State, f *FuncV, args []Value, in ssa.Instruction, sig *types.Signature) []Outcome {
	if !ex.safe(st, "call of a nil function", in, Not(f.nilT)) {
		return nil
	}
	if f.fn == nil {
		if f.org == nil {
			ex.unsupported("call of an unknown function")
		}
		// an unknown function value
		o := st.event("u!" + f.org.path + "()")
		st.note("unmodelled call of the function value %s", f.org.path)
		return []Outcome{{st, resultVal(sig, o)}}
	}
	return ex.callFunc(st, f.fn, args, f.free, in)
}

func resultVal(sig *types.Signature, o *Origin) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return symVal(sig.Results().At(0).Type(), o)
	}
	return symVal(sig.Results(), o)
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// targetName is the name contracts and hooks use for a function.
func (ex *Exec) targetName(fn *ssa.Function) string {
	if fn.Parent() != nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "from") {
		return ""
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	name := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		name = recvName(r.Type()) + "_" + name
	}
	if pkg != nil && !ex.L.localPkg(pkg.Path()) {
		name = pkg.Name() + "_" + name
	} else if pkg != nil && ex.L.Main != nil && pkg == ex.L.Ofx && ex.L.Main != ex.L.Ofx {
		name = pkg.Name() + "_" + name
	}
	return name
}

func (ex *Exec) callFunc(st *State, fn *ssa.Function, args, free []Value, in ssa.Instruction) []Outcome {
	if fn.Origin() != nil {
		fn2 := fn.Origin()
		_ = fn2
	}
	if ex.L.isSpec(fn) && fn.Signature.Recv() == nil && fn.Parent() == nil {
		if h, ok := intrinsics[fn.Name()]; ok {
			return h(ex, st, args, in)
		}
		if ex.specs != nil && ex.specs.Recursive[fn.Name()] {
			return ex.recursiveCall(st, fn, args)
		}
	}
	target := ex.targetName(fn)
	hookable := ex.pure == 0 && ex.inHook == 0 && !ex.initMode && target != ""
	states := []*State{st}
	var olds []Value
	if hookable && ex.specs != nil && (len(ex.specs.by["before"][target]) > 0 || len(ex.specs.by["after"][target]) > 0) {
		olds = ex.oldValues(st, fn.Signature, args)
		states = ex.runHooks(st, "before", target, bindArgs(args, olds, nil), in)
	}
	var outs []Outcome
	for _, s := range states {
		outs = append(outs, ex.callFunc2(s, fn, target, args, free, in)...)
	}
	if hookable && ex.specs != nil && len(ex.specs.by["after"][target]) > 0 {
		var res []Outcome
		for _, o := range outs {
			for _, s := range ex.runHooks(o.st, "after", target, bindArgs(args, olds, resultList(o.res)), in) {
				res = append(res, Outcome{s, o.res})
			}
		}
		return res
	}
	return outs
}

func resultList(v Value) []Value {
	if v == nil {
		return nil
	}
	if t, ok := v.(TupleV); ok {
		return t
	}
	return []Value{v}
}

// oldValues are the pointees of pointer arguments.
func (ex *Exec) oldValues(st *State, sig *types.Signature, args []Value) []Value {
	var out []Value
	for _, a := range args {
		if p, ok := a.(*PtrV); ok && p.obj != nil {
			if v := ex.tryLoad(st, p); v != nil {
				out = append(out, v)
				continue
			}
		}
		if i, ok := a.(*IfaceV); ok && i.typ != nil {
			if p, ok := i.val.(*PtrV); ok && p.obj != nil {
				if v := ex.tryLoad(st, p); v != nil {
					out = append(out, v)
					continue
				}
			}
		}
		out = append(out, nil)
	}
	return out
}

func (ex *Exec) tryLoad(st *State, p *PtrV) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return ex.load(st, p)
}

func (ex *Exec) hasBody(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Pkg != nil {
		return ex.L.localPkg(fn.Pkg.Pkg.Path())
	}
	return true // synthetic wrappers
}

func (ex *Exec) callFunc2(st *State, fn *ssa.Function, target string, args, free []Value, in ssa.Instruction) []Outcome {
	if ex.specs != nil && ex.pure == 0 && !ex.initMode && ex.inHook == 0 && fn != ex.topFn {
		if cs := ex.specs.contractFor(target); len(cs) > 0 && fn.Parent() == nil {
			ex.modular[fn] = true
			return ex.applyContract(st, fn.Signature, target, cs, args, in)
		}
		if as := ex.specs.by["assume"][target]; len(as) > 0 && fn.Parent() == nil {
			ex.used[target+" (assumed contract)"] = true
			return ex.applyContract(st, fn.Signature, target, as, args, in)
		}
	}
	full := fn.String()
	if m, ok := externs[full]; ok {
		if ex.pure == 0 && !ex.initMode && ex.inHook == 0 {
			ex.used[full] = true
		}
		return m(&ctx{ex: ex, st: st, fn: fn, args: args, in: in, name: full})
	}
	if ex.hasBody(fn) {
		return ex.callBody(st, fn, args, free)
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return ex.callBody(st, fn, args, free)
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
		return []Outcome{{st, nil}}
	}
	if ex.initMode {
		for _, a := range args {
			ex.escape(a)
		}
		return []Outcome{{st, resultVal(fn.Signature, &Origin{path: "init:" + full + fmt.Sprint(len(ex.stack), st.n)})}}
	}
	return ex.unmodelled(st, full, fn.Signature, args)
}

// escape marks globals whose address leaves the program as unknown.
func (ex *Exec) escape(v Value) {
	switch x := v.(type) {
	case *PtrV:
		if x.obj != nil && x.obj.global != nil && ex.L.isLocal(x.obj.global.Pkg) {
			ex.symGlob[x.obj.global] = true
		}
	case *IfaceV:
		if x.typ != nil {
			ex.escape(x.val)
		}
	}
}

// unmodelled calls may do anything to what their arguments point to.
func (ex *Exec) unmodelled(st *State, name string, sig *types.Signature, args []Value) []Outcome {
	if ex.pure == 0 {
		ex.unknown[name] = true
	}
	st.note("unmodelled call of %s", name)
	for _, a := range args {
		ex.havocArg(st, a, name)
	}
	return []Outcome{{st, resultVal(sig, st.event("u!"+name))}}
}

func (ex *Exec) havocArg(st *State, a Value, name string) {
	switch x := a.(type) {
	case *PtrV:
		if x.obj == nil {
			return
		}
		if _, op := ex.load(st, x).(*OpaqueV); op {
			return
		}
		ex.store(st, x, symVal(x.elem, st.event("u!"+name+"*"+types.TypeString(x.elem, nil))))
	case *IfaceV:
		if x.typ != nil {
			ex.havocArg(st, x.val, name)
		}
	}
}

// invoke calls a method of an interface value.
func (ex *Exec) invoke(st *State, v *IfaceV, static types.Type, m *types.Func, args []Value, in ssa.Instruction) []Outcome {
	if v.typ != nil {
		if types.Identical(v.typ, errStringType) {
			return []Outcome{{st, v.val.(*StructV).get(0)}}
		}
		if o, ok := v.val.(*OpaqueV); ok && o.kind == "rtype" {
			ex.unsupported("method %s of a reflect.Type", m.Name())
		}
		fn := ex.L.Prog.LookupMethod(v.typ, m.Pkg(), m.Name())
		if fn == nil {
			ex.unsupported("method %s of %v", m.Name(), v.typ)
		}
		return ex.callFunc(st, fn, append([]Value{v.val}, args...), nil, in)
	}
	name := ex.ifaceName(static, m)
	if v.st != nil && !ex.knownMethod(name) {
		// known by the interface it was before a conversion
		if o, _, _ := types.LookupFieldOrMethod(v.st, false, m.Pkg(), m.Name()); o != nil {
			if n := ex.ifaceName(v.st, m); ex.knownMethod(n) {
				name = n
			}
		}
	}
	hookable := ex.pure == 0 && ex.inHook == 0 && !ex.initMode && ex.specs != nil
	recv := Value(v)
	all := append([]Value{recv}, args...)
	states := []*State{st}
	if hookable && len(ex.specs.by["before"][name]) > 0 {
		states = ex.runHooks(st, "before", name, bindArgs(all, nil, nil), in)
	}
	var outs []Outcome
	for _, s := range states {
		outs = append(outs, ex.ifaceMethod(s, v, name, m, args, in)...)
	}
	if hookable && len(ex.specs.by["after"][name]) > 0 {
		var res []Outcome
		for _, o := range outs {
			for _, s := range ex.runHooks(o.st, "after", name, bindArgs(all, nil, resultList(o.res)), in) {
				res = append(res, Outcome{s, o.res})
			}
		}
		return res
	}
	return outs
}

// ifaceName is the name contracts and hooks use for a method of an interface.
func (ex *Exec) ifaceName(t types.Type, m *types.Func) string {
	n, ok := t.(*types.Named)
	if !ok {
		return m.Name()
	}
	name := n.Obj().Name() + "_" + m.Name()
	if p := n.Obj().Pkg(); p != nil && (!ex.L.localPkg(p.Path()) || p == ex.L.Ofx && ex.L.Main != ex.L.Ofx) {
		name = p.Name() + "_" + name
	}
	return name
}

// knownMethod tells whether there is a hook, a contract or a model for a
// method of an interface.
func (ex *Exec) knownMethod(name string) bool {
	if ex.specs != nil {
		for _, k := range []string{"before", "after", "contract", "assume"} {
			if len(ex.specs.by[k][name]) > 0 {
				return true
			}
		}
		if len(ex.specs.contractFor(name)) > 0 {
			return true
		}
	}
	_, ok := externs["iface:"+name]
	return ok || pureIface[name]
}

// ifaceMethod is a method of a value of unknown type.
func (ex *Exec) ifaceMethod(st *State, v *IfaceV, name string, m *types.Func, args []Value, in ssa.Instruction) []Outcome {
	sig := m.Type().(*types.Signature)
	if ex.specs != nil && ex.pure == 0 && ex.inHook == 0 {
		if cs := ex.specs.contractFor(name); len(cs) > 0 {
			return ex.applyContract(st, sig, name, cs, append([]Value{v}, args...), in)
		}
		if as := ex.specs.by["assume"][name]; len(as) > 0 {
			ex.used["assumed contract of "+name] = true
			return ex.applyContract(st, sig, name, as, append([]Value{v}, args...), in)
		}
	}
	if f, ok := externs["iface:"+name]; ok {
		ex.used["iface:"+name] = true
		return f(&ctx{ex: ex, st: st, args: append([]Value{v}, args...), in: in, name: name, sig: sig})
	}
	if pureIface[name] || m.Name() == "Error" || m.Name() == "String" {
		if ex.pure == 0 {
			ex.used["iface:"+name+" (a function of the value and its arguments)"] = true
		}
		o := v.sym.sub("." + m.Name() + "()")
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				ex.unsupported("argument of %s", name)
			}
			o = o.at("", t)
		}
		res := resultVal(sig, o)
		if m.Name() == "Valid" && sig.Results().Len() == 2 {
			t := res.(TupleV)
			ok := t[0].(*Term)
			e := t[1].(*IfaceV)
			tag := e.tag()
			c := Eq(ok, e.isNil())
			have := false
			for _, a := range tag.axioms {
				have = have || a == c
			}
			if !have {
				tag.axioms = append(tag.axioms, c)
				ok.axioms = append(ok.axioms, c)
			}
		}
		if t, ok := res.(*Term); ok {
			ex.namedConstants(sig.Results().At(0).Type(), t)
			if len(args) == 0 {
				ex.constantMethods(st, v, m, t)
			}
		}
		return []Outcome{{st, res}}
	}
	if ex.pure == 0 {
		ex.unknown["iface:"+name] = true
	}
	st.note("unmodelled call of %s", name)
	for _, a := range args {
		ex.havocArg(st, a, name)
	}
	return []Outcome{{st, resultVal(sig, st.event("u!"+name))}}
}

// constantMethods: what a method returns for those implementations in the
// package which always return the same.
func (ex *Exec) constantMethods(st *State, v *IfaceV, m *types.Func, res *Term) {
	it := v.st
	if it == nil {
		return
	}
	iface, ok := under(it).(*types.Interface)
	if !ok || len(v.tag().axioms) > 60 || hasAxiom(res, "constant methods") {
		return
	}
	markAxiom(res, "constant methods")
	sc := ex.L.Ofx.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.IsInterface(t) || !types.Implements(t, iface) {
				continue
			}
			if c := ex.constantMethod(st, t, m); c != nil && c.sort == res.sort {
				ax := Implies(Eq(v.tag(), typeTag(t)), Eq(res, c))
				res.axioms = append(res.axioms, ax)
			}
		}
	}
}

var axiomMarks = map[*Term]map[string]bool{}

func hasAxiom(t *Term, kind string) bool { return axiomMarks[t][kind] }

func markAxiom(t *Term, kind string) {
	if axiomMarks[t] == nil {
		axiomMarks[t] = map[string]bool{}
	}
	axiomMarks[t][kind] = true
}

var constMethods = map[string]*Term{}

func (ex *Exec) constantMethod(st *State, t types.Type, m *types.Func) (c *Term) {
	key := types.TypeString(t, nil) + "." + m.Name()
	if c, ok := constMethods[key]; ok {
		return c
	}
	defer func() {
		constMethods[key] = c
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			c = nil
			constMethods[key] = nil
		}
	}()
	sel := ex.L.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := ex.L.Prog.MethodValue(sel)
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	ex.pure++
	depth := len(ex.stack)
	defer func() { ex.pure--; ex.stack = ex.stack[:depth] }()
	arg := symVal(t, &Origin{path: "any " + key})
	if p, ok := arg.(*PtrV); ok {
		p.nilT = TFalse
	}
	outs := ex.callBody(st.clone(), fn, []Value{arg}, nil)
	if len(outs) != 1 {
		return nil
	}
	if r, ok := outs[0].res.(*Term); ok && r.isConst() {
		return r
	}
	return nil
}

// namedConstants: methods of the interfaces of the package return one of the
// named constants of their integer type (checked of every implementation by
// the contracts of C13).
func (ex *Exec) namedConstants(t types.Type, v *Term) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !ex.L.localPkg(n.Obj().Pkg().Path()) || v.sort != SInt || len(v.axioms) > 1 {
		return
	}
	sc := n.Obj().Pkg().Scope()
	var cs []*Term
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), t) {
			if i, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				cs = append(cs, Eq(v, TInt(i)))
			}
		}
	}
	if len(cs) > 0 {
		addAxiom(v, Or(cs...))
	}
}

var pureIface = map[string]bool{}

// ---- builtins

func (ex *Exec) builtin(it *item, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, in ssa.Instruction) []Outcome {
	one := func(v Value) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			return one(st.simpI(Len(x)))
		case *SliceV:
			return one(st.simpI(x.n))
		case *SeqV:
			return one(x.length())
		case *PtrV:
			return one(TInt(under(x.elem).(*types.Array).Len()))
		case *MapV:
			if x.nil {
				return one(TInt(0))
			}
			if x.obj != nil {
				return one(TInt(int64(len(ex.objVal(st, x.obj).(*MapData).keys))))
			}
			return one(lenTerm(x.org))
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if x.capT != nil {
				return one(x.capT)
			}
			t := App("cap", SInt, x.n, TInt(int64(x.obj.id)))
			st.assume(Le(x.n, t))
			return one(t)
		}
	case "append":
		x := args[0].(*SliceV)
		var add *SeqV
		var nilY *Term = TFalse
		switch y := args[1].(type) {
		case *SliceV:
			add = ex.sliceSeq(st, y)
			if add.length() == TInt(0) {
				return one(x)
			}
			nilY = Eq(add.length(), TInt(0))
		case *Term:
			add = &SeqV{elem: x.elem, segs: []Seg{{str: y, off: TInt(0), n: Len(y)}}}
			nilY = Eq(y, TStr(""))
		}
		q := ex.sliceSeq(st, x).concat(add)
		r := ex.newSlice(st, x.elem, q)
		r.capT = nil
		r.nilT = And(x.nilT, nilY)
		return one(r)
	case "copy":
		d := args[0].(*SliceV)
		var src *SeqV
		var n *Term
		switch y := args[1].(type) {
		case *SliceV:
			src = ex.sliceSeq(st, y)
			n = y.n
		case *Term:
			src = &SeqV{elem: d.elem, segs: []Seg{{str: y, off: TInt(0), n: Len(y)}}}
			n = Len(y)
		}
		dn, ok1 := st.simpI(d.n).intConst()
		sn, ok2 := st.simpI(n).intConst()
		if ok1 && dn == 0 || ok2 && sn == 0 {
			return one(TInt(0))
		}
		if n == d.n {
			whole := ex.objVal(st, d.obj).(*SeqV)
			if d.off == TInt(0) && d.n == whole.length() {
				st.heap[d.obj] = src
				return one(n)
			}
		}
		if ok1 && ok2 {
			k := dn
			if sn < k {
				k = sn
			}
			for i := int64(0); i < k; i++ {
				v := src.at(TInt(i), func(t *Term) int { return ex.decide(st, t) })
				ex.store(st, &PtrV{elem: d.elem, nilT: TFalse, obj: d.obj, path: []PathElem{{idx: Add(d.off, TInt(i))}}}, v)
			}
			return one(TInt(k))
		}
		ex.unsupported("copy of unknown length")
	case "print", "println":
		return one(nil)
	case "delete":
		m := args[0].(*MapV)
		if m.nil {
			return one(nil)
		}
		if m.obj == nil {
			ex.unsupported("delete from an unknown map")
		}
		d := ex.objVal(st, m.obj).(*MapData)
		n := &MapData{}
		for i, k := range d.keys {
			c := st.simp(ex.equal(st, k, args[1]))
			if c == TTrue {
				continue
			}
			if c != TFalse {
				ex.unsupported("delete at an unknown key")
			}
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, d.vals[i])
		}
		st.heap[m.obj] = n
		return one(nil)
	case "recover":
		return one(&IfaceV{st: types.NewInterfaceType(nil, nil)})
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		if !ex.safe(st, "nil pointer dereference", in, Not(p.nilT)) {
			return nil
		}
		return one(p)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return one(r)
	}
	ex.unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

// ---- contracts and hooks

type binding map[string]Value

func bindArgs(args, olds, res []Value) binding {
	b := binding{}
	for i, a := range args {
		b[fmt.Sprintf("p%d", i)] = a
	}
	for i, o := range olds {
		if o != nil {
			b[fmt.Sprintf("o%d", i)] = o
		}
	}
	for i, r := range res {
		b[fmt.Sprintf("r%d", i)] = r
	}
	return b
}

func (ex *Exec) bindSpec(st *State, sf *SpecFn, b binding) []Value {
	var args []Value
	for _, p := range sf.fn.Params {
		v, ok := b[p.Name()]
		if !ok {
			ex.unsupported("contract %s: nothing to bind to %s", sf.name, p.Name())
		}
		args = append(args, ex.adapt(st, v, p.Type()))
	}
	return args
}

// adapt converts a bound value to the type the contract declares.
func (ex *Exec) adapt(st *State, v Value, t types.Type) Value {
	if types.IsInterface(t) {
		if iv, ok := v.(*IfaceV); ok {
			n := *iv
			if n.sym == nil {
				n.st = t
			}
			return &n
		}
		switch x := v.(type) {
		case *PtrV:
			return &IfaceV{typ: types.NewPointer(x.elem), val: x, st: t}
		case *StructV:
			return &IfaceV{typ: x.T, val: x, st: t}
		}
		return &IfaceV{typ: types.Typ[types.Int], val: v, st: t}
	}
	return v
}

// evalSpec is the truth of a specification function in a state.
func (ex *Exec) evalSpec(st *State, sf *SpecFn, b binding) *Term {
	return ex.evalBool(st, sf.fn, ex.bindSpec(st, sf, b), nil)
}

func (ex *Exec) evalBool(st *State, fn *ssa.Function, args, free []Value) *Term {
	ex.pure++
	nm := ex.noMerge
	ex.noMerge = 0
	defer func() { ex.pure--; ex.noMerge = nm }()
	s := st.clone()
	base := len(s.pc)
	saved := ex.specPanics
	ex.specPanics = nil
	outs := ex.callBody(s, fn, args, free)
	panics := ex.specPanics
	ex.specPanics = saved
	if len(outs) == 0 && len(panics) == 0 {
		return TTrue
	}
	if len(outs) == 1 && len(panics) == 0 {
		return outs[0].res.(*Term)
	}
	var cs []*Term
	for _, pc := range panics {
		// a specification which panics doesn't hold
		cs = append(cs, Not(And(pc[min(base, len(pc)):]...)))
	}
	for _, o := range outs {
		cs = append(cs, Implies(And(o.st.pc[min(base, len(o.st.pc)):]...), o.res.(*Term)))
	}
	return And(cs...)
}

func (ex *Exec) runHooks(st *State, kind, target string, b binding, in ssa.Instruction) []*State {
	states := []*State{st}
	for _, sf := range ex.specs.by[kind][target] {
		if sf.on != "" && sf.on != ex.targetName(ex.topFn) {
			continue
		}
		var next []*State
		for _, s := range states {
			args := ex.bindSpec(s, sf, b)
			ex.inHook++
			ex.noMerge++
			p := ""
			if in != nil {
				p = ex.pos(in.Pos())
			}
			s.note("%s %s at %s", kind, target, p)
			outs := ex.callBody(s, sf.fn, args, nil)
			ex.noMerge--
			ex.inHook--
			for _, o := range outs {
				if !o.st.dead {
					next = append(next, o.st)
				}
			}
		}
		states = next
	}
	return states
}

func (ex *Exec) applyContract(st *State, sig *types.Signature, target string, cs []*SpecFn, args []Value, in ssa.Instruction) []Outcome {
	olds := ex.oldValues(st, sig, args)
	b := bindArgs(args, olds, nil)
	for _, rq := range ex.specs.by["requires"][target] {
		g := ex.evalSpec(st, rq, b)
		p := ""
		if in != nil {
			p = ex.pos(in.Pos())
		}
		ex.oblige(st, "requires", rq.name, p, g)
		st.assume(g)
	}
	if rs := sig.Recv(); rs != nil && len(args) > 0 {
		if p, ok := args[0].(*PtrV); ok {
			if !ex.safe(st, "nil pointer dereference", in, Not(p.nilT)) {
				return nil
			}
		}
	}
	for _, mf := range ex.specs.by["modifies"][target] {
		for _, p := range ex.evalPtrs(st, mf, b) {
			ex.store(st, p, symVal(p.elem, st.event(target+".mod")))
		}
	}
	res := resultVal(sig, st.event(target))
	if isFreshResult(sig) {
		// results which are pointers are new or nil
	}
	b2 := bindArgs(args, olds, resultList(res))
	for _, c := range cs {
		g := ex.evalSpec(st, c, b2)
		st.assume(g)
	}
	if st.dead {
		return nil
	}
	return []Outcome{{st, res}}
}

func isFreshResult(sig *types.Signature) bool { return false }

// evalPtrs evaluates a modifies clause to the places it names.
func (ex *Exec) evalPtrs(st *State, sf *SpecFn, b binding) []*PtrV {
	ex.pure++
	defer func() { ex.pure-- }()
	s := st.clone()
	outs := ex.callBody(s, sf.fn, ex.bindSpec(s, sf, b), nil)
	var ps []*PtrV
	for _, o := range outs {
		q := ex.sliceSeq(o.st, o.res.(*SliceV))
		for _, sg := range q.segs {
			if sg.vals == nil {
				ex.unsupported("modifies clause %s", sf.name)
			}
			for _, v := range sg.vals {
				iv := v.(*IfaceV)
				if iv.typ == nil {
					continue
				}
				p := iv.val.(*PtrV)
				if p.obj != nil {
					ps = append(ps, p)
				}
			}
		}
	}
	return ps
}

// ---- intrinsics of the specification language

var intrinsics map[string]func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome

func init() {
	intrinsics = map[string]func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome{
		"vAssert": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			c := args[0].(*Term)
			l, _ := args[1].(*Term).strConst()
			if ex.pure == 0 {
				ex.oblige(st, "assert", l, ex.pos(in.Pos()), c)
			}
			st.assume(c)
			if st.dead {
				return nil
			}
			return []Outcome{{st, nil}}
		},
		"vAssume": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			st.assume(args[0].(*Term))
			if st.dead {
				return nil
			}
			return []Outcome{{st, nil}}
		},
		// vGiveUp: the contract has no meaning for code of this shape
		"vGiveUp": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			l, _ := args[0].(*Term).strConst()
			if ex.pure == 0 && checkSat(st.pc, 2*time.Second) == Unsat {
				return nil
			}
			if ex.softGive > 0 && ex.pure == 0 {
				// in a round of looking for invariants this may be due to those missing
				ex.gaveUp = "contract does not cover: " + l + ex.where()
				return nil
			}
			ex.unsupported("contract does not cover: %s", l)
			return nil
		},
		"same": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			return []Outcome{{st, ex.deepEq(st, args[0], args[1])}}
		},
		// vMatching and vNotMatching are any text of a form, or any other
		"vMatching": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			return ex.anyText(st, args[0], false)
		},
		"vNotMatching": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			return ex.anyText(st, args[0], true)
		},
		"forall": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			n := args[0].(*Term)
			f := args[1].(*FuncV)
			v := ex.newBound()
			s := st.clone()
			s.assume(Le(TInt(0), v))
			s.assume(Lt(v, n))
			body := ex.evalBool(s, f.fn, []Value{v}, f.free)
			if ex.pure > 0 {
				ex.foralls = append(ex.foralls, forallRec{n, v, body})
			}
			return []Outcome{{st, Forall(v, n, body)}}
		},
		// vPure is the value of a function without effects, without splitting
		// the paths of the hook it is used in
		"vPure": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			f := args[0].(*FuncV)
			return []Outcome{{st, ex.evalBool(st, f.fn, nil, f.free)}}
		},
		"isNilFunc": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			v := args[0].(*IfaceV)
			if f, ok := v.val.(*FuncV); ok {
				return []Outcome{{st, f.nilT}}
			}
			ex.unsupported("isNilFunc")
			return nil
		},
		// vWriter returns the writer an encoder writes to
		"vWriter": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			p := args[0].(*PtrV)
			if p.obj == nil {
				return []Outcome{{st, &IfaceV{st: in.(ssa.Value).Type()}}}
			}
			if s, ok := ex.load(st, p).(*StructV); ok {
				if w, ok := s.F[0].(*IfaceV); ok {
					return []Outcome{{st, w}}
				}
			}
			ex.unsupported("the writer of an unknown encoder")
			return nil
		},
		// samePtr compares pointers held in interfaces
		"samePtr": func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			get := func(v Value) (*PtrV, bool) {
				i, ok := v.(*IfaceV)
				if !ok || i.typ == nil {
					return nil, false
				}
				p, ok := i.val.(*PtrV)
				return p, ok
			}
			a, ok1 := get(args[0])
			b, ok2 := get(args[1])
			if !ok1 || !ok2 {
				i, oa := args[0].(*IfaceV)
				j, ob := args[1].(*IfaceV)
				if oa && ob && i.sym != nil && j.sym != nil {
					return []Outcome{{st, TBool(originEq(i.sym, j.sym))}}
				}
				return []Outcome{{st, TFalse}}
			}
			if a.nilT == TTrue || b.nilT == TTrue {
				return []Outcome{{st, And(a.nilT, b.nilT)}}
			}
			if a.obj != b.obj && a.obj != nil && b.obj != nil && a.obj.org != nil && b.obj.org != nil && pathEq(a.path, b.path) &&
				a.obj.org.path == b.obj.org.path && len(a.obj.org.args) == len(b.obj.org.args) {
				// elements of the same list: equal at equal indices
				var eq, all []*Term
				for i, x := range a.obj.org.args {
					eq = append(eq, Eq(x, b.obj.org.args[i]))
					all = append(all, x, b.obj.org.args[i])
				}
				return []Outcome{{st, Or(And(eq...), App("aliased:"+a.obj.org.path, SBool, all...))}}
			}
			return []Outcome{{st, TBool(a.obj == b.obj && pathEq(a.path, b.path))}}
		},
	}
}

func sortFns(l []*SpecFn) {
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
}
