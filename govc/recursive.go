package main

// Recursive functions of the specifications, and loop invariants that speak
// of what a loop changes without naming it.

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func sortOfType(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch {
	case b.Info()&types.IsString != 0:
		return SStr, true
	case b.Info()&types.IsBoolean != 0:
		return SBool, true
	case b.Info()&types.IsInteger != 0:
		return SInt, true
	}
	return 0, false
}

// recursiveCall is the value of a recursive function of the specification: an
// uninterpreted function of its arguments which equals its body, in which the
// recursive calls are left as they are.
func (ex *Exec) recursiveCall(st *State, fn *ssa.Function, args []Value) []Outcome {
	res := fn.Signature.Results().At(0).Type()
	s, ok := sortOfType(res)
	if !ok {
		ex.unsupported("the result of %s", fn.Name())
	}
	var ts []*Term
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			ex.unsupported("an argument of %s", fn.Name())
		}
		ts = append(ts, t)
	}
	t := App("rec:"+fn.Name(), s, ts...)
	if !ex.unfolding {
		if ex.unfolded == nil {
			ex.unfolded = map[*Term]bool{}
		}
		if !ex.unfolded[t] {
			ex.unfolded[t] = true
			ex.unfolding = true
			addAxiom(t, Eq(t, ex.evalValue(fn, args, s)))
			ex.unfolding = false
		}
	}
	return []Outcome{{st, t}}
}

// evalValue is the value of a function of its arguments alone.
func (ex *Exec) evalValue(fn *ssa.Function, args []Value, s Sort) *Term {
	ex.pure++
	nm := ex.noMerge
	ex.noMerge = 0
	defer func() { ex.pure--; ex.noMerge = nm }()
	outs := ex.callBody(newState(), fn, args, nil)
	if len(outs) == 0 {
		ex.unsupported("%s has no value", fn.Name())
	}
	v := outs[len(outs)-1].res.(*Term)
	for i := len(outs) - 2; i >= 0; i-- {
		v = Ite(And(outs[i].st.pc...), outs[i].res.(*Term), v)
	}
	return v
}

// placeParams are the parameters of an invariant which stand for places.
func placeParams(sf *SpecFn) (locals []*types.Var) {
	sig := sf.fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if p := sig.Params().At(i); strings.HasPrefix(p.Name(), "l") {
			locals = append(locals, p)
		}
	}
	return
}

// placeCands are the given invariants with parameters l0, l1, ... put for
// every choice of what the loop changes, by type.
func (ex *Exec) placeCands(sf *SpecFn, entry *item, places map[string]*place, order []string, args, olds []Value, add func(string, func(*item, *Term) *Term)) bool {
	locals := placeParams(sf)
	if len(locals) == 0 {
		return false
	}
	fits := func(v Value, t types.Type) bool {
		switch x := v.(type) {
		case *Term:
			s, ok := sortOfType(t)
			return ok && s == x.sort
		case *SliceV:
			sl, ok := under(t).(*types.Slice)
			return ok && types.Identical(sl.Elem(), x.elem)
		}
		return false
	}
	n := 0
	var pick func(i int, chosen []*place)
	pick = func(i int, chosen []*place) {
		if i < len(locals) {
		next:
			for _, k := range order {
				p := places[k]
				for _, q := range chosen {
					if q == p {
						continue next
					}
				}
				if p.obj != nil && p.obj.global != nil {
					continue
				}
				if fits(ex.placeVal(entry, p), locals[i].Type()) {
					pick(i+1, append(append([]*place{}, chosen...), p))
				}
			}
			return
		}
		if n++; n > 60 {
			return
		}
		what := ""
		for i, p := range chosen {
			what += " " + locals[i].Name() + "=" + p.key()
		}
		add("given "+sf.name+what, func(it *item, k *Term) *Term {
			b := bindArgs(args, olds, nil)
			b["k"] = k
			for i, p := range chosen {
				b[locals[i].Name()] = ex.placeVal(it, p)
			}
			return ex.evalSpec(it.st, sf, b)
		})
	}
	pick(0, nil)
	return true
}

// Recursive functions matter to what their values are used for only; what is
// known of them is left out of the quick queries of the exploration.

var recCache sync.Map // *Term -> bool

func speaksOfRec(t *Term) bool {
	if v, ok := recCache.Load(t); ok {
		return v.(bool)
	}
	r := strings.HasPrefix(t.name, "rec:")
	for _, a := range t.args {
		r = r || speaksOfRec(a)
	}
	recCache.Store(t, r)
	return r
}

func withoutRec(ts []*Term) []*Term {
	for i, t := range ts {
		if speaksOfRec(t) {
			out := append([]*Term{}, ts[:i]...)
			for _, t := range ts[i+1:] {
				if !speaksOfRec(t) {
					out = append(out, t)
				}
			}
			return out
		}
	}
	return ts
}
