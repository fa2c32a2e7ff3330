package main

// Contracts assumed of package reflect, for values of known type.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) reflectType(t types.Type) Value {
	for _, p := range ex.L.Prog.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			rt := types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type())
			return &IfaceV{typ: rt, val: &OpaqueV{T: rt, kind: "rtype", data: t}, st: p.Pkg.Scope().Lookup("Type").Type()}
		}
	}
	return nil
}

// rtypeOf is the type a reflect.Type stands for.
func rtypeOf(v Value) types.Type {
	if i, ok := v.(*IfaceV); ok && i.typ != nil {
		if o, ok := i.val.(*OpaqueV); ok && o.kind == "rtype" {
			return o.data.(types.Type)
		}
	}
	return nil
}

func init() {
	emptyIface := types.NewInterfaceType(nil, nil)
	rvalue := func(c *ctx, t types.Type, v Value) []Outcome {
		return c.ret(&OpaqueV{T: c.signature().Results().At(0).Type(), kind: "rvalue", data: &IfaceV{typ: t, val: v, st: emptyIface}})
	}
	held := func(v Value) *IfaceV {
		if o, ok := v.(*OpaqueV); ok && o.kind == "rvalue" {
			return o.data.(*IfaceV)
		}
		return nil
	}
	elem := func(c *ctx) []Outcome {
		h := held(c.args[0])
		if h == nil {
			return c.limit("")
		}
		p, ok := h.val.(*PtrV)
		if !ok || p.nilT != TFalse {
			return c.limit("")
		}
		return rvalue(c, h.typ.(*types.Pointer).Elem(), c.ex.load(c.st, p))
	}
	for n, f := range map[string]model{
		"reflect.TypeOf": func(c *ctx) []Outcome {
			i, ok := c.args[0].(*IfaceV)
			if !ok || i.typ == nil {
				return c.limit("")
			}
			return c.ret(c.ex.reflectType(i.typ))
		},
		"reflect.ValueOf": func(c *ctx) []Outcome {
			i, ok := c.args[0].(*IfaceV)
			if !ok || i.typ == nil {
				return c.limit("")
			}
			return rvalue(c, i.typ, i.val)
		},
		"reflect.New": func(c *ctx) []Outcome {
			t := rtypeOf(c.args[0])
			if t == nil {
				return c.limit("")
			}
			return rvalue(c, types.NewPointer(t), c.ex.alloc(c.st, t, "new", zeroVal(t)))
		},
		"reflect.Zero": func(c *ctx) []Outcome {
			t := rtypeOf(c.args[0])
			if t == nil {
				return c.limit("")
			}
			return rvalue(c, t, zeroVal(t))
		},
		"(reflect.Value).Interface": func(c *ctx) []Outcome {
			h := held(c.args[0])
			if h == nil {
				return c.limit("")
			}
			r := *h
			r.st = c.signature().Results().At(0).Type()
			return c.ret(&r)
		},
		"(reflect.Value).Elem": elem,
		"reflect.Indirect":     elem,
		"(reflect.Value).Type": func(c *ctx) []Outcome {
			h := held(c.args[0])
			if h == nil {
				return c.limit("")
			}
			return c.ret(c.ex.reflectType(h.typ))
		},
	} {
		externs[n] = f
	}
	pointee := func(v Value) *Obj {
		if i, ok := v.(*IfaceV); ok && i.typ != nil {
			if p, ok := i.val.(*PtrV); ok {
				return p.obj
			}
		}
		return nil
	}
	intrinsics["vFreshFrom"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		st.mark = objSeq
		return []Outcome{{st, nil}}
	}
	intrinsics["vFresh"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		o := pointee(args[0])
		return []Outcome{{st, TBool(o != nil && o.fresh && o.id > st.mark)}}
	}
}
