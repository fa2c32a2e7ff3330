package main

// Models for command line programs: options and files.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// flagVar is an option a FlagSet has been told about.
type flagVar struct {
	name string
	to   *PtrV
}

func flagVars(v Value) ([]flagVar, bool) {
	s, ok := v.(*StructV)
	if !ok || len(s.F) != 1 {
		return nil, false
	}
	o, ok := s.F[0].(*OpaqueV)
	if !ok || o.kind != "flags" {
		return nil, false
	}
	return o.data.([]flagVar), true
}

func init() {
	absTypes["flag.FlagSet"] = []absField{{"vars", SInt}}
	externs["flag.NewFlagSet"] = func(c *ctx) []Outcome {
		pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
		return c.ret(c.ex.alloc(c.st, pt, "flags", &StructV{T: pt, F: []Value{&OpaqueV{kind: "flags", data: []flagVar(nil)}}}))
	}
	bind := func(c *ctx) []Outcome {
		f, to := c.args[0].(*PtrV), c.args[1].(*PtrV)
		if to.obj == nil {
			return c.limit("option without a variable")
		}
		if c.ex.initMode {
			c.ex.escape(to)
		}
		c.ex.store(c.st, to, c.args[3])
		if f.obj == nil {
			return c.ret(nil)
		}
		vars, ok := flagVars(c.ex.load(c.st, f))
		name, ok2 := c.str(2).strConst()
		if !ok || !ok2 {
			return c.ret(nil)
		}
		vars = append(vars[:len(vars):len(vars)], flagVar{name, to})
		c.ex.store(c.st, f, &StructV{T: f.elem, F: []Value{&OpaqueV{kind: "flags", data: vars}}})
		return c.ret(nil)
	}
	for _, n := range []string{"StringVar", "BoolVar", "Uint64Var", "IntVar", "UintVar", "Int64Var", "DurationVar", "Float64Var"} {
		externs["(*flag.FlagSet)."+n] = bind
	}
	externs["(*flag.FlagSet).Parse"] = func(c *ctx) []Outcome {
		f := c.args[0].(*PtrV)
		var vars []flagVar
		known := false
		if f.obj != nil {
			vars, known = flagVars(c.ex.load(c.st, f))
		}
		if !known {
			// whichever options there are
			for g := range c.ex.symGlob {
				if b, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Basic); ok && c.ex.L.isLocal(g.Pkg) && !c.ex.isGhost(g) && b.Kind() != types.Invalid {
					vars = append(vars, flagVar{g.Name(), &PtrV{elem: g.Type().(*types.Pointer).Elem(), nilT: TFalse, obj: c.ex.globalObj(g)}})
				}
			}
			sortFlags(vars)
		}
		for _, v := range vars {
			c.ex.store(c.st, v.to, symVal(v.to.elem, c.st.event("flag."+v.name)))
		}
		return c.anything()
	}
	// vFlagVar is the variable of an option.
	intrinsics["vFlagVar"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		f := args[0].(*PtrV)
		name, ok := args[1].(*Term).strConst()
		if f.obj == nil || !ok {
			ex.unsupported("the options of an unknown command")
		}
		vars, ok := flagVars(ex.load(st, f))
		if !ok {
			ex.unsupported("the options of an unknown command")
		}
		res := &IfaceV{st: in.(ssa.Value).Type()}
		for _, v := range vars {
			if v.name == name {
				res = &IfaceV{st: in.(ssa.Value).Type(), typ: types.NewPointer(v.to.elem), val: v.to}
			}
		}
		return []Outcome{{st, res}}
	}
	// vSameFunc says that two functions are the same one.
	intrinsics["vSameFunc"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		fn := func(v Value) *ssa.Function {
			i, ok := v.(*IfaceV)
			if !ok || i.typ == nil {
				return nil
			}
			f, ok := i.val.(*FuncV)
			if !ok || f.fn == nil || len(f.free) > 0 {
				return nil
			}
			return f.fn
		}
		a, b := fn(args[0]), fn(args[1])
		if a == nil || b == nil {
			ex.unsupported("comparison of unknown functions")
		}
		return []Outcome{{st, TBool(a == b)}}
	}

	newFile := func(c *ctx) []Outcome {
		return c.okOrErr(func(st *State, ev *Origin) Value {
			pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
			return c.ex.alloc(st, pt, "file", mkAbs(pt, TStr(""), TFalse, c.str(0), TFalse))
		})
	}
	externs["os.Create"] = newFile
	externs["(*os.File).Write"] = func(c *ctx) []Outcome {
		p := c.args[0].(*PtrV)
		return c.emitRes(&IfaceV{st: p.elem, typ: types.NewPointer(p.elem), val: p}, c.bytes(1))
	}
	externs["(*os.File).WriteString"] = func(c *ctx) []Outcome {
		p := c.args[0].(*PtrV)
		return c.emitRes(&IfaceV{st: p.elem, typ: types.NewPointer(p.elem), val: p}, c.str(1))
	}
	externs["(*os.File).Close"] = func(c *ctx) []Outcome { return c.anything() }
}

func sortFlags(vs []flagVar) {
	for i := range vs {
		for j := i; j > 0 && vs[j].name < vs[j-1].name; j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}
