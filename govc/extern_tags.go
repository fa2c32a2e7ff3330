package main

// What the XML library does with a struct which has no methods for it, by the
// tags of its fields: the rules of its typeinfo.go on the types of /repo.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tagField struct {
	idx     []int
	path    []string // parents and name
	mode    string   // "" for elements
	omit    bool
	typ     types.Type
	display string
}

type tagInfo struct {
	name   string // of the element, if the type says
	fields []tagField
}

func stripPtr(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// tagOf reads a field's tag. An error is one the library reports whenever it
// is to read or write the type.
func tagOf(s *types.Struct, i int) (f tagField, err error) {
	v := s.Field(i)
	f.typ, f.idx, f.display = v.Type(), []int{i}, v.Name()
	tag := reflect.StructTag(s.Tag(i)).Get("xml")
	if j := strings.IndexByte(tag, ' '); j >= 0 {
		return f, fmt.Errorf("field %s is in a namespace", v.Name())
	}
	toks := strings.Split(tag, ",")
	name := toks[0]
	for _, t := range toks[1:] {
		switch t {
		case "attr", "cdata", "chardata", "innerxml", "comment", "any":
			if f.mode != "" {
				return f, fmt.Errorf("field %s has more than one mode", v.Name())
			}
			f.mode = t
		case "omitempty":
			f.omit = true
		}
	}
	if f.mode != "" && (v.Name() == "XMLName" || name != "" && f.mode != "attr" || f.omit && f.mode != "attr") {
		return f, fmt.Errorf("field %s has an invalid tag", v.Name())
	}
	if v.Name() == "XMLName" {
		f.path = []string{name}
		return f, nil
	}
	if name == "" {
		if n := xmlNameOf(v.Type()); n != "" {
			name = n
		} else {
			name = v.Name()
		}
		f.path = []string{name}
		return f, nil
	}
	f.path = strings.Split(name, ">")
	if f.path[0] == "" {
		f.path[0] = v.Name()
	}
	if f.path[len(f.path)-1] == "" {
		return f, fmt.Errorf("field %s has an invalid tag", v.Name())
	}
	if f.mode == "" {
		last := f.path[len(f.path)-1]
		if n := xmlNameOf(v.Type()); n != "" && n != last {
			return f, fmt.Errorf("field %s is the element %s, but its type says %s", v.Name(), last, n)
		}
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && !hasXML(v.Type()) {
			if n := xmlNameOf(sl.Elem()); n != "" && n != last {
				return f, fmt.Errorf("field %s holds elements %s, but their type says %s", v.Name(), last, n)
			}
		}
	}
	return f, nil
}

func xmlNameOf(t types.Type) string {
	s, ok := stripPtr(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "XMLName" {
			if f, err := tagOf(s, i); err == nil {
				return f.path[0]
			}
			break
		}
	}
	return ""
}

// hasXML says whether a type reads or writes itself.
func hasXML(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(stripPtr(t)))
	for _, n := range []string{"UnmarshalXML", "MarshalXML", "UnmarshalText", "MarshalText"} {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

func tagInfoOf(t types.Type) (ti tagInfo, err error) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if !v.Exported() && !v.Embedded() || reflect.StructTag(s.Tag(i)).Get("xml") == "-" {
			continue
		}
		if v.Embedded() {
			in := v.Type()
			if p, ok := in.Underlying().(*types.Pointer); ok {
				in = p.Elem()
			}
			if _, ok := in.Underlying().(*types.Struct); ok {
				inner, err := tagInfoOf(in)
				if err != nil {
					return ti, err
				}
				if ti.name == "" {
					ti.name = inner.name
				}
				for _, f := range inner.fields {
					f.idx = append([]int{i}, f.idx...)
					if err := ti.add(f); err != nil {
						return ti, err
					}
				}
				continue
			}
		}
		f, err := tagOf(s, i)
		if err != nil {
			return ti, err
		}
		if v.Name() == "XMLName" {
			ti.name = f.path[0]
			continue
		}
		if err := ti.add(f); err != nil {
			return ti, err
		}
	}
	return ti, nil
}

func (ti *tagInfo) add(f tagField) error {
	var conflicts []int
	for i, o := range ti.fields {
		if o.mode != f.mode {
			continue
		}
		n := len(o.path)
		if len(f.path) < n {
			n = len(f.path)
		}
		if strings.Join(o.path[:n], ">") == strings.Join(f.path[:n], ">") {
			conflicts = append(conflicts, i)
		}
	}
	for _, i := range conflicts {
		if len(ti.fields[i].idx) < len(f.idx) {
			return nil
		}
	}
	for _, i := range conflicts {
		if len(ti.fields[i].idx) == len(f.idx) {
			return fmt.Errorf("fields %s and %s conflict", ti.fields[i].display, f.display)
		}
	}
	var keep []tagField
	for i, o := range ti.fields {
		drop := false
		for _, c := range conflicts {
			drop = drop || c == i
		}
		if !drop {
			keep = append(keep, o)
		}
	}
	ti.fields = append(keep, f)
	return nil
}

// omitting says whether omitempty makes a difference to what is written of a
// type: nothing is written of nil pointers and empty slices anyway, structs
// are never empty, and values of the enumerated types which are none of those
// they enumerate write nothing.
func omitting(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&types.IsInteger != 0 {
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "FromString" {
				return false
			}
		}
	}
	return true
}

func tagPtr(v Value) (*PtrV, bool) {
	i, ok := v.(*IfaceV)
	if !ok || i.typ == nil {
		return nil, false
	}
	p, ok := i.val.(*PtrV)
	return p, ok && p.obj != nil
}

func (p *PtrV) fieldAt(t types.Type, idx []int) (*PtrV, bool) {
	q := &PtrV{elem: t, nilT: TFalse, obj: p.obj, path: append([]PathElem{}, p.path...)}
	for _, i := range idx {
		s, ok := q.elem.Underlying().(*types.Struct)
		if !ok {
			return nil, false // (an embedded pointer)
		}
		q.path = append(q.path, PathElem{field: i})
		q.elem = s.Field(i).Type()
	}
	return q, true
}

func samePath(a, b *PtrV) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

type tagWrite struct {
	path string
	p    *PtrV
	omit bool
}

func content(path []string, t types.Type) Value {
	return symVal(t, &Origin{path: "content of " + strings.Join(path, ">") + " as " + types.TypeString(t, nil)})
}

func init() {
	type intrinsic = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome
	target := func(f func(ex *Exec, st *State, p *PtrV, ti tagInfo) Value) intrinsic {
		return func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			p, ok := tagPtr(args[0])
			if !ok {
				ex.unsupported("the tags of an unknown value")
			}
			if _, ok := p.elem.Underlying().(*types.Struct); !ok || hasXML(p.elem) {
				ex.unsupported("%s reads or writes itself", types.TypeString(p.elem, nil))
			}
			ti, err := tagInfoOf(p.elem)
			if err != nil {
				ex.oblige(st, "tags", types.TypeString(p.elem, nil)+": "+err.Error(), ex.pos(in.Pos()), TFalse)
				return []Outcome{{st, TFalse}}
			}
			for _, f := range ti.fields {
				if f.mode != "" {
					ex.oblige(st, "tags", "field "+f.display+" of "+types.TypeString(p.elem, nil)+" is no element", ex.pos(in.Pos()), TFalse)
					return []Outcome{{st, TFalse}}
				}
			}
			return []Outcome{{st, f(ex, st, p, ti)}}
		}
	}
	intrinsics["vXMLRead"] = target(func(ex *Exec, st *State, p *PtrV, ti tagInfo) Value {
		for _, f := range ti.fields {
			q, ok := p.fieldAt(p.elem, f.idx)
			if !ok {
				ex.unsupported("an embedded pointer")
			}
			ex.store(st, q, content(f.path, f.typ))
		}
		return TTrue
	})
	intrinsics["vXMLWrite"] = target(func(ex *Exec, st *State, p *PtrV, ti tagInfo) Value {
		ex.tagWrites = nil
		for _, f := range ti.fields {
			q, ok := p.fieldAt(p.elem, f.idx)
			if !ok {
				ex.unsupported("an embedded pointer")
			}
			ex.tagWrites = append(ex.tagWrites, tagWrite{strings.Join(f.path, ">"), q, f.omit && omitting(f.typ)})
		}
		return TTrue
	})
	intrinsics["vXMLName"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		p, ok := tagPtr(args[0])
		if !ok {
			ex.unsupported("the tags of an unknown value")
		}
		ti, err := tagInfoOf(p.elem)
		if err != nil {
			return []Outcome{{st, TStr("?")}}
		}
		return []Outcome{{st, TStr(ti.name)}}
	}
	intrinsics["vElement"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		path, ok := args[0].(*Term).strConst()
		p, ok2 := tagPtr(args[1])
		if !ok || !ok2 {
			ex.unsupported("vElement of an unknown element")
		}
		ex.store(st, p, content(strings.Split(path, ">"), p.elem))
		return []Outcome{{st, nil}}
	}
	written := func(omit bool) intrinsic {
		return func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			path, ok := args[0].(*Term).strConst()
			p, ok2 := tagPtr(args[1])
			if !ok || !ok2 {
				ex.unsupported("vWritten of an unknown element")
			}
			if len(ex.tagWrites) == 0 {
				return []Outcome{{st, TFalse}}
			}
			w := ex.tagWrites[0]
			ex.tagWrites = ex.tagWrites[1:]
			return []Outcome{{st, TBool(w.path == path && samePath(w.p, p) && w.omit == omit)}}
		}
	}
	intrinsics["vWritten"] = written(false)
	intrinsics["vWrittenIfSet"] = written(true)
	intrinsics["vAllWritten"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		return []Outcome{{st, TBool(len(ex.tagWrites) == 0)}}
	}
}
