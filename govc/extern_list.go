package main

// Lists of texts given in the code under verification.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	count := func(all bool) func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		return func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			l := args[0].(*SliceV)
			words, ok := args[1].(*Term).strConst()
			if !ok {
				ex.unsupported("a list of words which is not constant")
			}
			var is []*Term
			for _, sg := range ex.sliceSeq(st, l).segs {
				if sg.vals == nil {
					ex.unsupported("a list with unknown elements")
				}
				for _, v := range sg.vals {
					is = append(is, v.(*Term))
				}
			}
			has := map[string]bool{}
			var open []*Term
			for _, t := range is {
				if s, ok := t.strConst(); ok {
					has[strings.ToUpper(s)] = true
				} else {
					open = append(open, t)
				}
			}
			var cs []*Term
			for _, w := range strings.Fields(words) {
				w = strings.ToUpper(w)
				if all {
					if !has[w] {
						var eq []*Term
						for _, t := range open {
							eq = append(eq, Eq(t, TStr(w)))
						}
						cs = append(cs, Or(eq...))
					}
					continue
				}
				if has[w] {
					cs = append(cs, TFalse)
				}
				for _, t := range open {
					cs = append(cs, Not(Eq(t, TStr(w))))
				}
			}
			return []Outcome{{st, And(cs...)}}
		}
	}
	// vListed says that all the words are in the list, in capitals or not;
	// vUnlisted that none is.
	intrinsics["vListed"] = count(true)
	intrinsics["vUnlisted"] = count(false)
}
