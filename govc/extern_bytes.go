package main

// Contracts assumed of further functions of strings and bytes, where those of
// bytes are those of strings.

import "go/types"

// asText calls a model of package strings with byte slices for texts.
func asText(m model) model {
	return func(c *ctx) []Outcome {
		d := *c
		d.args = append([]Value{}, c.args...)
		for i, a := range c.args {
			if s, ok := a.(*SliceV); ok && isByte(s.elem) {
				d.args[i] = c.bytes(i)
			}
		}
		return m(&d)
	}
}

func init() {
	str := types.Typ[types.String]
	split := func(bytes bool) model {
		return func(c *ctx) []Outcome {
			n, ok := c.str(2).intConst()
			sep, ok2 := c.str(1).strConst()
			if !ok || !ok2 || n < 1 || n > 12 || sep == "" {
				return c.limit("")
			}
			return c.ex.splitN(c.st, c.str(0), c.str(1), int(n), nil, func(st *State, ps []*Term) []Outcome {
				st.n++ // how many there are is an event of its own
				var vs []Value
				elem := types.Type(str)
				for _, p := range ps {
					if bytes {
						s := c.ex.bytesSlice(st, p)
						vs = append(vs, s)
						elem = types.NewSlice(s.elem)
					} else {
						vs = append(vs, p)
					}
				}
				return []Outcome{{st, c.ex.newSlice(st, elem, &SeqV{elem: elem, segs: []Seg{{vals: vs}}})}}
			})
		}
	}
	cut := func(bytes bool) model {
		return func(c *ctx) []Outcome {
			sep, ok := c.str(1).strConst()
			if !ok || sep == "" {
				return c.limit("")
			}
			val := func(st *State, t *Term) Value {
				if bytes {
					return c.ex.bytesSlice(st, t)
				}
				return t
			}
			return c.ex.splitN(c.st, c.str(0), c.str(1), 2, nil, func(st *State, ps []*Term) []Outcome {
				st.n++
				if len(ps) < 2 {
					return []Outcome{{st, TupleV{val(st, ps[0]), val(st, TStr("")), TFalse}}}
				}
				return []Outcome{{st, TupleV{val(st, ps[0]), val(st, ps[1]), TTrue}}}
			})
		}
	}
	externs["strings.SplitN"] = split(false)
	externs["bytes.SplitN"] = asText(split(true))
	externs["strings.Cut"] = cut(false)
	externs["bytes.Cut"] = asText(cut(true))
	for b, s := range map[string]string{
		"bytes.IndexByte": "strings.IndexByte",
		"bytes.HasSuffix": "strings.HasSuffix",
		"bytes.EqualFold": "strings.EqualFold",
		"bytes.Compare":   "strings.Compare",
	} {
		late = append(late, func() { externs[b] = asText(externs[s]) })
	}
	for _, n := range []string{"TrimSuffix", "TrimPrefix", "Trim", "TrimLeft", "TrimRight", "Replace", "ReplaceAll", "ToUpper", "ToLower"} {
		late = append(late, func() {
			m := asText(externs["strings."+n])
			externs["bytes."+n] = func(c *ctx) []Outcome {
				outs := m(c)
				for i := range outs {
					if t, ok := outs[i].res.(*Term); ok {
						outs[i].res = c.ex.bytesSlice(outs[i].st, t)
					}
				}
				return outs
			}
		})
	}
}

// late are completed when all models are known.
var late []func()
