package main

// Contracts assumed of bufio.Reader. What is left to read of it is a string;
// reading past its end fails, whether it is the end of the file or an error.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	bufSize = 1
	bufRest = 2
	bufLast = 3
)

func (c *ctx) bufio() (*PtrV, *StructV, *Term, bool) {
	p, ok := c.args[0].(*PtrV)
	if !ok || p.obj == nil {
		return nil, nil, nil, false
	}
	b, ok := c.ex.load(c.st, p).(*StructV)
	if !ok {
		return nil, nil, nil, false
	}
	t, ok := c.ex.content(c.st, &IfaceV{typ: types.NewPointer(p.elem), val: p})
	return p, b, t, ok
}

// bufSet sets what is left to read, and the byte read last.
func (ex *Exec) bufSet(st *State, p *PtrV, rest, last *Term) {
	ex.setContent(st, &IfaceV{typ: types.NewPointer(p.elem), val: p}, rest)
	b := ex.load(st, p).(*StructV)
	ex.store(st, p, b.with(bufLast, last))
}

func someErr(st *State, name string) *IfaceV {
	e := symVal(errorType, st.event(name).sub(".err")).(*IfaceV)
	nonNil(e)
	return e
}

func init() {
	until := func(str, limited bool) model {
		return func(c *ctx) []Outcome {
			p, b, t, ok := c.bufio()
			if !ok {
				return c.limit("")
			}
			val := func(st *State, s *Term) Value {
				if str {
					return s
				}
				return c.ex.bytesSlice(st, s)
			}
			d := byteStr(c.str(1))
			i := IndexOf(t, d, TInt(0))
			n := Add(i, TInt(1))
			size := b.get(bufSize).(*Term)
			found := ContainsT(t, d)
			addAxiom(i, Implies(found, And(Le(TInt(0), i), Le(n, Len(t)))))
			if limited {
				found = And(found, Le(n, size))
			}
			return c.ex.fork(c.st, found, func(st *State) []Outcome {
				head := Substr(t, TInt(0), n)
				c.ex.bufSet(st, p, Substr(t, n, Sub(Len(t), n)), d)
				return []Outcome{{st, TupleV{val(st, head), nilErr()}}}
			}, func(st *State) []Outcome {
				ev := st.event(c.name)
				part := ev.term(".part", SStr)
				c.ex.bufSet(st, p, ev.term(".rest", SStr), ev.term(".last", SStr))
				return []Outcome{{st, TupleV{val(st, part), someErr(st, c.name)}}}
			})
		}
	}
	for n, f := range map[string]model{
		"(*bufio.Reader).ReadSlice":  until(false, true),
		"(*bufio.Reader).ReadBytes":  until(false, false),
		"(*bufio.Reader).ReadString": until(true, false),
		"(*bufio.Reader).UnreadByte": func(c *ctx) []Outcome {
			p, b, t, ok := c.bufio()
			if !ok {
				return c.limit("")
			}
			last := b.get(bufLast).(*Term)
			return c.ex.fork(c.st, Eq(Len(last), TInt(1)), func(st *State) []Outcome {
				c.ex.bufSet(st, p, Concat(last, t), TStr(""))
				return []Outcome{{st, nilErr()}}
			}, func(st *State) []Outcome {
				return []Outcome{{st, someErr(st, c.name)}}
			})
		},
		"(*bufio.Reader).ReadByte": func(c *ctx) []Outcome {
			p, _, t, ok := c.bufio()
			if !ok {
				return c.limit("")
			}
			return c.ex.fork(c.st, Lt(TInt(0), Len(t)), func(st *State) []Outcome {
				x := Substr(t, TInt(0), TInt(1))
				c.ex.bufSet(st, p, Substr(t, TInt(1), Sub(Len(t), TInt(1))), x)
				return []Outcome{{st, TupleV{byteAt(t, TInt(0)), nilErr()}}}
			}, func(st *State) []Outcome {
				c.ex.bufSet(st, p, TStr(""), TStr(""))
				return []Outcome{{st, TupleV{TInt(0), someErr(st, c.name)}}}
			})
		},
		"(*bufio.Reader).Peek": func(c *ctx) []Outcome {
			// (what was read last is left as it is: nothing here unreads after peeking)
			_, b, t, ok := c.bufio()
			if !ok {
				return c.limit("")
			}
			n, size := c.str(1), b.get(bufSize).(*Term)
			pt := c.signature().Results().At(0).Type()
			return c.ex.fork(c.st, Lt(n, TInt(0)), func(st *State) []Outcome {
				return []Outcome{{st, TupleV{zeroVal(pt), someErr(st, c.name)}}}
			}, func(st *State) []Outcome {
				return c.ex.fork(st, And(Le(n, Len(t)), Le(n, size)), func(st *State) []Outcome {
					return []Outcome{{st, TupleV{c.ex.bytesSlice(st, Substr(t, TInt(0), n)), nilErr()}}}
				}, func(st *State) []Outcome {
					m := Ite(Le(n, size), n, size)
					m = Ite(Le(m, Len(t)), m, Len(t))
					return []Outcome{{st, TupleV{c.ex.bytesSlice(st, Substr(t, TInt(0), m)), someErr(st, c.name)}}}
				})
			})
		},
	} {
		externs[n] = f
	}
	// vBufferSize is the size of a reader's buffer
	intrinsics["vBufferSize"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		p := args[0].(*PtrV)
		if p.obj == nil {
			return []Outcome{{st, TInt(0)}}
		}
		return []Outcome{{st, ex.load(st, p).(*StructV).get(bufSize)}}
	}
}
