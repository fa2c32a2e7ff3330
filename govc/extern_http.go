package main

// Contracts assumed of packages io, bufio, net/http, net/url and crypto/tls.
// What a reader of unknown type holds is a string that belongs to it; a TLS
// connection is what has been sent over it and whether sending has failed.

import (
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func qualified(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// contentObj holds what is left to read of a reader of unknown type.
func contentObj(o *Origin) *Obj { return symObj(types.Typ[types.String], o.sub(".content")) }

var readerAbs = map[string]bool{"bytes.Buffer": true, "strings.Reader": true, "bytes.Reader": true}

// bufferTag is the type a reader of unknown type may turn out to have.
func (ex *Exec) bufferTypes() []types.Type {
	var out []types.Type
	for _, p := range ex.L.Prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			if o := p.Pkg.Scope().Lookup("Buffer"); o != nil {
				out = append(out, types.NewPointer(o.Type()))
			}
		}
	}
	return out
}

func (ex *Exec) content(st *State, r Value) (*Term, bool) {
	v, ok := r.(*IfaceV)
	if !ok {
		return nil, false
	}
	if v.typ != nil {
		p, ok := v.val.(*PtrV)
		if !ok || p.obj == nil {
			return nil, false
		}
		switch q := qualified(v.typ); {
		case readerAbs[q]:
			return ex.load(st, p).(*StructV).get(0).(*Term), true
		case q == "bufio.Reader":
			b := ex.load(st, p).(*StructV)
			if _, known := b.get(0).(*IfaceV); !known {
				return b.get(bufRest).(*Term), true
			}
			return ex.content(st, b.get(0))
		}
		return nil, false
	}
	if v.sym == nil {
		return nil, false
	}
	t := ex.objVal(st, contentObj(v.sym)).(*Term)
	for _, bt := range ex.bufferTypes() {
		if types.Implements(bt, under(v.st).(*types.Interface)) {
			p := ex.ifaceVal(v, bt).(*PtrV)
			if p.obj != nil {
				t = Ite(Eq(v.tag(), typeTag(bt)), ex.load(st, p).(*StructV).get(0).(*Term), t)
			}
		}
	}
	return t, true
}

// setContent sets what is left to read.
func (ex *Exec) setContent(st *State, r Value, t *Term) {
	v := r.(*IfaceV)
	if v.typ != nil {
		p := v.val.(*PtrV)
		if qualified(v.typ) == "bufio.Reader" {
			b := ex.load(st, p).(*StructV)
			if _, known := b.get(0).(*IfaceV); !known {
				ex.store(st, p, b.with(bufRest, t))
				return
			}
			ex.setContent(st, b.get(0), t)
			return
		}
		ex.store(st, p, ex.load(st, p).(*StructV).with(0, t))
		return
	}
	st.heap[contentObj(v.sym)] = t
	for _, bt := range ex.bufferTypes() {
		if types.Implements(bt, under(v.st).(*types.Interface)) {
			if p := ex.ifaceVal(v, bt).(*PtrV); p.obj != nil {
				s := ex.load(st, p).(*StructV)
				ex.store(st, p, s.with(0, Ite(Eq(v.tag(), typeTag(bt)), t, s.get(0).(*Term))))
			}
		}
	}
}

// mayFail: reading from it may fail.
func (ex *Exec) mayFail(st *State, r Value) bool {
	v, ok := r.(*IfaceV)
	if ok && v.typ != nil && readerAbs[qualified(v.typ)] {
		return false
	}
	return true
}

// readAll reads everything there is.
func (c *ctx) readAll(r Value, yes func(*State, *Term) []Outcome, no func(*State, *IfaceV) []Outcome) ([]Outcome, bool) {
	t, ok := c.ex.content(c.st, r)
	if !ok {
		return nil, false
	}
	good := func(st *State) []Outcome {
		c.ex.setContent(st, r, TStr(""))
		return yes(st, t)
	}
	if !c.ex.mayFail(c.st, r) {
		return good(c.st), true
	}
	ev := c.st.event(c.name)
	return c.ex.fork(c.st, ev.term(".ok", SBool), good, func(st *State) []Outcome {
		c.ex.setContent(st, r, ev.term(".rest", SStr))
		e := symVal(errorType, ev.sub(".err")).(*IfaceV)
		nonNil(e)
		return no(st, e)
	}), true
}

// emit writes a string to a writer; res is how many bytes, and an error.
func (c *ctx) emit(st *State, w Value, s *Term, res func(*State, *Term, *IfaceV) []Outcome) ([]Outcome, bool) {
	old := c.st
	c.st = st
	done := c.writeTo(w, s)
	c.st = old
	if done {
		return res(st, Len(s), nilErr()), true
	}
	if iv, ok := w.(*IfaceV); ok {
		if iv.typ == nil {
			return nil, false
		}
		w = iv.val
	}
	p, ok := w.(*PtrV)
	if !ok || p.obj == nil || !sinkAbs[qualified(p.elem)] {
		return nil, false
	}
	sv := c.ex.load(st, p).(*StructV)
	ev := st.event(c.name + ".w")
	sent, bad := sv.get(0).(*Term), sv.get(1).(*Term)
	return c.ex.fork(st, And(Not(bad), ev.term(".ok", SBool)), func(st *State) []Outcome {
		c.ex.store(st, p, sv.with(0, Concat(sent, s)))
		return res(st, Len(s), nilErr())
	}, func(st *State) []Outcome {
		c.ex.store(st, p, sv.with(0, Concat(sent, ev.term(".part", SStr))).with(1, TTrue))
		e := symVal(errorType, ev.sub(".err")).(*IfaceV)
		nonNil(e)
		return res(st, withRange(types.Typ[types.Int], ev.term(".n", SInt)), e)
	}), true
}

// Things that are written to, where writing may fail; all further writes
// then fail as well.
var sinkAbs = map[string]bool{"crypto/tls.Conn": true, "os.File": true}

func (c *ctx) emitRes(w Value, s *Term) []Outcome {
	o, ok := c.emit(c.st, w, s, func(st *State, n *Term, e *IfaceV) []Outcome { return []Outcome{{st, TupleV{n, e}}} })
	if !ok {
		return c.anything()
	}
	return o
}

// okOrErr: the results of a call which succeeds or fails.
func (c *ctx) okOrErr(yes func(*State, *Origin) Value) []Outcome {
	ev := c.st.event(c.name)
	rs := c.signature().Results()
	return c.ex.fork(c.st, ev.term(".ok", SBool), func(st *State) []Outcome {
		return []Outcome{{st, TupleV{yes(st, ev), nilErr()}}}
	}, func(st *State) []Outcome {
		e := symVal(errorType, ev.sub(".err")).(*IfaceV)
		nonNil(e)
		return []Outcome{{st, TupleV{zeroVal(rs.At(0).Type()), e}}}
	})
}

func fieldIx(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func parsedURL(t types.Type, s *Term) *StructV {
	return newStruct(t, &Origin{path: "url.Parse", args: []*Term{s}}, false)
}

// pristine is the text a URL was parsed from, if it was not changed since.
func pristine(u *StructV) (*Term, bool) {
	if u.org == nil || u.org.path != "url.Parse" {
		return nil, false
	}
	f := newStruct(u.T, u.org, false)
	for i, v := range u.F {
		if v != nil && !valSame(v, f.get(i)) {
			return nil, false
		}
	}
	return u.org.args[0], true
}

func urlFn(name string) model {
	return func(c *ctx) []Outcome {
		u, ok := c.ex.load(c.st, c.args[0].(*PtrV)).(*StructV)
		if ok {
			if s, ok := pristine(u); ok {
				return c.ret(App("u!url."+name, SStr, s))
			}
		}
		return c.limit("")
	}
}

func hostFn(name string) model {
	return func(c *ctx) []Outcome {
		u := c.ex.load(c.st, c.args[0].(*PtrV)).(*StructV)
		h := u.get(fieldIx(u.T, "Host")).(*Term)
		return c.ret(App("url."+name, SStr, h))
	}
}

func newResponse(c *ctx, st *State, ev *Origin) Value {
	pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
	s := newStruct(pt, ev.sub(".resp"), false)
	i := fieldIx(pt, "Body")
	b := s.get(i).(*IfaceV)
	nonNil(b)
	return c.ex.alloc(st, pt, "response", s)
}

func headerKey(k Value) (*Term, bool) {
	s, ok := k.(*Term).strConst()
	if !ok {
		return nil, false
	}
	return TStr(textproto.CanonicalMIMEHeaderKey(s)), true
}

func (c *ctx) headerSet(add bool) []Outcome {
	m := c.args[0].(*MapV)
	k, ok := headerKey(c.args[1])
	if !ok || m.obj == nil {
		return c.limit("")
	}
	str := types.Typ[types.String]
	q := &SeqV{elem: str, segs: []Seg{{vals: []Value{c.args[2]}}}}
	if add {
		outs := c.ex.mapGet(c.st, m, k, types.NewSlice(str))
		if len(outs) != 1 {
			return c.limit("")
		}
		q = c.ex.sliceSeq(c.st, outs[0].res.(TupleV)[0].(*SliceV)).concat(q)
	}
	c.ex.mapSet(c.st, m, k, c.ex.newSlice(c.st, str, q))
	return c.ret(nil)
}

func (c *ctx) headerGet() []Outcome {
	m := c.args[0].(*MapV)
	k, ok := headerKey(c.args[1])
	if !ok {
		return c.limit("")
	}
	str := types.Typ[types.String]
	if m.obj == nil && !m.nil {
		return c.ret(m.org.at(".Get", k).term("", SStr))
	}
	outs := c.ex.mapGet(c.st, m, k, types.NewSlice(str))
	if len(outs) != 1 {
		return c.limit("")
	}
	q := c.ex.sliceSeq(c.st, outs[0].res.(TupleV)[0].(*SliceV))
	if q.length() == TInt(0) {
		return c.ret(TStr(""))
	}
	return c.ret(q.at(TInt(0), func(t *Term) int { return c.ex.decide(c.st, t) }))
}

func newRequest(method, url, body int) model {
	return func(c *ctx) []Outcome {
		return c.okOrErr(func(st *State, ev *Origin) Value {
			pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
			s := newStruct(pt, nil, true)
			mt := under(pt).(*types.Struct)
			m := c.args[method].(*Term)
			s = s.with(fieldIx(pt, "Method"), Ite(Eq(m, TStr("")), TStr("GET"), m))
			ui := fieldIx(pt, "URL")
			ut := mt.Field(ui).Type().(*types.Pointer).Elem()
			s = s.with(ui, c.ex.alloc(st, ut, "URL", parsedURL(ut, c.args[url].(*Term))))
			hi := fieldIx(pt, "Header")
			hm := under(mt.Field(hi).Type()).(*types.Map)
			o := newObj(hm, "header", &MapData{}, true)
			st.heap[o] = o.init
			s = s.with(hi, &MapV{obj: o, T: hm})
			bi := fieldIx(pt, "Body")
			if b, ok := c.args[body].(*IfaceV); ok && (b.typ != nil || b.sym != nil) {
				n := *b
				s = s.with(bi, &n)
			}
			return c.ex.alloc(st, pt, "request", s)
		})
	}
}

func httpDo(c *ctx) []Outcome {
	rp := c.args[1].(*PtrV)
	if rp.obj != nil {
		if r, ok := c.ex.load(c.st, rp).(*StructV); ok {
			if b, ok := r.get(fieldIx(r.T, "Body")).(*IfaceV); ok && (b.typ != nil || b.sym != nil) {
				if _, ok := c.ex.content(c.st, b); ok {
					c.ex.setContent(c.st, b, c.st.event("http.Do.rest").term("", SStr))
				}
			}
		}
	}
	ev := c.st.event("http.Do")
	return c.ex.fork(c.st, ev.term(".ok", SBool), func(st *State) []Outcome {
		return []Outcome{{st, TupleV{newResponse(c, st, ev), nilErr()}}}
	}, func(st *State) []Outcome {
		e := symVal(errorType, ev.sub(".err")).(*IfaceV)
		nonNil(e)
		return []Outcome{{st, TupleV{symVal(c.signature().Results().At(0).Type(), ev.sub(".bad")), e}}}
	})
}

func copyAll(dst, src int, limited bool) model {
	return func(c *ctx) []Outcome {
		two := func(st *State, n *Term, e *IfaceV) []Outcome { return []Outcome{{st, TupleV{n, e}}} }
		// find out first whether both ends are known
		probe := c.st.clone()
		if _, ok := c.ex.content(probe, c.args[src]); !ok {
			return c.limit("")
		}
		if _, ok := (&ctx{ex: c.ex, st: probe, fn: c.fn, args: c.args, in: c.in, name: c.name, sig: c.sig}).emit(probe, c.args[dst], TStr(""), two); !ok {
			return c.limit("")
		}
		outs, _ := c.readAll(c.args[src], func(st *State, t *Term) []Outcome {
			// nothing is written if there is nothing to copy
			return c.ex.fork(st, Eq(t, TStr("")), func(st *State) []Outcome {
				return two(st, TInt(0), nilErr())
			}, func(st *State) []Outcome {
				o, _ := c.emit(st, c.args[dst], t, two)
				return o
			})
		}, func(st *State, e *IfaceV) []Outcome {
			part := st.event(c.name+".part").term("", SStr)
			o, _ := c.emit(st, c.args[dst], part, func(st *State, n *Term, e2 *IfaceV) []Outcome {
				return two(st, n, e)
			})
			return o
		})
		return outs
	}
}

func init() {
	absTypes["strings.Reader"] = []absField{{"s", SStr}}
	absTypes["bytes.Reader"] = []absField{{"s", SStr}}
	absTypes["bufio.Reader"] = []absField{{"r", SInt}, {"size", SInt}, {"rest", SStr}, {"last", SStr}}
	absTypes["crypto/tls.Conn"] = []absField{{"sent", SStr}, {"failed", SBool}}
	absTypes["os.File"] = []absField{{"data", SStr}, {"failed", SBool}, {"name", SStr}, {"closed", SBool}}
	newReader := func(bytes bool) model {
		return func(c *ctx) []Outcome {
			pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
			var t *Term
			if bytes {
				t = c.bytes(0)
			} else {
				t = c.str(0)
			}
			return c.ret(c.ex.alloc(c.st, pt, "reader", mkAbs(pt, t)))
		}
	}
	all := func(c *ctx) []Outcome {
		outs, ok := c.readAll(c.args[0], func(st *State, t *Term) []Outcome {
			return []Outcome{{st, TupleV{c.ex.bytesSlice(st, t), nilErr()}}}
		}, func(st *State, e *IfaceV) []Outcome {
			return []Outcome{{st, TupleV{symVal(c.signature().Results().At(0).Type(), st.event(c.name+".part")), e}}}
		})
		if !ok {
			return c.limit("")
		}
		return outs
	}
	wrap := func(name string) model {
		return func(c *ctx) []Outcome {
			pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
			if p, ok := c.args[0].(*IfaceV); ok && p.typ != nil && qualified(p.typ) == name {
				return c.ret(p.val)
			}
			size := TInt(4096)
			if len(c.args) > 1 {
				size = Ite(Lt(c.str(1), TInt(16)), TInt(16), c.str(1))
			}
			return c.ret(c.ex.alloc(c.st, pt, "bufio", &StructV{T: pt, F: []Value{c.args[0], size, TStr(""), TStr("")}}))
		}
	}
	for n, f := range map[string]model{
		"strings.NewReader":              newReader(false),
		"bytes.NewReader":                newReader(true),
		"io.ReadAll":                     all,
		"io/ioutil.ReadAll":              all,
		"io.Copy":                        copyAll(0, 1, false),
		"(*bytes.Buffer).ReadFrom":       nil,
		"bufio.NewReader":                wrap("bufio.Reader"),
		"bufio.NewReaderSize":            wrap("bufio.Reader"),
		"net/http.NewRequest":            newRequest(0, 1, 2),
		"net/http.NewRequestWithContext": newRequest(1, 2, 3),
		"(*net/http.Client).Do":          httpDo,
		"(net/http.Header).Set":          func(c *ctx) []Outcome { return c.headerSet(false) },
		"(net/http.Header).Add":          func(c *ctx) []Outcome { return c.headerSet(true) },
		"(net/http.Header).Get":          func(c *ctx) []Outcome { return c.headerGet() },
		"(*net/http.Request).AddCookie":  func(c *ctx) []Outcome { return c.ret(nil) },
		"net/http.ReadResponse": func(c *ctx) []Outcome {
			return c.okOrErr(func(st *State, ev *Origin) Value { return newResponse(c, st, ev) })
		},
		"(*net/url.URL).RequestURI":               urlFn("RequestURI"),
		"(*net/url.URL).String":                   urlFn("String"),
		"(*net/url.URL).EscapedPath":              urlFn("EscapedPath"),
		"(*net/url.URL).Port":                     hostFn("Port"),
		"(*net/url.URL).Hostname":                 hostFn("Hostname"),
		"(*crypto/tls.Conn).Close":                func(c *ctx) []Outcome { return c.anything() },
		"(*crypto/tls.Conn).Write":                func(c *ctx) []Outcome { return c.emitRes(c.args[0], c.bytes(1)) },
		"iface:io_ReadCloser_Close":               func(c *ctx) []Outcome { return c.anything() },
		"iface:io_Closer_Close":                   func(c *ctx) []Outcome { return c.anything() },
		"(*net/http.Client).CloseIdleConnections": func(c *ctx) []Outcome { return c.ret(nil) },
		"net/url.Parse": func(c *ctx) []Outcome {
			s := c.str(0)
			pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
			return c.ex.fork(c.st, App("url.ok", SBool, s), func(st *State) []Outcome {
				return []Outcome{{st, TupleV{c.ex.alloc(st, pt, "URL", parsedURL(pt, s)), nilErr()}}}
			}, func(st *State) []Outcome {
				e := symVal(errorType, &Origin{path: "url.err", args: []*Term{s}}).(*IfaceV)
				nonNil(e)
				return []Outcome{{st, TupleV{zeroVal(types.NewPointer(pt)), e}}}
			})
		},
		"crypto/tls.Dial": func(c *ctx) []Outcome {
			return c.okOrErr(func(st *State, ev *Origin) Value {
				pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
				return c.ex.alloc(st, pt, "conn", newStruct(pt, nil, true))
			})
		},
		"crypto/tls.CipherSuites": func(c *ctx) []Outcome {
			return c.ret(symVal(c.signature().Results().At(0).Type(), c.st.event(c.name).sub(nonNilElems)))
		},
		"(*net/http.Response).Cookies": func(c *ctx) []Outcome {
			p := c.args[0].(*PtrV)
			if p.obj == nil {
				return c.anything()
			}
			return c.ret(symVal(c.signature().Results().At(0).Type(), &Origin{path: p.obj.name + itoaInt(p.obj.id) + ".Cookies" + epochTag() + nonNilElems}))
		},
	} {
		if f != nil {
			externs[n] = f
		}
	}
	for _, n := range []string{"OfxVersion", "ID", "Version", "IndentRequests", "CarriageReturnNewLines"} {
		pureIface["Client_"+n] = true
	}
	intrinsics["vContent"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		if v, ok := args[0].(*IfaceV); ok && v.typ == nil && v.sym == nil {
			return []Outcome{{st, TStr("")}}
		}
		t, ok := ex.content(st, args[0])
		if !ok {
			ex.unsupported("the contents of an unknown reader")
		}
		return []Outcome{{st, t}}
	}
	intrinsics["vParsedURL"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		ut := in.(ssa.Value).Type().(*types.Pointer).Elem()
		return []Outcome{{st, ex.alloc(st, ut, "URL", parsedURL(ut, args[0].(*Term)))}}
	}
	absField := func(i int) func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		return func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
			p := args[0].(*PtrV)
			if p.obj == nil {
				ex.unsupported("nil connection or file")
			}
			v := ex.load(st, p).(*StructV).get(i)
			if t, ok := v.(*Term); ok && t.sort == SInt {
				ex.unsupported("unknown reader")
			}
			return []Outcome{{st, v}}
		}
	}
	intrinsics["vSent"] = absField(0)
	intrinsics["vBroken"] = absField(1)
	intrinsics["vUnder"] = absField(0)
	intrinsics["vFileData"] = absField(0)
	intrinsics["vFileName"] = absField(2)
	intrinsics["vAnyRequest"] = func(ex *Exec, st *State, args []Value, in ssa.Instruction) []Outcome {
		t := in.(ssa.Value).Type()
		p := symVal(t, st.event("vAny")).(*PtrV)
		n := *p
		n.nilT = TFalse
		s := ex.load(st, &n).(*StructV)
		i := fieldIx(s.T, "URL")
		u := *s.get(i).(*PtrV)
		u.nilT = TFalse
		ex.store(st, &n, s.with(i, &u))
		return []Outcome{{st, &n}}
	}
}

// nonNilElems marks the origin of slices without nil elements.
const nonNilElems = "!nn"

func isNonNilElem(o *Origin) bool { return strings.HasSuffix(o.path, nonNilElems+"[]") }

func itoaInt(i int) string { return TInt(int64(i)).ival.String() }
