package main

// Contracts assumed of the XML library.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const xmlPkg = "github.com/aclindsa/xml"

func init() {
	absTypes[xmlPkg+".Encoder"] = []absField{{"w", SInt}}
	for n, f := range map[string]model{
		"(*" + xmlPkg + ".Decoder).Token":               xmlToken,
		"(*" + xmlPkg + ".Decoder).RawToken":            xmlToken,
		"(*" + xmlPkg + ".Decoder).DecodeElement":       xmlDecode,
		"(*" + xmlPkg + ".Decoder).Decode":              xmlDecode,
		"(*" + xmlPkg + ".Decoder).Skip":                func(c *ctx) []Outcome { return c.anything() },
		xmlPkg + ".NewDecoder":                          xmlNewDecoder,
		xmlPkg + ".NewEncoder":                          xmlNewEncoder,
		"(*" + xmlPkg + ".Encoder).Encode":              xmlEncode,
		"(*" + xmlPkg + ".Encoder).EncodeElement":       xmlEncode,
		"(*" + xmlPkg + ".Encoder).EncodeToken":         xmlEncode,
		"(*" + xmlPkg + ".Encoder).Flush":               xmlEncode,
		"(*" + xmlPkg + ".Encoder).Indent":              func(c *ctx) []Outcome { return c.ret(nil) },
		"(*" + xmlPkg + ".Encoder).CarriageReturn":      func(c *ctx) []Outcome { return c.ret(nil) },
		"(*" + xmlPkg + ".Encoder).SetDisableAutoClose": func(c *ctx) []Outcome { return c.ret(nil) },
		"(" + xmlPkg + ".StartElement).End": func(c *ctx) []Outcome {
			t := c.signature().Results().At(0).Type()
			s := newStruct(t, nil, true)
			return c.ret(s.with(0, c.args[0].(*StructV).get(0)))
		},
		xmlPkg + ".CopyToken": func(c *ctx) []Outcome { return c.ret(c.args[0]) },
	} {
		externs[n] = f
	}
}

func namedIn(fn *ssa.Function, name string) types.Type {
	if o := fn.Pkg.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

// A token without an error is of one of the six kinds.
func xmlToken(c *ctx) []Outcome {
	res := c.anything()
	t := res[0].res.(TupleV)
	tok, err := t[0].(*IfaceV), t[1].(*IfaceV)
	var ks []*Term
	for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "ProcInst", "Directive"} {
		ty := namedIn(c.fn, n)
		if ty == nil {
			return res
		}
		ks = append(ks, Eq(tok.tag(), typeTag(ty)))
	}
	ax := Implies(err.isNil(), Or(ks...))
	addAxiom(tok.tag(), ax)
	addAxiom(err.tag(), ax)
	return res
}

// Decoding leaves the target unknown, whether or not it succeeds.
func xmlDecode(c *ctx) []Outcome {
	c.ex.havocTarget(c.st, c.args[1], c.name)
	return c.anything()
}

func (ex *Exec) havocTarget(st *State, a Value, name string) {
	switch x := a.(type) {
	case *PtrV:
		if x.obj != nil {
			ex.store(st, x, symVal(x.elem, st.event(name+"*"+types.TypeString(x.elem, nil))))
		}
	case *IfaceV:
		if x.typ != nil {
			ex.havocTarget(st, x.val, name)
		} else if x.sym != nil {
			ex.unsupported("decoding into a value of unknown type")
		}
	}
}

func xmlNewDecoder(c *ctx) []Outcome {
	pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
	s := newStruct(pt, nil, true)
	for i := 0; i < under(pt).(*types.Struct).NumFields(); i++ {
		if under(pt).(*types.Struct).Field(i).Name() == "Strict" {
			s = s.with(i, TTrue)
		}
	}
	return c.ret(c.ex.alloc(c.st, pt, "decoder", s))
}

func xmlNewEncoder(c *ctx) []Outcome {
	pt := c.signature().Results().At(0).Type().(*types.Pointer).Elem()
	return c.ret(c.ex.alloc(c.st, pt, "encoder", &StructV{T: pt, F: []Value{c.args[0]}}))
}

// Encoding may write any bytes to the encoder's writer, and may fail.
func xmlEncode(c *ctx) []Outcome {
	p := c.args[0].(*PtrV)
	if p.obj != nil {
		if s, ok := c.ex.load(c.st, p).(*StructV); ok {
			if w, ok := s.F[0].(*IfaceV); ok {
				out := c.st.event(c.name + ">")
				c.writeTo(w, out.term("", SStr))
			}
		}
	}
	return c.anything()
}

// Messages and list entries of unknown type: their methods are functions of
// the value and the arguments.
func init() {
	for _, n := range []string{"Message_Valid", "Message_Type", "Message_Name", "InvTransaction_TransactionType", "OpenOrder_OrderType", "Position_PositionType", "Security_SecurityType"} {
		pureIface[n] = true
	}
}
