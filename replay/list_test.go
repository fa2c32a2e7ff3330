package ofxgo_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// encodeAs is the text of one element.
func encodeAs(v interface{}, tag string) (string, error) {
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	err := e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: tag}})
	if err == nil {
		err = e.Flush()
	}
	return b.String(), err
}

// decodeFrom decodes a document into *v.
func decodeFrom(text string, v interface{}) error {
	d := xml.NewDecoder(strings.NewReader(text))
	return d.Decode(v)
}

// A fakeEntry is an entry of no known type.
type (
	fakeTran struct{ ofxgo.BuyDebt }
	fakePos  struct{ ofxgo.DebtPosition }
	fakeOO   struct{ ofxgo.OOBuyDebt }
	fakeSec  struct{ ofxgo.DebtInfo }
)

func entryTag(v interface{}) string {
	switch x := v.(type) {
	case ofxgo.OOSwitchMF:
		return "SWITCHMF"
	case ofxgo.InvBankTransaction:
		return "INVBANKTRAN"
	case ofxgo.Position:
		return map[string]string{"DebtPosition": "POSDEBT", "MFPosition": "POSMF", "OptPosition": "POSOPT", "OtherPosition": "POSOTHER", "StockPosition": "POSSTOCK"}[reflect.TypeOf(x).Name()]
	}
	return strings.ToUpper(reflect.TypeOf(v).Name())
}

// listText is a list read from a text: its children's texts, which it must
// hold, and whether it may be refused or must be.
type listText struct {
	text   string
	mayNot bool
	must   bool
}

func assemble(rnd *rand.Rand, tag string, children []string) listText {
	var b strings.Builder
	l := listText{}
	junk := rnd.Intn(4) == 0
	b.WriteString("<" + tag + ">")
	between := func() {
		switch k := rnd.Intn(24); {
		case k < 8:
			b.WriteString([]string{" ", "\n", "\r\n\t", "\f\v"[:0] + "  "}[k%4])
		case !junk:
		case k == 8:
			b.WriteString("<!-- comment -->")
			l.mayNot = true
		case k == 9:
			b.WriteString("text")
			l.must = true
		case k == 10:
			b.WriteString("<UNKNOWN>1</UNKNOWN>")
			l.must = true
		case k == 11:
			b.WriteString("<?pi x?>")
			l.mayNot = true
		case k == 12:
			b.WriteString("<UNKNOWN></UNKNOWN>")
			l.must = true
		}
	}
	between()
	for _, c := range children {
		b.WriteString(c)
		between()
	}
	b.WriteString("</" + tag + ">")
	l.text = b.String()
	if rnd.Intn(12) == 0 {
		l.text = l.text[:rnd.Intn(len(l.text))]
		l.must = true
	}
	return l
}

// spoil makes a child which cannot be decoded.
func spoil(rnd *rand.Rand, text string) string {
	for _, t := range []string{"UNITS", "TOTAL", "UNITPRICE", "MKTVAL", "VER", "PARVALUE", "DTTRADE", "DTPRICEASOF", "DTPLACED", "DTSETTLE", "SHPERCTRCT"} {
		if i := strings.Index(text, "<"+t+">"); i >= 0 {
			return text[:i+len(t)+2] + "x!" + text[i+len(t)+2:]
		}
	}
	return ""
}

// checkList reads and writes one kind of list.
func checkList(t *testing.T, rnd *rand.Rand, tag string, target func() interface{}, mk func(kind int) interface{}, kinds int, entries func(interface{}) []interface{}, build func([]interface{}) interface{}, name func(v interface{}) string) {
	var es []interface{}
	for n := rnd.Intn(6); n > 0; n-- {
		v := reflect.New(reflect.TypeOf(mk(rnd.Intn(kinds))))
		fill(rnd, v.Interface(), rnd.Intn(4))
		es = append(es, v.Elem().Interface())
	}
	// writing
	var want string
	for _, e := range es {
		p := reflect.New(reflect.TypeOf(e))
		p.Elem().Set(reflect.ValueOf(e))
		s, err := encodeAs(p.Interface(), name(e))
		if err != nil {
			return
		}
		want += s
	}
	got, err := encodeAs(build(es), tag)
	cases++
	if err != nil || got != "<"+tag+">"+want+"</"+tag+">" {
		failing(t, "writing %s of %s: error %v, got %s, want <%s>%s</%s>", tag, describe(es), err, got, tag, want, tag)
	}
	// reading
	var texts []string
	var read []interface{}
	broken := false
	for _, e := range es {
		p := reflect.New(reflect.TypeOf(e))
		p.Elem().Set(reflect.ValueOf(e))
		s, _ := encodeAs(p.Interface(), name(e))
		if rnd.Intn(25) == 0 {
			if x := spoil(rnd, s); x != "" {
				s, broken = x, true
			}
		}
		q := reflect.New(reflect.TypeOf(e))
		if decodeFrom(s, q.Interface()) != nil {
			broken = true
		}
		read = append(read, q.Elem().Interface())
		texts = append(texts, s)
	}
	l := assemble(rnd, tag, texts)
	v := target()
	err = decodeFrom(l.text, v)
	cases++
	if broken || l.must {
		if err == nil {
			failing(t, "reading %s succeeds", l.text)
		}
		return
	}
	if err != nil {
		if !l.mayNot {
			failing(t, "reading %s: %v", l.text, err)
		}
		return
	}
	if have := entries(v); len(have) != len(read) || len(read) > 0 && !reflect.DeepEqual(have, read) {
		failing(t, "reading %s gives %s, not %s", l.text, describe(have), describe(read))
	}
}

var errWriter = errors.New("cannot write")

type brokenWriter struct{ left int }

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		return 0, errWriter
	}
	w.left -= len(p)
	return len(p), nil
}

// checkBroken: a failure to write is reported.
func checkBroken(t *testing.T, rnd *rand.Rand, v interface{}, tag string) {
	s, err := encodeAs(v, tag)
	if err != nil {
		return
	}
	n := rnd.Intn(len(s))
	e := xml.NewEncoder(&brokenWriter{n})
	err = e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: tag}})
	if err == nil {
		err = e.Flush()
	}
	cases++
	if err == nil {
		failing(t, "writing %s to a writer which fails after %d bytes succeeds", s, n)
	}
}

var _ = fmt.Sprint
