//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go table_test.go valid_test.go C16_test.go

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// tableTypes finds the types of the table among the parts of the messages.
func tableTypes() map[string]reflect.Type {
	found := map[string]reflect.Type{}
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range implementations[t] {
			walk(reflect.TypeOf(i))
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			walk(t.Elem())
		case reflect.Struct:
			if _, ok := elementTable[t.Name()]; ok {
				found[t.Name()] = t
			}
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	for _, m := range []interface{}{
		ofxgo.SignonRequest{}, ofxgo.SignonResponse{}, ofxgo.AcctInfoRequest{}, ofxgo.AcctInfoResponse{},
		ofxgo.StatementRequest{}, ofxgo.StatementResponse{}, ofxgo.CCStatementRequest{}, ofxgo.CCStatementResponse{},
		ofxgo.InvStatementRequest{}, ofxgo.InvStatementResponse{}, ofxgo.SecListRequest{}, ofxgo.SecListResponse{},
		ofxgo.SecurityList{}, ofxgo.ProfileRequest{}, ofxgo.ProfileResponse{},
	} {
		walk(reflect.TypeOf(m))
	}
	return found
}

// nameSets gives the message sets of a profile names they can be written with.
func nameSets(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if m, ok := v.Addr().Interface().(*ofxgo.MessageSet); ok {
			m.Name = "X" + strings.ToUpper(m.Name) + "MSGSETV1"
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				nameSets(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nameSets(v.Index(i))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			nameSets(v.Elem())
		}
	}
}

// part is the text of a field's value as the element of that name.
func part(t *testing.T, f reflect.Value, tag string) string {
	if f.Kind() == reflect.Ptr && f.IsNil() {
		return ""
	}
	if f.Kind() == reflect.Slice && !f.Addr().Type().Implements(reflect.TypeOf((*xml.Marshaler)(nil)).Elem()) {
		s := ""
		for i := 0; i < f.Len(); i++ {
			s += part(t, f.Index(i), tag)
		}
		return s
	}
	x := f.Interface()
	if f.CanAddr() {
		x = f.Addr().Interface()
	}
	s, err := encodeAs(x, tag)
	if err != nil {
		failing(t, "%#v cannot be written: %v", x, err)
	}
	return s
}

func opened(ps []string) string {
	s := ""
	for _, p := range ps {
		s += "<" + p + ">"
	}
	return s
}

func closed(ps []string) string {
	s := ""
	for _, p := range ps {
		s = "</" + p + ">" + s
	}
	return s
}

// written is the text of an element put together from those of its fields.
func written(t *testing.T, v reflect.Value, tag string, rows []elementRow) string {
	s := "<" + tag + ">"
	var open []string
	for _, r := range rows {
		path := strings.Split(r.path, ">")
		text := part(t, v.FieldByName(r.field), path[len(path)-1])
		if text == "" || r.omit && v.FieldByName(r.field).IsZero() {
			continue
		}
		parents := path[:len(path)-1]
		n := 0
		for n < len(open) && n < len(parents) && open[n] == parents[n] {
			n++
		}
		s += closed(open[n:]) + opened(parents[n:]) + text
		open = parents
	}
	return s + closed(open) + "</" + tag + ">"
}

func TestReplayC26(t *testing.T) {
	rnd := newRand()
	ts := tableTypes()
	for name, e := range elementTable {
		ty, ok := ts[name]
		if !ok {
			t.Logf("%s is part of no message", name)
			continue
		}
		tag := e.name
		if tag == "" {
			tag = "ANYNAME"
		}
		for i := 0; i < rounds(12, 200); i++ {
			v := reflect.New(ty)
			fill(rnd, v.Interface(), []int{fillAll, fillAll, fillSome}[i%3])
			nameSets(v.Elem())
			cases++
			want := written(t, v.Elem(), tag, e.rows)
			got, err := encodeAs(v.Interface(), tag)
			if i%2 == 0 && e.name != "" {
				var b []byte
				b, err = xml.Marshal(v.Interface())
				got = string(b)
			}
			if i%3 == 2 {
				// (parts left out may leave empty parents)
				want, got = squeeze(want), squeeze(got)
			}
			if err != nil || got != want {
				failing(t, "%s is written as %s (error: %v), not %s", name, got, err, want)
			}
			full, _ := encodeAs(v.Interface(), tag)
			back := reflect.New(ty)
			if err := decodeFrom(full, back.Interface()); err != nil {
				failing(t, "%s cannot be read from %s: %v", name, full, err)
			}
			again, err := encodeAs(back.Interface(), tag)
			if err != nil || again != full {
				failing(t, "%s read from %s is written as %s (error: %v)", name, full, again, err)
			}
			if i%3 == 2 {
				continue
			}
			for _, r := range e.rows {
				path := strings.Split(r.path, ">")
				text := part(t, v.Elem().FieldByName(r.field), path[len(path)-1])
				doc := fmt.Sprintf("<%s>%s%s%s</%s>", tag, opened(path[:len(path)-1]), text, closed(path[:len(path)-1]), tag)
				one := reflect.New(ty)
				if err := decodeFrom(doc, one.Interface()); err != nil {
					failing(t, "%s cannot be read from %s: %v", name, doc, err)
				}
				if got := part(t, one.Elem().FieldByName(r.field), path[len(path)-1]); got != text {
					failing(t, "%s of %s read from %s is %s", r.field, name, doc, got)
				}
				for k := 0; k < ty.NumField(); k++ {
					if f := ty.Field(k).Name; f != r.field && f != "XMLName" && !one.Elem().Field(k).IsZero() {
						failing(t, "%s of %s is set by reading %s", f, name, doc)
					}
				}
			}
		}
	}
}

// squeeze drops empty elements.
func squeeze(s string) string {
	for {
		i, n := 0, len(s)
		for i < len(s) {
			j := strings.Index(s[i:], "></")
			if j < 0 {
				break
			}
			j += i
			k := strings.LastIndexByte(s[:j], '<')
			end := strings.IndexByte(s[j+1:], '>')
			if k >= 0 && s[k+1] != '/' && s[k+1:j] == s[j+3:j+1+end] {
				s = s[:k] + s[j+2+end:]
				i = k
				if i > 0 {
					i--
				}
			} else {
				i = j + 1
			}
		}
		if len(s) == n {
			return s
		}
	}
}
