//go:build go1.21

package ofxgo_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func listOf[T any](x ...T) []T { return x }

var versions = listOf(ofxgo.OfxVersion102, ofxgo.OfxVersion103, ofxgo.OfxVersion151, ofxgo.OfxVersion160, ofxgo.OfxVersion200, ofxgo.OfxVersion201, ofxgo.OfxVersion202, ofxgo.OfxVersion203, ofxgo.OfxVersion210, ofxgo.OfxVersion211, ofxgo.OfxVersion220)

func checkValid(t *testing.T, what interface{}, v interface{}, ok bool, err error, want bool) {
	cases++
	if ok != want || ok != (err == nil) {
		failing(t, "%T %s for version %v: Valid() = %v, %v, should be %v", what, describe(what), v, ok, err, want)
	}
}

func describe(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// nearlyValid fills *v with everything, and then spoils a few places.
func nearlyValid(rnd *rand.Rand, v interface{}, i int) {
	if i%7 == 6 {
		fill(rnd, v, 2)
		return
	}
	fill(rnd, v, 0)
	rv := reflect.ValueOf(v).Elem()
	var places []reflect.Value
	var walk func(x reflect.Value, top bool)
	walk = func(x reflect.Value, top bool) {
		if !top && x.CanSet() {
			places = append(places, x)
		}
		switch x.Kind() {
		case reflect.Struct:
			switch x.Type().String() {
			case "xml.Name", "time.Time", "big.Rat", "currency.Unit":
				return
			}
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i), false)
			}
		case reflect.Ptr:
			if !x.IsNil() {
				walk(x.Elem(), false)
			}
		case reflect.Slice:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), false)
			}
		}
	}
	walk(rv, true)
	// optional things that exclude each other
	for _, p := range places {
		if p.Kind() == reflect.Ptr && rnd.Intn(2) == 0 {
			p.Set(reflect.Zero(p.Type()))
		}
		if p.Kind() == reflect.String && len(p.String()) > 0 {
			switch {
			case rnd.Intn(12) == 0:
				p.SetString("")
			case rnd.Intn(3) == 0:
				p.SetString("ABC")
			}
		}
		if p.Kind() == reflect.Bool && rnd.Intn(2) == 0 {
			p.SetBool(false)
		}
		if p.Kind() == reflect.Slice && rnd.Intn(2) == 0 {
			p.Set(reflect.Zero(p.Type()))
		}
	}
	for k := rnd.Intn(3); k > 0; k-- {
		p := places[rnd.Intn(len(places))]
		switch p.Kind() {
		case reflect.Uint, reflect.Uint64:
			p.SetUint([]uint64{0, uint64(enumSize(p.Type())), uint64(enumSize(p.Type())) + 1, 1000}[rnd.Intn(4)])
		case reflect.String:
			p.SetString([]string{"", "A", "ABC", "ABCD", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789A"}[rnd.Intn(6)])
		default:
			p.Set(reflect.Zero(p.Type()))
		}
	}
}

func deepCopy(v interface{}) interface{} {
	var cp func(x reflect.Value) reflect.Value
	cp = func(x reflect.Value) reflect.Value {
		switch x.Kind() {
		case reflect.Struct:
			n := reflect.New(x.Type()).Elem()
			n.Set(x)
			for i := 0; i < x.NumField(); i++ {
				if n.Field(i).CanSet() {
					n.Field(i).Set(cp(x.Field(i)))
				}
			}
			return n
		case reflect.Ptr:
			if x.IsNil() {
				return x
			}
			n := reflect.New(x.Type().Elem())
			n.Elem().Set(cp(x.Elem()))
			return n
		case reflect.Slice:
			if x.IsNil() {
				return x
			}
			n := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			for i := 0; i < x.Len(); i++ {
				n.Index(i).Set(cp(x.Index(i)))
			}
			return n
		case reflect.Interface:
			if x.IsNil() {
				return x
			}
			n := reflect.New(x.Type()).Elem()
			n.Set(cp(x.Elem()))
			return n
		}
		return x
	}
	return cp(reflect.ValueOf(v)).Interface()
}

// ---- the rules

func validUID(u ofxgo.UID) bool { return len(u) >= 1 && len(u) <= 36 }

func validStatus(s ofxgo.Status) bool {
	row, ok := c16rows[int64(s.Code)]
	return ok && row[1] == string(s.Severity)
}

func named(v interface{}) bool {
	x := reflect.ValueOf(v).Uint()
	return x >= 1 && x <= enumLast(reflect.TypeOf(v).Name())
}

// enumLast: how many names these enumerations have.
func enumLast(name string) uint64 {
	return map[string]uint64{"acctType": 5, "trnType": 18, "correctAction": 2, "balType": 3}[name]
}

func validPayee(p ofxgo.Payee) bool {
	return p.Name != "" && p.Addr1 != "" && p.City != "" && p.State != "" && p.PostalCode != "" && (len(p.Country) == 0 || len(p.Country) == 3) && p.Phone != ""
}

func validBank(b ofxgo.BankAcct) bool { return b.BankID != "" && b.AcctID != "" && named(b.AcctType) }

func validCurrency(c *ofxgo.Currency) bool {
	return c != nil && c.CurRate.Sign() != 0 && c.CurSym.Unit.String() != "XXX"
}

func validTransaction[V ~uint](x ofxgo.Transaction, v V) bool {
	switch {
	case !named(x.TrnType), x.TrnType == ofxgo.TrnTypeHold, x.DtPosted.IsZero(), x.FiTID == "":
		return false
	case x.CorrectFiTID != "" && !named(x.CorrectAction):
		return false
	case x.Name != "" && x.Payee != nil, x.Payee != nil && !validPayee(*x.Payee):
		return false
	case x.BankAcctTo != nil && x.CCAcctTo != nil, x.BankAcctTo != nil && !validBank(*x.BankAcctTo), x.CCAcctTo != nil && x.CCAcctTo.AcctID == "":
		return false
	case len(x.ImageData) > 2, len(x.ImageData) > 0 && uint(v) < uint(ofxgo.OfxVersion220):
		return false
	}
	return !(validCurrency(x.Currency) && validCurrency(x.OrigCurrency))
}

func validPending(x ofxgo.PendingTransaction) bool {
	return named(x.TrnType) && !x.DtTran.IsZero() && x.Name != "" && !(validCurrency(&x.Currency) && validCurrency(&x.OrigCurrency))
}
