package ofxgo_test

import (
	"math/big"
	"math/rand"
	"reflect"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"golang.org/x/text/currency"
)

// enumLimits are the numbers of named values of the enumerations.
var enumSizes = map[string]int{}

func enumSize(t reflect.Type) int {
	if n, ok := enumSizes[t.Name()]; ok {
		return n
	}
	n := 0
	for {
		v := reflect.New(t).Elem()
		v.SetUint(uint64(n + 1))
		m, ok := v.Interface().(interface{ Valid() bool })
		if !ok || !m.Valid() {
			break
		}
		n++
	}
	enumSizes[t.Name()] = n
	return n
}

var isoCodes = []string{"USD", "EUR", "GBP", "JPY", "CHF", "CAD", "AUD", "XXX"}

var implementations = map[reflect.Type][]interface{}{
	reflect.TypeOf((*ofxgo.InvTransaction)(nil)).Elem(): {ofxgo.BuyDebt{}, ofxgo.BuyMF{}, ofxgo.BuyOpt{}, ofxgo.BuyOther{}, ofxgo.BuyStock{}, ofxgo.ClosureOpt{}, ofxgo.Income{}, ofxgo.InvExpense{}, ofxgo.JrnlFund{}, ofxgo.JrnlSec{}, ofxgo.MarginInterest{}, ofxgo.Reinvest{}, ofxgo.RetOfCap{}, ofxgo.SellDebt{}, ofxgo.SellMF{}, ofxgo.SellOpt{}, ofxgo.SellOther{}, ofxgo.SellStock{}, ofxgo.Split{}, ofxgo.Transfer{}},
	reflect.TypeOf((*ofxgo.Position)(nil)).Elem():       {ofxgo.DebtPosition{}, ofxgo.MFPosition{}, ofxgo.OptPosition{}, ofxgo.OtherPosition{}, ofxgo.StockPosition{}},
	reflect.TypeOf((*ofxgo.OpenOrder)(nil)).Elem():      {ofxgo.OOBuyDebt{}, ofxgo.OOBuyMF{}, ofxgo.OOBuyOpt{}, ofxgo.OOBuyOther{}, ofxgo.OOBuyStock{}, ofxgo.OOSellDebt{}, ofxgo.OOSellMF{}, ofxgo.OOSellOpt{}, ofxgo.OOSellOther{}, ofxgo.OOSellStock{}, ofxgo.OOSwitchMF{}},
	reflect.TypeOf((*ofxgo.Security)(nil)).Elem():       {ofxgo.DebtInfo{}, ofxgo.MFInfo{}, ofxgo.OptInfo{}, ofxgo.OtherInfo{}, ofxgo.StockInfo{}},
}

const (
	fillAll   = 0
	fillNone  = 1
	fillSome  = 2 // and above
	fillValid = -1
)

// filler fills values with random contents.
type filler struct {
	rnd  *rand.Rand
	mode int
	// text makes strings
	text func() string
}

func (f *filler) present() bool {
	switch f.mode {
	case fillAll, fillValid:
		return true
	case fillNone:
		return false
	}
	return f.rnd.Intn(2) == 0
}

func (f *filler) fill(v reflect.Value) {
	switch x := v.Addr().Interface().(type) {
	case *big.Rat:
		x.SetFrac64(f.rnd.Int63n(2000000)-1000000, []int64{1, 10, 100, 1000, 4}[f.rnd.Intn(5)])
		if f.mode == fillAll && x.Sign() == 0 {
			x.SetInt64(5)
		}
		return
	case *time.Time:
		if f.present() {
			*x = time.Date(1980+f.rnd.Intn(100), time.Month(1+f.rnd.Intn(12)), 1+f.rnd.Intn(28), f.rnd.Intn(24), f.rnd.Intn(60), f.rnd.Intn(60), f.rnd.Intn(1000)*1000000, time.FixedZone("GMT", 0))
		}
		return
	case *currency.Unit:
		if f.present() {
			n := len(isoCodes)
			if f.mode <= 0 {
				n--
			}
			*x, _ = currency.ParseISO(isoCodes[f.rnd.Intn(n)])
		}
		return
	case *xml.Name:
		return
	case *ofxgo.Boolean:
		if f.mode == fillAll {
			*x = true
		} else if f.mode != fillNone {
			*x = f.rnd.Intn(2) == 0
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				f.fill(v.Field(i))
			}
		}
	case reflect.Ptr:
		if f.present() {
			p := reflect.New(v.Type().Elem())
			f.fill(p.Elem())
			v.Set(p)
		}
	case reflect.Slice:
		n := 0
		if f.present() {
			n = 1 + f.rnd.Intn(3)
		}
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			f.fill(e)
			v.Set(reflect.Append(v, e))
		}
	case reflect.Interface:
		is := implementations[v.Type()]
		if len(is) > 0 {
			e := reflect.New(reflect.TypeOf(is[f.rnd.Intn(len(is))]))
			f.fill(e.Elem())
			v.Set(e.Elem())
		}
	case reflect.String:
		if f.present() {
			v.SetString(f.text())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if f.present() {
			v.SetInt(f.rnd.Int63n(1000) + 1)
		}
	case reflect.Uint, reflect.Uint64:
		if f.present() {
			if n := enumSize(v.Type()); n > 0 {
				v.SetUint(uint64(1 + f.rnd.Intn(n)))
			}
		}
	case reflect.Bool:
		if f.mode == fillAll {
			v.SetBool(true)
		} else if f.mode != fillNone {
			v.SetBool(f.rnd.Intn(2) == 0)
		}
	}
}

func randText(rnd *rand.Rand) string {
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, 1+rnd.Intn(12))
	for i := range b {
		b[i] = letters[rnd.Intn(len(letters))]
	}
	return string(b)
}

// fill fills *v: everything for i=0, nothing for i=1, some parts otherwise.
func fill(rnd *rand.Rand, v interface{}, i int) {
	f := &filler{rnd: rnd, mode: i}
	f.text = func() string { return randText(rnd) }
	f.fill(reflect.ValueOf(v).Elem())
}
