//go:build go1.21

package ofxgo_test

//replay:use fill_test.go valid_test.go C16_test.go

import (
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC14(t *testing.T) {
	rnd := newRand()
	for i := 0; i < rounds(30000, 400000); i++ {
		v := versions[rnd.Intn(len(versions))]
		var a ofxgo.Transaction
		nearlyValid(rnd, &a, i)
		ok, err := a.Valid(v)
		checkValid(t, a, v, ok, err, validTransaction(a, v))

		var b ofxgo.PendingTransaction
		nearlyValid(rnd, &b, i)
		ok, err = b.Valid()
		checkValid(t, b, v, ok, err, validPending(b))

		if i%4 == 0 {
			var l ofxgo.TransactionList
			nearlyValid(rnd, &l, i)
			want := !l.DtStart.IsZero() && !l.DtEnd.IsZero()
			for _, x := range l.Transactions {
				want = want && validTransaction(x, v)
			}
			old := deepCopy(l)
			ok, err = l.Valid(v)
			checkValid(t, l, v, ok, err, want)
			if !reflect.DeepEqual(old, l) {
				failing(t, "%+v changed by Valid", old)
			}
			var p ofxgo.PendingTransactionList
			nearlyValid(rnd, &p, i)
			want = !p.DtAsOf.IsZero()
			for _, x := range p.Transactions {
				want = want && validPending(x)
			}
			ok, err = p.Valid()
			checkValid(t, p, v, ok, err, want)
		}
	}
}
