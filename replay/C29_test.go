//go:build go1.21

package ofxgo_test

//replay:use fill_test.go valid_test.go C16_test.go

import (
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func validBalance(b ofxgo.Balance) bool { return b.Name != "" && b.Desc != "" && named(b.BalType) }

func validStatement[V ~uint](r *ofxgo.StatementResponse, v V) bool {
	ok := validUID(r.TrnUID) && validStatus(r.Status) && r.CurDef.Unit.String() != "XXX" && validBank(r.BankAcctFrom) && !r.DtAsOf.IsZero() && (r.AvailBalAmt == nil) == (r.AvailDtAsOf == nil)
	if l := r.BankTranList; l != nil {
		ok = ok && !l.DtStart.IsZero() && !l.DtEnd.IsZero()
		for _, x := range l.Transactions {
			ok = ok && validTransaction(x, v)
		}
	}
	if l := r.BankTranListP; l != nil {
		ok = ok && uint(v) >= uint(ofxgo.OfxVersion220) && !l.DtAsOf.IsZero()
		for _, x := range l.Transactions {
			ok = ok && validPending(x)
		}
	}
	for _, b := range r.BalList {
		ok = ok && validBalance(b)
	}
	return ok
}

func TestReplayC29(t *testing.T) {
	rnd := newRand()
	for i := 0; i < rounds(15000, 200000); i++ {
		v := versions[rnd.Intn(len(versions))]
		{
			var x ofxgo.Payee
			nearlyValid(rnd, &x, i)
			ok, err := x.Valid()
			checkValid(t, x, v, ok, err, validPayee(x))
		}
		{
			var x ofxgo.BankAcct
			nearlyValid(rnd, &x, i)
			ok, err := x.Valid()
			checkValid(t, x, v, ok, err, validBank(x))
		}
		{
			var x ofxgo.CCAcct
			nearlyValid(rnd, &x, i)
			ok, err := x.Valid()
			checkValid(t, x, v, ok, err, x.AcctID != "")
		}
		{
			var x ofxgo.Balance
			nearlyValid(rnd, &x, i)
			ok, err := x.Valid()
			checkValid(t, x, v, ok, err, validBalance(x))
		}
		{
			var x ofxgo.StatementRequest
			nearlyValid(rnd, &x, i)
			ok, err := x.Valid(v)
			want := validUID(x.TrnUID) && validBank(x.BankAcctFrom) && !(bool(x.IncludePending) && v < ofxgo.OfxVersion220) && !(bool(x.IncTranImg) && v < ofxgo.OfxVersion210)
			checkValid(t, x, v, ok, err, want)
		}
		if i%3 == 0 {
			var x ofxgo.StatementResponse
			nearlyValid(rnd, &x, i)
			if rnd.Intn(8) > 0 {
				x.Status = ofxgo.Status{Code: 0, Severity: "INFO"}
			} else {
				x.Status = ofxgo.Status{Code: ofxgo.Int(rnd.Intn(2100)), Severity: []ofxgo.String{"INFO", "WARN", "ERROR"}[rnd.Intn(3)]}
			}
			if rnd.Intn(2) == 0 {
				if x.AvailBalAmt != nil {
					x.AvailDtAsOf = ofxgo.NewDateGMT(2000, 1, 1, 0, 0, 0, 0)
				} else {
					x.AvailDtAsOf = nil
				}
			}
			for k := range x.BalList {
				if rnd.Intn(3) > 0 {
					x.BalList[k].Name, x.BalList[k].Desc, x.BalList[k].BalType = "n", "d", ofxgo.BalTypeNumber
				}
			}
			for _, l := range []*[]ofxgo.Transaction{} {
				_ = l
			}
			if l := x.BankTranList; l != nil && rnd.Intn(3) > 0 {
				for k := range l.Transactions {
					l.Transactions[k] = ofxgo.Transaction{TrnType: ofxgo.TrnTypeCheck, DtPosted: l.DtStart, FiTID: "1"}
				}
				if n := len(l.Transactions); n > 0 && rnd.Intn(4) == 0 {
					l.Transactions[rnd.Intn(n)].FiTID = ""
				}
			}
			if l := x.BankTranListP; l != nil && rnd.Intn(3) > 0 {
				for k := range l.Transactions {
					l.Transactions[k] = ofxgo.PendingTransaction{TrnType: ofxgo.TrnTypeHold, DtTran: *ofxgo.NewDateGMT(2000, 1, 1, 0, 0, 0, 0), Name: "n"}
				}
				if n := len(l.Transactions); n > 0 && rnd.Intn(4) == 0 {
					l.Transactions[rnd.Intn(n)].Name = ""
				}
			}
			old := deepCopy(x)
			ok, err := x.Valid(v)
			checkValid(t, x, v, ok, err, validStatement(&x, v))
			if !reflect.DeepEqual(old, x) {
				failing(t, "%+v changed by Valid", old)
			}
		}
		if i < 3000 {
			for _, m := range []ofxgo.Message{&ofxgo.StatementRequest{}, &ofxgo.CCStatementRequest{}, &ofxgo.CCStatementResponse{}, &ofxgo.InvStatementRequest{}, &ofxgo.InvStatementResponse{}, &ofxgo.SecListRequest{}, &ofxgo.SecListResponse{}, &ofxgo.AcctInfoRequest{}, &ofxgo.AcctInfoResponse{}, &ofxgo.ProfileRequest{}, &ofxgo.ProfileResponse{}, &ofxgo.SecurityList{}} {
				f := reflect.ValueOf(m).Elem().FieldByName("TrnUID")
				if f.IsValid() {
					f.SetString([]string{"", "1", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789A", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"}[rnd.Intn(5)])
				}
				if i > 20 {
					uid := ""
					if f.IsValid() {
						uid = f.String()
					}
					fill(rnd, m, 2)
					if f.IsValid() {
						f.SetString(uid)
					}
				}
				old := deepCopy(reflect.ValueOf(m).Elem().Interface())
				ok, err := m.Valid(v)
				if _, isStmt := m.(*ofxgo.StatementRequest); !isStmt {
					checkValid(t, m, v, ok, err, !f.IsValid() || validUID(ofxgo.UID(f.String())))
				}
				if p, isProf := m.(*ofxgo.ProfileRequest); isProf {
					o := old.(ofxgo.ProfileRequest)
					if ok && p.ClientRouting != "NONE" {
						failing(t, "ProfileRequest %+v: client routing is %q after Valid", o, p.ClientRouting)
					}
					if ok {
						o.ClientRouting = "NONE"
						old = o
					}
				}
				if !reflect.DeepEqual(old, reflect.ValueOf(m).Elem().Interface()) {
					failing(t, "%T %s changed by Valid", m, describe(old))
				}
			}
		}
	}
}
