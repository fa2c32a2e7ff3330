//go:build go1.21

package ofxgo

import (
	"io"

	"github.com/aclindsa/xml"
)

// vWriter is what an encoder writes to.
func vWriter(e *xml.Encoder) io.Writer { return nil }

// Lists of messages hold no nil messages.
func msgNoNil(l []Message) bool {
	return forall(len(l), func(i int) bool { return l[i] != nil })
}

func msgRequestSets(q *Request) [14][]Message {
	return [14][]Message{q.Signup, q.Bank, q.CreditCard, q.Loan, q.InvStmt, q.InterXfer, q.WireXfer, q.Billpay, q.Email, q.SecList, q.PresDir, q.PresDlv, q.Prof, q.Image}
}

func msgResponseSets(q *Response) [14][]Message {
	return [14][]Message{q.Signup, q.Bank, q.CreditCard, q.Loan, q.InvStmt, q.InterXfer, q.WireXfer, q.Billpay, q.Email, q.SecList, q.PresDir, q.PresDlv, q.Prof, q.Image}
}

func msgRequestNoNil(q *Request) bool {
	ok := true
	for _, s := range msgRequestSets(q) {
		ok = ok && msgNoNil(s)
	}
	return ok
}

func msgResponseNoNil(q *Response) bool {
	ok := true
	for _, s := range msgResponseSets(q) {
		ok = ok && msgNoNil(s)
	}
	return ok
}
