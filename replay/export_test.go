package ofxgo

// Names for the external test package.
type (
	VVersion     = ofxVersion
	VMessageType = messageType
)

var VLeafElements = ofxLeafElements

func VSets(q *Request) []*[]Message {
	return []*[]Message{&q.Signup, &q.Bank, &q.CreditCard, &q.Loan, &q.InvStmt, &q.InterXfer, &q.WireXfer, &q.Billpay, &q.Email, &q.SecList, &q.PresDir, &q.PresDlv, &q.Prof, &q.Image}
}

func VAnswerSets(q *Response) []*[]Message {
	return []*[]Message{&q.Signup, &q.Bank, &q.CreditCard, &q.Loan, &q.InvStmt, &q.InterXfer, &q.WireXfer, &q.Billpay, &q.Email, &q.SecList, &q.PresDir, &q.PresDlv, &q.Prof, &q.Image}
}
