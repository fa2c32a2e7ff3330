//go:build go1.21

package ofxgo

//govc:use C14 C16

func c29uid(u UID) bool { return len(u) >= 1 && len(u) <= 36 }

func c29status(s Status) bool {
	_, sev, _, ok := c16row(s.Code)
	return ok && string(s.Severity) == sev
}

func c29balance(b Balance) bool {
	return len(b.Name) > 0 && len(b.Desc) > 0 && c01spellingBalType(b.BalType) != ""
}

func C29__contract__Payee_Valid__exactly(p0 Payee, r0 bool, r1 error) bool {
	return r0 == c14payee(p0) && r0 == (r1 == nil)
}

func C29__contract__BankAcct_Valid__exactly(p0 BankAcct, r0 bool, r1 error) bool {
	return r0 == c14bank(p0) && r0 == (r1 == nil)
}

func C29__contract__CCAcct_Valid__exactly(p0 CCAcct, r0 bool, r1 error) bool {
	return r0 == c14cc(p0) && r0 == (r1 == nil)
}

func C29__contract__Balance_Valid__exactly(p0 Balance, r0 bool, r1 error) bool {
	return r0 == c29balance(p0) && r0 == (r1 == nil)
}

func C29__contract__StatementRequest_Valid__exactly(p0 *StatementRequest, p1 ofxVersion, r0 bool, r1 error) bool {
	want := c29uid(p0.TrnUID) && c14bank(p0.BankAcctFrom) &&
		imp(bool(p0.IncludePending), p1 >= OfxVersion220) && imp(bool(p0.IncTranImg), p1 >= OfxVersion210)
	return r0 == want && r0 == (r1 == nil)
}

func C29__contract__StatementResponse_Valid__exactly(p0 *StatementResponse, p1 ofxVersion, r0 bool, r1 error) bool {
	want := c29uid(p0.TrnUID) && c29status(p0.Status) && p0.CurDef.Unit.String() != "XXX" && c14bank(p0.BankAcctFrom) &&
		!p0.DtAsOf.Time.IsZero() && (p0.AvailBalAmt == nil) == (p0.AvailDtAsOf == nil) &&
		(p0.BankTranList == nil || c14list(*p0.BankTranList, p1)) &&
		(p0.BankTranListP == nil || p1 >= OfxVersion220 && c14pendingList(*p0.BankTranListP)) &&
		forall(len(p0.BalList), func(i int) bool { return c29balance(p0.BalList[i]) })
	return r0 == want && r0 == (r1 == nil)
}

func C29__contract__CCStatementRequest_Valid__exactly(p0 *CCStatementRequest, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__CCStatementResponse_Valid__exactly(p0 *CCStatementResponse, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__InvStatementRequest_Valid__exactly(p0 *InvStatementRequest, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__InvStatementResponse_Valid__exactly(p0 *InvStatementResponse, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__SecListRequest_Valid__exactly(p0 *SecListRequest, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__SecListResponse_Valid__exactly(p0 *SecListResponse, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__AcctInfoRequest_Valid__exactly(p0 *AcctInfoRequest, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__AcctInfoResponse_Valid__exactly(p0 *AcctInfoResponse, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__ProfileResponse_Valid__exactly(p0 *ProfileResponse, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil)
}

func C29__contract__ProfileRequest_Valid__exactly(p0 *ProfileRequest, r0 bool, r1 error) bool {
	return r0 == c29uid(p0.TrnUID) && r0 == (r1 == nil) && imp(r0, p0.ClientRouting == "NONE")
}

func C29__contract__ProfileRequest_Valid__routing(p0 *ProfileRequest, o0 ProfileRequest, r0 bool) bool {
	return imp(!r0, p0.ClientRouting == o0.ClientRouting)
}

func C29__modifies__ProfileRequest_Valid(p0 *ProfileRequest) []interface{} {
	return []interface{}{&p0.ClientRouting}
}

// The list of securities carries no identifier.
func C29__contract__SecurityList_Valid__always(r0 bool, r1 error) bool { return r0 && r1 == nil }
