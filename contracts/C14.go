//go:build go1.21

package ofxgo

//govc:use TAB

func c14payee(p Payee) bool {
	return len(p.Name) > 0 && len(p.Addr1) > 0 && len(p.City) > 0 && len(p.State) > 0 && len(p.PostalCode) > 0 &&
		(len(p.Country) == 0 || len(p.Country) == 3) && len(p.Phone) > 0
}

func c14bank(b BankAcct) bool {
	return len(b.BankID) > 0 && len(b.AcctID) > 0 && c01spellingAcctType(b.AcctType) != ""
}

func c14cc(c CCAcct) bool { return len(c.AcctID) > 0 }

func c14currency(c Currency) bool {
	return c.CurRate.Rat.Sign() != 0 && c.CurSym.Unit.String() != "XXX"
}

func c14posted(t Transaction, v ofxVersion) bool {
	if c01spellingTrnType(t.TrnType) == "" || t.TrnType == TrnTypeHold || t.DtPosted.Time.IsZero() || len(t.FiTID) == 0 {
		return false
	}
	if len(t.CorrectFiTID) > 0 && c01spellingCorrectAction(t.CorrectAction) == "" {
		return false
	}
	if t.Payee != nil && (len(t.Name) > 0 || !c14payee(*t.Payee)) {
		return false
	}
	if t.BankAcctTo != nil && (t.CCAcctTo != nil || !c14bank(*t.BankAcctTo)) {
		return false
	}
	if t.CCAcctTo != nil && !c14cc(*t.CCAcctTo) {
		return false
	}
	if len(t.ImageData) > 2 || len(t.ImageData) > 0 && v < OfxVersion220 {
		return false
	}
	return !(t.Currency != nil && c14currency(*t.Currency) && t.OrigCurrency != nil && c14currency(*t.OrigCurrency))
}

func c14pending(t PendingTransaction) bool {
	return c01spellingTrnType(t.TrnType) != "" && !t.DtTran.Time.IsZero() && len(t.Name) > 0 &&
		!(c14currency(t.Currency) && c14currency(t.OrigCurrency))
}

func c14list(l TransactionList, v ofxVersion) bool {
	return !l.DtStart.Time.IsZero() && !l.DtEnd.Time.IsZero() &&
		forall(len(l.Transactions), func(i int) bool { return c14posted(l.Transactions[i], v) })
}

func c14pendingList(l PendingTransactionList) bool {
	return !l.DtAsOf.Time.IsZero() &&
		forall(len(l.Transactions), func(i int) bool { return c14pending(l.Transactions[i]) })
}

func C14__contract__Transaction_Valid__exactly(p0 Transaction, p1 ofxVersion, r0 bool, r1 error) bool {
	return r0 == c14posted(p0, p1) && r0 == (r1 == nil)
}

func C14__contract__PendingTransaction_Valid__exactly(p0 PendingTransaction, r0 bool, r1 error) bool {
	return r0 == c14pending(p0) && r0 == (r1 == nil)
}

func C14__contract__TransactionList_Valid__exactly(p0 TransactionList, p1 ofxVersion, r0 bool, r1 error) bool {
	return r0 == c14list(p0, p1) && r0 == (r1 == nil)
}

func C14__contract__PendingTransactionList_Valid__exactly(p0 PendingTransactionList, r0 bool, r1 error) bool {
	return r0 == c14pendingList(p0) && r0 == (r1 == nil)
}
