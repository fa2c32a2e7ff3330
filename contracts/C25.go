//go:build go1.21

package main

// The commands which print what a server has sent: whatever it is, nothing in
// it makes them crash, and everything in it they are about is printed, in the
// order it was sent in.

//govc:package main
//govc:trusted fmt prints its arguments, recovering from panics of their methods
//govc:trusted the responses of clients hold no nil messages (C08)

import (
	"strings"

	"github.com/aclindsa/ofxgo"
)

var (
	g25Response *ofxgo.Response // what the server has sent
	g25Balance  bool            // the balance has been printed
	g25Next     int             // how many accounts or transactions of the list have been printed
	g25Block    int             // how many lists of bank transactions have been begun
	g25Inv      int             // how many investment transactions have been printed
	g25Type     string          // the name of its type
	g25Stage    int             // of the next investment transaction: 1 its type has been printed, 2 its date
)

func C25__contract__newRequest__some(r0 ofxgo.Client, r1 *ofxgo.Request) bool {
	return r0 != nil && r1 != nil
}

func C25__contract__printRequest__any() bool { return true }
func C25__modifies__printRequest__request(p1 *ofxgo.Request) []interface{} {
	return []interface{}{p1}
}
func C25__assume__ofxgo_Request_Marshal__any() bool { return true }
func C25__modifies__ofxgo_Request_Marshal__request(p0 *ofxgo.Request) []interface{} {
	return []interface{}{p0}
}

func C25__assume__ofxgo_Client_Request__some(r0 *ofxgo.Response, r1 error) bool {
	return r1 != nil || r0 != nil && c25whole(r0)
}

// c25whole: there are no nil messages, and no nil transactions in them.
func c25whole(r *ofxgo.Response) bool {
	return forall(len(r.Signup), func(i int) bool {
		x, ok := r.Signup[i].(*ofxgo.AcctInfoResponse)
		return r.Signup[i] != nil && (!ok || x != nil)
	}) && forall(len(r.Bank), func(i int) bool {
		x, ok := r.Bank[i].(*ofxgo.StatementResponse)
		return r.Bank[i] != nil && (!ok || x != nil)
	}) && forall(len(r.CreditCard), func(i int) bool {
		x, ok := r.CreditCard[i].(*ofxgo.CCStatementResponse)
		return r.CreditCard[i] != nil && (!ok || x != nil)
	}) && forall(len(r.InvStmt), func(i int) bool {
		x, ok := r.InvStmt[i].(*ofxgo.InvStatementResponse)
		return r.InvStmt[i] != nil && (!ok || x != nil && (x.InvTranList == nil || forall(len(x.InvTranList.InvTransactions), func(k int) bool {
			return x.InvTranList.InvTransactions[k] != nil
		})))
	})
}

func C25__after__ofxgo_Client_Request__response(r0 *ofxgo.Response, r1 error) {
	if r1 == nil {
		g25Response = r0
	}
}

func C25__assume__ofxgo_InvTransaction_TransactionType__any() bool { return true }

func C25__after__ofxgo_InvTransaction_TransactionType__type(r0 string) { g25Type = r0 }

func C25__before__ofxgo_Client_RequestNoParse__response() {
	vGiveUp("parsing the response itself")
}

// c25accepted: a response has been accepted.
func c25accepted() bool {
	return g25Response != nil && g25Response.Signon.Status.Code == 0
}

func C25__before__os_Exit__accepted() {
	vAssert(!c25accepted(), "the program doesn't end before having printed what there is")
}

// ---- What is printed

func C25__before__fmt_Printf__line(p1 []interface{})   { c25line(p1) }
func C25__before__fmt_Println__line(p0 []interface{})  { c25line(p0) }
func C25__before__fmt_Print__line(p0 []interface{})    { c25line(p0) }
func C25__before__fmt_Fprintf__line(p2 []interface{})  { c25line(p2) }
func C25__before__fmt_Fprintln__line(p1 []interface{}) { c25line(p1) }
func C25__before__fmt_Fprint__line(p1 []interface{})   { c25line(p1) }

// c25text: some of the arguments are a text which contains s.
func c25text(args []interface{}, s string) bool {
	for _, a := range args {
		switch x := a.(type) {
		case string:
			if same(x, s) {
				return true
			}
		case ofxgo.String:
			if same(string(x), s) {
				return true
			}
		}
	}
	return c25part(args, s)
}

func c25part(args []interface{}, s string) bool {
	for _, a := range args {
		switch x := a.(type) {
		case string:
			if strings.Contains(x, s) {
				return true
			}
		case ofxgo.String:
			if strings.Contains(string(x), s) {
				return true
			}
		}
	}
	return false
}

func c25amount(args []interface{}, n ofxgo.Amount) bool {
	if c25hasType(args, ofxgo.Amount{}) {
		return c25any(args, n)
	}
	return c25part(args, n.String())
}

func c25date(args []interface{}, d ofxgo.Date) bool {
	return c25any(args, d)
}

func c25currency(args []interface{}, c ofxgo.CurrSymbol) bool {
	if c25hasType(args, ofxgo.CurrSymbol{}) {
		return c25any(args, c)
	}
	return c25part(args, c.String())
}

// c25any: some of the arguments are x.
func c25any(args []interface{}, x interface{}) bool {
	for _, a := range args {
		if same(a, x) {
			return true
		}
	}
	return false
}

// c25hasType: some of the arguments have the type of x.
func c25hasType[T any](args []interface{}, x T) bool {
	for _, a := range args {
		if _, ok := a.(T); ok {
			return true
		}
	}
	return false
}

// ---- Accounts

func c25account(args []interface{}, a *ofxgo.AcctInfo) bool {
	switch {
	case a.BankAcctInfo != nil:
		x := a.BankAcctInfo.BankAcctFrom
		return c25text(args, string(x.BankID)) && c25text(args, string(x.AcctID)) && c25any(args, x.AcctType)
	case a.CCAcctInfo != nil:
		return c25text(args, string(a.CCAcctInfo.CCAcctFrom.AcctID))
	case a.InvAcctInfo != nil:
		x := a.InvAcctInfo.InvAcctFrom
		return c25text(args, string(x.BrokerID)) && c25text(args, string(x.AcctID))
	}
	return c25text(args, string(a.Name)) && c25text(args, string(a.Desc))
}

// ---- Bank transactions

// c25currencyOf is the currency of a transaction's amount.
func c25currencyOf(def ofxgo.CurrSymbol, t *ofxgo.Transaction) ofxgo.CurrSymbol {
	if t.Currency != nil {
		return t.Currency.CurSym
	}
	return def
}

// c25name is the name of the other side.
func c25name(t *ofxgo.Transaction) string {
	if len(t.Name) > 0 {
		return string(t.Name)
	}
	if t.Payee != nil {
		return string(t.Payee.Name)
	}
	return ""
}

func c25transaction(args []interface{}, def ofxgo.CurrSymbol, t *ofxgo.Transaction) bool {
	return c25date(args, t.DtPosted) && c25amount(args, t.TrnAmt) && c25currency(args, c25currencyOf(def, t)) &&
		c25any(args, t.TrnType) && c25text(args, c25name(t)) && c25text(args, string(t.Memo))
}

func c25balance(args []interface{}, n ofxgo.Amount, c ofxgo.CurrSymbol, d ofxgo.Date) bool {
	if !c25hasType(args, d) || !c25hasType(args, n) && !c25hasType(args, "") {
		return false
	}
	return c25amount(args, n) && c25currency(args, c) && c25date(args, d)
}

// ---- Investment transactions

func c25security(args []interface{}, s ofxgo.SecurityID) bool {
	return c25text(args, string(s.UniqueIDType)) && c25text(args, string(s.UniqueID))
}

func c25own(def ofxgo.CurrSymbol, c ofxgo.Currency) ofxgo.CurrSymbol {
	if ok, _ := c.Valid(); ok {
		return c.CurSym
	}
	return def
}

func c25buy(args []interface{}, def ofxgo.CurrSymbol, b *ofxgo.InvBuy) bool {
	return c25amount(args, b.Units) && c25security(args, b.SecID) && c25amount(args, b.UnitPrice) && c25currency(args, c25own(def, b.Currency)) && c25amount(args, b.Total)
}

func c25sell(args []interface{}, def ofxgo.CurrSymbol, b *ofxgo.InvSell) bool {
	return c25amount(args, b.Units) && c25security(args, b.SecID) && c25amount(args, b.UnitPrice) && c25currency(args, c25own(def, b.Currency)) && c25amount(args, b.Total)
}

// c25tran is what all investment transactions have in common, if t is one of
// those known.
func c25tran(t ofxgo.InvTransaction) (*ofxgo.InvTran, bool) {
	switch x := t.(type) {
	case ofxgo.BuyDebt:
		return &x.InvBuy.InvTran, true
	case ofxgo.BuyMF:
		return &x.InvBuy.InvTran, true
	case ofxgo.BuyOpt:
		return &x.InvBuy.InvTran, true
	case ofxgo.BuyOther:
		return &x.InvBuy.InvTran, true
	case ofxgo.BuyStock:
		return &x.InvBuy.InvTran, true
	case ofxgo.ClosureOpt:
		return &x.InvTran, true
	case ofxgo.Income:
		return &x.InvTran, true
	case ofxgo.InvExpense:
		return &x.InvTran, true
	case ofxgo.JrnlFund:
		return &x.InvTran, true
	case ofxgo.JrnlSec:
		return &x.InvTran, true
	case ofxgo.MarginInterest:
		return &x.InvTran, true
	case ofxgo.Reinvest:
		return &x.InvTran, true
	case ofxgo.RetOfCap:
		return &x.InvTran, true
	case ofxgo.SellDebt:
		return &x.InvSell.InvTran, true
	case ofxgo.SellMF:
		return &x.InvSell.InvTran, true
	case ofxgo.SellOpt:
		return &x.InvSell.InvTran, true
	case ofxgo.SellOther:
		return &x.InvSell.InvTran, true
	case ofxgo.SellStock:
		return &x.InvSell.InvTran, true
	case ofxgo.Split:
		return &x.InvTran, true
	case ofxgo.Transfer:
		return &x.InvTran, true
	}
	return nil, false
}

// c25details: what makes up a transaction is printed.
func c25details(args []interface{}, def ofxgo.CurrSymbol, t ofxgo.InvTransaction) bool {
	switch x := t.(type) {
	case ofxgo.BuyDebt:
		return c25buy(args, def, &x.InvBuy)
	case ofxgo.BuyMF:
		return c25buy(args, def, &x.InvBuy)
	case ofxgo.BuyOpt:
		return c25buy(args, def, &x.InvBuy)
	case ofxgo.BuyOther:
		return c25buy(args, def, &x.InvBuy)
	case ofxgo.BuyStock:
		return c25buy(args, def, &x.InvBuy)
	case ofxgo.ClosureOpt:
		return c25any(args, x.OptAction) && c25amount(args, x.Units) && c25any(args, x.ShPerCtrct)
	case ofxgo.Income:
		return c25any(args, x.IncomeType) && c25amount(args, x.Total) && c25currency(args, c25own(def, x.Currency)) && c25security(args, x.SecID)
	case ofxgo.InvExpense:
		return c25amount(args, x.Total) && c25currency(args, c25own(def, x.Currency)) && c25security(args, x.SecID)
	case ofxgo.JrnlFund:
		return c25amount(args, x.Total) && c25currency(args, def) && c25any(args, x.SubAcctFrom) && c25any(args, x.SubAcctTo)
	case ofxgo.JrnlSec:
		return c25amount(args, x.Units) && c25security(args, x.SecID) && c25any(args, x.SubAcctFrom) && c25any(args, x.SubAcctTo)
	case ofxgo.MarginInterest:
		return c25amount(args, x.Total) && c25currency(args, c25own(def, x.Currency))
	case ofxgo.Reinvest:
		return c25amount(args, x.Units) && c25security(args, x.SecID) && c25amount(args, x.UnitPrice) && c25currency(args, c25own(def, x.Currency)) && c25amount(args, x.Total)
	case ofxgo.RetOfCap:
		return c25amount(args, x.Total) && c25currency(args, c25own(def, x.Currency)) && c25security(args, x.SecID)
	case ofxgo.SellDebt:
		return c25sell(args, def, &x.InvSell)
	case ofxgo.SellMF:
		return c25sell(args, def, &x.InvSell)
	case ofxgo.SellOpt:
		return c25sell(args, def, &x.InvSell)
	case ofxgo.SellOther:
		return c25sell(args, def, &x.InvSell)
	case ofxgo.SellStock:
		return c25sell(args, def, &x.InvSell)
	case ofxgo.Split:
		return c25any(args, x.Numerator) && c25any(args, x.Denominator) && c25amount(args, x.OldUnits) && c25amount(args, x.NewUnits) &&
			c25security(args, x.SecID) && c25amount(args, x.FracCash) && c25currency(args, c25own(def, x.Currency))
	case ofxgo.Transfer:
		return c25amount(args, x.Units) && c25security(args, x.SecID) && c25any(args, x.TferAction)
	}
	return true
}

// c25investment follows the printing of investment transactions.
func c25investment(args []interface{}, def ofxgo.CurrSymbol, l []ofxgo.InvTransaction) {
	if g25Inv >= len(l) {
		return
	}
	t := l[g25Inv]
	if g25Stage == 0 {
		if vPure(func() bool { return c25text(args, g25Type) }) {
			g25Stage = 1
		}
	}
	if g25Stage == 1 {
		if vPure(func() bool {
			it, ok := c25tran(t)
			return !ok || c25date(args, it.DtTrade)
		}) {
			g25Stage = 2
		}
	}
	if g25Stage == 2 {
		if vPure(func() bool { return c25details(args, def, t) }) {
			g25Stage = 0
			g25Inv++
		}
	}
}

func c25line(args []interface{}) {
	if !c25accepted() {
		return
	}
	switch r := g25Response; g25Kind {
	case k25Accounts:
		if len(r.Signup) == 0 {
			return
		}
		if x, ok := r.Signup[0].(*ofxgo.AcctInfoResponse); ok && g25Next < len(x.AcctInfo) && vPure(func() bool { return c25account(args, &x.AcctInfo[g25Next]) }) {
			g25Next++
		}
	case k25Bank:
		if len(r.Bank) == 0 {
			return
		}
		if x, ok := r.Bank[0].(*ofxgo.StatementResponse); ok {
			if vPure(func() bool { return c25balance(args, x.BalAmt, x.CurDef, x.DtAsOf) }) {
				g25Balance = true
			}
			if l := x.BankTranList; l != nil && g25Next < len(l.Transactions) && vPure(func() bool { return c25transaction(args, x.CurDef, &l.Transactions[g25Next]) }) {
				g25Next++
			}
		}
	case k25Card:
		if len(r.CreditCard) == 0 {
			return
		}
		if x, ok := r.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
			if vPure(func() bool { return c25balance(args, x.BalAmt, x.CurDef, x.DtAsOf) }) {
				g25Balance = true
			}
			if l := x.BankTranList; l != nil && g25Next < len(l.Transactions) && vPure(func() bool { return c25transaction(args, x.CurDef, &l.Transactions[g25Next]) }) {
				g25Next++
			}
		}
	case k25Inv:
		if len(r.InvStmt) == 0 {
			return
		}
		if x, ok := r.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
			if !c25hasType(args, ofxgo.Transaction{}.TrnType) && c25hasType(args, ofxgo.Date{}) && c25hasType(args, ofxgo.Amount{}) && x.InvBal != nil && vPure(func() bool { return c25balance(args, x.InvBal.AvailCash, x.CurDef, x.DtAsOf) }) {
				g25Balance = true
			}
			if x.InvTranList == nil {
				return
			}
			bs := x.InvTranList.BankTransactions
			if !c25hasType(args, ofxgo.Transaction{}.TrnType) {
				if g25Block == len(bs) {
					c25investment(args, x.CurDef, x.InvTranList.InvTransactions)
				} else if c25hasType(args, ofxgo.InvBankTransaction{}.SubAcctFund) && (g25Block == 0 || g25Next == len(bs[g25Block-1].Transactions)) {
					if vPure(func() bool { return c25any(args, bs[g25Block].SubAcctFund) }) {
						g25Block++
						g25Next = 0
					}
				}
				return
			}
			if g25Block > 0 && g25Next < len(bs[g25Block-1].Transactions) {
				if vPure(func() bool { return c25transaction(args, x.CurDef, &bs[g25Block-1].Transactions[g25Next]) }) {
					g25Next++
				}
			}
		}
	}
}

const (
	k25Accounts = 1 + iota
	k25Bank
	k25Card
	k25Inv
)

var g25Kind int

func C25__setup__getAccounts__kind() { g25Kind = k25Accounts }

func C25__ensures__getAccounts__all() bool {
	if !c25accepted() || len(g25Response.Signup) == 0 {
		return true
	}
	x, ok := g25Response.Signup[0].(*ofxgo.AcctInfoResponse)
	return !ok || g25Next == len(x.AcctInfo)
}

func C25__setup__bankTransactions__kind() { g25Kind = k25Bank }

func C25__ensures__bankTransactions__all() bool {
	if !c25accepted() || len(g25Response.Bank) == 0 {
		return true
	}
	x, ok := g25Response.Bank[0].(*ofxgo.StatementResponse)
	return !ok || g25Balance && (x.BankTranList == nil || g25Next == len(x.BankTranList.Transactions))
}

func C25__setup__ccTransactions__kind() { g25Kind = k25Card }

func C25__ensures__ccTransactions__all() bool {
	if !c25accepted() || len(g25Response.CreditCard) == 0 {
		return true
	}
	x, ok := g25Response.CreditCard[0].(*ofxgo.CCStatementResponse)
	return !ok || g25Balance && (x.BankTranList == nil || g25Next == len(x.BankTranList.Transactions))
}

func C25__setup__invTransactions__kind() { g25Kind = k25Inv }

func c25lists() ([]ofxgo.InvBankTransaction, []ofxgo.InvTransaction, bool) {
	if !c25accepted() || len(g25Response.InvStmt) == 0 {
		return nil, nil, false
	}
	x, ok := g25Response.InvStmt[0].(*ofxgo.InvStatementResponse)
	if !ok || x.InvTranList == nil {
		return nil, nil, false
	}
	return x.InvTranList.BankTransactions, x.InvTranList.InvTransactions, true
}

// The lists of bank transactions, the transactions in one of them, and the
// investment transactions.

func C25__inv__invTransactions__lists(k int) bool {
	bs, _, ok := c25lists()
	return !ok || g25Block == k && g25Block <= len(bs) && (k == 0 || g25Next == len(bs[k-1].Transactions)) && g25Inv == 0 && g25Stage == 0
}

func C25__inv__invTransactions__list(k int) bool {
	bs, _, ok := c25lists()
	return !ok || g25Block > 0 && g25Block <= len(bs) && g25Next == k && k <= len(bs[g25Block-1].Transactions) && g25Inv == 0 && g25Stage == 0
}

func C25__inv__invTransactions__investments(k int) bool {
	bs, l, ok := c25lists()
	return !ok || g25Block == len(bs) && (g25Block == 0 || g25Next == len(bs[g25Block-1].Transactions)) && g25Inv == k && k <= len(l) && g25Stage == 0
}

func C25__ensures__invTransactions__all() bool {
	if !c25accepted() || len(g25Response.InvStmt) == 0 {
		return true
	}
	x, ok := g25Response.InvStmt[0].(*ofxgo.InvStatementResponse)
	if !ok {
		return true
	}
	if x.InvBal != nil && x.InvBal.AvailCash.Sign() != 0 && !g25Balance {
		return false
	}
	if x.InvTranList == nil {
		return true
	}
	bs := x.InvTranList.BankTransactions
	return g25Block == len(bs) && (g25Block == 0 || g25Next == len(bs[g25Block-1].Transactions)) && g25Inv == len(x.InvTranList.InvTransactions)
}
