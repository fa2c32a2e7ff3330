#!/usr/bin/env python3
"""Writes contracts/C13.go and replay/C13_test.go from the table below."""
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MSGS = [  # type, tag, message set
 ('StatementRequest','STMTTRNRQ','BankRq'), ('StatementResponse','STMTTRNRS','BankRs'),
 ('CCStatementRequest','CCSTMTTRNRQ','CreditCardRq'), ('CCStatementResponse','CCSTMTTRNRS','CreditCardRs'),
 ('InvStatementRequest','INVSTMTTRNRQ','InvStmtRq'), ('InvStatementResponse','INVSTMTTRNRS','InvStmtRs'),
 ('ProfileRequest','PROFTRNRQ','ProfRq'), ('ProfileResponse','PROFTRNRS','ProfRs'),
 ('SecListRequest','SECLISTTRNRQ','SecListRq'), ('SecListResponse','SECLISTTRNRS','SecListRs'),
 ('SecurityList','SECLIST','SecListRs'),
 ('AcctInfoRequest','ACCTINFOTRNRQ','SignupRq'), ('AcctInfoResponse','ACCTINFOTRNRS','SignupRs'),
 ('SignonRequest','SONRQ',None), ('SignonResponse','SONRS',None)]
TRANS = [('BuyDebt','InvBuy.InvTran'),('BuyMF','InvBuy.InvTran'),('BuyOpt','InvBuy.InvTran'),('BuyOther','InvBuy.InvTran'),('BuyStock','InvBuy.InvTran'),
 ('ClosureOpt','InvTran'),('Income','InvTran'),('InvExpense','InvTran'),('JrnlFund','InvTran'),('JrnlSec','InvTran'),('MarginInterest','InvTran'),
 ('Reinvest','InvTran'),('RetOfCap','InvTran'),('SellDebt','InvSell.InvTran'),('SellMF','InvSell.InvTran'),('SellOpt','InvSell.InvTran'),
 ('SellOther','InvSell.InvTran'),('SellStock','InvSell.InvTran'),('Split','InvTran'),('Transfer','InvTran')]
POS = [('DebtPosition','POSDEBT'),('MFPosition','POSMF'),('OptPosition','POSOPT'),('OtherPosition','POSOTHER'),('StockPosition','POSSTOCK')]
ORD = [(t, t.upper()) for t in 'OOBuyDebt OOBuyMF OOBuyOpt OOBuyOther OOBuyStock OOSellDebt OOSellMF OOSellOpt OOSellOther OOSellStock'.split()] + [('OOSwitchMF','SWITCHMF')]
SEC = [('DebtInfo','DEBTINFO'),('MFInfo','MFINFO'),('OptInfo','OPTINFO'),('OtherInfo','OTHERINFO'),('StockInfo','STOCKINFO')]
SETS = 'Signon Signup Bank CreditCard Loan InvStmt InterXfer WireXfer Billpay Email SecList PresDir PresDlv Prof Image'.split()
out = ['''//go:build go1.21

package ofxgo

// Generated by tools/mkc13.py.

func c13set(t messageType) string {
	switch t {''']
for s in SETS:
    for d in 'Rq', 'Rs':
        out.append(f'\tcase {s}{d}:\n\t\treturn "{s.upper()}MSGS{d.upper()}V1"')
out.append('''	}
	return ""
}

// message sets outside the table do not exist; printing one is a programming error
func C13__requires__messageType_String__known(p0 messageType) bool { return c13set(p0) != "" }

func C13__ensures__messageType_String__tag(p0 messageType, r0 string) bool { return r0 == c13set(p0) }
''')
def const(t, m, v, lbl, ptr=''):
    out.append(f'func C13__ensures__{t}_{m}__{lbl}(p0 {ptr}{t}, r0 string) bool {{ return r0 == "{v}" }}\n')
for t, tag, s in MSGS:
    const(t, 'Name', tag, 'tag', '*')
    if s:
        out.append(f'func C13__ensures__{t}_Type__set(p0 *{t}, r0 messageType) bool {{ return r0 == {s} }}\n')
for t, f in TRANS:
    const(t, 'TransactionType', t.upper(), 'tag')
    out.append(f'func C13__ensures__{t}_InvTransaction__own(p0 {t}, r0 InvTran) bool {{ return same(r0, p0.{f}) }}\n')
for t, tag in POS:
    const(t, 'PositionType', tag, 'tag')
    out.append(f'func C13__ensures__{t}_InvPosition__own(p0 {t}, r0 InvPosition) bool {{ return same(r0, p0.InvPos) }}\n')
for t, tag in ORD:
    const(t, 'OrderType', tag, 'tag')
for t, tag in SEC:
    const(t, 'SecurityType', tag, 'tag')
    out.append(f'func C13__ensures__{t}_SecurityInfo__own(p0 {t}, r0 SecInfo) bool {{ return same(r0, p0.SecInfo) }}\n')
open(root + '/contracts/C13.go', 'w').write('\n'.join(out))

t = ['''package ofxgo_test

//replay:use fill_test.go

// Generated by tools/mkc13.py.

import (
	"reflect"
	"testing"

	"github.com/aclindsa/ofxgo"
)

func TestReplayC13(t *testing.T) {
	eq := func(what, got, want string) {
		if got != want {
			failing(t, "%s is %q, want %q", what, got, want)
		}
	}
	same := func(what string, got, want interface{}) {
		if !reflect.DeepEqual(got, want) {
			failing(t, "%s is %+v, stored is %+v", what, got, want)
		}
	}
	rnd := newRand()
	for i := 0; i < rounds(20, 2000); i++ {
		if i < 2 {''']
for s in SETS:
    for d in 'Rq', 'Rs':
        t.append(f'\t\t\teq("set {s}{d}", ofxgo.{s}{d}.String(), "{s.upper()}MSGS{d.upper()}V1")')
t.append('\t\t}')
def block(ty, body):
    t.append(f'\t\t{{\n\t\t\tvar v ofxgo.{ty}\n\t\t\tfill(rnd, &v, i)\n' + '\n'.join('\t\t\t' + b for b in body) + '\n\t\t}')
for ty, tag, s in MSGS:
    b = [f'eq("{ty}.Name", v.Name(), "{tag}")']
    if s: b += [f'if v.Type() != ofxgo.{s} {{', f'\tfailing(t, "{ty}.Type is %v", v.Type())', '}']
    block(ty, b)
for ty, f in TRANS:
    block(ty, [f'eq("{ty}.TransactionType", v.TransactionType(), "{ty.upper()}")', f'same("{ty}.InvTransaction", v.InvTransaction(), v.{f})'])
for ty, tag in POS:
    block(ty, [f'eq("{ty}.PositionType", v.PositionType(), "{tag}")', f'same("{ty}.InvPosition", v.InvPosition(), v.InvPos)'])
for ty, tag in ORD:
    block(ty, [f'eq("{ty}.OrderType", v.OrderType(), "{tag}")'])
for ty, tag in SEC:
    block(ty, [f'eq("{ty}.SecurityType", v.SecurityType(), "{tag}")', f'same("{ty}.SecurityInfo", v.SecurityInfo(), v.SecInfo)'])
t.append('\t}\n}\n')
open(root + '/replay/C13_test.go', 'w').write('\n'.join(t))
