//go:build go1.21

package ofxgo

// Which field is which element: for every struct of the package which leaves
// its reading and writing to the XML library. See tools/gen26.py.

// vXMLRead does to what v points to what the XML library does when it reads
// an element into it, by the tags of its type; false if they make it fail.
func vXMLRead(v interface{}) bool { return false }

// vXMLWrite has the XML library write what v points to.
func vXMLWrite(v interface{}) bool { return false }

// vXMLName is the name of the element which a type is.
func vXMLName(v interface{}) string { return "" }

// vElement stores the content of an element, absent or not, in what p points to.
func vElement(path string, p interface{}) {}

// vWritten says whether the next element written is path, with the contents of
// what p points to; vWrittenIfSet that it is left out if that is empty.
func vWritten(path string, p interface{}) bool      { return false }
func vWrittenIfSet(path string, p interface{}) bool { return false }
func vAllWritten() bool                             { return false }

func c26StatementRequest(w StatementRequest) {
	var v, want StatementRequest
	vAssert(vXMLName(&v) == "STMTTRNRQ", "StatementRequest is the element STMTTRNRQ")
	vAssert(vXMLRead(&v), "the tags of StatementRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("STMTRQ>BANKACCTFROM", &want.BankAcctFrom)
	vElement("STMTRQ>INCTRAN>DTSTART", &want.DtStart)
	vElement("STMTRQ>INCTRAN>DTEND", &want.DtEnd)
	vElement("STMTRQ>INCTRAN>INCLUDE", &want.Include)
	vElement("STMTRQ>INCLUDEPENDING", &want.IncludePending)
	vElement("STMTRQ>INCTRANIMG", &want.IncTranImg)
	vAssert(same(v.TrnUID, want.TrnUID), "StatementRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "StatementRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "StatementRequest.TAN is read from TAN")
	vAssert(same(v.BankAcctFrom, want.BankAcctFrom), "StatementRequest.BankAcctFrom is read from STMTRQ>BANKACCTFROM")
	vAssert(same(v.DtStart, want.DtStart), "StatementRequest.DtStart is read from STMTRQ>INCTRAN>DTSTART")
	vAssert(same(v.DtEnd, want.DtEnd), "StatementRequest.DtEnd is read from STMTRQ>INCTRAN>DTEND")
	vAssert(same(v.Include, want.Include), "StatementRequest.Include is read from STMTRQ>INCTRAN>INCLUDE")
	vAssert(same(v.IncludePending, want.IncludePending), "StatementRequest.IncludePending is read from STMTRQ>INCLUDEPENDING")
	vAssert(same(v.IncTranImg, want.IncTranImg), "StatementRequest.IncTranImg is read from STMTRQ>INCTRANIMG")
	vAssert(same(v, want), "StatementRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of StatementRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "StatementRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "StatementRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "StatementRequest.TAN is written to TAN")
	vAssert(vWritten("STMTRQ>BANKACCTFROM", &w.BankAcctFrom), "StatementRequest.BankAcctFrom is written to STMTRQ>BANKACCTFROM")
	vAssert(vWritten("STMTRQ>INCTRAN>DTSTART", &w.DtStart), "StatementRequest.DtStart is written to STMTRQ>INCTRAN>DTSTART")
	vAssert(vWritten("STMTRQ>INCTRAN>DTEND", &w.DtEnd), "StatementRequest.DtEnd is written to STMTRQ>INCTRAN>DTEND")
	vAssert(vWritten("STMTRQ>INCTRAN>INCLUDE", &w.Include), "StatementRequest.Include is written to STMTRQ>INCTRAN>INCLUDE")
	vAssert(vWrittenIfSet("STMTRQ>INCLUDEPENDING", &w.IncludePending), "StatementRequest.IncludePending is written to STMTRQ>INCLUDEPENDING")
	vAssert(vWrittenIfSet("STMTRQ>INCTRANIMG", &w.IncTranImg), "StatementRequest.IncTranImg is written to STMTRQ>INCTRANIMG")
	vAssert(vAllWritten(), "StatementRequest has no other elements")
}

func C26__ensures__c26StatementRequest__elements() bool { return true }

func c26Payee(w Payee) {
	var v, want Payee
	vAssert(vXMLName(&v) == "PAYEE", "Payee is the element PAYEE")
	vAssert(vXMLRead(&v), "the tags of Payee do not conflict")
	vElement("NAME", &want.Name)
	vElement("ADDR1", &want.Addr1)
	vElement("ADDR2", &want.Addr2)
	vElement("ADDR3", &want.Addr3)
	vElement("CITY", &want.City)
	vElement("STATE", &want.State)
	vElement("POSTALCODE", &want.PostalCode)
	vElement("COUNTRY", &want.Country)
	vElement("PHONE", &want.Phone)
	vAssert(same(v.Name, want.Name), "Payee.Name is read from NAME")
	vAssert(same(v.Addr1, want.Addr1), "Payee.Addr1 is read from ADDR1")
	vAssert(same(v.Addr2, want.Addr2), "Payee.Addr2 is read from ADDR2")
	vAssert(same(v.Addr3, want.Addr3), "Payee.Addr3 is read from ADDR3")
	vAssert(same(v.City, want.City), "Payee.City is read from CITY")
	vAssert(same(v.State, want.State), "Payee.State is read from STATE")
	vAssert(same(v.PostalCode, want.PostalCode), "Payee.PostalCode is read from POSTALCODE")
	vAssert(same(v.Country, want.Country), "Payee.Country is read from COUNTRY")
	vAssert(same(v.Phone, want.Phone), "Payee.Phone is read from PHONE")
	vAssert(same(v, want), "Payee has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Payee do not conflict")
	vAssert(vWritten("NAME", &w.Name), "Payee.Name is written to NAME")
	vAssert(vWritten("ADDR1", &w.Addr1), "Payee.Addr1 is written to ADDR1")
	vAssert(vWrittenIfSet("ADDR2", &w.Addr2), "Payee.Addr2 is written to ADDR2")
	vAssert(vWrittenIfSet("ADDR3", &w.Addr3), "Payee.Addr3 is written to ADDR3")
	vAssert(vWritten("CITY", &w.City), "Payee.City is written to CITY")
	vAssert(vWritten("STATE", &w.State), "Payee.State is written to STATE")
	vAssert(vWritten("POSTALCODE", &w.PostalCode), "Payee.PostalCode is written to POSTALCODE")
	vAssert(vWrittenIfSet("COUNTRY", &w.Country), "Payee.Country is written to COUNTRY")
	vAssert(vWritten("PHONE", &w.Phone), "Payee.Phone is written to PHONE")
	vAssert(vAllWritten(), "Payee has no other elements")
}

func C26__ensures__c26Payee__elements() bool { return true }

func c26ImageData(w ImageData) {
	var v, want ImageData
	vAssert(vXMLName(&v) == "IMAGEDATA", "ImageData is the element IMAGEDATA")
	vAssert(vXMLRead(&v), "the tags of ImageData do not conflict")
	vElement("IMAGETYPE", &want.ImageType)
	vElement("IMAGEREF", &want.ImageRef)
	vElement("IMAGEREFTYPE", &want.ImageRefType)
	vElement("IMAGEDELAY", &want.ImageDelay)
	vElement("DTIMAGEAVAIL", &want.DtImageAvail)
	vElement("IMAGETTL", &want.ImageTTL)
	vElement("CHECKSUP", &want.CheckSup)
	vAssert(same(v.ImageType, want.ImageType), "ImageData.ImageType is read from IMAGETYPE")
	vAssert(same(v.ImageRef, want.ImageRef), "ImageData.ImageRef is read from IMAGEREF")
	vAssert(same(v.ImageRefType, want.ImageRefType), "ImageData.ImageRefType is read from IMAGEREFTYPE")
	vAssert(same(v.ImageDelay, want.ImageDelay), "ImageData.ImageDelay is read from IMAGEDELAY")
	vAssert(same(v.DtImageAvail, want.DtImageAvail), "ImageData.DtImageAvail is read from DTIMAGEAVAIL")
	vAssert(same(v.ImageTTL, want.ImageTTL), "ImageData.ImageTTL is read from IMAGETTL")
	vAssert(same(v.CheckSup, want.CheckSup), "ImageData.CheckSup is read from CHECKSUP")
	vAssert(same(v, want), "ImageData has no other elements")
	vAssert(vXMLWrite(&w), "the tags of ImageData do not conflict")
	vAssert(vWritten("IMAGETYPE", &w.ImageType), "ImageData.ImageType is written to IMAGETYPE")
	vAssert(vWritten("IMAGEREF", &w.ImageRef), "ImageData.ImageRef is written to IMAGEREF")
	vAssert(vWritten("IMAGEREFTYPE", &w.ImageRefType), "ImageData.ImageRefType is written to IMAGEREFTYPE")
	vAssert(vWrittenIfSet("IMAGEDELAY", &w.ImageDelay), "ImageData.ImageDelay is written to IMAGEDELAY")
	vAssert(vWritten("DTIMAGEAVAIL", &w.DtImageAvail), "ImageData.DtImageAvail is written to DTIMAGEAVAIL")
	vAssert(vWrittenIfSet("IMAGETTL", &w.ImageTTL), "ImageData.ImageTTL is written to IMAGETTL")
	vAssert(vWritten("CHECKSUP", &w.CheckSup), "ImageData.CheckSup is written to CHECKSUP")
	vAssert(vAllWritten(), "ImageData has no other elements")
}

func C26__ensures__c26ImageData__elements() bool { return true }

func c26Transaction(w Transaction) {
	var v, want Transaction
	vAssert(vXMLName(&v) == "STMTTRN", "Transaction is the element STMTTRN")
	vAssert(vXMLRead(&v), "the tags of Transaction do not conflict")
	vElement("TRNTYPE", &want.TrnType)
	vElement("DTPOSTED", &want.DtPosted)
	vElement("DTUSER", &want.DtUser)
	vElement("DTAVAIL", &want.DtAvail)
	vElement("TRNAMT", &want.TrnAmt)
	vElement("FITID", &want.FiTID)
	vElement("CORRECTFITID", &want.CorrectFiTID)
	vElement("CORRECTACTION", &want.CorrectAction)
	vElement("SRVRTID", &want.SrvrTID)
	vElement("CHECKNUM", &want.CheckNum)
	vElement("REFNUM", &want.RefNum)
	vElement("SIC", &want.SIC)
	vElement("PAYEEID", &want.PayeeID)
	vElement("NAME", &want.Name)
	vElement("PAYEE", &want.Payee)
	vElement("EXTDNAME", &want.ExtdName)
	vElement("BANKACCTTO", &want.BankAcctTo)
	vElement("CCACCTTO", &want.CCAcctTo)
	vElement("MEMO", &want.Memo)
	vElement("IMAGEDATA", &want.ImageData)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.TrnType, want.TrnType), "Transaction.TrnType is read from TRNTYPE")
	vAssert(same(v.DtPosted, want.DtPosted), "Transaction.DtPosted is read from DTPOSTED")
	vAssert(same(v.DtUser, want.DtUser), "Transaction.DtUser is read from DTUSER")
	vAssert(same(v.DtAvail, want.DtAvail), "Transaction.DtAvail is read from DTAVAIL")
	vAssert(same(v.TrnAmt, want.TrnAmt), "Transaction.TrnAmt is read from TRNAMT")
	vAssert(same(v.FiTID, want.FiTID), "Transaction.FiTID is read from FITID")
	vAssert(same(v.CorrectFiTID, want.CorrectFiTID), "Transaction.CorrectFiTID is read from CORRECTFITID")
	vAssert(same(v.CorrectAction, want.CorrectAction), "Transaction.CorrectAction is read from CORRECTACTION")
	vAssert(same(v.SrvrTID, want.SrvrTID), "Transaction.SrvrTID is read from SRVRTID")
	vAssert(same(v.CheckNum, want.CheckNum), "Transaction.CheckNum is read from CHECKNUM")
	vAssert(same(v.RefNum, want.RefNum), "Transaction.RefNum is read from REFNUM")
	vAssert(same(v.SIC, want.SIC), "Transaction.SIC is read from SIC")
	vAssert(same(v.PayeeID, want.PayeeID), "Transaction.PayeeID is read from PAYEEID")
	vAssert(same(v.Name, want.Name), "Transaction.Name is read from NAME")
	vAssert(same(v.Payee, want.Payee), "Transaction.Payee is read from PAYEE")
	vAssert(same(v.ExtdName, want.ExtdName), "Transaction.ExtdName is read from EXTDNAME")
	vAssert(same(v.BankAcctTo, want.BankAcctTo), "Transaction.BankAcctTo is read from BANKACCTTO")
	vAssert(same(v.CCAcctTo, want.CCAcctTo), "Transaction.CCAcctTo is read from CCACCTTO")
	vAssert(same(v.Memo, want.Memo), "Transaction.Memo is read from MEMO")
	vAssert(same(v.ImageData, want.ImageData), "Transaction.ImageData is read from IMAGEDATA")
	vAssert(same(v.Currency, want.Currency), "Transaction.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "Transaction.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "Transaction.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "Transaction has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Transaction do not conflict")
	vAssert(vWritten("TRNTYPE", &w.TrnType), "Transaction.TrnType is written to TRNTYPE")
	vAssert(vWritten("DTPOSTED", &w.DtPosted), "Transaction.DtPosted is written to DTPOSTED")
	vAssert(vWritten("DTUSER", &w.DtUser), "Transaction.DtUser is written to DTUSER")
	vAssert(vWritten("DTAVAIL", &w.DtAvail), "Transaction.DtAvail is written to DTAVAIL")
	vAssert(vWritten("TRNAMT", &w.TrnAmt), "Transaction.TrnAmt is written to TRNAMT")
	vAssert(vWritten("FITID", &w.FiTID), "Transaction.FiTID is written to FITID")
	vAssert(vWrittenIfSet("CORRECTFITID", &w.CorrectFiTID), "Transaction.CorrectFiTID is written to CORRECTFITID")
	vAssert(vWritten("CORRECTACTION", &w.CorrectAction), "Transaction.CorrectAction is written to CORRECTACTION")
	vAssert(vWrittenIfSet("SRVRTID", &w.SrvrTID), "Transaction.SrvrTID is written to SRVRTID")
	vAssert(vWrittenIfSet("CHECKNUM", &w.CheckNum), "Transaction.CheckNum is written to CHECKNUM")
	vAssert(vWrittenIfSet("REFNUM", &w.RefNum), "Transaction.RefNum is written to REFNUM")
	vAssert(vWrittenIfSet("SIC", &w.SIC), "Transaction.SIC is written to SIC")
	vAssert(vWrittenIfSet("PAYEEID", &w.PayeeID), "Transaction.PayeeID is written to PAYEEID")
	vAssert(vWrittenIfSet("NAME", &w.Name), "Transaction.Name is written to NAME")
	vAssert(vWritten("PAYEE", &w.Payee), "Transaction.Payee is written to PAYEE")
	vAssert(vWrittenIfSet("EXTDNAME", &w.ExtdName), "Transaction.ExtdName is written to EXTDNAME")
	vAssert(vWritten("BANKACCTTO", &w.BankAcctTo), "Transaction.BankAcctTo is written to BANKACCTTO")
	vAssert(vWritten("CCACCTTO", &w.CCAcctTo), "Transaction.CCAcctTo is written to CCACCTTO")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "Transaction.Memo is written to MEMO")
	vAssert(vWritten("IMAGEDATA", &w.ImageData), "Transaction.ImageData is written to IMAGEDATA")
	vAssert(vWritten("CURRENCY", &w.Currency), "Transaction.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "Transaction.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "Transaction.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "Transaction has no other elements")
}

func C26__ensures__c26Transaction__elements() bool { return true }

func c26TransactionList(w TransactionList) {
	var v, want TransactionList
	vAssert(vXMLName(&v) == "BANKTRANLIST", "TransactionList is the element BANKTRANLIST")
	vAssert(vXMLRead(&v), "the tags of TransactionList do not conflict")
	vElement("DTSTART", &want.DtStart)
	vElement("DTEND", &want.DtEnd)
	vElement("STMTTRN", &want.Transactions)
	vAssert(same(v.DtStart, want.DtStart), "TransactionList.DtStart is read from DTSTART")
	vAssert(same(v.DtEnd, want.DtEnd), "TransactionList.DtEnd is read from DTEND")
	vAssert(same(v.Transactions, want.Transactions), "TransactionList.Transactions is read from STMTTRN")
	vAssert(same(v, want), "TransactionList has no other elements")
	vAssert(vXMLWrite(&w), "the tags of TransactionList do not conflict")
	vAssert(vWritten("DTSTART", &w.DtStart), "TransactionList.DtStart is written to DTSTART")
	vAssert(vWritten("DTEND", &w.DtEnd), "TransactionList.DtEnd is written to DTEND")
	vAssert(vWritten("STMTTRN", &w.Transactions), "TransactionList.Transactions is written to STMTTRN")
	vAssert(vAllWritten(), "TransactionList has no other elements")
}

func C26__ensures__c26TransactionList__elements() bool { return true }

func c26PendingTransaction(w PendingTransaction) {
	var v, want PendingTransaction
	vAssert(vXMLName(&v) == "STMTTRNP", "PendingTransaction is the element STMTTRNP")
	vAssert(vXMLRead(&v), "the tags of PendingTransaction do not conflict")
	vElement("TRNTYPE", &want.TrnType)
	vElement("DTTRAN", &want.DtTran)
	vElement("DTEXPIRE", &want.DtExpire)
	vElement("TRNAMT", &want.TrnAmt)
	vElement("REFNUM", &want.RefNum)
	vElement("NAME", &want.Name)
	vElement("EXTDNAME", &want.ExtdName)
	vElement("MEMO", &want.Memo)
	vElement("IMAGEDATA", &want.ImageData)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vAssert(same(v.TrnType, want.TrnType), "PendingTransaction.TrnType is read from TRNTYPE")
	vAssert(same(v.DtTran, want.DtTran), "PendingTransaction.DtTran is read from DTTRAN")
	vAssert(same(v.DtExpire, want.DtExpire), "PendingTransaction.DtExpire is read from DTEXPIRE")
	vAssert(same(v.TrnAmt, want.TrnAmt), "PendingTransaction.TrnAmt is read from TRNAMT")
	vAssert(same(v.RefNum, want.RefNum), "PendingTransaction.RefNum is read from REFNUM")
	vAssert(same(v.Name, want.Name), "PendingTransaction.Name is read from NAME")
	vAssert(same(v.ExtdName, want.ExtdName), "PendingTransaction.ExtdName is read from EXTDNAME")
	vAssert(same(v.Memo, want.Memo), "PendingTransaction.Memo is read from MEMO")
	vAssert(same(v.ImageData, want.ImageData), "PendingTransaction.ImageData is read from IMAGEDATA")
	vAssert(same(v.Currency, want.Currency), "PendingTransaction.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "PendingTransaction.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v, want), "PendingTransaction has no other elements")
	vAssert(vXMLWrite(&w), "the tags of PendingTransaction do not conflict")
	vAssert(vWritten("TRNTYPE", &w.TrnType), "PendingTransaction.TrnType is written to TRNTYPE")
	vAssert(vWritten("DTTRAN", &w.DtTran), "PendingTransaction.DtTran is written to DTTRAN")
	vAssert(vWritten("DTEXPIRE", &w.DtExpire), "PendingTransaction.DtExpire is written to DTEXPIRE")
	vAssert(vWritten("TRNAMT", &w.TrnAmt), "PendingTransaction.TrnAmt is written to TRNAMT")
	vAssert(vWrittenIfSet("REFNUM", &w.RefNum), "PendingTransaction.RefNum is written to REFNUM")
	vAssert(vWrittenIfSet("NAME", &w.Name), "PendingTransaction.Name is written to NAME")
	vAssert(vWrittenIfSet("EXTDNAME", &w.ExtdName), "PendingTransaction.ExtdName is written to EXTDNAME")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "PendingTransaction.Memo is written to MEMO")
	vAssert(vWritten("IMAGEDATA", &w.ImageData), "PendingTransaction.ImageData is written to IMAGEDATA")
	vAssert(vWritten("CURRENCY", &w.Currency), "PendingTransaction.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "PendingTransaction.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vAllWritten(), "PendingTransaction has no other elements")
}

func C26__ensures__c26PendingTransaction__elements() bool { return true }

func c26PendingTransactionList(w PendingTransactionList) {
	var v, want PendingTransactionList
	vAssert(vXMLName(&v) == "BANKTRANLISTP", "PendingTransactionList is the element BANKTRANLISTP")
	vAssert(vXMLRead(&v), "the tags of PendingTransactionList do not conflict")
	vElement("DTASOF", &want.DtAsOf)
	vElement("STMTTRNP", &want.Transactions)
	vAssert(same(v.DtAsOf, want.DtAsOf), "PendingTransactionList.DtAsOf is read from DTASOF")
	vAssert(same(v.Transactions, want.Transactions), "PendingTransactionList.Transactions is read from STMTTRNP")
	vAssert(same(v, want), "PendingTransactionList has no other elements")
	vAssert(vXMLWrite(&w), "the tags of PendingTransactionList do not conflict")
	vAssert(vWritten("DTASOF", &w.DtAsOf), "PendingTransactionList.DtAsOf is written to DTASOF")
	vAssert(vWritten("STMTTRNP", &w.Transactions), "PendingTransactionList.Transactions is written to STMTTRNP")
	vAssert(vAllWritten(), "PendingTransactionList has no other elements")
}

func C26__ensures__c26PendingTransactionList__elements() bool { return true }

func c26Balance(w Balance) {
	var v, want Balance
	vAssert(vXMLName(&v) == "BAL", "Balance is the element BAL")
	vAssert(vXMLRead(&v), "the tags of Balance do not conflict")
	vElement("NAME", &want.Name)
	vElement("DESC", &want.Desc)
	vElement("BALTYPE", &want.BalType)
	vElement("VALUE", &want.Value)
	vElement("DTASOF", &want.DtAsOf)
	vElement("CURRENCY", &want.Currency)
	vAssert(same(v.Name, want.Name), "Balance.Name is read from NAME")
	vAssert(same(v.Desc, want.Desc), "Balance.Desc is read from DESC")
	vAssert(same(v.BalType, want.BalType), "Balance.BalType is read from BALTYPE")
	vAssert(same(v.Value, want.Value), "Balance.Value is read from VALUE")
	vAssert(same(v.DtAsOf, want.DtAsOf), "Balance.DtAsOf is read from DTASOF")
	vAssert(same(v.Currency, want.Currency), "Balance.Currency is read from CURRENCY")
	vAssert(same(v, want), "Balance has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Balance do not conflict")
	vAssert(vWritten("NAME", &w.Name), "Balance.Name is written to NAME")
	vAssert(vWritten("DESC", &w.Desc), "Balance.Desc is written to DESC")
	vAssert(vWritten("BALTYPE", &w.BalType), "Balance.BalType is written to BALTYPE")
	vAssert(vWritten("VALUE", &w.Value), "Balance.Value is written to VALUE")
	vAssert(vWritten("DTASOF", &w.DtAsOf), "Balance.DtAsOf is written to DTASOF")
	vAssert(vWritten("CURRENCY", &w.Currency), "Balance.Currency is written to CURRENCY")
	vAssert(vAllWritten(), "Balance has no other elements")
}

func C26__ensures__c26Balance__elements() bool { return true }

func c26StatementResponse(w StatementResponse) {
	var v, want StatementResponse
	vAssert(vXMLName(&v) == "STMTTRNRS", "StatementResponse is the element STMTTRNRS")
	vAssert(vXMLRead(&v), "the tags of StatementResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("STMTRS>CURDEF", &want.CurDef)
	vElement("STMTRS>BANKACCTFROM", &want.BankAcctFrom)
	vElement("STMTRS>BANKTRANLIST", &want.BankTranList)
	vElement("STMTRS>BANKTRANLISTP", &want.BankTranListP)
	vElement("STMTRS>LEDGERBAL>BALAMT", &want.BalAmt)
	vElement("STMTRS>LEDGERBAL>DTASOF", &want.DtAsOf)
	vElement("STMTRS>AVAILBAL>BALAMT", &want.AvailBalAmt)
	vElement("STMTRS>AVAILBAL>DTASOF", &want.AvailDtAsOf)
	vElement("STMTRS>CASHADVBALAMT", &want.CashAdvBalAmt)
	vElement("STMTRS>INTRATE", &want.IntRate)
	vElement("STMTRS>BALLIST>BAL", &want.BalList)
	vElement("STMTRS>MKTGINFO", &want.MktgInfo)
	vAssert(same(v.TrnUID, want.TrnUID), "StatementResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "StatementResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "StatementResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.CurDef, want.CurDef), "StatementResponse.CurDef is read from STMTRS>CURDEF")
	vAssert(same(v.BankAcctFrom, want.BankAcctFrom), "StatementResponse.BankAcctFrom is read from STMTRS>BANKACCTFROM")
	vAssert(same(v.BankTranList, want.BankTranList), "StatementResponse.BankTranList is read from STMTRS>BANKTRANLIST")
	vAssert(same(v.BankTranListP, want.BankTranListP), "StatementResponse.BankTranListP is read from STMTRS>BANKTRANLISTP")
	vAssert(same(v.BalAmt, want.BalAmt), "StatementResponse.BalAmt is read from STMTRS>LEDGERBAL>BALAMT")
	vAssert(same(v.DtAsOf, want.DtAsOf), "StatementResponse.DtAsOf is read from STMTRS>LEDGERBAL>DTASOF")
	vAssert(same(v.AvailBalAmt, want.AvailBalAmt), "StatementResponse.AvailBalAmt is read from STMTRS>AVAILBAL>BALAMT")
	vAssert(same(v.AvailDtAsOf, want.AvailDtAsOf), "StatementResponse.AvailDtAsOf is read from STMTRS>AVAILBAL>DTASOF")
	vAssert(same(v.CashAdvBalAmt, want.CashAdvBalAmt), "StatementResponse.CashAdvBalAmt is read from STMTRS>CASHADVBALAMT")
	vAssert(same(v.IntRate, want.IntRate), "StatementResponse.IntRate is read from STMTRS>INTRATE")
	vAssert(same(v.BalList, want.BalList), "StatementResponse.BalList is read from STMTRS>BALLIST>BAL")
	vAssert(same(v.MktgInfo, want.MktgInfo), "StatementResponse.MktgInfo is read from STMTRS>MKTGINFO")
	vAssert(same(v, want), "StatementResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of StatementResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "StatementResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "StatementResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "StatementResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vWritten("STMTRS>CURDEF", &w.CurDef), "StatementResponse.CurDef is written to STMTRS>CURDEF")
	vAssert(vWritten("STMTRS>BANKACCTFROM", &w.BankAcctFrom), "StatementResponse.BankAcctFrom is written to STMTRS>BANKACCTFROM")
	vAssert(vWritten("STMTRS>BANKTRANLIST", &w.BankTranList), "StatementResponse.BankTranList is written to STMTRS>BANKTRANLIST")
	vAssert(vWritten("STMTRS>BANKTRANLISTP", &w.BankTranListP), "StatementResponse.BankTranListP is written to STMTRS>BANKTRANLISTP")
	vAssert(vWritten("STMTRS>LEDGERBAL>BALAMT", &w.BalAmt), "StatementResponse.BalAmt is written to STMTRS>LEDGERBAL>BALAMT")
	vAssert(vWritten("STMTRS>LEDGERBAL>DTASOF", &w.DtAsOf), "StatementResponse.DtAsOf is written to STMTRS>LEDGERBAL>DTASOF")
	vAssert(vWritten("STMTRS>AVAILBAL>BALAMT", &w.AvailBalAmt), "StatementResponse.AvailBalAmt is written to STMTRS>AVAILBAL>BALAMT")
	vAssert(vWritten("STMTRS>AVAILBAL>DTASOF", &w.AvailDtAsOf), "StatementResponse.AvailDtAsOf is written to STMTRS>AVAILBAL>DTASOF")
	vAssert(vWritten("STMTRS>CASHADVBALAMT", &w.CashAdvBalAmt), "StatementResponse.CashAdvBalAmt is written to STMTRS>CASHADVBALAMT")
	vAssert(vWritten("STMTRS>INTRATE", &w.IntRate), "StatementResponse.IntRate is written to STMTRS>INTRATE")
	vAssert(vWritten("STMTRS>BALLIST>BAL", &w.BalList), "StatementResponse.BalList is written to STMTRS>BALLIST>BAL")
	vAssert(vWrittenIfSet("STMTRS>MKTGINFO", &w.MktgInfo), "StatementResponse.MktgInfo is written to STMTRS>MKTGINFO")
	vAssert(vAllWritten(), "StatementResponse has no other elements")
}

func C26__ensures__c26StatementResponse__elements() bool { return true }

func c26Status(w Status) {
	var v, want Status
	vAssert(vXMLName(&v) == "STATUS", "Status is the element STATUS")
	vAssert(vXMLRead(&v), "the tags of Status do not conflict")
	vElement("CODE", &want.Code)
	vElement("SEVERITY", &want.Severity)
	vElement("MESSAGE", &want.Message)
	vAssert(same(v.Code, want.Code), "Status.Code is read from CODE")
	vAssert(same(v.Severity, want.Severity), "Status.Severity is read from SEVERITY")
	vAssert(same(v.Message, want.Message), "Status.Message is read from MESSAGE")
	vAssert(same(v, want), "Status has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Status do not conflict")
	vAssert(vWritten("CODE", &w.Code), "Status.Code is written to CODE")
	vAssert(vWritten("SEVERITY", &w.Severity), "Status.Severity is written to SEVERITY")
	vAssert(vWrittenIfSet("MESSAGE", &w.Message), "Status.Message is written to MESSAGE")
	vAssert(vAllWritten(), "Status has no other elements")
}

func C26__ensures__c26Status__elements() bool { return true }

func c26BankAcct(w BankAcct) {
	var v, want BankAcct
	vAssert(vXMLName(&v) == "", "BankAcct is the element ")
	vAssert(vXMLRead(&v), "the tags of BankAcct do not conflict")
	vElement("BANKID", &want.BankID)
	vElement("BRANCHID", &want.BranchID)
	vElement("ACCTID", &want.AcctID)
	vElement("ACCTTYPE", &want.AcctType)
	vElement("ACCTKEY", &want.AcctKey)
	vAssert(same(v.BankID, want.BankID), "BankAcct.BankID is read from BANKID")
	vAssert(same(v.BranchID, want.BranchID), "BankAcct.BranchID is read from BRANCHID")
	vAssert(same(v.AcctID, want.AcctID), "BankAcct.AcctID is read from ACCTID")
	vAssert(same(v.AcctType, want.AcctType), "BankAcct.AcctType is read from ACCTTYPE")
	vAssert(same(v.AcctKey, want.AcctKey), "BankAcct.AcctKey is read from ACCTKEY")
	vAssert(same(v, want), "BankAcct has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BankAcct do not conflict")
	vAssert(vWritten("BANKID", &w.BankID), "BankAcct.BankID is written to BANKID")
	vAssert(vWrittenIfSet("BRANCHID", &w.BranchID), "BankAcct.BranchID is written to BRANCHID")
	vAssert(vWritten("ACCTID", &w.AcctID), "BankAcct.AcctID is written to ACCTID")
	vAssert(vWritten("ACCTTYPE", &w.AcctType), "BankAcct.AcctType is written to ACCTTYPE")
	vAssert(vWrittenIfSet("ACCTKEY", &w.AcctKey), "BankAcct.AcctKey is written to ACCTKEY")
	vAssert(vAllWritten(), "BankAcct has no other elements")
}

func C26__ensures__c26BankAcct__elements() bool { return true }

func c26CCAcct(w CCAcct) {
	var v, want CCAcct
	vAssert(vXMLName(&v) == "", "CCAcct is the element ")
	vAssert(vXMLRead(&v), "the tags of CCAcct do not conflict")
	vElement("ACCTID", &want.AcctID)
	vElement("ACCTKEY", &want.AcctKey)
	vAssert(same(v.AcctID, want.AcctID), "CCAcct.AcctID is read from ACCTID")
	vAssert(same(v.AcctKey, want.AcctKey), "CCAcct.AcctKey is read from ACCTKEY")
	vAssert(same(v, want), "CCAcct has no other elements")
	vAssert(vXMLWrite(&w), "the tags of CCAcct do not conflict")
	vAssert(vWritten("ACCTID", &w.AcctID), "CCAcct.AcctID is written to ACCTID")
	vAssert(vWrittenIfSet("ACCTKEY", &w.AcctKey), "CCAcct.AcctKey is written to ACCTKEY")
	vAssert(vAllWritten(), "CCAcct has no other elements")
}

func C26__ensures__c26CCAcct__elements() bool { return true }

func c26InvAcct(w InvAcct) {
	var v, want InvAcct
	vAssert(vXMLName(&v) == "", "InvAcct is the element ")
	vAssert(vXMLRead(&v), "the tags of InvAcct do not conflict")
	vElement("BROKERID", &want.BrokerID)
	vElement("ACCTID", &want.AcctID)
	vAssert(same(v.BrokerID, want.BrokerID), "InvAcct.BrokerID is read from BROKERID")
	vAssert(same(v.AcctID, want.AcctID), "InvAcct.AcctID is read from ACCTID")
	vAssert(same(v, want), "InvAcct has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvAcct do not conflict")
	vAssert(vWritten("BROKERID", &w.BrokerID), "InvAcct.BrokerID is written to BROKERID")
	vAssert(vWritten("ACCTID", &w.AcctID), "InvAcct.AcctID is written to ACCTID")
	vAssert(vAllWritten(), "InvAcct has no other elements")
}

func C26__ensures__c26InvAcct__elements() bool { return true }

func c26Currency(w Currency) {
	var v, want Currency
	vAssert(vXMLName(&v) == "", "Currency is the element ")
	vAssert(vXMLRead(&v), "the tags of Currency do not conflict")
	vElement("CURRATE", &want.CurRate)
	vElement("CURSYM", &want.CurSym)
	vAssert(same(v.CurRate, want.CurRate), "Currency.CurRate is read from CURRATE")
	vAssert(same(v.CurSym, want.CurSym), "Currency.CurSym is read from CURSYM")
	vAssert(same(v, want), "Currency has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Currency do not conflict")
	vAssert(vWritten("CURRATE", &w.CurRate), "Currency.CurRate is written to CURRATE")
	vAssert(vWritten("CURSYM", &w.CurSym), "Currency.CurSym is written to CURSYM")
	vAssert(vAllWritten(), "Currency has no other elements")
}

func C26__ensures__c26Currency__elements() bool { return true }

func c26CCStatementRequest(w CCStatementRequest) {
	var v, want CCStatementRequest
	vAssert(vXMLName(&v) == "CCSTMTTRNRQ", "CCStatementRequest is the element CCSTMTTRNRQ")
	vAssert(vXMLRead(&v), "the tags of CCStatementRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("CCSTMTRQ>CCACCTFROM", &want.CCAcctFrom)
	vElement("CCSTMTRQ>INCTRAN>DTSTART", &want.DtStart)
	vElement("CCSTMTRQ>INCTRAN>DTEND", &want.DtEnd)
	vElement("CCSTMTRQ>INCTRAN>INCLUDE", &want.Include)
	vElement("CCSTMTRQ>INCLUDEPENDING", &want.IncludePending)
	vElement("CCSTMTRQ>INCTRANIMG", &want.IncTranImg)
	vAssert(same(v.TrnUID, want.TrnUID), "CCStatementRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "CCStatementRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "CCStatementRequest.TAN is read from TAN")
	vAssert(same(v.CCAcctFrom, want.CCAcctFrom), "CCStatementRequest.CCAcctFrom is read from CCSTMTRQ>CCACCTFROM")
	vAssert(same(v.DtStart, want.DtStart), "CCStatementRequest.DtStart is read from CCSTMTRQ>INCTRAN>DTSTART")
	vAssert(same(v.DtEnd, want.DtEnd), "CCStatementRequest.DtEnd is read from CCSTMTRQ>INCTRAN>DTEND")
	vAssert(same(v.Include, want.Include), "CCStatementRequest.Include is read from CCSTMTRQ>INCTRAN>INCLUDE")
	vAssert(same(v.IncludePending, want.IncludePending), "CCStatementRequest.IncludePending is read from CCSTMTRQ>INCLUDEPENDING")
	vAssert(same(v.IncTranImg, want.IncTranImg), "CCStatementRequest.IncTranImg is read from CCSTMTRQ>INCTRANIMG")
	vAssert(same(v, want), "CCStatementRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of CCStatementRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "CCStatementRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "CCStatementRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "CCStatementRequest.TAN is written to TAN")
	vAssert(vWritten("CCSTMTRQ>CCACCTFROM", &w.CCAcctFrom), "CCStatementRequest.CCAcctFrom is written to CCSTMTRQ>CCACCTFROM")
	vAssert(vWritten("CCSTMTRQ>INCTRAN>DTSTART", &w.DtStart), "CCStatementRequest.DtStart is written to CCSTMTRQ>INCTRAN>DTSTART")
	vAssert(vWritten("CCSTMTRQ>INCTRAN>DTEND", &w.DtEnd), "CCStatementRequest.DtEnd is written to CCSTMTRQ>INCTRAN>DTEND")
	vAssert(vWritten("CCSTMTRQ>INCTRAN>INCLUDE", &w.Include), "CCStatementRequest.Include is written to CCSTMTRQ>INCTRAN>INCLUDE")
	vAssert(vWrittenIfSet("CCSTMTRQ>INCLUDEPENDING", &w.IncludePending), "CCStatementRequest.IncludePending is written to CCSTMTRQ>INCLUDEPENDING")
	vAssert(vWrittenIfSet("CCSTMTRQ>INCTRANIMG", &w.IncTranImg), "CCStatementRequest.IncTranImg is written to CCSTMTRQ>INCTRANIMG")
	vAssert(vAllWritten(), "CCStatementRequest has no other elements")
}

func C26__ensures__c26CCStatementRequest__elements() bool { return true }

func c26CCStatementResponse(w CCStatementResponse) {
	var v, want CCStatementResponse
	vAssert(vXMLName(&v) == "CCSTMTTRNRS", "CCStatementResponse is the element CCSTMTTRNRS")
	vAssert(vXMLRead(&v), "the tags of CCStatementResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("CCSTMTRS>CURDEF", &want.CurDef)
	vElement("CCSTMTRS>CCACCTFROM", &want.CCAcctFrom)
	vElement("CCSTMTRS>BANKTRANLIST", &want.BankTranList)
	vElement("CCSTMTRS>LEDGERBAL>BALAMT", &want.BalAmt)
	vElement("CCSTMTRS>LEDGERBAL>DTASOF", &want.DtAsOf)
	vElement("CCSTMTRS>AVAILBAL>BALAMT", &want.AvailBalAmt)
	vElement("CCSTMTRS>AVAILBAL>DTASOF", &want.AvailDtAsOf)
	vElement("CCSTMTRS>CASHADVBALAMT", &want.CashAdvBalAmt)
	vElement("CCSTMTRS>INTRATEPURCH", &want.IntRatePurch)
	vElement("CCSTMTRS>INTRATECASH", &want.IntRateCash)
	vElement("CCSTMTRS>INTRATEXFER", &want.IntRateXfer)
	vElement("CCSTMTRS>REWARDINFO>NAME", &want.RewardName)
	vElement("CCSTMTRS>REWARDINFO>REWARDBAL", &want.RewardBal)
	vElement("CCSTMTRS>REWARDINFO>REWARDEARNED", &want.RewardEarned)
	vElement("CCSTMTRS>BALLIST>BAL", &want.BalList)
	vElement("CCSTMTRS>MKTGINFO", &want.MktgInfo)
	vAssert(same(v.TrnUID, want.TrnUID), "CCStatementResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "CCStatementResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "CCStatementResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.CurDef, want.CurDef), "CCStatementResponse.CurDef is read from CCSTMTRS>CURDEF")
	vAssert(same(v.CCAcctFrom, want.CCAcctFrom), "CCStatementResponse.CCAcctFrom is read from CCSTMTRS>CCACCTFROM")
	vAssert(same(v.BankTranList, want.BankTranList), "CCStatementResponse.BankTranList is read from CCSTMTRS>BANKTRANLIST")
	vAssert(same(v.BalAmt, want.BalAmt), "CCStatementResponse.BalAmt is read from CCSTMTRS>LEDGERBAL>BALAMT")
	vAssert(same(v.DtAsOf, want.DtAsOf), "CCStatementResponse.DtAsOf is read from CCSTMTRS>LEDGERBAL>DTASOF")
	vAssert(same(v.AvailBalAmt, want.AvailBalAmt), "CCStatementResponse.AvailBalAmt is read from CCSTMTRS>AVAILBAL>BALAMT")
	vAssert(same(v.AvailDtAsOf, want.AvailDtAsOf), "CCStatementResponse.AvailDtAsOf is read from CCSTMTRS>AVAILBAL>DTASOF")
	vAssert(same(v.CashAdvBalAmt, want.CashAdvBalAmt), "CCStatementResponse.CashAdvBalAmt is read from CCSTMTRS>CASHADVBALAMT")
	vAssert(same(v.IntRatePurch, want.IntRatePurch), "CCStatementResponse.IntRatePurch is read from CCSTMTRS>INTRATEPURCH")
	vAssert(same(v.IntRateCash, want.IntRateCash), "CCStatementResponse.IntRateCash is read from CCSTMTRS>INTRATECASH")
	vAssert(same(v.IntRateXfer, want.IntRateXfer), "CCStatementResponse.IntRateXfer is read from CCSTMTRS>INTRATEXFER")
	vAssert(same(v.RewardName, want.RewardName), "CCStatementResponse.RewardName is read from CCSTMTRS>REWARDINFO>NAME")
	vAssert(same(v.RewardBal, want.RewardBal), "CCStatementResponse.RewardBal is read from CCSTMTRS>REWARDINFO>REWARDBAL")
	vAssert(same(v.RewardEarned, want.RewardEarned), "CCStatementResponse.RewardEarned is read from CCSTMTRS>REWARDINFO>REWARDEARNED")
	vAssert(same(v.BalList, want.BalList), "CCStatementResponse.BalList is read from CCSTMTRS>BALLIST>BAL")
	vAssert(same(v.MktgInfo, want.MktgInfo), "CCStatementResponse.MktgInfo is read from CCSTMTRS>MKTGINFO")
	vAssert(same(v, want), "CCStatementResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of CCStatementResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "CCStatementResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "CCStatementResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "CCStatementResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vWritten("CCSTMTRS>CURDEF", &w.CurDef), "CCStatementResponse.CurDef is written to CCSTMTRS>CURDEF")
	vAssert(vWritten("CCSTMTRS>CCACCTFROM", &w.CCAcctFrom), "CCStatementResponse.CCAcctFrom is written to CCSTMTRS>CCACCTFROM")
	vAssert(vWritten("CCSTMTRS>BANKTRANLIST", &w.BankTranList), "CCStatementResponse.BankTranList is written to CCSTMTRS>BANKTRANLIST")
	vAssert(vWritten("CCSTMTRS>LEDGERBAL>BALAMT", &w.BalAmt), "CCStatementResponse.BalAmt is written to CCSTMTRS>LEDGERBAL>BALAMT")
	vAssert(vWritten("CCSTMTRS>LEDGERBAL>DTASOF", &w.DtAsOf), "CCStatementResponse.DtAsOf is written to CCSTMTRS>LEDGERBAL>DTASOF")
	vAssert(vWritten("CCSTMTRS>AVAILBAL>BALAMT", &w.AvailBalAmt), "CCStatementResponse.AvailBalAmt is written to CCSTMTRS>AVAILBAL>BALAMT")
	vAssert(vWritten("CCSTMTRS>AVAILBAL>DTASOF", &w.AvailDtAsOf), "CCStatementResponse.AvailDtAsOf is written to CCSTMTRS>AVAILBAL>DTASOF")
	vAssert(vWritten("CCSTMTRS>CASHADVBALAMT", &w.CashAdvBalAmt), "CCStatementResponse.CashAdvBalAmt is written to CCSTMTRS>CASHADVBALAMT")
	vAssert(vWritten("CCSTMTRS>INTRATEPURCH", &w.IntRatePurch), "CCStatementResponse.IntRatePurch is written to CCSTMTRS>INTRATEPURCH")
	vAssert(vWritten("CCSTMTRS>INTRATECASH", &w.IntRateCash), "CCStatementResponse.IntRateCash is written to CCSTMTRS>INTRATECASH")
	vAssert(vWritten("CCSTMTRS>INTRATEXFER", &w.IntRateXfer), "CCStatementResponse.IntRateXfer is written to CCSTMTRS>INTRATEXFER")
	vAssert(vWrittenIfSet("CCSTMTRS>REWARDINFO>NAME", &w.RewardName), "CCStatementResponse.RewardName is written to CCSTMTRS>REWARDINFO>NAME")
	vAssert(vWritten("CCSTMTRS>REWARDINFO>REWARDBAL", &w.RewardBal), "CCStatementResponse.RewardBal is written to CCSTMTRS>REWARDINFO>REWARDBAL")
	vAssert(vWritten("CCSTMTRS>REWARDINFO>REWARDEARNED", &w.RewardEarned), "CCStatementResponse.RewardEarned is written to CCSTMTRS>REWARDINFO>REWARDEARNED")
	vAssert(vWritten("CCSTMTRS>BALLIST>BAL", &w.BalList), "CCStatementResponse.BalList is written to CCSTMTRS>BALLIST>BAL")
	vAssert(vWrittenIfSet("CCSTMTRS>MKTGINFO", &w.MktgInfo), "CCStatementResponse.MktgInfo is written to CCSTMTRS>MKTGINFO")
	vAssert(vAllWritten(), "CCStatementResponse has no other elements")
}

func C26__ensures__c26CCStatementResponse__elements() bool { return true }

func c26InvStatementRequest(w InvStatementRequest) {
	var v, want InvStatementRequest
	vAssert(vXMLName(&v) == "INVSTMTTRNRQ", "InvStatementRequest is the element INVSTMTTRNRQ")
	vAssert(vXMLRead(&v), "the tags of InvStatementRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("INVSTMTRQ>INVACCTFROM", &want.InvAcctFrom)
	vElement("INVSTMTRQ>INCTRAN>DTSTART", &want.DtStart)
	vElement("INVSTMTRQ>INCTRAN>DTEND", &want.DtEnd)
	vElement("INVSTMTRQ>INCTRAN>INCLUDE", &want.Include)
	vElement("INVSTMTRQ>INCOO", &want.IncludeOO)
	vElement("INVSTMTRQ>INCPOS>DTASOF", &want.PosDtAsOf)
	vElement("INVSTMTRQ>INCPOS>INCLUDE", &want.IncludePos)
	vElement("INVSTMTRQ>INCBAL", &want.IncludeBalance)
	vElement("INVSTMTRQ>INC401K", &want.Include401K)
	vElement("INVSTMTRQ>INC401KBAL", &want.Include401KBal)
	vElement("INVSTMTRQ>INCTRANIMAGE", &want.IncludeTranImage)
	vAssert(same(v.TrnUID, want.TrnUID), "InvStatementRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "InvStatementRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "InvStatementRequest.TAN is read from TAN")
	vAssert(same(v.InvAcctFrom, want.InvAcctFrom), "InvStatementRequest.InvAcctFrom is read from INVSTMTRQ>INVACCTFROM")
	vAssert(same(v.DtStart, want.DtStart), "InvStatementRequest.DtStart is read from INVSTMTRQ>INCTRAN>DTSTART")
	vAssert(same(v.DtEnd, want.DtEnd), "InvStatementRequest.DtEnd is read from INVSTMTRQ>INCTRAN>DTEND")
	vAssert(same(v.Include, want.Include), "InvStatementRequest.Include is read from INVSTMTRQ>INCTRAN>INCLUDE")
	vAssert(same(v.IncludeOO, want.IncludeOO), "InvStatementRequest.IncludeOO is read from INVSTMTRQ>INCOO")
	vAssert(same(v.PosDtAsOf, want.PosDtAsOf), "InvStatementRequest.PosDtAsOf is read from INVSTMTRQ>INCPOS>DTASOF")
	vAssert(same(v.IncludePos, want.IncludePos), "InvStatementRequest.IncludePos is read from INVSTMTRQ>INCPOS>INCLUDE")
	vAssert(same(v.IncludeBalance, want.IncludeBalance), "InvStatementRequest.IncludeBalance is read from INVSTMTRQ>INCBAL")
	vAssert(same(v.Include401K, want.Include401K), "InvStatementRequest.Include401K is read from INVSTMTRQ>INC401K")
	vAssert(same(v.Include401KBal, want.Include401KBal), "InvStatementRequest.Include401KBal is read from INVSTMTRQ>INC401KBAL")
	vAssert(same(v.IncludeTranImage, want.IncludeTranImage), "InvStatementRequest.IncludeTranImage is read from INVSTMTRQ>INCTRANIMAGE")
	vAssert(same(v, want), "InvStatementRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvStatementRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "InvStatementRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "InvStatementRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "InvStatementRequest.TAN is written to TAN")
	vAssert(vWritten("INVSTMTRQ>INVACCTFROM", &w.InvAcctFrom), "InvStatementRequest.InvAcctFrom is written to INVSTMTRQ>INVACCTFROM")
	vAssert(vWritten("INVSTMTRQ>INCTRAN>DTSTART", &w.DtStart), "InvStatementRequest.DtStart is written to INVSTMTRQ>INCTRAN>DTSTART")
	vAssert(vWritten("INVSTMTRQ>INCTRAN>DTEND", &w.DtEnd), "InvStatementRequest.DtEnd is written to INVSTMTRQ>INCTRAN>DTEND")
	vAssert(vWritten("INVSTMTRQ>INCTRAN>INCLUDE", &w.Include), "InvStatementRequest.Include is written to INVSTMTRQ>INCTRAN>INCLUDE")
	vAssert(vWritten("INVSTMTRQ>INCOO", &w.IncludeOO), "InvStatementRequest.IncludeOO is written to INVSTMTRQ>INCOO")
	vAssert(vWritten("INVSTMTRQ>INCPOS>DTASOF", &w.PosDtAsOf), "InvStatementRequest.PosDtAsOf is written to INVSTMTRQ>INCPOS>DTASOF")
	vAssert(vWritten("INVSTMTRQ>INCPOS>INCLUDE", &w.IncludePos), "InvStatementRequest.IncludePos is written to INVSTMTRQ>INCPOS>INCLUDE")
	vAssert(vWritten("INVSTMTRQ>INCBAL", &w.IncludeBalance), "InvStatementRequest.IncludeBalance is written to INVSTMTRQ>INCBAL")
	vAssert(vWrittenIfSet("INVSTMTRQ>INC401K", &w.Include401K), "InvStatementRequest.Include401K is written to INVSTMTRQ>INC401K")
	vAssert(vWrittenIfSet("INVSTMTRQ>INC401KBAL", &w.Include401KBal), "InvStatementRequest.Include401KBal is written to INVSTMTRQ>INC401KBAL")
	vAssert(vWrittenIfSet("INVSTMTRQ>INCTRANIMAGE", &w.IncludeTranImage), "InvStatementRequest.IncludeTranImage is written to INVSTMTRQ>INCTRANIMAGE")
	vAssert(vAllWritten(), "InvStatementRequest has no other elements")
}

func C26__ensures__c26InvStatementRequest__elements() bool { return true }

func c26InvTran(w InvTran) {
	var v, want InvTran
	vAssert(vXMLName(&v) == "INVTRAN", "InvTran is the element INVTRAN")
	vAssert(vXMLRead(&v), "the tags of InvTran do not conflict")
	vElement("FITID", &want.FiTID)
	vElement("SRVRTID", &want.SrvrTID)
	vElement("DTTRADE", &want.DtTrade)
	vElement("DTSETTLE", &want.DtSettle)
	vElement("REVERSALFITID", &want.ReversalFiTID)
	vElement("MEMO", &want.Memo)
	vAssert(same(v.FiTID, want.FiTID), "InvTran.FiTID is read from FITID")
	vAssert(same(v.SrvrTID, want.SrvrTID), "InvTran.SrvrTID is read from SRVRTID")
	vAssert(same(v.DtTrade, want.DtTrade), "InvTran.DtTrade is read from DTTRADE")
	vAssert(same(v.DtSettle, want.DtSettle), "InvTran.DtSettle is read from DTSETTLE")
	vAssert(same(v.ReversalFiTID, want.ReversalFiTID), "InvTran.ReversalFiTID is read from REVERSALFITID")
	vAssert(same(v.Memo, want.Memo), "InvTran.Memo is read from MEMO")
	vAssert(same(v, want), "InvTran has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvTran do not conflict")
	vAssert(vWritten("FITID", &w.FiTID), "InvTran.FiTID is written to FITID")
	vAssert(vWrittenIfSet("SRVRTID", &w.SrvrTID), "InvTran.SrvrTID is written to SRVRTID")
	vAssert(vWritten("DTTRADE", &w.DtTrade), "InvTran.DtTrade is written to DTTRADE")
	vAssert(vWritten("DTSETTLE", &w.DtSettle), "InvTran.DtSettle is written to DTSETTLE")
	vAssert(vWrittenIfSet("REVERSALFITID", &w.ReversalFiTID), "InvTran.ReversalFiTID is written to REVERSALFITID")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "InvTran.Memo is written to MEMO")
	vAssert(vAllWritten(), "InvTran has no other elements")
}

func C26__ensures__c26InvTran__elements() bool { return true }

func c26InvBuy(w InvBuy) {
	var v, want InvBuy
	vAssert(vXMLName(&v) == "INVBUY", "InvBuy is the element INVBUY")
	vAssert(vXMLRead(&v), "the tags of InvBuy do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("UNITS", &want.Units)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("MARKUP", &want.Markup)
	vElement("COMMISSION", &want.Commission)
	vElement("TAXES", &want.Taxes)
	vElement("FEES", &want.Fees)
	vElement("LOAD", &want.Load)
	vElement("TOTAL", &want.Total)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("LOANID", &want.LoanID)
	vElement("LOANPRINCIPAL", &want.LoanPrincipal)
	vElement("LOANINTEREST", &want.LoanInterest)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vElement("DTPAYROLL", &want.DtPayroll)
	vElement("PRIORYEARCONTRIB", &want.PriorYearContrib)
	vAssert(same(v.InvTran, want.InvTran), "InvBuy.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "InvBuy.SecID is read from SECID")
	vAssert(same(v.Units, want.Units), "InvBuy.Units is read from UNITS")
	vAssert(same(v.UnitPrice, want.UnitPrice), "InvBuy.UnitPrice is read from UNITPRICE")
	vAssert(same(v.Markup, want.Markup), "InvBuy.Markup is read from MARKUP")
	vAssert(same(v.Commission, want.Commission), "InvBuy.Commission is read from COMMISSION")
	vAssert(same(v.Taxes, want.Taxes), "InvBuy.Taxes is read from TAXES")
	vAssert(same(v.Fees, want.Fees), "InvBuy.Fees is read from FEES")
	vAssert(same(v.Load, want.Load), "InvBuy.Load is read from LOAD")
	vAssert(same(v.Total, want.Total), "InvBuy.Total is read from TOTAL")
	vAssert(same(v.Currency, want.Currency), "InvBuy.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "InvBuy.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "InvBuy.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "InvBuy.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.LoanID, want.LoanID), "InvBuy.LoanID is read from LOANID")
	vAssert(same(v.LoanPrincipal, want.LoanPrincipal), "InvBuy.LoanPrincipal is read from LOANPRINCIPAL")
	vAssert(same(v.LoanInterest, want.LoanInterest), "InvBuy.LoanInterest is read from LOANINTEREST")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "InvBuy.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v.DtPayroll, want.DtPayroll), "InvBuy.DtPayroll is read from DTPAYROLL")
	vAssert(same(v.PriorYearContrib, want.PriorYearContrib), "InvBuy.PriorYearContrib is read from PRIORYEARCONTRIB")
	vAssert(same(v, want), "InvBuy has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvBuy do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "InvBuy.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "InvBuy.SecID is written to SECID")
	vAssert(vWritten("UNITS", &w.Units), "InvBuy.Units is written to UNITS")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "InvBuy.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("MARKUP", &w.Markup), "InvBuy.Markup is written to MARKUP")
	vAssert(vWritten("COMMISSION", &w.Commission), "InvBuy.Commission is written to COMMISSION")
	vAssert(vWritten("TAXES", &w.Taxes), "InvBuy.Taxes is written to TAXES")
	vAssert(vWritten("FEES", &w.Fees), "InvBuy.Fees is written to FEES")
	vAssert(vWritten("LOAD", &w.Load), "InvBuy.Load is written to LOAD")
	vAssert(vWritten("TOTAL", &w.Total), "InvBuy.Total is written to TOTAL")
	vAssert(vWritten("CURRENCY", &w.Currency), "InvBuy.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "InvBuy.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "InvBuy.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "InvBuy.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWrittenIfSet("LOANID", &w.LoanID), "InvBuy.LoanID is written to LOANID")
	vAssert(vWritten("LOANPRINCIPAL", &w.LoanPrincipal), "InvBuy.LoanPrincipal is written to LOANPRINCIPAL")
	vAssert(vWritten("LOANINTEREST", &w.LoanInterest), "InvBuy.LoanInterest is written to LOANINTEREST")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "InvBuy.Inv401kSource is written to INV401KSOURCE")
	vAssert(vWritten("DTPAYROLL", &w.DtPayroll), "InvBuy.DtPayroll is written to DTPAYROLL")
	vAssert(vWrittenIfSet("PRIORYEARCONTRIB", &w.PriorYearContrib), "InvBuy.PriorYearContrib is written to PRIORYEARCONTRIB")
	vAssert(vAllWritten(), "InvBuy has no other elements")
}

func C26__ensures__c26InvBuy__elements() bool { return true }

func c26InvSell(w InvSell) {
	var v, want InvSell
	vAssert(vXMLName(&v) == "INVSELL", "InvSell is the element INVSELL")
	vAssert(vXMLRead(&v), "the tags of InvSell do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("UNITS", &want.Units)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("MARKDOWN", &want.Markdown)
	vElement("COMMISSION", &want.Commission)
	vElement("TAXES", &want.Taxes)
	vElement("FEES", &want.Fees)
	vElement("LOAD", &want.Load)
	vElement("WITHHOLDING", &want.Withholding)
	vElement("TAXEXEMPT", &want.TaxExempt)
	vElement("TOTAL", &want.Total)
	vElement("GAIN", &want.Gain)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("LOANID", &want.LoanID)
	vElement("STATEWITHHOLDING", &want.StateWithholding)
	vElement("PENALTY", &want.Penalty)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "InvSell.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "InvSell.SecID is read from SECID")
	vAssert(same(v.Units, want.Units), "InvSell.Units is read from UNITS")
	vAssert(same(v.UnitPrice, want.UnitPrice), "InvSell.UnitPrice is read from UNITPRICE")
	vAssert(same(v.Markdown, want.Markdown), "InvSell.Markdown is read from MARKDOWN")
	vAssert(same(v.Commission, want.Commission), "InvSell.Commission is read from COMMISSION")
	vAssert(same(v.Taxes, want.Taxes), "InvSell.Taxes is read from TAXES")
	vAssert(same(v.Fees, want.Fees), "InvSell.Fees is read from FEES")
	vAssert(same(v.Load, want.Load), "InvSell.Load is read from LOAD")
	vAssert(same(v.Withholding, want.Withholding), "InvSell.Withholding is read from WITHHOLDING")
	vAssert(same(v.TaxExempt, want.TaxExempt), "InvSell.TaxExempt is read from TAXEXEMPT")
	vAssert(same(v.Total, want.Total), "InvSell.Total is read from TOTAL")
	vAssert(same(v.Gain, want.Gain), "InvSell.Gain is read from GAIN")
	vAssert(same(v.Currency, want.Currency), "InvSell.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "InvSell.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "InvSell.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "InvSell.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.LoanID, want.LoanID), "InvSell.LoanID is read from LOANID")
	vAssert(same(v.StateWithholding, want.StateWithholding), "InvSell.StateWithholding is read from STATEWITHHOLDING")
	vAssert(same(v.Penalty, want.Penalty), "InvSell.Penalty is read from PENALTY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "InvSell.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "InvSell has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvSell do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "InvSell.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "InvSell.SecID is written to SECID")
	vAssert(vWritten("UNITS", &w.Units), "InvSell.Units is written to UNITS")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "InvSell.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("MARKDOWN", &w.Markdown), "InvSell.Markdown is written to MARKDOWN")
	vAssert(vWritten("COMMISSION", &w.Commission), "InvSell.Commission is written to COMMISSION")
	vAssert(vWritten("TAXES", &w.Taxes), "InvSell.Taxes is written to TAXES")
	vAssert(vWritten("FEES", &w.Fees), "InvSell.Fees is written to FEES")
	vAssert(vWritten("LOAD", &w.Load), "InvSell.Load is written to LOAD")
	vAssert(vWritten("WITHHOLDING", &w.Withholding), "InvSell.Withholding is written to WITHHOLDING")
	vAssert(vWrittenIfSet("TAXEXEMPT", &w.TaxExempt), "InvSell.TaxExempt is written to TAXEXEMPT")
	vAssert(vWritten("TOTAL", &w.Total), "InvSell.Total is written to TOTAL")
	vAssert(vWritten("GAIN", &w.Gain), "InvSell.Gain is written to GAIN")
	vAssert(vWritten("CURRENCY", &w.Currency), "InvSell.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "InvSell.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "InvSell.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "InvSell.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWrittenIfSet("LOANID", &w.LoanID), "InvSell.LoanID is written to LOANID")
	vAssert(vWritten("STATEWITHHOLDING", &w.StateWithholding), "InvSell.StateWithholding is written to STATEWITHHOLDING")
	vAssert(vWritten("PENALTY", &w.Penalty), "InvSell.Penalty is written to PENALTY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "InvSell.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "InvSell has no other elements")
}

func C26__ensures__c26InvSell__elements() bool { return true }

func c26BuyDebt(w BuyDebt) {
	var v, want BuyDebt
	vAssert(vXMLName(&v) == "BUYDEBT", "BuyDebt is the element BUYDEBT")
	vAssert(vXMLRead(&v), "the tags of BuyDebt do not conflict")
	vElement("INVBUY", &want.InvBuy)
	vElement("ACCRDINT", &want.AccrdInt)
	vAssert(same(v.InvBuy, want.InvBuy), "BuyDebt.InvBuy is read from INVBUY")
	vAssert(same(v.AccrdInt, want.AccrdInt), "BuyDebt.AccrdInt is read from ACCRDINT")
	vAssert(same(v, want), "BuyDebt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BuyDebt do not conflict")
	vAssert(vWritten("INVBUY", &w.InvBuy), "BuyDebt.InvBuy is written to INVBUY")
	vAssert(vWritten("ACCRDINT", &w.AccrdInt), "BuyDebt.AccrdInt is written to ACCRDINT")
	vAssert(vAllWritten(), "BuyDebt has no other elements")
}

func C26__ensures__c26BuyDebt__elements() bool { return true }

func c26BuyMF(w BuyMF) {
	var v, want BuyMF
	vAssert(vXMLName(&v) == "BUYMF", "BuyMF is the element BUYMF")
	vAssert(vXMLRead(&v), "the tags of BuyMF do not conflict")
	vElement("INVBUY", &want.InvBuy)
	vElement("BUYTYPE", &want.BuyType)
	vElement("RELFITID", &want.RelFiTID)
	vAssert(same(v.InvBuy, want.InvBuy), "BuyMF.InvBuy is read from INVBUY")
	vAssert(same(v.BuyType, want.BuyType), "BuyMF.BuyType is read from BUYTYPE")
	vAssert(same(v.RelFiTID, want.RelFiTID), "BuyMF.RelFiTID is read from RELFITID")
	vAssert(same(v, want), "BuyMF has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BuyMF do not conflict")
	vAssert(vWritten("INVBUY", &w.InvBuy), "BuyMF.InvBuy is written to INVBUY")
	vAssert(vWritten("BUYTYPE", &w.BuyType), "BuyMF.BuyType is written to BUYTYPE")
	vAssert(vWrittenIfSet("RELFITID", &w.RelFiTID), "BuyMF.RelFiTID is written to RELFITID")
	vAssert(vAllWritten(), "BuyMF has no other elements")
}

func C26__ensures__c26BuyMF__elements() bool { return true }

func c26BuyOpt(w BuyOpt) {
	var v, want BuyOpt
	vAssert(vXMLName(&v) == "BUYOPT", "BuyOpt is the element BUYOPT")
	vAssert(vXMLRead(&v), "the tags of BuyOpt do not conflict")
	vElement("INVBUY", &want.InvBuy)
	vElement("OPTBUYTYPE", &want.OptBuyType)
	vElement("SHPERCTRCT", &want.ShPerCtrct)
	vAssert(same(v.InvBuy, want.InvBuy), "BuyOpt.InvBuy is read from INVBUY")
	vAssert(same(v.OptBuyType, want.OptBuyType), "BuyOpt.OptBuyType is read from OPTBUYTYPE")
	vAssert(same(v.ShPerCtrct, want.ShPerCtrct), "BuyOpt.ShPerCtrct is read from SHPERCTRCT")
	vAssert(same(v, want), "BuyOpt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BuyOpt do not conflict")
	vAssert(vWritten("INVBUY", &w.InvBuy), "BuyOpt.InvBuy is written to INVBUY")
	vAssert(vWritten("OPTBUYTYPE", &w.OptBuyType), "BuyOpt.OptBuyType is written to OPTBUYTYPE")
	vAssert(vWritten("SHPERCTRCT", &w.ShPerCtrct), "BuyOpt.ShPerCtrct is written to SHPERCTRCT")
	vAssert(vAllWritten(), "BuyOpt has no other elements")
}

func C26__ensures__c26BuyOpt__elements() bool { return true }

func c26BuyOther(w BuyOther) {
	var v, want BuyOther
	vAssert(vXMLName(&v) == "BUYOTHER", "BuyOther is the element BUYOTHER")
	vAssert(vXMLRead(&v), "the tags of BuyOther do not conflict")
	vElement("INVBUY", &want.InvBuy)
	vAssert(same(v.InvBuy, want.InvBuy), "BuyOther.InvBuy is read from INVBUY")
	vAssert(same(v, want), "BuyOther has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BuyOther do not conflict")
	vAssert(vWritten("INVBUY", &w.InvBuy), "BuyOther.InvBuy is written to INVBUY")
	vAssert(vAllWritten(), "BuyOther has no other elements")
}

func C26__ensures__c26BuyOther__elements() bool { return true }

func c26BuyStock(w BuyStock) {
	var v, want BuyStock
	vAssert(vXMLName(&v) == "BUYSTOCK", "BuyStock is the element BUYSTOCK")
	vAssert(vXMLRead(&v), "the tags of BuyStock do not conflict")
	vElement("INVBUY", &want.InvBuy)
	vElement("BUYTYPE", &want.BuyType)
	vAssert(same(v.InvBuy, want.InvBuy), "BuyStock.InvBuy is read from INVBUY")
	vAssert(same(v.BuyType, want.BuyType), "BuyStock.BuyType is read from BUYTYPE")
	vAssert(same(v, want), "BuyStock has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BuyStock do not conflict")
	vAssert(vWritten("INVBUY", &w.InvBuy), "BuyStock.InvBuy is written to INVBUY")
	vAssert(vWritten("BUYTYPE", &w.BuyType), "BuyStock.BuyType is written to BUYTYPE")
	vAssert(vAllWritten(), "BuyStock has no other elements")
}

func C26__ensures__c26BuyStock__elements() bool { return true }

func c26ClosureOpt(w ClosureOpt) {
	var v, want ClosureOpt
	vAssert(vXMLName(&v) == "CLOSUREOPT", "ClosureOpt is the element CLOSUREOPT")
	vAssert(vXMLRead(&v), "the tags of ClosureOpt do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("OPTACTION", &want.OptAction)
	vElement("UNITS", &want.Units)
	vElement("SHPERCTRCT", &want.ShPerCtrct)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("RELFITID", &want.RelFiTID)
	vElement("GAIN", &want.Gain)
	vAssert(same(v.InvTran, want.InvTran), "ClosureOpt.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "ClosureOpt.SecID is read from SECID")
	vAssert(same(v.OptAction, want.OptAction), "ClosureOpt.OptAction is read from OPTACTION")
	vAssert(same(v.Units, want.Units), "ClosureOpt.Units is read from UNITS")
	vAssert(same(v.ShPerCtrct, want.ShPerCtrct), "ClosureOpt.ShPerCtrct is read from SHPERCTRCT")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "ClosureOpt.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.RelFiTID, want.RelFiTID), "ClosureOpt.RelFiTID is read from RELFITID")
	vAssert(same(v.Gain, want.Gain), "ClosureOpt.Gain is read from GAIN")
	vAssert(same(v, want), "ClosureOpt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of ClosureOpt do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "ClosureOpt.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "ClosureOpt.SecID is written to SECID")
	vAssert(vWritten("OPTACTION", &w.OptAction), "ClosureOpt.OptAction is written to OPTACTION")
	vAssert(vWritten("UNITS", &w.Units), "ClosureOpt.Units is written to UNITS")
	vAssert(vWritten("SHPERCTRCT", &w.ShPerCtrct), "ClosureOpt.ShPerCtrct is written to SHPERCTRCT")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "ClosureOpt.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWrittenIfSet("RELFITID", &w.RelFiTID), "ClosureOpt.RelFiTID is written to RELFITID")
	vAssert(vWritten("GAIN", &w.Gain), "ClosureOpt.Gain is written to GAIN")
	vAssert(vAllWritten(), "ClosureOpt has no other elements")
}

func C26__ensures__c26ClosureOpt__elements() bool { return true }

func c26Income(w Income) {
	var v, want Income
	vAssert(vXMLName(&v) == "INCOME", "Income is the element INCOME")
	vAssert(vXMLRead(&v), "the tags of Income do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("INCOMETYPE", &want.IncomeType)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("TAXEXEMPT", &want.TaxExempt)
	vElement("WITHHOLDING", &want.Withholding)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "Income.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "Income.SecID is read from SECID")
	vAssert(same(v.IncomeType, want.IncomeType), "Income.IncomeType is read from INCOMETYPE")
	vAssert(same(v.Total, want.Total), "Income.Total is read from TOTAL")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "Income.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "Income.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.TaxExempt, want.TaxExempt), "Income.TaxExempt is read from TAXEXEMPT")
	vAssert(same(v.Withholding, want.Withholding), "Income.Withholding is read from WITHHOLDING")
	vAssert(same(v.Currency, want.Currency), "Income.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "Income.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "Income.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "Income has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Income do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "Income.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "Income.SecID is written to SECID")
	vAssert(vWritten("INCOMETYPE", &w.IncomeType), "Income.IncomeType is written to INCOMETYPE")
	vAssert(vWritten("TOTAL", &w.Total), "Income.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "Income.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "Income.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWrittenIfSet("TAXEXEMPT", &w.TaxExempt), "Income.TaxExempt is written to TAXEXEMPT")
	vAssert(vWritten("WITHHOLDING", &w.Withholding), "Income.Withholding is written to WITHHOLDING")
	vAssert(vWritten("CURRENCY", &w.Currency), "Income.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "Income.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "Income.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "Income has no other elements")
}

func C26__ensures__c26Income__elements() bool { return true }

func c26InvExpense(w InvExpense) {
	var v, want InvExpense
	vAssert(vXMLName(&v) == "INVEXPENSE", "InvExpense is the element INVEXPENSE")
	vAssert(vXMLRead(&v), "the tags of InvExpense do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "InvExpense.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "InvExpense.SecID is read from SECID")
	vAssert(same(v.Total, want.Total), "InvExpense.Total is read from TOTAL")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "InvExpense.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "InvExpense.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.Currency, want.Currency), "InvExpense.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "InvExpense.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "InvExpense.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "InvExpense has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvExpense do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "InvExpense.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "InvExpense.SecID is written to SECID")
	vAssert(vWritten("TOTAL", &w.Total), "InvExpense.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "InvExpense.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "InvExpense.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWritten("CURRENCY", &w.Currency), "InvExpense.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "InvExpense.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "InvExpense.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "InvExpense has no other elements")
}

func C26__ensures__c26InvExpense__elements() bool { return true }

func c26JrnlFund(w JrnlFund) {
	var v, want JrnlFund
	vAssert(vXMLName(&v) == "JRNLFUND", "JrnlFund is the element JRNLFUND")
	vAssert(vXMLRead(&v), "the tags of JrnlFund do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTFROM", &want.SubAcctFrom)
	vElement("SUBACCTTO", &want.SubAcctTo)
	vAssert(same(v.InvTran, want.InvTran), "JrnlFund.InvTran is read from INVTRAN")
	vAssert(same(v.Total, want.Total), "JrnlFund.Total is read from TOTAL")
	vAssert(same(v.SubAcctFrom, want.SubAcctFrom), "JrnlFund.SubAcctFrom is read from SUBACCTFROM")
	vAssert(same(v.SubAcctTo, want.SubAcctTo), "JrnlFund.SubAcctTo is read from SUBACCTTO")
	vAssert(same(v, want), "JrnlFund has no other elements")
	vAssert(vXMLWrite(&w), "the tags of JrnlFund do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "JrnlFund.InvTran is written to INVTRAN")
	vAssert(vWritten("TOTAL", &w.Total), "JrnlFund.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTFROM", &w.SubAcctFrom), "JrnlFund.SubAcctFrom is written to SUBACCTFROM")
	vAssert(vWritten("SUBACCTTO", &w.SubAcctTo), "JrnlFund.SubAcctTo is written to SUBACCTTO")
	vAssert(vAllWritten(), "JrnlFund has no other elements")
}

func C26__ensures__c26JrnlFund__elements() bool { return true }

func c26JrnlSec(w JrnlSec) {
	var v, want JrnlSec
	vAssert(vXMLName(&v) == "JRNLSEC", "JrnlSec is the element JRNLSEC")
	vAssert(vXMLRead(&v), "the tags of JrnlSec do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("SUBACCTFROM", &want.SubAcctFrom)
	vElement("SUBACCTTO", &want.SubAcctTo)
	vElement("UNITS", &want.Units)
	vAssert(same(v.InvTran, want.InvTran), "JrnlSec.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "JrnlSec.SecID is read from SECID")
	vAssert(same(v.SubAcctFrom, want.SubAcctFrom), "JrnlSec.SubAcctFrom is read from SUBACCTFROM")
	vAssert(same(v.SubAcctTo, want.SubAcctTo), "JrnlSec.SubAcctTo is read from SUBACCTTO")
	vAssert(same(v.Units, want.Units), "JrnlSec.Units is read from UNITS")
	vAssert(same(v, want), "JrnlSec has no other elements")
	vAssert(vXMLWrite(&w), "the tags of JrnlSec do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "JrnlSec.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "JrnlSec.SecID is written to SECID")
	vAssert(vWritten("SUBACCTFROM", &w.SubAcctFrom), "JrnlSec.SubAcctFrom is written to SUBACCTFROM")
	vAssert(vWritten("SUBACCTTO", &w.SubAcctTo), "JrnlSec.SubAcctTo is written to SUBACCTTO")
	vAssert(vWritten("UNITS", &w.Units), "JrnlSec.Units is written to UNITS")
	vAssert(vAllWritten(), "JrnlSec has no other elements")
}

func C26__ensures__c26JrnlSec__elements() bool { return true }

func c26MarginInterest(w MarginInterest) {
	var v, want MarginInterest
	vAssert(vXMLName(&v) == "MARGININTEREST", "MarginInterest is the element MARGININTEREST")
	vAssert(vXMLRead(&v), "the tags of MarginInterest do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vAssert(same(v.InvTran, want.InvTran), "MarginInterest.InvTran is read from INVTRAN")
	vAssert(same(v.Total, want.Total), "MarginInterest.Total is read from TOTAL")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "MarginInterest.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.Currency, want.Currency), "MarginInterest.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "MarginInterest.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v, want), "MarginInterest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of MarginInterest do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "MarginInterest.InvTran is written to INVTRAN")
	vAssert(vWritten("TOTAL", &w.Total), "MarginInterest.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "MarginInterest.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWritten("CURRENCY", &w.Currency), "MarginInterest.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "MarginInterest.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vAllWritten(), "MarginInterest has no other elements")
}

func C26__ensures__c26MarginInterest__elements() bool { return true }

func c26Reinvest(w Reinvest) {
	var v, want Reinvest
	vAssert(vXMLName(&v) == "REINVEST", "Reinvest is the element REINVEST")
	vAssert(vXMLRead(&v), "the tags of Reinvest do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("INCOMETYPE", &want.IncomeType)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("UNITS", &want.Units)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("COMMISSION", &want.Commission)
	vElement("TAXES", &want.Taxes)
	vElement("FEES", &want.Fees)
	vElement("LOAD", &want.Load)
	vElement("TAXEXEMPT", &want.TaxExempt)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "Reinvest.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "Reinvest.SecID is read from SECID")
	vAssert(same(v.IncomeType, want.IncomeType), "Reinvest.IncomeType is read from INCOMETYPE")
	vAssert(same(v.Total, want.Total), "Reinvest.Total is read from TOTAL")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "Reinvest.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.Units, want.Units), "Reinvest.Units is read from UNITS")
	vAssert(same(v.UnitPrice, want.UnitPrice), "Reinvest.UnitPrice is read from UNITPRICE")
	vAssert(same(v.Commission, want.Commission), "Reinvest.Commission is read from COMMISSION")
	vAssert(same(v.Taxes, want.Taxes), "Reinvest.Taxes is read from TAXES")
	vAssert(same(v.Fees, want.Fees), "Reinvest.Fees is read from FEES")
	vAssert(same(v.Load, want.Load), "Reinvest.Load is read from LOAD")
	vAssert(same(v.TaxExempt, want.TaxExempt), "Reinvest.TaxExempt is read from TAXEXEMPT")
	vAssert(same(v.Currency, want.Currency), "Reinvest.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "Reinvest.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "Reinvest.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "Reinvest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Reinvest do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "Reinvest.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "Reinvest.SecID is written to SECID")
	vAssert(vWritten("INCOMETYPE", &w.IncomeType), "Reinvest.IncomeType is written to INCOMETYPE")
	vAssert(vWritten("TOTAL", &w.Total), "Reinvest.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "Reinvest.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("UNITS", &w.Units), "Reinvest.Units is written to UNITS")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "Reinvest.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("COMMISSION", &w.Commission), "Reinvest.Commission is written to COMMISSION")
	vAssert(vWritten("TAXES", &w.Taxes), "Reinvest.Taxes is written to TAXES")
	vAssert(vWritten("FEES", &w.Fees), "Reinvest.Fees is written to FEES")
	vAssert(vWritten("LOAD", &w.Load), "Reinvest.Load is written to LOAD")
	vAssert(vWrittenIfSet("TAXEXEMPT", &w.TaxExempt), "Reinvest.TaxExempt is written to TAXEXEMPT")
	vAssert(vWritten("CURRENCY", &w.Currency), "Reinvest.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "Reinvest.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "Reinvest.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "Reinvest has no other elements")
}

func C26__ensures__c26Reinvest__elements() bool { return true }

func c26RetOfCap(w RetOfCap) {
	var v, want RetOfCap
	vAssert(vXMLName(&v) == "RETOFCAP", "RetOfCap is the element RETOFCAP")
	vAssert(vXMLRead(&v), "the tags of RetOfCap do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("TOTAL", &want.Total)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "RetOfCap.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "RetOfCap.SecID is read from SECID")
	vAssert(same(v.Total, want.Total), "RetOfCap.Total is read from TOTAL")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "RetOfCap.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "RetOfCap.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.Currency, want.Currency), "RetOfCap.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "RetOfCap.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "RetOfCap.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "RetOfCap has no other elements")
	vAssert(vXMLWrite(&w), "the tags of RetOfCap do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "RetOfCap.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "RetOfCap.SecID is written to SECID")
	vAssert(vWritten("TOTAL", &w.Total), "RetOfCap.Total is written to TOTAL")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "RetOfCap.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "RetOfCap.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWritten("CURRENCY", &w.Currency), "RetOfCap.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "RetOfCap.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "RetOfCap.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "RetOfCap has no other elements")
}

func C26__ensures__c26RetOfCap__elements() bool { return true }

func c26SellDebt(w SellDebt) {
	var v, want SellDebt
	vAssert(vXMLName(&v) == "SELLDEBT", "SellDebt is the element SELLDEBT")
	vAssert(vXMLRead(&v), "the tags of SellDebt do not conflict")
	vElement("INVSELL", &want.InvSell)
	vElement("SELLREASON", &want.SellReason)
	vElement("ACCRDINT", &want.AccrdInt)
	vAssert(same(v.InvSell, want.InvSell), "SellDebt.InvSell is read from INVSELL")
	vAssert(same(v.SellReason, want.SellReason), "SellDebt.SellReason is read from SELLREASON")
	vAssert(same(v.AccrdInt, want.AccrdInt), "SellDebt.AccrdInt is read from ACCRDINT")
	vAssert(same(v, want), "SellDebt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SellDebt do not conflict")
	vAssert(vWritten("INVSELL", &w.InvSell), "SellDebt.InvSell is written to INVSELL")
	vAssert(vWritten("SELLREASON", &w.SellReason), "SellDebt.SellReason is written to SELLREASON")
	vAssert(vWritten("ACCRDINT", &w.AccrdInt), "SellDebt.AccrdInt is written to ACCRDINT")
	vAssert(vAllWritten(), "SellDebt has no other elements")
}

func C26__ensures__c26SellDebt__elements() bool { return true }

func c26SellMF(w SellMF) {
	var v, want SellMF
	vAssert(vXMLName(&v) == "SELLMF", "SellMF is the element SELLMF")
	vAssert(vXMLRead(&v), "the tags of SellMF do not conflict")
	vElement("INVSELL", &want.InvSell)
	vElement("SELLTYPE", &want.SellType)
	vElement("AVGCOSTBASIS", &want.AvgCostBasis)
	vElement("RELFITID", &want.RelFiTID)
	vAssert(same(v.InvSell, want.InvSell), "SellMF.InvSell is read from INVSELL")
	vAssert(same(v.SellType, want.SellType), "SellMF.SellType is read from SELLTYPE")
	vAssert(same(v.AvgCostBasis, want.AvgCostBasis), "SellMF.AvgCostBasis is read from AVGCOSTBASIS")
	vAssert(same(v.RelFiTID, want.RelFiTID), "SellMF.RelFiTID is read from RELFITID")
	vAssert(same(v, want), "SellMF has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SellMF do not conflict")
	vAssert(vWritten("INVSELL", &w.InvSell), "SellMF.InvSell is written to INVSELL")
	vAssert(vWritten("SELLTYPE", &w.SellType), "SellMF.SellType is written to SELLTYPE")
	vAssert(vWritten("AVGCOSTBASIS", &w.AvgCostBasis), "SellMF.AvgCostBasis is written to AVGCOSTBASIS")
	vAssert(vWrittenIfSet("RELFITID", &w.RelFiTID), "SellMF.RelFiTID is written to RELFITID")
	vAssert(vAllWritten(), "SellMF has no other elements")
}

func C26__ensures__c26SellMF__elements() bool { return true }

func c26SellOpt(w SellOpt) {
	var v, want SellOpt
	vAssert(vXMLName(&v) == "SELLOPT", "SellOpt is the element SELLOPT")
	vAssert(vXMLRead(&v), "the tags of SellOpt do not conflict")
	vElement("INVSELL", &want.InvSell)
	vElement("OPTSELLTYPE", &want.OptSellType)
	vElement("SHPERCTRCT", &want.ShPerCtrct)
	vElement("RELFITID", &want.RelFiTID)
	vElement("RELTYPE", &want.RelType)
	vElement("SECURED", &want.Secured)
	vAssert(same(v.InvSell, want.InvSell), "SellOpt.InvSell is read from INVSELL")
	vAssert(same(v.OptSellType, want.OptSellType), "SellOpt.OptSellType is read from OPTSELLTYPE")
	vAssert(same(v.ShPerCtrct, want.ShPerCtrct), "SellOpt.ShPerCtrct is read from SHPERCTRCT")
	vAssert(same(v.RelFiTID, want.RelFiTID), "SellOpt.RelFiTID is read from RELFITID")
	vAssert(same(v.RelType, want.RelType), "SellOpt.RelType is read from RELTYPE")
	vAssert(same(v.Secured, want.Secured), "SellOpt.Secured is read from SECURED")
	vAssert(same(v, want), "SellOpt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SellOpt do not conflict")
	vAssert(vWritten("INVSELL", &w.InvSell), "SellOpt.InvSell is written to INVSELL")
	vAssert(vWritten("OPTSELLTYPE", &w.OptSellType), "SellOpt.OptSellType is written to OPTSELLTYPE")
	vAssert(vWritten("SHPERCTRCT", &w.ShPerCtrct), "SellOpt.ShPerCtrct is written to SHPERCTRCT")
	vAssert(vWrittenIfSet("RELFITID", &w.RelFiTID), "SellOpt.RelFiTID is written to RELFITID")
	vAssert(vWritten("RELTYPE", &w.RelType), "SellOpt.RelType is written to RELTYPE")
	vAssert(vWritten("SECURED", &w.Secured), "SellOpt.Secured is written to SECURED")
	vAssert(vAllWritten(), "SellOpt has no other elements")
}

func C26__ensures__c26SellOpt__elements() bool { return true }

func c26SellOther(w SellOther) {
	var v, want SellOther
	vAssert(vXMLName(&v) == "SELLOTHER", "SellOther is the element SELLOTHER")
	vAssert(vXMLRead(&v), "the tags of SellOther do not conflict")
	vElement("INVSELL", &want.InvSell)
	vAssert(same(v.InvSell, want.InvSell), "SellOther.InvSell is read from INVSELL")
	vAssert(same(v, want), "SellOther has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SellOther do not conflict")
	vAssert(vWritten("INVSELL", &w.InvSell), "SellOther.InvSell is written to INVSELL")
	vAssert(vAllWritten(), "SellOther has no other elements")
}

func C26__ensures__c26SellOther__elements() bool { return true }

func c26SellStock(w SellStock) {
	var v, want SellStock
	vAssert(vXMLName(&v) == "SELLSTOCK", "SellStock is the element SELLSTOCK")
	vAssert(vXMLRead(&v), "the tags of SellStock do not conflict")
	vElement("INVSELL", &want.InvSell)
	vElement("SELLTYPE", &want.SellType)
	vAssert(same(v.InvSell, want.InvSell), "SellStock.InvSell is read from INVSELL")
	vAssert(same(v.SellType, want.SellType), "SellStock.SellType is read from SELLTYPE")
	vAssert(same(v, want), "SellStock has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SellStock do not conflict")
	vAssert(vWritten("INVSELL", &w.InvSell), "SellStock.InvSell is written to INVSELL")
	vAssert(vWritten("SELLTYPE", &w.SellType), "SellStock.SellType is written to SELLTYPE")
	vAssert(vAllWritten(), "SellStock has no other elements")
}

func C26__ensures__c26SellStock__elements() bool { return true }

func c26Split(w Split) {
	var v, want Split
	vAssert(vXMLName(&v) == "SPLIT", "Split is the element SPLIT")
	vAssert(vXMLRead(&v), "the tags of Split do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("OLDUNITS", &want.OldUnits)
	vElement("NEWUNITS", &want.NewUnits)
	vElement("NUMERATOR", &want.Numerator)
	vElement("DENOMINATOR", &want.Denominator)
	vElement("CURRENCY", &want.Currency)
	vElement("ORIGCURRENCY", &want.OrigCurrency)
	vElement("FRACCASH", &want.FracCash)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "Split.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "Split.SecID is read from SECID")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "Split.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.OldUnits, want.OldUnits), "Split.OldUnits is read from OLDUNITS")
	vAssert(same(v.NewUnits, want.NewUnits), "Split.NewUnits is read from NEWUNITS")
	vAssert(same(v.Numerator, want.Numerator), "Split.Numerator is read from NUMERATOR")
	vAssert(same(v.Denominator, want.Denominator), "Split.Denominator is read from DENOMINATOR")
	vAssert(same(v.Currency, want.Currency), "Split.Currency is read from CURRENCY")
	vAssert(same(v.OrigCurrency, want.OrigCurrency), "Split.OrigCurrency is read from ORIGCURRENCY")
	vAssert(same(v.FracCash, want.FracCash), "Split.FracCash is read from FRACCASH")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "Split.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "Split.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "Split has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Split do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "Split.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "Split.SecID is written to SECID")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "Split.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("OLDUNITS", &w.OldUnits), "Split.OldUnits is written to OLDUNITS")
	vAssert(vWritten("NEWUNITS", &w.NewUnits), "Split.NewUnits is written to NEWUNITS")
	vAssert(vWritten("NUMERATOR", &w.Numerator), "Split.Numerator is written to NUMERATOR")
	vAssert(vWritten("DENOMINATOR", &w.Denominator), "Split.Denominator is written to DENOMINATOR")
	vAssert(vWritten("CURRENCY", &w.Currency), "Split.Currency is written to CURRENCY")
	vAssert(vWritten("ORIGCURRENCY", &w.OrigCurrency), "Split.OrigCurrency is written to ORIGCURRENCY")
	vAssert(vWritten("FRACCASH", &w.FracCash), "Split.FracCash is written to FRACCASH")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "Split.SubAcctFund is written to SUBACCTFUND")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "Split.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "Split has no other elements")
}

func C26__ensures__c26Split__elements() bool { return true }

func c26Transfer(w Transfer) {
	var v, want Transfer
	vAssert(vXMLName(&v) == "TRANSFER", "Transfer is the element TRANSFER")
	vAssert(vXMLRead(&v), "the tags of Transfer do not conflict")
	vElement("INVTRAN", &want.InvTran)
	vElement("SECID", &want.SecID)
	vElement("SUBACCTSEC", &want.SubAcctSec)
	vElement("UNITS", &want.Units)
	vElement("TFERACTION", &want.TferAction)
	vElement("POSTYPE", &want.PosType)
	vElement("INVACCTFROM", &want.InvAcctFrom)
	vElement("AVGCOSTBASIS", &want.AvgCostBasis)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("DTPURCHASE", &want.DtPurchase)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.InvTran, want.InvTran), "Transfer.InvTran is read from INVTRAN")
	vAssert(same(v.SecID, want.SecID), "Transfer.SecID is read from SECID")
	vAssert(same(v.SubAcctSec, want.SubAcctSec), "Transfer.SubAcctSec is read from SUBACCTSEC")
	vAssert(same(v.Units, want.Units), "Transfer.Units is read from UNITS")
	vAssert(same(v.TferAction, want.TferAction), "Transfer.TferAction is read from TFERACTION")
	vAssert(same(v.PosType, want.PosType), "Transfer.PosType is read from POSTYPE")
	vAssert(same(v.InvAcctFrom, want.InvAcctFrom), "Transfer.InvAcctFrom is read from INVACCTFROM")
	vAssert(same(v.AvgCostBasis, want.AvgCostBasis), "Transfer.AvgCostBasis is read from AVGCOSTBASIS")
	vAssert(same(v.UnitPrice, want.UnitPrice), "Transfer.UnitPrice is read from UNITPRICE")
	vAssert(same(v.DtPurchase, want.DtPurchase), "Transfer.DtPurchase is read from DTPURCHASE")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "Transfer.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "Transfer has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Transfer do not conflict")
	vAssert(vWritten("INVTRAN", &w.InvTran), "Transfer.InvTran is written to INVTRAN")
	vAssert(vWritten("SECID", &w.SecID), "Transfer.SecID is written to SECID")
	vAssert(vWritten("SUBACCTSEC", &w.SubAcctSec), "Transfer.SubAcctSec is written to SUBACCTSEC")
	vAssert(vWritten("UNITS", &w.Units), "Transfer.Units is written to UNITS")
	vAssert(vWritten("TFERACTION", &w.TferAction), "Transfer.TferAction is written to TFERACTION")
	vAssert(vWritten("POSTYPE", &w.PosType), "Transfer.PosType is written to POSTYPE")
	vAssert(vWritten("INVACCTFROM", &w.InvAcctFrom), "Transfer.InvAcctFrom is written to INVACCTFROM")
	vAssert(vWritten("AVGCOSTBASIS", &w.AvgCostBasis), "Transfer.AvgCostBasis is written to AVGCOSTBASIS")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "Transfer.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("DTPURCHASE", &w.DtPurchase), "Transfer.DtPurchase is written to DTPURCHASE")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "Transfer.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "Transfer has no other elements")
}

func C26__ensures__c26Transfer__elements() bool { return true }

func c26InvBankTransaction(w InvBankTransaction) {
	var v, want InvBankTransaction
	vAssert(vXMLName(&v) == "INVBANKTRAN", "InvBankTransaction is the element INVBANKTRAN")
	vAssert(vXMLRead(&v), "the tags of InvBankTransaction do not conflict")
	vElement("STMTTRN", &want.Transactions)
	vElement("SUBACCTFUND", &want.SubAcctFund)
	vAssert(same(v.Transactions, want.Transactions), "InvBankTransaction.Transactions is read from STMTTRN")
	vAssert(same(v.SubAcctFund, want.SubAcctFund), "InvBankTransaction.SubAcctFund is read from SUBACCTFUND")
	vAssert(same(v, want), "InvBankTransaction has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvBankTransaction do not conflict")
	vAssert(vWritten("STMTTRN", &w.Transactions), "InvBankTransaction.Transactions is written to STMTTRN")
	vAssert(vWritten("SUBACCTFUND", &w.SubAcctFund), "InvBankTransaction.SubAcctFund is written to SUBACCTFUND")
	vAssert(vAllWritten(), "InvBankTransaction has no other elements")
}

func C26__ensures__c26InvBankTransaction__elements() bool { return true }

func c26InvPosition(w InvPosition) {
	var v, want InvPosition
	vAssert(vXMLName(&v) == "INVPOS", "InvPosition is the element INVPOS")
	vAssert(vXMLRead(&v), "the tags of InvPosition do not conflict")
	vElement("SECID", &want.SecID)
	vElement("HELDINACCT", &want.HeldInAcct)
	vElement("POSTYPE", &want.PosType)
	vElement("UNITS", &want.Units)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("MKTVAL", &want.MktVal)
	vElement("AVGCOSTBASIS", &want.AvgCostBasis)
	vElement("DTPRICEASOF", &want.DtPriceAsOf)
	vElement("CURRENCY", &want.Currency)
	vElement("MEMO", &want.Memo)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.SecID, want.SecID), "InvPosition.SecID is read from SECID")
	vAssert(same(v.HeldInAcct, want.HeldInAcct), "InvPosition.HeldInAcct is read from HELDINACCT")
	vAssert(same(v.PosType, want.PosType), "InvPosition.PosType is read from POSTYPE")
	vAssert(same(v.Units, want.Units), "InvPosition.Units is read from UNITS")
	vAssert(same(v.UnitPrice, want.UnitPrice), "InvPosition.UnitPrice is read from UNITPRICE")
	vAssert(same(v.MktVal, want.MktVal), "InvPosition.MktVal is read from MKTVAL")
	vAssert(same(v.AvgCostBasis, want.AvgCostBasis), "InvPosition.AvgCostBasis is read from AVGCOSTBASIS")
	vAssert(same(v.DtPriceAsOf, want.DtPriceAsOf), "InvPosition.DtPriceAsOf is read from DTPRICEASOF")
	vAssert(same(v.Currency, want.Currency), "InvPosition.Currency is read from CURRENCY")
	vAssert(same(v.Memo, want.Memo), "InvPosition.Memo is read from MEMO")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "InvPosition.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "InvPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvPosition do not conflict")
	vAssert(vWritten("SECID", &w.SecID), "InvPosition.SecID is written to SECID")
	vAssert(vWritten("HELDINACCT", &w.HeldInAcct), "InvPosition.HeldInAcct is written to HELDINACCT")
	vAssert(vWritten("POSTYPE", &w.PosType), "InvPosition.PosType is written to POSTYPE")
	vAssert(vWritten("UNITS", &w.Units), "InvPosition.Units is written to UNITS")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "InvPosition.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("MKTVAL", &w.MktVal), "InvPosition.MktVal is written to MKTVAL")
	vAssert(vWritten("AVGCOSTBASIS", &w.AvgCostBasis), "InvPosition.AvgCostBasis is written to AVGCOSTBASIS")
	vAssert(vWritten("DTPRICEASOF", &w.DtPriceAsOf), "InvPosition.DtPriceAsOf is written to DTPRICEASOF")
	vAssert(vWritten("CURRENCY", &w.Currency), "InvPosition.Currency is written to CURRENCY")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "InvPosition.Memo is written to MEMO")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "InvPosition.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "InvPosition has no other elements")
}

func C26__ensures__c26InvPosition__elements() bool { return true }

func c26DebtPosition(w DebtPosition) {
	var v, want DebtPosition
	vAssert(vXMLName(&v) == "POSDEBT", "DebtPosition is the element POSDEBT")
	vAssert(vXMLRead(&v), "the tags of DebtPosition do not conflict")
	vElement("INVPOS", &want.InvPos)
	vAssert(same(v.InvPos, want.InvPos), "DebtPosition.InvPos is read from INVPOS")
	vAssert(same(v, want), "DebtPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of DebtPosition do not conflict")
	vAssert(vWritten("INVPOS", &w.InvPos), "DebtPosition.InvPos is written to INVPOS")
	vAssert(vAllWritten(), "DebtPosition has no other elements")
}

func C26__ensures__c26DebtPosition__elements() bool { return true }

func c26MFPosition(w MFPosition) {
	var v, want MFPosition
	vAssert(vXMLName(&v) == "POSMF", "MFPosition is the element POSMF")
	vAssert(vXMLRead(&v), "the tags of MFPosition do not conflict")
	vElement("INVPOS", &want.InvPos)
	vElement("UNITSSTREET", &want.UnitsStreet)
	vElement("UNITSUSER", &want.UnitsUser)
	vElement("REINVDIV", &want.ReinvDiv)
	vElement("REINVCG", &want.ReinvCG)
	vAssert(same(v.InvPos, want.InvPos), "MFPosition.InvPos is read from INVPOS")
	vAssert(same(v.UnitsStreet, want.UnitsStreet), "MFPosition.UnitsStreet is read from UNITSSTREET")
	vAssert(same(v.UnitsUser, want.UnitsUser), "MFPosition.UnitsUser is read from UNITSUSER")
	vAssert(same(v.ReinvDiv, want.ReinvDiv), "MFPosition.ReinvDiv is read from REINVDIV")
	vAssert(same(v.ReinvCG, want.ReinvCG), "MFPosition.ReinvCG is read from REINVCG")
	vAssert(same(v, want), "MFPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of MFPosition do not conflict")
	vAssert(vWritten("INVPOS", &w.InvPos), "MFPosition.InvPos is written to INVPOS")
	vAssert(vWritten("UNITSSTREET", &w.UnitsStreet), "MFPosition.UnitsStreet is written to UNITSSTREET")
	vAssert(vWritten("UNITSUSER", &w.UnitsUser), "MFPosition.UnitsUser is written to UNITSUSER")
	vAssert(vWrittenIfSet("REINVDIV", &w.ReinvDiv), "MFPosition.ReinvDiv is written to REINVDIV")
	vAssert(vWrittenIfSet("REINVCG", &w.ReinvCG), "MFPosition.ReinvCG is written to REINVCG")
	vAssert(vAllWritten(), "MFPosition has no other elements")
}

func C26__ensures__c26MFPosition__elements() bool { return true }

func c26OptPosition(w OptPosition) {
	var v, want OptPosition
	vAssert(vXMLName(&v) == "POSOPT", "OptPosition is the element POSOPT")
	vAssert(vXMLRead(&v), "the tags of OptPosition do not conflict")
	vElement("INVPOS", &want.InvPos)
	vElement("SECURED", &want.Secured)
	vAssert(same(v.InvPos, want.InvPos), "OptPosition.InvPos is read from INVPOS")
	vAssert(same(v.Secured, want.Secured), "OptPosition.Secured is read from SECURED")
	vAssert(same(v, want), "OptPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OptPosition do not conflict")
	vAssert(vWritten("INVPOS", &w.InvPos), "OptPosition.InvPos is written to INVPOS")
	vAssert(vWritten("SECURED", &w.Secured), "OptPosition.Secured is written to SECURED")
	vAssert(vAllWritten(), "OptPosition has no other elements")
}

func C26__ensures__c26OptPosition__elements() bool { return true }

func c26OtherPosition(w OtherPosition) {
	var v, want OtherPosition
	vAssert(vXMLName(&v) == "POSOTHER", "OtherPosition is the element POSOTHER")
	vAssert(vXMLRead(&v), "the tags of OtherPosition do not conflict")
	vElement("INVPOS", &want.InvPos)
	vAssert(same(v.InvPos, want.InvPos), "OtherPosition.InvPos is read from INVPOS")
	vAssert(same(v, want), "OtherPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OtherPosition do not conflict")
	vAssert(vWritten("INVPOS", &w.InvPos), "OtherPosition.InvPos is written to INVPOS")
	vAssert(vAllWritten(), "OtherPosition has no other elements")
}

func C26__ensures__c26OtherPosition__elements() bool { return true }

func c26StockPosition(w StockPosition) {
	var v, want StockPosition
	vAssert(vXMLName(&v) == "POSSTOCK", "StockPosition is the element POSSTOCK")
	vAssert(vXMLRead(&v), "the tags of StockPosition do not conflict")
	vElement("INVPOS", &want.InvPos)
	vElement("UNITSSTREET", &want.UnitsStreet)
	vElement("UNITSUSER", &want.UnitsUser)
	vElement("REINVDIV", &want.ReinvDiv)
	vAssert(same(v.InvPos, want.InvPos), "StockPosition.InvPos is read from INVPOS")
	vAssert(same(v.UnitsStreet, want.UnitsStreet), "StockPosition.UnitsStreet is read from UNITSSTREET")
	vAssert(same(v.UnitsUser, want.UnitsUser), "StockPosition.UnitsUser is read from UNITSUSER")
	vAssert(same(v.ReinvDiv, want.ReinvDiv), "StockPosition.ReinvDiv is read from REINVDIV")
	vAssert(same(v, want), "StockPosition has no other elements")
	vAssert(vXMLWrite(&w), "the tags of StockPosition do not conflict")
	vAssert(vWritten("INVPOS", &w.InvPos), "StockPosition.InvPos is written to INVPOS")
	vAssert(vWritten("UNITSSTREET", &w.UnitsStreet), "StockPosition.UnitsStreet is written to UNITSSTREET")
	vAssert(vWritten("UNITSUSER", &w.UnitsUser), "StockPosition.UnitsUser is written to UNITSUSER")
	vAssert(vWrittenIfSet("REINVDIV", &w.ReinvDiv), "StockPosition.ReinvDiv is written to REINVDIV")
	vAssert(vAllWritten(), "StockPosition has no other elements")
}

func C26__ensures__c26StockPosition__elements() bool { return true }

func c26InvBalance(w InvBalance) {
	var v, want InvBalance
	vAssert(vXMLName(&v) == "INVBAL", "InvBalance is the element INVBAL")
	vAssert(vXMLRead(&v), "the tags of InvBalance do not conflict")
	vElement("AVAILCASH", &want.AvailCash)
	vElement("MARGINBALANCE", &want.MarginBalance)
	vElement("SHORTBALANCE", &want.ShortBalance)
	vElement("BUYPOWER", &want.BuyPower)
	vElement("BALLIST>BAL", &want.BalList)
	vAssert(same(v.AvailCash, want.AvailCash), "InvBalance.AvailCash is read from AVAILCASH")
	vAssert(same(v.MarginBalance, want.MarginBalance), "InvBalance.MarginBalance is read from MARGINBALANCE")
	vAssert(same(v.ShortBalance, want.ShortBalance), "InvBalance.ShortBalance is read from SHORTBALANCE")
	vAssert(same(v.BuyPower, want.BuyPower), "InvBalance.BuyPower is read from BUYPOWER")
	vAssert(same(v.BalList, want.BalList), "InvBalance.BalList is read from BALLIST>BAL")
	vAssert(same(v, want), "InvBalance has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvBalance do not conflict")
	vAssert(vWritten("AVAILCASH", &w.AvailCash), "InvBalance.AvailCash is written to AVAILCASH")
	vAssert(vWritten("MARGINBALANCE", &w.MarginBalance), "InvBalance.MarginBalance is written to MARGINBALANCE")
	vAssert(vWritten("SHORTBALANCE", &w.ShortBalance), "InvBalance.ShortBalance is written to SHORTBALANCE")
	vAssert(vWritten("BUYPOWER", &w.BuyPower), "InvBalance.BuyPower is written to BUYPOWER")
	vAssert(vWritten("BALLIST>BAL", &w.BalList), "InvBalance.BalList is written to BALLIST>BAL")
	vAssert(vAllWritten(), "InvBalance has no other elements")
}

func C26__ensures__c26InvBalance__elements() bool { return true }

func c26OO(w OO) {
	var v, want OO
	vAssert(vXMLName(&v) == "OO", "OO is the element OO")
	vAssert(vXMLRead(&v), "the tags of OO do not conflict")
	vElement("FITID", &want.FiTID)
	vElement("SRVRTID", &want.SrvrTID)
	vElement("SECID", &want.SecID)
	vElement("DTPLACED", &want.DtPlaced)
	vElement("UNITS", &want.Units)
	vElement("SUBACCT", &want.SubAcct)
	vElement("DURATION", &want.Duration)
	vElement("RESTRICTION", &want.Restriction)
	vElement("MINUNITS", &want.MinUnits)
	vElement("LIMITPRICE", &want.LimitPrice)
	vElement("STOPPRICE", &want.StopPrice)
	vElement("MEMO", &want.Memo)
	vElement("CURRENCY", &want.Currency)
	vElement("INV401KSOURCE", &want.Inv401kSource)
	vAssert(same(v.FiTID, want.FiTID), "OO.FiTID is read from FITID")
	vAssert(same(v.SrvrTID, want.SrvrTID), "OO.SrvrTID is read from SRVRTID")
	vAssert(same(v.SecID, want.SecID), "OO.SecID is read from SECID")
	vAssert(same(v.DtPlaced, want.DtPlaced), "OO.DtPlaced is read from DTPLACED")
	vAssert(same(v.Units, want.Units), "OO.Units is read from UNITS")
	vAssert(same(v.SubAcct, want.SubAcct), "OO.SubAcct is read from SUBACCT")
	vAssert(same(v.Duration, want.Duration), "OO.Duration is read from DURATION")
	vAssert(same(v.Restriction, want.Restriction), "OO.Restriction is read from RESTRICTION")
	vAssert(same(v.MinUnits, want.MinUnits), "OO.MinUnits is read from MINUNITS")
	vAssert(same(v.LimitPrice, want.LimitPrice), "OO.LimitPrice is read from LIMITPRICE")
	vAssert(same(v.StopPrice, want.StopPrice), "OO.StopPrice is read from STOPPRICE")
	vAssert(same(v.Memo, want.Memo), "OO.Memo is read from MEMO")
	vAssert(same(v.Currency, want.Currency), "OO.Currency is read from CURRENCY")
	vAssert(same(v.Inv401kSource, want.Inv401kSource), "OO.Inv401kSource is read from INV401KSOURCE")
	vAssert(same(v, want), "OO has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OO do not conflict")
	vAssert(vWritten("FITID", &w.FiTID), "OO.FiTID is written to FITID")
	vAssert(vWrittenIfSet("SRVRTID", &w.SrvrTID), "OO.SrvrTID is written to SRVRTID")
	vAssert(vWritten("SECID", &w.SecID), "OO.SecID is written to SECID")
	vAssert(vWritten("DTPLACED", &w.DtPlaced), "OO.DtPlaced is written to DTPLACED")
	vAssert(vWritten("UNITS", &w.Units), "OO.Units is written to UNITS")
	vAssert(vWritten("SUBACCT", &w.SubAcct), "OO.SubAcct is written to SUBACCT")
	vAssert(vWritten("DURATION", &w.Duration), "OO.Duration is written to DURATION")
	vAssert(vWritten("RESTRICTION", &w.Restriction), "OO.Restriction is written to RESTRICTION")
	vAssert(vWritten("MINUNITS", &w.MinUnits), "OO.MinUnits is written to MINUNITS")
	vAssert(vWritten("LIMITPRICE", &w.LimitPrice), "OO.LimitPrice is written to LIMITPRICE")
	vAssert(vWritten("STOPPRICE", &w.StopPrice), "OO.StopPrice is written to STOPPRICE")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "OO.Memo is written to MEMO")
	vAssert(vWritten("CURRENCY", &w.Currency), "OO.Currency is written to CURRENCY")
	vAssert(vWritten("INV401KSOURCE", &w.Inv401kSource), "OO.Inv401kSource is written to INV401KSOURCE")
	vAssert(vAllWritten(), "OO has no other elements")
}

func C26__ensures__c26OO__elements() bool { return true }

func c26OOBuyDebt(w OOBuyDebt) {
	var v, want OOBuyDebt
	vAssert(vXMLName(&v) == "OOBUYDEBT", "OOBuyDebt is the element OOBUYDEBT")
	vAssert(vXMLRead(&v), "the tags of OOBuyDebt do not conflict")
	vElement("OO", &want.OO)
	vElement("AUCTION", &want.Auction)
	vElement("DTAUCTION", &want.DtAuction)
	vAssert(same(v.OO, want.OO), "OOBuyDebt.OO is read from OO")
	vAssert(same(v.Auction, want.Auction), "OOBuyDebt.Auction is read from AUCTION")
	vAssert(same(v.DtAuction, want.DtAuction), "OOBuyDebt.DtAuction is read from DTAUCTION")
	vAssert(same(v, want), "OOBuyDebt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOBuyDebt do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOBuyDebt.OO is written to OO")
	vAssert(vWritten("AUCTION", &w.Auction), "OOBuyDebt.Auction is written to AUCTION")
	vAssert(vWritten("DTAUCTION", &w.DtAuction), "OOBuyDebt.DtAuction is written to DTAUCTION")
	vAssert(vAllWritten(), "OOBuyDebt has no other elements")
}

func C26__ensures__c26OOBuyDebt__elements() bool { return true }

func c26OOBuyMF(w OOBuyMF) {
	var v, want OOBuyMF
	vAssert(vXMLName(&v) == "OOBUYMF", "OOBuyMF is the element OOBUYMF")
	vAssert(vXMLRead(&v), "the tags of OOBuyMF do not conflict")
	vElement("OO", &want.OO)
	vElement("BUYTYPE", &want.BuyType)
	vElement("UNITTYPE", &want.UnitType)
	vAssert(same(v.OO, want.OO), "OOBuyMF.OO is read from OO")
	vAssert(same(v.BuyType, want.BuyType), "OOBuyMF.BuyType is read from BUYTYPE")
	vAssert(same(v.UnitType, want.UnitType), "OOBuyMF.UnitType is read from UNITTYPE")
	vAssert(same(v, want), "OOBuyMF has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOBuyMF do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOBuyMF.OO is written to OO")
	vAssert(vWritten("BUYTYPE", &w.BuyType), "OOBuyMF.BuyType is written to BUYTYPE")
	vAssert(vWritten("UNITTYPE", &w.UnitType), "OOBuyMF.UnitType is written to UNITTYPE")
	vAssert(vAllWritten(), "OOBuyMF has no other elements")
}

func C26__ensures__c26OOBuyMF__elements() bool { return true }

func c26OOBuyOpt(w OOBuyOpt) {
	var v, want OOBuyOpt
	vAssert(vXMLName(&v) == "OOBUYOPT", "OOBuyOpt is the element OOBUYOPT")
	vAssert(vXMLRead(&v), "the tags of OOBuyOpt do not conflict")
	vElement("OO", &want.OO)
	vElement("OPTBUYTYPE", &want.OptBuyType)
	vAssert(same(v.OO, want.OO), "OOBuyOpt.OO is read from OO")
	vAssert(same(v.OptBuyType, want.OptBuyType), "OOBuyOpt.OptBuyType is read from OPTBUYTYPE")
	vAssert(same(v, want), "OOBuyOpt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOBuyOpt do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOBuyOpt.OO is written to OO")
	vAssert(vWritten("OPTBUYTYPE", &w.OptBuyType), "OOBuyOpt.OptBuyType is written to OPTBUYTYPE")
	vAssert(vAllWritten(), "OOBuyOpt has no other elements")
}

func C26__ensures__c26OOBuyOpt__elements() bool { return true }

func c26OOBuyOther(w OOBuyOther) {
	var v, want OOBuyOther
	vAssert(vXMLName(&v) == "OOBUYOTHER", "OOBuyOther is the element OOBUYOTHER")
	vAssert(vXMLRead(&v), "the tags of OOBuyOther do not conflict")
	vElement("OO", &want.OO)
	vElement("UNITTYPE", &want.UnitType)
	vAssert(same(v.OO, want.OO), "OOBuyOther.OO is read from OO")
	vAssert(same(v.UnitType, want.UnitType), "OOBuyOther.UnitType is read from UNITTYPE")
	vAssert(same(v, want), "OOBuyOther has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOBuyOther do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOBuyOther.OO is written to OO")
	vAssert(vWritten("UNITTYPE", &w.UnitType), "OOBuyOther.UnitType is written to UNITTYPE")
	vAssert(vAllWritten(), "OOBuyOther has no other elements")
}

func C26__ensures__c26OOBuyOther__elements() bool { return true }

func c26OOBuyStock(w OOBuyStock) {
	var v, want OOBuyStock
	vAssert(vXMLName(&v) == "OOBUYSTOCK", "OOBuyStock is the element OOBUYSTOCK")
	vAssert(vXMLRead(&v), "the tags of OOBuyStock do not conflict")
	vElement("OO", &want.OO)
	vElement("BUYTYPE", &want.BuyType)
	vAssert(same(v.OO, want.OO), "OOBuyStock.OO is read from OO")
	vAssert(same(v.BuyType, want.BuyType), "OOBuyStock.BuyType is read from BUYTYPE")
	vAssert(same(v, want), "OOBuyStock has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOBuyStock do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOBuyStock.OO is written to OO")
	vAssert(vWritten("BUYTYPE", &w.BuyType), "OOBuyStock.BuyType is written to BUYTYPE")
	vAssert(vAllWritten(), "OOBuyStock has no other elements")
}

func C26__ensures__c26OOBuyStock__elements() bool { return true }

func c26OOSellDebt(w OOSellDebt) {
	var v, want OOSellDebt
	vAssert(vXMLName(&v) == "OOSELLDEBT", "OOSellDebt is the element OOSELLDEBT")
	vAssert(vXMLRead(&v), "the tags of OOSellDebt do not conflict")
	vElement("OO", &want.OO)
	vAssert(same(v.OO, want.OO), "OOSellDebt.OO is read from OO")
	vAssert(same(v, want), "OOSellDebt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSellDebt do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSellDebt.OO is written to OO")
	vAssert(vAllWritten(), "OOSellDebt has no other elements")
}

func C26__ensures__c26OOSellDebt__elements() bool { return true }

func c26OOSellMF(w OOSellMF) {
	var v, want OOSellMF
	vAssert(vXMLName(&v) == "OOSELLMF", "OOSellMF is the element OOSELLMF")
	vAssert(vXMLRead(&v), "the tags of OOSellMF do not conflict")
	vElement("OO", &want.OO)
	vElement("SELLTYPE", &want.SellType)
	vElement("UNITTYPE", &want.UnitType)
	vElement("SELLALL", &want.SellAll)
	vAssert(same(v.OO, want.OO), "OOSellMF.OO is read from OO")
	vAssert(same(v.SellType, want.SellType), "OOSellMF.SellType is read from SELLTYPE")
	vAssert(same(v.UnitType, want.UnitType), "OOSellMF.UnitType is read from UNITTYPE")
	vAssert(same(v.SellAll, want.SellAll), "OOSellMF.SellAll is read from SELLALL")
	vAssert(same(v, want), "OOSellMF has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSellMF do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSellMF.OO is written to OO")
	vAssert(vWritten("SELLTYPE", &w.SellType), "OOSellMF.SellType is written to SELLTYPE")
	vAssert(vWritten("UNITTYPE", &w.UnitType), "OOSellMF.UnitType is written to UNITTYPE")
	vAssert(vWritten("SELLALL", &w.SellAll), "OOSellMF.SellAll is written to SELLALL")
	vAssert(vAllWritten(), "OOSellMF has no other elements")
}

func C26__ensures__c26OOSellMF__elements() bool { return true }

func c26OOSellOpt(w OOSellOpt) {
	var v, want OOSellOpt
	vAssert(vXMLName(&v) == "OOSELLOPT", "OOSellOpt is the element OOSELLOPT")
	vAssert(vXMLRead(&v), "the tags of OOSellOpt do not conflict")
	vElement("OO", &want.OO)
	vElement("OPTSELLTYPE", &want.OptSellType)
	vAssert(same(v.OO, want.OO), "OOSellOpt.OO is read from OO")
	vAssert(same(v.OptSellType, want.OptSellType), "OOSellOpt.OptSellType is read from OPTSELLTYPE")
	vAssert(same(v, want), "OOSellOpt has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSellOpt do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSellOpt.OO is written to OO")
	vAssert(vWritten("OPTSELLTYPE", &w.OptSellType), "OOSellOpt.OptSellType is written to OPTSELLTYPE")
	vAssert(vAllWritten(), "OOSellOpt has no other elements")
}

func C26__ensures__c26OOSellOpt__elements() bool { return true }

func c26OOSellOther(w OOSellOther) {
	var v, want OOSellOther
	vAssert(vXMLName(&v) == "OOSELLOTHER", "OOSellOther is the element OOSELLOTHER")
	vAssert(vXMLRead(&v), "the tags of OOSellOther do not conflict")
	vElement("OO", &want.OO)
	vElement("UNITTYPE", &want.UnitType)
	vAssert(same(v.OO, want.OO), "OOSellOther.OO is read from OO")
	vAssert(same(v.UnitType, want.UnitType), "OOSellOther.UnitType is read from UNITTYPE")
	vAssert(same(v, want), "OOSellOther has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSellOther do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSellOther.OO is written to OO")
	vAssert(vWritten("UNITTYPE", &w.UnitType), "OOSellOther.UnitType is written to UNITTYPE")
	vAssert(vAllWritten(), "OOSellOther has no other elements")
}

func C26__ensures__c26OOSellOther__elements() bool { return true }

func c26OOSellStock(w OOSellStock) {
	var v, want OOSellStock
	vAssert(vXMLName(&v) == "OOSELLSTOCK", "OOSellStock is the element OOSELLSTOCK")
	vAssert(vXMLRead(&v), "the tags of OOSellStock do not conflict")
	vElement("OO", &want.OO)
	vElement("SELLTYPE", &want.SellType)
	vAssert(same(v.OO, want.OO), "OOSellStock.OO is read from OO")
	vAssert(same(v.SellType, want.SellType), "OOSellStock.SellType is read from SELLTYPE")
	vAssert(same(v, want), "OOSellStock has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSellStock do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSellStock.OO is written to OO")
	vAssert(vWritten("SELLTYPE", &w.SellType), "OOSellStock.SellType is written to SELLTYPE")
	vAssert(vAllWritten(), "OOSellStock has no other elements")
}

func C26__ensures__c26OOSellStock__elements() bool { return true }

func c26OOSwitchMF(w OOSwitchMF) {
	var v, want OOSwitchMF
	vAssert(vXMLName(&v) == "SWITCHMF", "OOSwitchMF is the element SWITCHMF")
	vAssert(vXMLRead(&v), "the tags of OOSwitchMF do not conflict")
	vElement("OO", &want.OO)
	vElement("SECID", &want.SecID)
	vElement("UNITTYPE", &want.UnitType)
	vElement("SWITCHALL", &want.SwitchAll)
	vAssert(same(v.OO, want.OO), "OOSwitchMF.OO is read from OO")
	vAssert(same(v.SecID, want.SecID), "OOSwitchMF.SecID is read from SECID")
	vAssert(same(v.UnitType, want.UnitType), "OOSwitchMF.UnitType is read from UNITTYPE")
	vAssert(same(v.SwitchAll, want.SwitchAll), "OOSwitchMF.SwitchAll is read from SWITCHALL")
	vAssert(same(v, want), "OOSwitchMF has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OOSwitchMF do not conflict")
	vAssert(vWritten("OO", &w.OO), "OOSwitchMF.OO is written to OO")
	vAssert(vWritten("SECID", &w.SecID), "OOSwitchMF.SecID is written to SECID")
	vAssert(vWritten("UNITTYPE", &w.UnitType), "OOSwitchMF.UnitType is written to UNITTYPE")
	vAssert(vWritten("SWITCHALL", &w.SwitchAll), "OOSwitchMF.SwitchAll is written to SWITCHALL")
	vAssert(vAllWritten(), "OOSwitchMF has no other elements")
}

func C26__ensures__c26OOSwitchMF__elements() bool { return true }

func c26ContribSecurity(w ContribSecurity) {
	var v, want ContribSecurity
	vAssert(vXMLName(&v) == "CONTRIBSECURITY", "ContribSecurity is the element CONTRIBSECURITY")
	vAssert(vXMLRead(&v), "the tags of ContribSecurity do not conflict")
	vElement("SECID", &want.SecID)
	vElement("PRETAXCONTRIBPCT", &want.PreTaxContribPct)
	vElement("PRETAXCONTRIBAMT", &want.PreTaxContribAmt)
	vElement("AFTERTAXCONTRIBPCT", &want.AfterTaxContribPct)
	vElement("AFTERTAXCONTRIBAMT", &want.AfterTaxContribAmt)
	vElement("MATCHCONTRIBPCT", &want.MatchContribPct)
	vElement("MATCHCONTRIBAMT", &want.MatchContribAmt)
	vElement("PROFITSHARINGCONTRIBPCT", &want.ProfitSharingContribPct)
	vElement("PROFITSHARINGCONTRIBAMT", &want.ProfitSharingContribAmt)
	vElement("ROLLOVERCONTRIBPCT", &want.RolloverContribPct)
	vElement("ROLLOVERCONTRIBAMT", &want.RolloverContribAmt)
	vElement("OTHERVESTPCT", &want.OtherVestPct)
	vElement("OTHERVESTAMT", &want.OtherVestAmt)
	vElement("OTHERNONVESTPCT", &want.OtherNonVestPct)
	vElement("OTHERNONVESTAMT", &want.OtherNonVestAmt)
	vAssert(same(v.SecID, want.SecID), "ContribSecurity.SecID is read from SECID")
	vAssert(same(v.PreTaxContribPct, want.PreTaxContribPct), "ContribSecurity.PreTaxContribPct is read from PRETAXCONTRIBPCT")
	vAssert(same(v.PreTaxContribAmt, want.PreTaxContribAmt), "ContribSecurity.PreTaxContribAmt is read from PRETAXCONTRIBAMT")
	vAssert(same(v.AfterTaxContribPct, want.AfterTaxContribPct), "ContribSecurity.AfterTaxContribPct is read from AFTERTAXCONTRIBPCT")
	vAssert(same(v.AfterTaxContribAmt, want.AfterTaxContribAmt), "ContribSecurity.AfterTaxContribAmt is read from AFTERTAXCONTRIBAMT")
	vAssert(same(v.MatchContribPct, want.MatchContribPct), "ContribSecurity.MatchContribPct is read from MATCHCONTRIBPCT")
	vAssert(same(v.MatchContribAmt, want.MatchContribAmt), "ContribSecurity.MatchContribAmt is read from MATCHCONTRIBAMT")
	vAssert(same(v.ProfitSharingContribPct, want.ProfitSharingContribPct), "ContribSecurity.ProfitSharingContribPct is read from PROFITSHARINGCONTRIBPCT")
	vAssert(same(v.ProfitSharingContribAmt, want.ProfitSharingContribAmt), "ContribSecurity.ProfitSharingContribAmt is read from PROFITSHARINGCONTRIBAMT")
	vAssert(same(v.RolloverContribPct, want.RolloverContribPct), "ContribSecurity.RolloverContribPct is read from ROLLOVERCONTRIBPCT")
	vAssert(same(v.RolloverContribAmt, want.RolloverContribAmt), "ContribSecurity.RolloverContribAmt is read from ROLLOVERCONTRIBAMT")
	vAssert(same(v.OtherVestPct, want.OtherVestPct), "ContribSecurity.OtherVestPct is read from OTHERVESTPCT")
	vAssert(same(v.OtherVestAmt, want.OtherVestAmt), "ContribSecurity.OtherVestAmt is read from OTHERVESTAMT")
	vAssert(same(v.OtherNonVestPct, want.OtherNonVestPct), "ContribSecurity.OtherNonVestPct is read from OTHERNONVESTPCT")
	vAssert(same(v.OtherNonVestAmt, want.OtherNonVestAmt), "ContribSecurity.OtherNonVestAmt is read from OTHERNONVESTAMT")
	vAssert(same(v, want), "ContribSecurity has no other elements")
	vAssert(vXMLWrite(&w), "the tags of ContribSecurity do not conflict")
	vAssert(vWritten("SECID", &w.SecID), "ContribSecurity.SecID is written to SECID")
	vAssert(vWritten("PRETAXCONTRIBPCT", &w.PreTaxContribPct), "ContribSecurity.PreTaxContribPct is written to PRETAXCONTRIBPCT")
	vAssert(vWritten("PRETAXCONTRIBAMT", &w.PreTaxContribAmt), "ContribSecurity.PreTaxContribAmt is written to PRETAXCONTRIBAMT")
	vAssert(vWritten("AFTERTAXCONTRIBPCT", &w.AfterTaxContribPct), "ContribSecurity.AfterTaxContribPct is written to AFTERTAXCONTRIBPCT")
	vAssert(vWritten("AFTERTAXCONTRIBAMT", &w.AfterTaxContribAmt), "ContribSecurity.AfterTaxContribAmt is written to AFTERTAXCONTRIBAMT")
	vAssert(vWritten("MATCHCONTRIBPCT", &w.MatchContribPct), "ContribSecurity.MatchContribPct is written to MATCHCONTRIBPCT")
	vAssert(vWritten("MATCHCONTRIBAMT", &w.MatchContribAmt), "ContribSecurity.MatchContribAmt is written to MATCHCONTRIBAMT")
	vAssert(vWritten("PROFITSHARINGCONTRIBPCT", &w.ProfitSharingContribPct), "ContribSecurity.ProfitSharingContribPct is written to PROFITSHARINGCONTRIBPCT")
	vAssert(vWritten("PROFITSHARINGCONTRIBAMT", &w.ProfitSharingContribAmt), "ContribSecurity.ProfitSharingContribAmt is written to PROFITSHARINGCONTRIBAMT")
	vAssert(vWritten("ROLLOVERCONTRIBPCT", &w.RolloverContribPct), "ContribSecurity.RolloverContribPct is written to ROLLOVERCONTRIBPCT")
	vAssert(vWritten("ROLLOVERCONTRIBAMT", &w.RolloverContribAmt), "ContribSecurity.RolloverContribAmt is written to ROLLOVERCONTRIBAMT")
	vAssert(vWritten("OTHERVESTPCT", &w.OtherVestPct), "ContribSecurity.OtherVestPct is written to OTHERVESTPCT")
	vAssert(vWritten("OTHERVESTAMT", &w.OtherVestAmt), "ContribSecurity.OtherVestAmt is written to OTHERVESTAMT")
	vAssert(vWritten("OTHERNONVESTPCT", &w.OtherNonVestPct), "ContribSecurity.OtherNonVestPct is written to OTHERNONVESTPCT")
	vAssert(vWritten("OTHERNONVESTAMT", &w.OtherNonVestAmt), "ContribSecurity.OtherNonVestAmt is written to OTHERNONVESTAMT")
	vAssert(vAllWritten(), "ContribSecurity has no other elements")
}

func C26__ensures__c26ContribSecurity__elements() bool { return true }

func c26VestInfo(w VestInfo) {
	var v, want VestInfo
	vAssert(vXMLName(&v) == "VESTINFO", "VestInfo is the element VESTINFO")
	vAssert(vXMLRead(&v), "the tags of VestInfo do not conflict")
	vElement("VESTDATE", &want.VestDate)
	vElement("VESTPCT", &want.VestPct)
	vAssert(same(v.VestDate, want.VestDate), "VestInfo.VestDate is read from VESTDATE")
	vAssert(same(v.VestPct, want.VestPct), "VestInfo.VestPct is read from VESTPCT")
	vAssert(same(v, want), "VestInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of VestInfo do not conflict")
	vAssert(vWritten("VESTDATE", &w.VestDate), "VestInfo.VestDate is written to VESTDATE")
	vAssert(vWritten("VESTPCT", &w.VestPct), "VestInfo.VestPct is written to VESTPCT")
	vAssert(vAllWritten(), "VestInfo has no other elements")
}

func C26__ensures__c26VestInfo__elements() bool { return true }

func c26LoanInfo(w LoanInfo) {
	var v, want LoanInfo
	vAssert(vXMLName(&v) == "LOANINFO", "LoanInfo is the element LOANINFO")
	vAssert(vXMLRead(&v), "the tags of LoanInfo do not conflict")
	vElement("LOANID", &want.LoanID)
	vElement("LOANDESC", &want.LoanDesc)
	vElement("INITIALLOANBAL", &want.InitialLoanBal)
	vElement("LOANSTARTDATE", &want.LoanStartDate)
	vElement("CURRENTLOANBAL", &want.CurrentLoanBal)
	vElement("DTASOF", &want.DtAsOf)
	vElement("LOANRATE", &want.LoanRate)
	vElement("LOANPMTAMT", &want.LoanPmtAmt)
	vElement("LOANPMTFREQ", &want.LoanPmtFreq)
	vElement("LOANPMTSINITIAL", &want.LoanPmtsInitial)
	vElement("LOANPMTSREMAINING", &want.LoanPmtsRemaining)
	vElement("LOANMATURITYDATE", &want.LoanMaturityDate)
	vElement("LOANTOTALPROJINTEREST", &want.LoanTotalProjInterest)
	vElement("LOANINTERESTTODATE", &want.LoanInterestToDate)
	vElement("LOANNEXTPMTDATE", &want.LoanExtPmtDate)
	vAssert(same(v.LoanID, want.LoanID), "LoanInfo.LoanID is read from LOANID")
	vAssert(same(v.LoanDesc, want.LoanDesc), "LoanInfo.LoanDesc is read from LOANDESC")
	vAssert(same(v.InitialLoanBal, want.InitialLoanBal), "LoanInfo.InitialLoanBal is read from INITIALLOANBAL")
	vAssert(same(v.LoanStartDate, want.LoanStartDate), "LoanInfo.LoanStartDate is read from LOANSTARTDATE")
	vAssert(same(v.CurrentLoanBal, want.CurrentLoanBal), "LoanInfo.CurrentLoanBal is read from CURRENTLOANBAL")
	vAssert(same(v.DtAsOf, want.DtAsOf), "LoanInfo.DtAsOf is read from DTASOF")
	vAssert(same(v.LoanRate, want.LoanRate), "LoanInfo.LoanRate is read from LOANRATE")
	vAssert(same(v.LoanPmtAmt, want.LoanPmtAmt), "LoanInfo.LoanPmtAmt is read from LOANPMTAMT")
	vAssert(same(v.LoanPmtFreq, want.LoanPmtFreq), "LoanInfo.LoanPmtFreq is read from LOANPMTFREQ")
	vAssert(same(v.LoanPmtsInitial, want.LoanPmtsInitial), "LoanInfo.LoanPmtsInitial is read from LOANPMTSINITIAL")
	vAssert(same(v.LoanPmtsRemaining, want.LoanPmtsRemaining), "LoanInfo.LoanPmtsRemaining is read from LOANPMTSREMAINING")
	vAssert(same(v.LoanMaturityDate, want.LoanMaturityDate), "LoanInfo.LoanMaturityDate is read from LOANMATURITYDATE")
	vAssert(same(v.LoanTotalProjInterest, want.LoanTotalProjInterest), "LoanInfo.LoanTotalProjInterest is read from LOANTOTALPROJINTEREST")
	vAssert(same(v.LoanInterestToDate, want.LoanInterestToDate), "LoanInfo.LoanInterestToDate is read from LOANINTERESTTODATE")
	vAssert(same(v.LoanExtPmtDate, want.LoanExtPmtDate), "LoanInfo.LoanExtPmtDate is read from LOANNEXTPMTDATE")
	vAssert(same(v, want), "LoanInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of LoanInfo do not conflict")
	vAssert(vWritten("LOANID", &w.LoanID), "LoanInfo.LoanID is written to LOANID")
	vAssert(vWrittenIfSet("LOANDESC", &w.LoanDesc), "LoanInfo.LoanDesc is written to LOANDESC")
	vAssert(vWritten("INITIALLOANBAL", &w.InitialLoanBal), "LoanInfo.InitialLoanBal is written to INITIALLOANBAL")
	vAssert(vWritten("LOANSTARTDATE", &w.LoanStartDate), "LoanInfo.LoanStartDate is written to LOANSTARTDATE")
	vAssert(vWritten("CURRENTLOANBAL", &w.CurrentLoanBal), "LoanInfo.CurrentLoanBal is written to CURRENTLOANBAL")
	vAssert(vWritten("DTASOF", &w.DtAsOf), "LoanInfo.DtAsOf is written to DTASOF")
	vAssert(vWritten("LOANRATE", &w.LoanRate), "LoanInfo.LoanRate is written to LOANRATE")
	vAssert(vWritten("LOANPMTAMT", &w.LoanPmtAmt), "LoanInfo.LoanPmtAmt is written to LOANPMTAMT")
	vAssert(vWritten("LOANPMTFREQ", &w.LoanPmtFreq), "LoanInfo.LoanPmtFreq is written to LOANPMTFREQ")
	vAssert(vWrittenIfSet("LOANPMTSINITIAL", &w.LoanPmtsInitial), "LoanInfo.LoanPmtsInitial is written to LOANPMTSINITIAL")
	vAssert(vWrittenIfSet("LOANPMTSREMAINING", &w.LoanPmtsRemaining), "LoanInfo.LoanPmtsRemaining is written to LOANPMTSREMAINING")
	vAssert(vWritten("LOANMATURITYDATE", &w.LoanMaturityDate), "LoanInfo.LoanMaturityDate is written to LOANMATURITYDATE")
	vAssert(vWritten("LOANTOTALPROJINTEREST", &w.LoanTotalProjInterest), "LoanInfo.LoanTotalProjInterest is written to LOANTOTALPROJINTEREST")
	vAssert(vWritten("LOANINTERESTTODATE", &w.LoanInterestToDate), "LoanInfo.LoanInterestToDate is written to LOANINTERESTTODATE")
	vAssert(vWritten("LOANNEXTPMTDATE", &w.LoanExtPmtDate), "LoanInfo.LoanExtPmtDate is written to LOANNEXTPMTDATE")
	vAssert(vAllWritten(), "LoanInfo has no other elements")
}

func C26__ensures__c26LoanInfo__elements() bool { return true }

func c26Inv401KSummaryAggregate(w Inv401KSummaryAggregate) {
	var v, want Inv401KSummaryAggregate
	vAssert(vXMLName(&v) == "", "Inv401KSummaryAggregate is the element ")
	vAssert(vXMLRead(&v), "the tags of Inv401KSummaryAggregate do not conflict")
	vElement("PRETAX", &want.PreTax)
	vElement("AFTERTAX", &want.AfterTax)
	vElement("MATCH", &want.Match)
	vElement("PROFITSHARING", &want.ProfitSharing)
	vElement("ROLLOVER", &want.Rollover)
	vElement("OTHERVEST", &want.OtherVest)
	vElement("OTHERNONVEST", &want.OtherNonVest)
	vElement("TOTAL", &want.Total)
	vAssert(same(v.PreTax, want.PreTax), "Inv401KSummaryAggregate.PreTax is read from PRETAX")
	vAssert(same(v.AfterTax, want.AfterTax), "Inv401KSummaryAggregate.AfterTax is read from AFTERTAX")
	vAssert(same(v.Match, want.Match), "Inv401KSummaryAggregate.Match is read from MATCH")
	vAssert(same(v.ProfitSharing, want.ProfitSharing), "Inv401KSummaryAggregate.ProfitSharing is read from PROFITSHARING")
	vAssert(same(v.Rollover, want.Rollover), "Inv401KSummaryAggregate.Rollover is read from ROLLOVER")
	vAssert(same(v.OtherVest, want.OtherVest), "Inv401KSummaryAggregate.OtherVest is read from OTHERVEST")
	vAssert(same(v.OtherNonVest, want.OtherNonVest), "Inv401KSummaryAggregate.OtherNonVest is read from OTHERNONVEST")
	vAssert(same(v.Total, want.Total), "Inv401KSummaryAggregate.Total is read from TOTAL")
	vAssert(same(v, want), "Inv401KSummaryAggregate has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Inv401KSummaryAggregate do not conflict")
	vAssert(vWritten("PRETAX", &w.PreTax), "Inv401KSummaryAggregate.PreTax is written to PRETAX")
	vAssert(vWritten("AFTERTAX", &w.AfterTax), "Inv401KSummaryAggregate.AfterTax is written to AFTERTAX")
	vAssert(vWritten("MATCH", &w.Match), "Inv401KSummaryAggregate.Match is written to MATCH")
	vAssert(vWritten("PROFITSHARING", &w.ProfitSharing), "Inv401KSummaryAggregate.ProfitSharing is written to PROFITSHARING")
	vAssert(vWritten("ROLLOVER", &w.Rollover), "Inv401KSummaryAggregate.Rollover is written to ROLLOVER")
	vAssert(vWritten("OTHERVEST", &w.OtherVest), "Inv401KSummaryAggregate.OtherVest is written to OTHERVEST")
	vAssert(vWritten("OTHERNONVEST", &w.OtherNonVest), "Inv401KSummaryAggregate.OtherNonVest is written to OTHERNONVEST")
	vAssert(vWritten("TOTAL", &w.Total), "Inv401KSummaryAggregate.Total is written to TOTAL")
	vAssert(vAllWritten(), "Inv401KSummaryAggregate has no other elements")
}

func C26__ensures__c26Inv401KSummaryAggregate__elements() bool { return true }

func c26Inv401KSummaryPeriod(w Inv401KSummaryPeriod) {
	var v, want Inv401KSummaryPeriod
	vAssert(vXMLName(&v) == "", "Inv401KSummaryPeriod is the element ")
	vAssert(vXMLRead(&v), "the tags of Inv401KSummaryPeriod do not conflict")
	vElement("DTSTART", &want.DtStart)
	vElement("DTEND", &want.DtEnd)
	vElement("CONTRIBUTIONS", &want.Contributions)
	vElement("WITHDRAWALS", &want.Withdrawls)
	vElement("EARNINGS", &want.Earnings)
	vAssert(same(v.DtStart, want.DtStart), "Inv401KSummaryPeriod.DtStart is read from DTSTART")
	vAssert(same(v.DtEnd, want.DtEnd), "Inv401KSummaryPeriod.DtEnd is read from DTEND")
	vAssert(same(v.Contributions, want.Contributions), "Inv401KSummaryPeriod.Contributions is read from CONTRIBUTIONS")
	vAssert(same(v.Withdrawls, want.Withdrawls), "Inv401KSummaryPeriod.Withdrawls is read from WITHDRAWALS")
	vAssert(same(v.Earnings, want.Earnings), "Inv401KSummaryPeriod.Earnings is read from EARNINGS")
	vAssert(same(v, want), "Inv401KSummaryPeriod has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Inv401KSummaryPeriod do not conflict")
	vAssert(vWritten("DTSTART", &w.DtStart), "Inv401KSummaryPeriod.DtStart is written to DTSTART")
	vAssert(vWritten("DTEND", &w.DtEnd), "Inv401KSummaryPeriod.DtEnd is written to DTEND")
	vAssert(vWritten("CONTRIBUTIONS", &w.Contributions), "Inv401KSummaryPeriod.Contributions is written to CONTRIBUTIONS")
	vAssert(vWritten("WITHDRAWALS", &w.Withdrawls), "Inv401KSummaryPeriod.Withdrawls is written to WITHDRAWALS")
	vAssert(vWritten("EARNINGS", &w.Earnings), "Inv401KSummaryPeriod.Earnings is written to EARNINGS")
	vAssert(vAllWritten(), "Inv401KSummaryPeriod has no other elements")
}

func C26__ensures__c26Inv401KSummaryPeriod__elements() bool { return true }

func c26Inv401K(w Inv401K) {
	var v, want Inv401K
	vAssert(vXMLName(&v) == "INV401K", "Inv401K is the element INV401K")
	vAssert(vXMLRead(&v), "the tags of Inv401K do not conflict")
	vElement("EMPLOYERNAME", &want.EmployerName)
	vElement("PLANID", &want.PlanID)
	vElement("PLANJOINDATE", &want.PlanJoinDate)
	vElement("EMPLOYERCONTACTINFO", &want.EmployerContactInfo)
	vElement("BROKERCONTACTINFO", &want.BrokerContactInfo)
	vElement("DEFERPCTPRETAX", &want.DeferPctPreTax)
	vElement("DEFERPCTAFTERTAX", &want.DeferPctAfterTax)
	vElement("MATCHINFO>MATCHPCT", &want.MatchPct)
	vElement("MATCHINFO>MAXMATCHAMT", &want.MaxMatchAmt)
	vElement("MATCHINFO>MAXMATCHPCT", &want.MaxMatchPct)
	vElement("MATCHINFO>STARTOFYEAR", &want.StartOfYear)
	vElement("MATCHINFO>BASEMATCHAMT", &want.BaseMatchAmt)
	vElement("MATCHINFO>BASEMATCHPCT", &want.BaseMatchPct)
	vElement("CONTRIBINFO>CONTRIBSECURITY", &want.ContribInfo)
	vElement("CURRENTVESTPCT", &want.CurrentVestPct)
	vElement("VESTINFO", &want.VestInfo)
	vElement("LOANINFO", &want.LoanInfo)
	vElement("INV401KSUMMARY>YEARTODATE", &want.YearToDateSummary)
	vElement("INV401KSUMMARY>INCEPTODATE", &want.InceptToDateSummary)
	vElement("INV401KSUMMARY>PERIODTODATE", &want.PeriodToDate)
	vAssert(same(v.EmployerName, want.EmployerName), "Inv401K.EmployerName is read from EMPLOYERNAME")
	vAssert(same(v.PlanID, want.PlanID), "Inv401K.PlanID is read from PLANID")
	vAssert(same(v.PlanJoinDate, want.PlanJoinDate), "Inv401K.PlanJoinDate is read from PLANJOINDATE")
	vAssert(same(v.EmployerContactInfo, want.EmployerContactInfo), "Inv401K.EmployerContactInfo is read from EMPLOYERCONTACTINFO")
	vAssert(same(v.BrokerContactInfo, want.BrokerContactInfo), "Inv401K.BrokerContactInfo is read from BROKERCONTACTINFO")
	vAssert(same(v.DeferPctPreTax, want.DeferPctPreTax), "Inv401K.DeferPctPreTax is read from DEFERPCTPRETAX")
	vAssert(same(v.DeferPctAfterTax, want.DeferPctAfterTax), "Inv401K.DeferPctAfterTax is read from DEFERPCTAFTERTAX")
	vAssert(same(v.MatchPct, want.MatchPct), "Inv401K.MatchPct is read from MATCHINFO>MATCHPCT")
	vAssert(same(v.MaxMatchAmt, want.MaxMatchAmt), "Inv401K.MaxMatchAmt is read from MATCHINFO>MAXMATCHAMT")
	vAssert(same(v.MaxMatchPct, want.MaxMatchPct), "Inv401K.MaxMatchPct is read from MATCHINFO>MAXMATCHPCT")
	vAssert(same(v.StartOfYear, want.StartOfYear), "Inv401K.StartOfYear is read from MATCHINFO>STARTOFYEAR")
	vAssert(same(v.BaseMatchAmt, want.BaseMatchAmt), "Inv401K.BaseMatchAmt is read from MATCHINFO>BASEMATCHAMT")
	vAssert(same(v.BaseMatchPct, want.BaseMatchPct), "Inv401K.BaseMatchPct is read from MATCHINFO>BASEMATCHPCT")
	vAssert(same(v.ContribInfo, want.ContribInfo), "Inv401K.ContribInfo is read from CONTRIBINFO>CONTRIBSECURITY")
	vAssert(same(v.CurrentVestPct, want.CurrentVestPct), "Inv401K.CurrentVestPct is read from CURRENTVESTPCT")
	vAssert(same(v.VestInfo, want.VestInfo), "Inv401K.VestInfo is read from VESTINFO")
	vAssert(same(v.LoanInfo, want.LoanInfo), "Inv401K.LoanInfo is read from LOANINFO")
	vAssert(same(v.YearToDateSummary, want.YearToDateSummary), "Inv401K.YearToDateSummary is read from INV401KSUMMARY>YEARTODATE")
	vAssert(same(v.InceptToDateSummary, want.InceptToDateSummary), "Inv401K.InceptToDateSummary is read from INV401KSUMMARY>INCEPTODATE")
	vAssert(same(v.PeriodToDate, want.PeriodToDate), "Inv401K.PeriodToDate is read from INV401KSUMMARY>PERIODTODATE")
	vAssert(same(v, want), "Inv401K has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Inv401K do not conflict")
	vAssert(vWritten("EMPLOYERNAME", &w.EmployerName), "Inv401K.EmployerName is written to EMPLOYERNAME")
	vAssert(vWrittenIfSet("PLANID", &w.PlanID), "Inv401K.PlanID is written to PLANID")
	vAssert(vWritten("PLANJOINDATE", &w.PlanJoinDate), "Inv401K.PlanJoinDate is written to PLANJOINDATE")
	vAssert(vWrittenIfSet("EMPLOYERCONTACTINFO", &w.EmployerContactInfo), "Inv401K.EmployerContactInfo is written to EMPLOYERCONTACTINFO")
	vAssert(vWrittenIfSet("BROKERCONTACTINFO", &w.BrokerContactInfo), "Inv401K.BrokerContactInfo is written to BROKERCONTACTINFO")
	vAssert(vWritten("DEFERPCTPRETAX", &w.DeferPctPreTax), "Inv401K.DeferPctPreTax is written to DEFERPCTPRETAX")
	vAssert(vWritten("DEFERPCTAFTERTAX", &w.DeferPctAfterTax), "Inv401K.DeferPctAfterTax is written to DEFERPCTAFTERTAX")
	vAssert(vWritten("MATCHINFO>MATCHPCT", &w.MatchPct), "Inv401K.MatchPct is written to MATCHINFO>MATCHPCT")
	vAssert(vWritten("MATCHINFO>MAXMATCHAMT", &w.MaxMatchAmt), "Inv401K.MaxMatchAmt is written to MATCHINFO>MAXMATCHAMT")
	vAssert(vWritten("MATCHINFO>MAXMATCHPCT", &w.MaxMatchPct), "Inv401K.MaxMatchPct is written to MATCHINFO>MAXMATCHPCT")
	vAssert(vWritten("MATCHINFO>STARTOFYEAR", &w.StartOfYear), "Inv401K.StartOfYear is written to MATCHINFO>STARTOFYEAR")
	vAssert(vWritten("MATCHINFO>BASEMATCHAMT", &w.BaseMatchAmt), "Inv401K.BaseMatchAmt is written to MATCHINFO>BASEMATCHAMT")
	vAssert(vWritten("MATCHINFO>BASEMATCHPCT", &w.BaseMatchPct), "Inv401K.BaseMatchPct is written to MATCHINFO>BASEMATCHPCT")
	vAssert(vWritten("CONTRIBINFO>CONTRIBSECURITY", &w.ContribInfo), "Inv401K.ContribInfo is written to CONTRIBINFO>CONTRIBSECURITY")
	vAssert(vWritten("CURRENTVESTPCT", &w.CurrentVestPct), "Inv401K.CurrentVestPct is written to CURRENTVESTPCT")
	vAssert(vWritten("VESTINFO", &w.VestInfo), "Inv401K.VestInfo is written to VESTINFO")
	vAssert(vWritten("LOANINFO", &w.LoanInfo), "Inv401K.LoanInfo is written to LOANINFO")
	vAssert(vWritten("INV401KSUMMARY>YEARTODATE", &w.YearToDateSummary), "Inv401K.YearToDateSummary is written to INV401KSUMMARY>YEARTODATE")
	vAssert(vWritten("INV401KSUMMARY>INCEPTODATE", &w.InceptToDateSummary), "Inv401K.InceptToDateSummary is written to INV401KSUMMARY>INCEPTODATE")
	vAssert(vWritten("INV401KSUMMARY>PERIODTODATE", &w.PeriodToDate), "Inv401K.PeriodToDate is written to INV401KSUMMARY>PERIODTODATE")
	vAssert(vAllWritten(), "Inv401K has no other elements")
}

func C26__ensures__c26Inv401K__elements() bool { return true }

func c26Inv401KBal(w Inv401KBal) {
	var v, want Inv401KBal
	vAssert(vXMLName(&v) == "INV401KBAL", "Inv401KBal is the element INV401KBAL")
	vAssert(vXMLRead(&v), "the tags of Inv401KBal do not conflict")
	vElement("CASHBAL", &want.CashBal)
	vElement("PRETAX", &want.PreTax)
	vElement("AFTERTAX", &want.AfterTax)
	vElement("MATCH", &want.Match)
	vElement("PROFITSHARING", &want.ProfitSharing)
	vElement("ROLLOVER", &want.Rollover)
	vElement("OTHERVEST", &want.OtherVest)
	vElement("OTHERNONVEST", &want.OtherNonVest)
	vElement("TOTAL", &want.Total)
	vElement("BALLIST>BAL", &want.BalList)
	vAssert(same(v.CashBal, want.CashBal), "Inv401KBal.CashBal is read from CASHBAL")
	vAssert(same(v.PreTax, want.PreTax), "Inv401KBal.PreTax is read from PRETAX")
	vAssert(same(v.AfterTax, want.AfterTax), "Inv401KBal.AfterTax is read from AFTERTAX")
	vAssert(same(v.Match, want.Match), "Inv401KBal.Match is read from MATCH")
	vAssert(same(v.ProfitSharing, want.ProfitSharing), "Inv401KBal.ProfitSharing is read from PROFITSHARING")
	vAssert(same(v.Rollover, want.Rollover), "Inv401KBal.Rollover is read from ROLLOVER")
	vAssert(same(v.OtherVest, want.OtherVest), "Inv401KBal.OtherVest is read from OTHERVEST")
	vAssert(same(v.OtherNonVest, want.OtherNonVest), "Inv401KBal.OtherNonVest is read from OTHERNONVEST")
	vAssert(same(v.Total, want.Total), "Inv401KBal.Total is read from TOTAL")
	vAssert(same(v.BalList, want.BalList), "Inv401KBal.BalList is read from BALLIST>BAL")
	vAssert(same(v, want), "Inv401KBal has no other elements")
	vAssert(vXMLWrite(&w), "the tags of Inv401KBal do not conflict")
	vAssert(vWritten("CASHBAL", &w.CashBal), "Inv401KBal.CashBal is written to CASHBAL")
	vAssert(vWritten("PRETAX", &w.PreTax), "Inv401KBal.PreTax is written to PRETAX")
	vAssert(vWritten("AFTERTAX", &w.AfterTax), "Inv401KBal.AfterTax is written to AFTERTAX")
	vAssert(vWritten("MATCH", &w.Match), "Inv401KBal.Match is written to MATCH")
	vAssert(vWritten("PROFITSHARING", &w.ProfitSharing), "Inv401KBal.ProfitSharing is written to PROFITSHARING")
	vAssert(vWritten("ROLLOVER", &w.Rollover), "Inv401KBal.Rollover is written to ROLLOVER")
	vAssert(vWritten("OTHERVEST", &w.OtherVest), "Inv401KBal.OtherVest is written to OTHERVEST")
	vAssert(vWritten("OTHERNONVEST", &w.OtherNonVest), "Inv401KBal.OtherNonVest is written to OTHERNONVEST")
	vAssert(vWritten("TOTAL", &w.Total), "Inv401KBal.Total is written to TOTAL")
	vAssert(vWritten("BALLIST>BAL", &w.BalList), "Inv401KBal.BalList is written to BALLIST>BAL")
	vAssert(vAllWritten(), "Inv401KBal has no other elements")
}

func C26__ensures__c26Inv401KBal__elements() bool { return true }

func c26InvStatementResponse(w InvStatementResponse) {
	var v, want InvStatementResponse
	vAssert(vXMLName(&v) == "INVSTMTTRNRS", "InvStatementResponse is the element INVSTMTTRNRS")
	vAssert(vXMLRead(&v), "the tags of InvStatementResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("INVSTMTRS>DTASOF", &want.DtAsOf)
	vElement("INVSTMTRS>CURDEF", &want.CurDef)
	vElement("INVSTMTRS>INVACCTFROM", &want.InvAcctFrom)
	vElement("INVSTMTRS>INVTRANLIST", &want.InvTranList)
	vElement("INVSTMTRS>INVPOSLIST", &want.InvPosList)
	vElement("INVSTMTRS>INVBAL", &want.InvBal)
	vElement("INVSTMTRS>INVOOLIST", &want.InvOOList)
	vElement("INVSTMTRS>MKTGINFO", &want.MktgInfo)
	vElement("INVSTMTRS>INV401K", &want.Inv401K)
	vElement("INVSTMTRS>INV401KBAL", &want.Inv401KBal)
	vAssert(same(v.TrnUID, want.TrnUID), "InvStatementResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "InvStatementResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "InvStatementResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.DtAsOf, want.DtAsOf), "InvStatementResponse.DtAsOf is read from INVSTMTRS>DTASOF")
	vAssert(same(v.CurDef, want.CurDef), "InvStatementResponse.CurDef is read from INVSTMTRS>CURDEF")
	vAssert(same(v.InvAcctFrom, want.InvAcctFrom), "InvStatementResponse.InvAcctFrom is read from INVSTMTRS>INVACCTFROM")
	vAssert(same(v.InvTranList, want.InvTranList), "InvStatementResponse.InvTranList is read from INVSTMTRS>INVTRANLIST")
	vAssert(same(v.InvPosList, want.InvPosList), "InvStatementResponse.InvPosList is read from INVSTMTRS>INVPOSLIST")
	vAssert(same(v.InvBal, want.InvBal), "InvStatementResponse.InvBal is read from INVSTMTRS>INVBAL")
	vAssert(same(v.InvOOList, want.InvOOList), "InvStatementResponse.InvOOList is read from INVSTMTRS>INVOOLIST")
	vAssert(same(v.MktgInfo, want.MktgInfo), "InvStatementResponse.MktgInfo is read from INVSTMTRS>MKTGINFO")
	vAssert(same(v.Inv401K, want.Inv401K), "InvStatementResponse.Inv401K is read from INVSTMTRS>INV401K")
	vAssert(same(v.Inv401KBal, want.Inv401KBal), "InvStatementResponse.Inv401KBal is read from INVSTMTRS>INV401KBAL")
	vAssert(same(v, want), "InvStatementResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvStatementResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "InvStatementResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "InvStatementResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "InvStatementResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vWritten("INVSTMTRS>DTASOF", &w.DtAsOf), "InvStatementResponse.DtAsOf is written to INVSTMTRS>DTASOF")
	vAssert(vWritten("INVSTMTRS>CURDEF", &w.CurDef), "InvStatementResponse.CurDef is written to INVSTMTRS>CURDEF")
	vAssert(vWritten("INVSTMTRS>INVACCTFROM", &w.InvAcctFrom), "InvStatementResponse.InvAcctFrom is written to INVSTMTRS>INVACCTFROM")
	vAssert(vWritten("INVSTMTRS>INVTRANLIST", &w.InvTranList), "InvStatementResponse.InvTranList is written to INVSTMTRS>INVTRANLIST")
	vAssert(vWritten("INVSTMTRS>INVPOSLIST", &w.InvPosList), "InvStatementResponse.InvPosList is written to INVSTMTRS>INVPOSLIST")
	vAssert(vWritten("INVSTMTRS>INVBAL", &w.InvBal), "InvStatementResponse.InvBal is written to INVSTMTRS>INVBAL")
	vAssert(vWritten("INVSTMTRS>INVOOLIST", &w.InvOOList), "InvStatementResponse.InvOOList is written to INVSTMTRS>INVOOLIST")
	vAssert(vWrittenIfSet("INVSTMTRS>MKTGINFO", &w.MktgInfo), "InvStatementResponse.MktgInfo is written to INVSTMTRS>MKTGINFO")
	vAssert(vWritten("INVSTMTRS>INV401K", &w.Inv401K), "InvStatementResponse.Inv401K is written to INVSTMTRS>INV401K")
	vAssert(vWritten("INVSTMTRS>INV401KBAL", &w.Inv401KBal), "InvStatementResponse.Inv401KBal is written to INVSTMTRS>INV401KBAL")
	vAssert(vAllWritten(), "InvStatementResponse has no other elements")
}

func C26__ensures__c26InvStatementResponse__elements() bool { return true }

func c26ProfileRequest(w ProfileRequest) {
	var v, want ProfileRequest
	vAssert(vXMLName(&v) == "PROFTRNRQ", "ProfileRequest is the element PROFTRNRQ")
	vAssert(vXMLRead(&v), "the tags of ProfileRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("PROFRQ>CLIENTROUTING", &want.ClientRouting)
	vElement("PROFRQ>DTPROFUP", &want.DtProfUp)
	vAssert(same(v.TrnUID, want.TrnUID), "ProfileRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "ProfileRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "ProfileRequest.TAN is read from TAN")
	vAssert(same(v.ClientRouting, want.ClientRouting), "ProfileRequest.ClientRouting is read from PROFRQ>CLIENTROUTING")
	vAssert(same(v.DtProfUp, want.DtProfUp), "ProfileRequest.DtProfUp is read from PROFRQ>DTPROFUP")
	vAssert(same(v, want), "ProfileRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of ProfileRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "ProfileRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "ProfileRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "ProfileRequest.TAN is written to TAN")
	vAssert(vWritten("PROFRQ>CLIENTROUTING", &w.ClientRouting), "ProfileRequest.ClientRouting is written to PROFRQ>CLIENTROUTING")
	vAssert(vWritten("PROFRQ>DTPROFUP", &w.DtProfUp), "ProfileRequest.DtProfUp is written to PROFRQ>DTPROFUP")
	vAssert(vAllWritten(), "ProfileRequest has no other elements")
}

func C26__ensures__c26ProfileRequest__elements() bool { return true }

func c26SignonInfo(w SignonInfo) {
	var v, want SignonInfo
	vAssert(vXMLName(&v) == "SIGNONINFO", "SignonInfo is the element SIGNONINFO")
	vAssert(vXMLRead(&v), "the tags of SignonInfo do not conflict")
	vElement("SIGNONREALM", &want.SignonRealm)
	vElement("MIN", &want.Min)
	vElement("MAX", &want.Max)
	vElement("CHARTYPE", &want.CharType)
	vElement("CASESEN", &want.CaseSen)
	vElement("SPECIAL", &want.Special)
	vElement("SPACES", &want.Spaces)
	vElement("PINCH", &want.PinCh)
	vElement("CHGPINFIRST", &want.ChgPinFirst)
	vElement("USERCRED1LABEL", &want.UserCred1Label)
	vElement("USERCRED2LABEL", &want.UserCred2Label)
	vElement("CLIENTUIDREQ", &want.ClientUIDReq)
	vElement("AUTHTOKENFIRST", &want.AuthTokenFirst)
	vElement("AUTHTOKENLABEL", &want.AuthTokenLabel)
	vElement("AUTHTOKENINFOURL", &want.AuthTokenInfoURL)
	vElement("MFACHALLENGESUPT", &want.MFAChallengeSupt)
	vElement("MFACHALLENGEFIRST", &want.MFAChallengeFIRST)
	vElement("ACCESSTOKENREQ", &want.AccessTokenReq)
	vAssert(same(v.SignonRealm, want.SignonRealm), "SignonInfo.SignonRealm is read from SIGNONREALM")
	vAssert(same(v.Min, want.Min), "SignonInfo.Min is read from MIN")
	vAssert(same(v.Max, want.Max), "SignonInfo.Max is read from MAX")
	vAssert(same(v.CharType, want.CharType), "SignonInfo.CharType is read from CHARTYPE")
	vAssert(same(v.CaseSen, want.CaseSen), "SignonInfo.CaseSen is read from CASESEN")
	vAssert(same(v.Special, want.Special), "SignonInfo.Special is read from SPECIAL")
	vAssert(same(v.Spaces, want.Spaces), "SignonInfo.Spaces is read from SPACES")
	vAssert(same(v.PinCh, want.PinCh), "SignonInfo.PinCh is read from PINCH")
	vAssert(same(v.ChgPinFirst, want.ChgPinFirst), "SignonInfo.ChgPinFirst is read from CHGPINFIRST")
	vAssert(same(v.UserCred1Label, want.UserCred1Label), "SignonInfo.UserCred1Label is read from USERCRED1LABEL")
	vAssert(same(v.UserCred2Label, want.UserCred2Label), "SignonInfo.UserCred2Label is read from USERCRED2LABEL")
	vAssert(same(v.ClientUIDReq, want.ClientUIDReq), "SignonInfo.ClientUIDReq is read from CLIENTUIDREQ")
	vAssert(same(v.AuthTokenFirst, want.AuthTokenFirst), "SignonInfo.AuthTokenFirst is read from AUTHTOKENFIRST")
	vAssert(same(v.AuthTokenLabel, want.AuthTokenLabel), "SignonInfo.AuthTokenLabel is read from AUTHTOKENLABEL")
	vAssert(same(v.AuthTokenInfoURL, want.AuthTokenInfoURL), "SignonInfo.AuthTokenInfoURL is read from AUTHTOKENINFOURL")
	vAssert(same(v.MFAChallengeSupt, want.MFAChallengeSupt), "SignonInfo.MFAChallengeSupt is read from MFACHALLENGESUPT")
	vAssert(same(v.MFAChallengeFIRST, want.MFAChallengeFIRST), "SignonInfo.MFAChallengeFIRST is read from MFACHALLENGEFIRST")
	vAssert(same(v.AccessTokenReq, want.AccessTokenReq), "SignonInfo.AccessTokenReq is read from ACCESSTOKENREQ")
	vAssert(same(v, want), "SignonInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SignonInfo do not conflict")
	vAssert(vWritten("SIGNONREALM", &w.SignonRealm), "SignonInfo.SignonRealm is written to SIGNONREALM")
	vAssert(vWritten("MIN", &w.Min), "SignonInfo.Min is written to MIN")
	vAssert(vWritten("MAX", &w.Max), "SignonInfo.Max is written to MAX")
	vAssert(vWritten("CHARTYPE", &w.CharType), "SignonInfo.CharType is written to CHARTYPE")
	vAssert(vWritten("CASESEN", &w.CaseSen), "SignonInfo.CaseSen is written to CASESEN")
	vAssert(vWritten("SPECIAL", &w.Special), "SignonInfo.Special is written to SPECIAL")
	vAssert(vWritten("SPACES", &w.Spaces), "SignonInfo.Spaces is written to SPACES")
	vAssert(vWritten("PINCH", &w.PinCh), "SignonInfo.PinCh is written to PINCH")
	vAssert(vWritten("CHGPINFIRST", &w.ChgPinFirst), "SignonInfo.ChgPinFirst is written to CHGPINFIRST")
	vAssert(vWrittenIfSet("USERCRED1LABEL", &w.UserCred1Label), "SignonInfo.UserCred1Label is written to USERCRED1LABEL")
	vAssert(vWrittenIfSet("USERCRED2LABEL", &w.UserCred2Label), "SignonInfo.UserCred2Label is written to USERCRED2LABEL")
	vAssert(vWrittenIfSet("CLIENTUIDREQ", &w.ClientUIDReq), "SignonInfo.ClientUIDReq is written to CLIENTUIDREQ")
	vAssert(vWrittenIfSet("AUTHTOKENFIRST", &w.AuthTokenFirst), "SignonInfo.AuthTokenFirst is written to AUTHTOKENFIRST")
	vAssert(vWrittenIfSet("AUTHTOKENLABEL", &w.AuthTokenLabel), "SignonInfo.AuthTokenLabel is written to AUTHTOKENLABEL")
	vAssert(vWrittenIfSet("AUTHTOKENINFOURL", &w.AuthTokenInfoURL), "SignonInfo.AuthTokenInfoURL is written to AUTHTOKENINFOURL")
	vAssert(vWrittenIfSet("MFACHALLENGESUPT", &w.MFAChallengeSupt), "SignonInfo.MFAChallengeSupt is written to MFACHALLENGESUPT")
	vAssert(vWrittenIfSet("MFACHALLENGEFIRST", &w.MFAChallengeFIRST), "SignonInfo.MFAChallengeFIRST is written to MFACHALLENGEFIRST")
	vAssert(vWrittenIfSet("ACCESSTOKENREQ", &w.AccessTokenReq), "SignonInfo.AccessTokenReq is written to ACCESSTOKENREQ")
	vAssert(vAllWritten(), "SignonInfo has no other elements")
}

func C26__ensures__c26SignonInfo__elements() bool { return true }

func c26MessageSet(w MessageSet) {
	var v, want MessageSet
	vAssert(vXMLName(&v) == "", "MessageSet is the element ")
	vAssert(vXMLRead(&v), "the tags of MessageSet do not conflict")
	vElement("MSGSETCORE>VER", &want.Ver)
	vElement("MSGSETCORE>URL", &want.URL)
	vElement("MSGSETCORE>OFXSEC", &want.OfxSec)
	vElement("MSGSETCORE>TRANSPSEC", &want.TranspSec)
	vElement("MSGSETCORE>SIGNONREALM", &want.SignonRealm)
	vElement("MSGSETCORE>LANGUAGE", &want.Language)
	vElement("MSGSETCORE>SYNCMODE", &want.SyncMode)
	vElement("MSGSETCORE>REFRESHSUPT", &want.RefreshSupt)
	vElement("MSGSETCORE>RESPFILEER", &want.RespFileER)
	vElement("MSGSETCORE>SPNAME", &want.SpName)
	vAssert(same(v.Ver, want.Ver), "MessageSet.Ver is read from MSGSETCORE>VER")
	vAssert(same(v.URL, want.URL), "MessageSet.URL is read from MSGSETCORE>URL")
	vAssert(same(v.OfxSec, want.OfxSec), "MessageSet.OfxSec is read from MSGSETCORE>OFXSEC")
	vAssert(same(v.TranspSec, want.TranspSec), "MessageSet.TranspSec is read from MSGSETCORE>TRANSPSEC")
	vAssert(same(v.SignonRealm, want.SignonRealm), "MessageSet.SignonRealm is read from MSGSETCORE>SIGNONREALM")
	vAssert(same(v.Language, want.Language), "MessageSet.Language is read from MSGSETCORE>LANGUAGE")
	vAssert(same(v.SyncMode, want.SyncMode), "MessageSet.SyncMode is read from MSGSETCORE>SYNCMODE")
	vAssert(same(v.RefreshSupt, want.RefreshSupt), "MessageSet.RefreshSupt is read from MSGSETCORE>REFRESHSUPT")
	vAssert(same(v.RespFileER, want.RespFileER), "MessageSet.RespFileER is read from MSGSETCORE>RESPFILEER")
	vAssert(same(v.SpName, want.SpName), "MessageSet.SpName is read from MSGSETCORE>SPNAME")
	vAssert(same(v, want), "MessageSet has no other elements")
	vAssert(vXMLWrite(&w), "the tags of MessageSet do not conflict")
	vAssert(vWritten("MSGSETCORE>VER", &w.Ver), "MessageSet.Ver is written to MSGSETCORE>VER")
	vAssert(vWritten("MSGSETCORE>URL", &w.URL), "MessageSet.URL is written to MSGSETCORE>URL")
	vAssert(vWritten("MSGSETCORE>OFXSEC", &w.OfxSec), "MessageSet.OfxSec is written to MSGSETCORE>OFXSEC")
	vAssert(vWritten("MSGSETCORE>TRANSPSEC", &w.TranspSec), "MessageSet.TranspSec is written to MSGSETCORE>TRANSPSEC")
	vAssert(vWritten("MSGSETCORE>SIGNONREALM", &w.SignonRealm), "MessageSet.SignonRealm is written to MSGSETCORE>SIGNONREALM")
	vAssert(vWritten("MSGSETCORE>LANGUAGE", &w.Language), "MessageSet.Language is written to MSGSETCORE>LANGUAGE")
	vAssert(vWritten("MSGSETCORE>SYNCMODE", &w.SyncMode), "MessageSet.SyncMode is written to MSGSETCORE>SYNCMODE")
	vAssert(vWrittenIfSet("MSGSETCORE>REFRESHSUPT", &w.RefreshSupt), "MessageSet.RefreshSupt is written to MSGSETCORE>REFRESHSUPT")
	vAssert(vWritten("MSGSETCORE>RESPFILEER", &w.RespFileER), "MessageSet.RespFileER is written to MSGSETCORE>RESPFILEER")
	vAssert(vWritten("MSGSETCORE>SPNAME", &w.SpName), "MessageSet.SpName is written to MSGSETCORE>SPNAME")
	vAssert(vAllWritten(), "MessageSet has no other elements")
}

func C26__ensures__c26MessageSet__elements() bool { return true }

func c26ProfileResponse(w ProfileResponse) {
	var v, want ProfileResponse
	vAssert(vXMLName(&v) == "PROFTRNRS", "ProfileResponse is the element PROFTRNRS")
	vAssert(vXMLRead(&v), "the tags of ProfileResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("PROFRS>MSGSETLIST", &want.MessageSetList)
	vElement("PROFRS>SIGNONINFOLIST>SIGNONINFO", &want.SignonInfoList)
	vElement("PROFRS>DTPROFUP", &want.DtProfUp)
	vElement("PROFRS>FINAME", &want.FiName)
	vElement("PROFRS>ADDR1", &want.Addr1)
	vElement("PROFRS>ADDR2", &want.Addr2)
	vElement("PROFRS>ADDR3", &want.Addr3)
	vElement("PROFRS>CITY", &want.City)
	vElement("PROFRS>STATE", &want.State)
	vElement("PROFRS>POSTALCODE", &want.PostalCode)
	vElement("PROFRS>COUNTRY", &want.Country)
	vElement("PROFRS>CSPHONE", &want.CsPhone)
	vElement("PROFRS>TSPHONE", &want.TsPhone)
	vElement("PROFRS>FAXPHONE", &want.FaxPhone)
	vElement("PROFRS>URL", &want.URL)
	vElement("PROFRS>EMAIL", &want.Email)
	vAssert(same(v.TrnUID, want.TrnUID), "ProfileResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "ProfileResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "ProfileResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.MessageSetList, want.MessageSetList), "ProfileResponse.MessageSetList is read from PROFRS>MSGSETLIST")
	vAssert(same(v.SignonInfoList, want.SignonInfoList), "ProfileResponse.SignonInfoList is read from PROFRS>SIGNONINFOLIST>SIGNONINFO")
	vAssert(same(v.DtProfUp, want.DtProfUp), "ProfileResponse.DtProfUp is read from PROFRS>DTPROFUP")
	vAssert(same(v.FiName, want.FiName), "ProfileResponse.FiName is read from PROFRS>FINAME")
	vAssert(same(v.Addr1, want.Addr1), "ProfileResponse.Addr1 is read from PROFRS>ADDR1")
	vAssert(same(v.Addr2, want.Addr2), "ProfileResponse.Addr2 is read from PROFRS>ADDR2")
	vAssert(same(v.Addr3, want.Addr3), "ProfileResponse.Addr3 is read from PROFRS>ADDR3")
	vAssert(same(v.City, want.City), "ProfileResponse.City is read from PROFRS>CITY")
	vAssert(same(v.State, want.State), "ProfileResponse.State is read from PROFRS>STATE")
	vAssert(same(v.PostalCode, want.PostalCode), "ProfileResponse.PostalCode is read from PROFRS>POSTALCODE")
	vAssert(same(v.Country, want.Country), "ProfileResponse.Country is read from PROFRS>COUNTRY")
	vAssert(same(v.CsPhone, want.CsPhone), "ProfileResponse.CsPhone is read from PROFRS>CSPHONE")
	vAssert(same(v.TsPhone, want.TsPhone), "ProfileResponse.TsPhone is read from PROFRS>TSPHONE")
	vAssert(same(v.FaxPhone, want.FaxPhone), "ProfileResponse.FaxPhone is read from PROFRS>FAXPHONE")
	vAssert(same(v.URL, want.URL), "ProfileResponse.URL is read from PROFRS>URL")
	vAssert(same(v.Email, want.Email), "ProfileResponse.Email is read from PROFRS>EMAIL")
	vAssert(same(v, want), "ProfileResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of ProfileResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "ProfileResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "ProfileResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "ProfileResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vWritten("PROFRS>MSGSETLIST", &w.MessageSetList), "ProfileResponse.MessageSetList is written to PROFRS>MSGSETLIST")
	vAssert(vWritten("PROFRS>SIGNONINFOLIST>SIGNONINFO", &w.SignonInfoList), "ProfileResponse.SignonInfoList is written to PROFRS>SIGNONINFOLIST>SIGNONINFO")
	vAssert(vWritten("PROFRS>DTPROFUP", &w.DtProfUp), "ProfileResponse.DtProfUp is written to PROFRS>DTPROFUP")
	vAssert(vWritten("PROFRS>FINAME", &w.FiName), "ProfileResponse.FiName is written to PROFRS>FINAME")
	vAssert(vWritten("PROFRS>ADDR1", &w.Addr1), "ProfileResponse.Addr1 is written to PROFRS>ADDR1")
	vAssert(vWrittenIfSet("PROFRS>ADDR2", &w.Addr2), "ProfileResponse.Addr2 is written to PROFRS>ADDR2")
	vAssert(vWrittenIfSet("PROFRS>ADDR3", &w.Addr3), "ProfileResponse.Addr3 is written to PROFRS>ADDR3")
	vAssert(vWritten("PROFRS>CITY", &w.City), "ProfileResponse.City is written to PROFRS>CITY")
	vAssert(vWritten("PROFRS>STATE", &w.State), "ProfileResponse.State is written to PROFRS>STATE")
	vAssert(vWritten("PROFRS>POSTALCODE", &w.PostalCode), "ProfileResponse.PostalCode is written to PROFRS>POSTALCODE")
	vAssert(vWritten("PROFRS>COUNTRY", &w.Country), "ProfileResponse.Country is written to PROFRS>COUNTRY")
	vAssert(vWrittenIfSet("PROFRS>CSPHONE", &w.CsPhone), "ProfileResponse.CsPhone is written to PROFRS>CSPHONE")
	vAssert(vWrittenIfSet("PROFRS>TSPHONE", &w.TsPhone), "ProfileResponse.TsPhone is written to PROFRS>TSPHONE")
	vAssert(vWrittenIfSet("PROFRS>FAXPHONE", &w.FaxPhone), "ProfileResponse.FaxPhone is written to PROFRS>FAXPHONE")
	vAssert(vWrittenIfSet("PROFRS>URL", &w.URL), "ProfileResponse.URL is written to PROFRS>URL")
	vAssert(vWrittenIfSet("PROFRS>EMAIL", &w.Email), "ProfileResponse.Email is written to PROFRS>EMAIL")
	vAssert(vAllWritten(), "ProfileResponse has no other elements")
}

func C26__ensures__c26ProfileResponse__elements() bool { return true }

func c26SecurityID(w SecurityID) {
	var v, want SecurityID
	vAssert(vXMLName(&v) == "SECID", "SecurityID is the element SECID")
	vAssert(vXMLRead(&v), "the tags of SecurityID do not conflict")
	vElement("UNIQUEID", &want.UniqueID)
	vElement("UNIQUEIDTYPE", &want.UniqueIDType)
	vAssert(same(v.UniqueID, want.UniqueID), "SecurityID.UniqueID is read from UNIQUEID")
	vAssert(same(v.UniqueIDType, want.UniqueIDType), "SecurityID.UniqueIDType is read from UNIQUEIDTYPE")
	vAssert(same(v, want), "SecurityID has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SecurityID do not conflict")
	vAssert(vWritten("UNIQUEID", &w.UniqueID), "SecurityID.UniqueID is written to UNIQUEID")
	vAssert(vWritten("UNIQUEIDTYPE", &w.UniqueIDType), "SecurityID.UniqueIDType is written to UNIQUEIDTYPE")
	vAssert(vAllWritten(), "SecurityID has no other elements")
}

func C26__ensures__c26SecurityID__elements() bool { return true }

func c26SecurityRequest(w SecurityRequest) {
	var v, want SecurityRequest
	vAssert(vXMLName(&v) == "SECRQ", "SecurityRequest is the element SECRQ")
	vAssert(vXMLRead(&v), "the tags of SecurityRequest do not conflict")
	vElement("SECID", &want.SecID)
	vElement("TICKER", &want.Ticker)
	vElement("FIID", &want.FiID)
	vAssert(same(v.SecID, want.SecID), "SecurityRequest.SecID is read from SECID")
	vAssert(same(v.Ticker, want.Ticker), "SecurityRequest.Ticker is read from TICKER")
	vAssert(same(v.FiID, want.FiID), "SecurityRequest.FiID is read from FIID")
	vAssert(same(v, want), "SecurityRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SecurityRequest do not conflict")
	vAssert(vWritten("SECID", &w.SecID), "SecurityRequest.SecID is written to SECID")
	vAssert(vWrittenIfSet("TICKER", &w.Ticker), "SecurityRequest.Ticker is written to TICKER")
	vAssert(vWrittenIfSet("FIID", &w.FiID), "SecurityRequest.FiID is written to FIID")
	vAssert(vAllWritten(), "SecurityRequest has no other elements")
}

func C26__ensures__c26SecurityRequest__elements() bool { return true }

func c26SecListRequest(w SecListRequest) {
	var v, want SecListRequest
	vAssert(vXMLName(&v) == "SECLISTTRNRQ", "SecListRequest is the element SECLISTTRNRQ")
	vAssert(vXMLRead(&v), "the tags of SecListRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("SECLISTRQ>SECRQ", &want.Securities)
	vAssert(same(v.TrnUID, want.TrnUID), "SecListRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "SecListRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "SecListRequest.TAN is read from TAN")
	vAssert(same(v.Securities, want.Securities), "SecListRequest.Securities is read from SECLISTRQ>SECRQ")
	vAssert(same(v, want), "SecListRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SecListRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "SecListRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "SecListRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "SecListRequest.TAN is written to TAN")
	vAssert(vWritten("SECLISTRQ>SECRQ", &w.Securities), "SecListRequest.Securities is written to SECLISTRQ>SECRQ")
	vAssert(vAllWritten(), "SecListRequest has no other elements")
}

func C26__ensures__c26SecListRequest__elements() bool { return true }

func c26SecListResponse(w SecListResponse) {
	var v, want SecListResponse
	vAssert(vXMLName(&v) == "SECLISTTRNRS", "SecListResponse is the element SECLISTTRNRS")
	vAssert(vXMLRead(&v), "the tags of SecListResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vAssert(same(v.TrnUID, want.TrnUID), "SecListResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "SecListResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "SecListResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v, want), "SecListResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SecListResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "SecListResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "SecListResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "SecListResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vAllWritten(), "SecListResponse has no other elements")
}

func C26__ensures__c26SecListResponse__elements() bool { return true }

func c26SecInfo(w SecInfo) {
	var v, want SecInfo
	vAssert(vXMLName(&v) == "SECINFO", "SecInfo is the element SECINFO")
	vAssert(vXMLRead(&v), "the tags of SecInfo do not conflict")
	vElement("SECID", &want.SecID)
	vElement("SECNAME", &want.SecName)
	vElement("TICKER", &want.Ticker)
	vElement("FIID", &want.FiID)
	vElement("RATING", &want.Rating)
	vElement("UNITPRICE", &want.UnitPrice)
	vElement("DTASOF", &want.DtAsOf)
	vElement("CURRENCY", &want.Currency)
	vElement("MEMO", &want.Memo)
	vAssert(same(v.SecID, want.SecID), "SecInfo.SecID is read from SECID")
	vAssert(same(v.SecName, want.SecName), "SecInfo.SecName is read from SECNAME")
	vAssert(same(v.Ticker, want.Ticker), "SecInfo.Ticker is read from TICKER")
	vAssert(same(v.FiID, want.FiID), "SecInfo.FiID is read from FIID")
	vAssert(same(v.Rating, want.Rating), "SecInfo.Rating is read from RATING")
	vAssert(same(v.UnitPrice, want.UnitPrice), "SecInfo.UnitPrice is read from UNITPRICE")
	vAssert(same(v.DtAsOf, want.DtAsOf), "SecInfo.DtAsOf is read from DTASOF")
	vAssert(same(v.Currency, want.Currency), "SecInfo.Currency is read from CURRENCY")
	vAssert(same(v.Memo, want.Memo), "SecInfo.Memo is read from MEMO")
	vAssert(same(v, want), "SecInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SecInfo do not conflict")
	vAssert(vWritten("SECID", &w.SecID), "SecInfo.SecID is written to SECID")
	vAssert(vWritten("SECNAME", &w.SecName), "SecInfo.SecName is written to SECNAME")
	vAssert(vWrittenIfSet("TICKER", &w.Ticker), "SecInfo.Ticker is written to TICKER")
	vAssert(vWrittenIfSet("FIID", &w.FiID), "SecInfo.FiID is written to FIID")
	vAssert(vWrittenIfSet("RATING", &w.Rating), "SecInfo.Rating is written to RATING")
	vAssert(vWritten("UNITPRICE", &w.UnitPrice), "SecInfo.UnitPrice is written to UNITPRICE")
	vAssert(vWritten("DTASOF", &w.DtAsOf), "SecInfo.DtAsOf is written to DTASOF")
	vAssert(vWritten("CURRENCY", &w.Currency), "SecInfo.Currency is written to CURRENCY")
	vAssert(vWrittenIfSet("MEMO", &w.Memo), "SecInfo.Memo is written to MEMO")
	vAssert(vAllWritten(), "SecInfo has no other elements")
}

func C26__ensures__c26SecInfo__elements() bool { return true }

func c26DebtInfo(w DebtInfo) {
	var v, want DebtInfo
	vAssert(vXMLName(&v) == "DEBTINFO", "DebtInfo is the element DEBTINFO")
	vAssert(vXMLRead(&v), "the tags of DebtInfo do not conflict")
	vElement("SECINFO", &want.SecInfo)
	vElement("PARVALUE", &want.ParValue)
	vElement("DEBTTYPE", &want.DebtType)
	vElement("DEBTCLASS", &want.DebtClass)
	vElement("COUPONRT", &want.CouponRate)
	vElement("DTCOUPON", &want.DtCoupon)
	vElement("COUPONFREQ", &want.CouponFreq)
	vElement("CALLPRICE", &want.CallPrice)
	vElement("YIELDTOCALL", &want.YieldToCall)
	vElement("DTCALL", &want.DtCall)
	vElement("CALLTYPE", &want.CallType)
	vElement("YIELDTOMAT", &want.YieldToMat)
	vElement("DTMAT", &want.DtMat)
	vElement("ASSETCLASS", &want.AssetClass)
	vElement("FIASSETCLASS", &want.FiAssetClass)
	vAssert(same(v.SecInfo, want.SecInfo), "DebtInfo.SecInfo is read from SECINFO")
	vAssert(same(v.ParValue, want.ParValue), "DebtInfo.ParValue is read from PARVALUE")
	vAssert(same(v.DebtType, want.DebtType), "DebtInfo.DebtType is read from DEBTTYPE")
	vAssert(same(v.DebtClass, want.DebtClass), "DebtInfo.DebtClass is read from DEBTCLASS")
	vAssert(same(v.CouponRate, want.CouponRate), "DebtInfo.CouponRate is read from COUPONRT")
	vAssert(same(v.DtCoupon, want.DtCoupon), "DebtInfo.DtCoupon is read from DTCOUPON")
	vAssert(same(v.CouponFreq, want.CouponFreq), "DebtInfo.CouponFreq is read from COUPONFREQ")
	vAssert(same(v.CallPrice, want.CallPrice), "DebtInfo.CallPrice is read from CALLPRICE")
	vAssert(same(v.YieldToCall, want.YieldToCall), "DebtInfo.YieldToCall is read from YIELDTOCALL")
	vAssert(same(v.DtCall, want.DtCall), "DebtInfo.DtCall is read from DTCALL")
	vAssert(same(v.CallType, want.CallType), "DebtInfo.CallType is read from CALLTYPE")
	vAssert(same(v.YieldToMat, want.YieldToMat), "DebtInfo.YieldToMat is read from YIELDTOMAT")
	vAssert(same(v.DtMat, want.DtMat), "DebtInfo.DtMat is read from DTMAT")
	vAssert(same(v.AssetClass, want.AssetClass), "DebtInfo.AssetClass is read from ASSETCLASS")
	vAssert(same(v.FiAssetClass, want.FiAssetClass), "DebtInfo.FiAssetClass is read from FIASSETCLASS")
	vAssert(same(v, want), "DebtInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of DebtInfo do not conflict")
	vAssert(vWritten("SECINFO", &w.SecInfo), "DebtInfo.SecInfo is written to SECINFO")
	vAssert(vWritten("PARVALUE", &w.ParValue), "DebtInfo.ParValue is written to PARVALUE")
	vAssert(vWritten("DEBTTYPE", &w.DebtType), "DebtInfo.DebtType is written to DEBTTYPE")
	vAssert(vWritten("DEBTCLASS", &w.DebtClass), "DebtInfo.DebtClass is written to DEBTCLASS")
	vAssert(vWritten("COUPONRT", &w.CouponRate), "DebtInfo.CouponRate is written to COUPONRT")
	vAssert(vWritten("DTCOUPON", &w.DtCoupon), "DebtInfo.DtCoupon is written to DTCOUPON")
	vAssert(vWritten("COUPONFREQ", &w.CouponFreq), "DebtInfo.CouponFreq is written to COUPONFREQ")
	vAssert(vWritten("CALLPRICE", &w.CallPrice), "DebtInfo.CallPrice is written to CALLPRICE")
	vAssert(vWritten("YIELDTOCALL", &w.YieldToCall), "DebtInfo.YieldToCall is written to YIELDTOCALL")
	vAssert(vWritten("DTCALL", &w.DtCall), "DebtInfo.DtCall is written to DTCALL")
	vAssert(vWritten("CALLTYPE", &w.CallType), "DebtInfo.CallType is written to CALLTYPE")
	vAssert(vWritten("YIELDTOMAT", &w.YieldToMat), "DebtInfo.YieldToMat is written to YIELDTOMAT")
	vAssert(vWritten("DTMAT", &w.DtMat), "DebtInfo.DtMat is written to DTMAT")
	vAssert(vWritten("ASSETCLASS", &w.AssetClass), "DebtInfo.AssetClass is written to ASSETCLASS")
	vAssert(vWrittenIfSet("FIASSETCLASS", &w.FiAssetClass), "DebtInfo.FiAssetClass is written to FIASSETCLASS")
	vAssert(vAllWritten(), "DebtInfo has no other elements")
}

func C26__ensures__c26DebtInfo__elements() bool { return true }

func c26AssetPortion(w AssetPortion) {
	var v, want AssetPortion
	vAssert(vXMLName(&v) == "PORTION", "AssetPortion is the element PORTION")
	vAssert(vXMLRead(&v), "the tags of AssetPortion do not conflict")
	vElement("ASSETCLASS", &want.AssetClass)
	vElement("PERCENT", &want.Percent)
	vAssert(same(v.AssetClass, want.AssetClass), "AssetPortion.AssetClass is read from ASSETCLASS")
	vAssert(same(v.Percent, want.Percent), "AssetPortion.Percent is read from PERCENT")
	vAssert(same(v, want), "AssetPortion has no other elements")
	vAssert(vXMLWrite(&w), "the tags of AssetPortion do not conflict")
	vAssert(vWritten("ASSETCLASS", &w.AssetClass), "AssetPortion.AssetClass is written to ASSETCLASS")
	vAssert(vWritten("PERCENT", &w.Percent), "AssetPortion.Percent is written to PERCENT")
	vAssert(vAllWritten(), "AssetPortion has no other elements")
}

func C26__ensures__c26AssetPortion__elements() bool { return true }

func c26FiAssetPortion(w FiAssetPortion) {
	var v, want FiAssetPortion
	vAssert(vXMLName(&v) == "FIPORTION", "FiAssetPortion is the element FIPORTION")
	vAssert(vXMLRead(&v), "the tags of FiAssetPortion do not conflict")
	vElement("FIASSETCLASS", &want.FiAssetClass)
	vElement("PERCENT", &want.Percent)
	vAssert(same(v.FiAssetClass, want.FiAssetClass), "FiAssetPortion.FiAssetClass is read from FIASSETCLASS")
	vAssert(same(v.Percent, want.Percent), "FiAssetPortion.Percent is read from PERCENT")
	vAssert(same(v, want), "FiAssetPortion has no other elements")
	vAssert(vXMLWrite(&w), "the tags of FiAssetPortion do not conflict")
	vAssert(vWrittenIfSet("FIASSETCLASS", &w.FiAssetClass), "FiAssetPortion.FiAssetClass is written to FIASSETCLASS")
	vAssert(vWritten("PERCENT", &w.Percent), "FiAssetPortion.Percent is written to PERCENT")
	vAssert(vAllWritten(), "FiAssetPortion has no other elements")
}

func C26__ensures__c26FiAssetPortion__elements() bool { return true }

func c26MFInfo(w MFInfo) {
	var v, want MFInfo
	vAssert(vXMLName(&v) == "MFINFO", "MFInfo is the element MFINFO")
	vAssert(vXMLRead(&v), "the tags of MFInfo do not conflict")
	vElement("SECINFO", &want.SecInfo)
	vElement("MFTYPE", &want.MfType)
	vElement("YIELD", &want.Yield)
	vElement("DTYIELDASOF", &want.DtYieldAsOf)
	vElement("MFASSETCLASS>PORTION", &want.AssetClasses)
	vElement("FIMFASSETCLASS>FIPORTION", &want.FiAssetClasses)
	vAssert(same(v.SecInfo, want.SecInfo), "MFInfo.SecInfo is read from SECINFO")
	vAssert(same(v.MfType, want.MfType), "MFInfo.MfType is read from MFTYPE")
	vAssert(same(v.Yield, want.Yield), "MFInfo.Yield is read from YIELD")
	vAssert(same(v.DtYieldAsOf, want.DtYieldAsOf), "MFInfo.DtYieldAsOf is read from DTYIELDASOF")
	vAssert(same(v.AssetClasses, want.AssetClasses), "MFInfo.AssetClasses is read from MFASSETCLASS>PORTION")
	vAssert(same(v.FiAssetClasses, want.FiAssetClasses), "MFInfo.FiAssetClasses is read from FIMFASSETCLASS>FIPORTION")
	vAssert(same(v, want), "MFInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of MFInfo do not conflict")
	vAssert(vWritten("SECINFO", &w.SecInfo), "MFInfo.SecInfo is written to SECINFO")
	vAssert(vWritten("MFTYPE", &w.MfType), "MFInfo.MfType is written to MFTYPE")
	vAssert(vWritten("YIELD", &w.Yield), "MFInfo.Yield is written to YIELD")
	vAssert(vWritten("DTYIELDASOF", &w.DtYieldAsOf), "MFInfo.DtYieldAsOf is written to DTYIELDASOF")
	vAssert(vWritten("MFASSETCLASS>PORTION", &w.AssetClasses), "MFInfo.AssetClasses is written to MFASSETCLASS>PORTION")
	vAssert(vWritten("FIMFASSETCLASS>FIPORTION", &w.FiAssetClasses), "MFInfo.FiAssetClasses is written to FIMFASSETCLASS>FIPORTION")
	vAssert(vAllWritten(), "MFInfo has no other elements")
}

func C26__ensures__c26MFInfo__elements() bool { return true }

func c26OptInfo(w OptInfo) {
	var v, want OptInfo
	vAssert(vXMLName(&v) == "OPTINFO", "OptInfo is the element OPTINFO")
	vAssert(vXMLRead(&v), "the tags of OptInfo do not conflict")
	vElement("SECINFO", &want.SecInfo)
	vElement("OPTTYPE", &want.OptType)
	vElement("STRIKEPRICE", &want.StrikePrice)
	vElement("DTEXPIRE", &want.DtExpire)
	vElement("SHPERCTRCT", &want.ShPerCtrct)
	vElement("SECID", &want.SecID)
	vElement("ASSETCLASS", &want.AssetClass)
	vElement("FIASSETCLASS", &want.FiAssetClass)
	vAssert(same(v.SecInfo, want.SecInfo), "OptInfo.SecInfo is read from SECINFO")
	vAssert(same(v.OptType, want.OptType), "OptInfo.OptType is read from OPTTYPE")
	vAssert(same(v.StrikePrice, want.StrikePrice), "OptInfo.StrikePrice is read from STRIKEPRICE")
	vAssert(same(v.DtExpire, want.DtExpire), "OptInfo.DtExpire is read from DTEXPIRE")
	vAssert(same(v.ShPerCtrct, want.ShPerCtrct), "OptInfo.ShPerCtrct is read from SHPERCTRCT")
	vAssert(same(v.SecID, want.SecID), "OptInfo.SecID is read from SECID")
	vAssert(same(v.AssetClass, want.AssetClass), "OptInfo.AssetClass is read from ASSETCLASS")
	vAssert(same(v.FiAssetClass, want.FiAssetClass), "OptInfo.FiAssetClass is read from FIASSETCLASS")
	vAssert(same(v, want), "OptInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OptInfo do not conflict")
	vAssert(vWritten("SECINFO", &w.SecInfo), "OptInfo.SecInfo is written to SECINFO")
	vAssert(vWritten("OPTTYPE", &w.OptType), "OptInfo.OptType is written to OPTTYPE")
	vAssert(vWritten("STRIKEPRICE", &w.StrikePrice), "OptInfo.StrikePrice is written to STRIKEPRICE")
	vAssert(vWritten("DTEXPIRE", &w.DtExpire), "OptInfo.DtExpire is written to DTEXPIRE")
	vAssert(vWritten("SHPERCTRCT", &w.ShPerCtrct), "OptInfo.ShPerCtrct is written to SHPERCTRCT")
	vAssert(vWritten("SECID", &w.SecID), "OptInfo.SecID is written to SECID")
	vAssert(vWritten("ASSETCLASS", &w.AssetClass), "OptInfo.AssetClass is written to ASSETCLASS")
	vAssert(vWrittenIfSet("FIASSETCLASS", &w.FiAssetClass), "OptInfo.FiAssetClass is written to FIASSETCLASS")
	vAssert(vAllWritten(), "OptInfo has no other elements")
}

func C26__ensures__c26OptInfo__elements() bool { return true }

func c26OtherInfo(w OtherInfo) {
	var v, want OtherInfo
	vAssert(vXMLName(&v) == "OTHERINFO", "OtherInfo is the element OTHERINFO")
	vAssert(vXMLRead(&v), "the tags of OtherInfo do not conflict")
	vElement("SECINFO", &want.SecInfo)
	vElement("TYPEDESC", &want.TypeDesc)
	vElement("ASSETCLASS", &want.AssetClass)
	vElement("FIASSETCLASS", &want.FiAssetClass)
	vAssert(same(v.SecInfo, want.SecInfo), "OtherInfo.SecInfo is read from SECINFO")
	vAssert(same(v.TypeDesc, want.TypeDesc), "OtherInfo.TypeDesc is read from TYPEDESC")
	vAssert(same(v.AssetClass, want.AssetClass), "OtherInfo.AssetClass is read from ASSETCLASS")
	vAssert(same(v.FiAssetClass, want.FiAssetClass), "OtherInfo.FiAssetClass is read from FIASSETCLASS")
	vAssert(same(v, want), "OtherInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of OtherInfo do not conflict")
	vAssert(vWritten("SECINFO", &w.SecInfo), "OtherInfo.SecInfo is written to SECINFO")
	vAssert(vWrittenIfSet("TYPEDESC", &w.TypeDesc), "OtherInfo.TypeDesc is written to TYPEDESC")
	vAssert(vWritten("ASSETCLASS", &w.AssetClass), "OtherInfo.AssetClass is written to ASSETCLASS")
	vAssert(vWrittenIfSet("FIASSETCLASS", &w.FiAssetClass), "OtherInfo.FiAssetClass is written to FIASSETCLASS")
	vAssert(vAllWritten(), "OtherInfo has no other elements")
}

func C26__ensures__c26OtherInfo__elements() bool { return true }

func c26StockInfo(w StockInfo) {
	var v, want StockInfo
	vAssert(vXMLName(&v) == "STOCKINFO", "StockInfo is the element STOCKINFO")
	vAssert(vXMLRead(&v), "the tags of StockInfo do not conflict")
	vElement("SECINFO", &want.SecInfo)
	vElement("STOCKTYPE", &want.StockType)
	vElement("YIELD", &want.Yield)
	vElement("DTYIELDASOF", &want.DtYieldAsOf)
	vElement("ASSETCLASS", &want.AssetClass)
	vElement("FIASSETCLASS", &want.FiAssetClass)
	vAssert(same(v.SecInfo, want.SecInfo), "StockInfo.SecInfo is read from SECINFO")
	vAssert(same(v.StockType, want.StockType), "StockInfo.StockType is read from STOCKTYPE")
	vAssert(same(v.Yield, want.Yield), "StockInfo.Yield is read from YIELD")
	vAssert(same(v.DtYieldAsOf, want.DtYieldAsOf), "StockInfo.DtYieldAsOf is read from DTYIELDASOF")
	vAssert(same(v.AssetClass, want.AssetClass), "StockInfo.AssetClass is read from ASSETCLASS")
	vAssert(same(v.FiAssetClass, want.FiAssetClass), "StockInfo.FiAssetClass is read from FIASSETCLASS")
	vAssert(same(v, want), "StockInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of StockInfo do not conflict")
	vAssert(vWritten("SECINFO", &w.SecInfo), "StockInfo.SecInfo is written to SECINFO")
	vAssert(vWritten("STOCKTYPE", &w.StockType), "StockInfo.StockType is written to STOCKTYPE")
	vAssert(vWritten("YIELD", &w.Yield), "StockInfo.Yield is written to YIELD")
	vAssert(vWritten("DTYIELDASOF", &w.DtYieldAsOf), "StockInfo.DtYieldAsOf is written to DTYIELDASOF")
	vAssert(vWritten("ASSETCLASS", &w.AssetClass), "StockInfo.AssetClass is written to ASSETCLASS")
	vAssert(vWrittenIfSet("FIASSETCLASS", &w.FiAssetClass), "StockInfo.FiAssetClass is written to FIASSETCLASS")
	vAssert(vAllWritten(), "StockInfo has no other elements")
}

func C26__ensures__c26StockInfo__elements() bool { return true }

func c26SignonRequest(w SignonRequest) {
	var v, want SignonRequest
	vAssert(vXMLName(&v) == "SONRQ", "SignonRequest is the element SONRQ")
	vAssert(vXMLRead(&v), "the tags of SignonRequest do not conflict")
	vElement("DTCLIENT", &want.DtClient)
	vElement("USERID", &want.UserID)
	vElement("USERPASS", &want.UserPass)
	vElement("USERKEY", &want.UserKey)
	vElement("GENUSERKEY", &want.GenUserKey)
	vElement("LANGUAGE", &want.Language)
	vElement("FI>ORG", &want.Org)
	vElement("FI>FID", &want.Fid)
	vElement("APPID", &want.AppID)
	vElement("APPVER", &want.AppVer)
	vElement("CLIENTUID", &want.ClientUID)
	vAssert(same(v.DtClient, want.DtClient), "SignonRequest.DtClient is read from DTCLIENT")
	vAssert(same(v.UserID, want.UserID), "SignonRequest.UserID is read from USERID")
	vAssert(same(v.UserPass, want.UserPass), "SignonRequest.UserPass is read from USERPASS")
	vAssert(same(v.UserKey, want.UserKey), "SignonRequest.UserKey is read from USERKEY")
	vAssert(same(v.GenUserKey, want.GenUserKey), "SignonRequest.GenUserKey is read from GENUSERKEY")
	vAssert(same(v.Language, want.Language), "SignonRequest.Language is read from LANGUAGE")
	vAssert(same(v.Org, want.Org), "SignonRequest.Org is read from FI>ORG")
	vAssert(same(v.Fid, want.Fid), "SignonRequest.Fid is read from FI>FID")
	vAssert(same(v.AppID, want.AppID), "SignonRequest.AppID is read from APPID")
	vAssert(same(v.AppVer, want.AppVer), "SignonRequest.AppVer is read from APPVER")
	vAssert(same(v.ClientUID, want.ClientUID), "SignonRequest.ClientUID is read from CLIENTUID")
	vAssert(same(v, want), "SignonRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SignonRequest do not conflict")
	vAssert(vWritten("DTCLIENT", &w.DtClient), "SignonRequest.DtClient is written to DTCLIENT")
	vAssert(vWritten("USERID", &w.UserID), "SignonRequest.UserID is written to USERID")
	vAssert(vWrittenIfSet("USERPASS", &w.UserPass), "SignonRequest.UserPass is written to USERPASS")
	vAssert(vWrittenIfSet("USERKEY", &w.UserKey), "SignonRequest.UserKey is written to USERKEY")
	vAssert(vWrittenIfSet("GENUSERKEY", &w.GenUserKey), "SignonRequest.GenUserKey is written to GENUSERKEY")
	vAssert(vWritten("LANGUAGE", &w.Language), "SignonRequest.Language is written to LANGUAGE")
	vAssert(vWritten("FI>ORG", &w.Org), "SignonRequest.Org is written to FI>ORG")
	vAssert(vWritten("FI>FID", &w.Fid), "SignonRequest.Fid is written to FI>FID")
	vAssert(vWritten("APPID", &w.AppID), "SignonRequest.AppID is written to APPID")
	vAssert(vWritten("APPVER", &w.AppVer), "SignonRequest.AppVer is written to APPVER")
	vAssert(vWrittenIfSet("CLIENTUID", &w.ClientUID), "SignonRequest.ClientUID is written to CLIENTUID")
	vAssert(vAllWritten(), "SignonRequest has no other elements")
}

func C26__ensures__c26SignonRequest__elements() bool { return true }

func c26SignonResponse(w SignonResponse) {
	var v, want SignonResponse
	vAssert(vXMLName(&v) == "SONRS", "SignonResponse is the element SONRS")
	vAssert(vXMLRead(&v), "the tags of SignonResponse do not conflict")
	vElement("STATUS", &want.Status)
	vElement("DTSERVER", &want.DtServer)
	vElement("USERKEY", &want.UserKey)
	vElement("TSKEYEXPIRE", &want.TsKeyExpire)
	vElement("LANGUAGE", &want.Language)
	vElement("DTPROFUP", &want.DtProfUp)
	vElement("DTACCTUP", &want.DtAcctUp)
	vElement("FI>ORG", &want.Org)
	vElement("FI>FID", &want.Fid)
	vElement("SESSCOOKIE", &want.SessCookie)
	vElement("ACCESSKEY", &want.AccessKey)
	vAssert(same(v.Status, want.Status), "SignonResponse.Status is read from STATUS")
	vAssert(same(v.DtServer, want.DtServer), "SignonResponse.DtServer is read from DTSERVER")
	vAssert(same(v.UserKey, want.UserKey), "SignonResponse.UserKey is read from USERKEY")
	vAssert(same(v.TsKeyExpire, want.TsKeyExpire), "SignonResponse.TsKeyExpire is read from TSKEYEXPIRE")
	vAssert(same(v.Language, want.Language), "SignonResponse.Language is read from LANGUAGE")
	vAssert(same(v.DtProfUp, want.DtProfUp), "SignonResponse.DtProfUp is read from DTPROFUP")
	vAssert(same(v.DtAcctUp, want.DtAcctUp), "SignonResponse.DtAcctUp is read from DTACCTUP")
	vAssert(same(v.Org, want.Org), "SignonResponse.Org is read from FI>ORG")
	vAssert(same(v.Fid, want.Fid), "SignonResponse.Fid is read from FI>FID")
	vAssert(same(v.SessCookie, want.SessCookie), "SignonResponse.SessCookie is read from SESSCOOKIE")
	vAssert(same(v.AccessKey, want.AccessKey), "SignonResponse.AccessKey is read from ACCESSKEY")
	vAssert(same(v, want), "SignonResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of SignonResponse do not conflict")
	vAssert(vWritten("STATUS", &w.Status), "SignonResponse.Status is written to STATUS")
	vAssert(vWritten("DTSERVER", &w.DtServer), "SignonResponse.DtServer is written to DTSERVER")
	vAssert(vWrittenIfSet("USERKEY", &w.UserKey), "SignonResponse.UserKey is written to USERKEY")
	vAssert(vWritten("TSKEYEXPIRE", &w.TsKeyExpire), "SignonResponse.TsKeyExpire is written to TSKEYEXPIRE")
	vAssert(vWritten("LANGUAGE", &w.Language), "SignonResponse.Language is written to LANGUAGE")
	vAssert(vWritten("DTPROFUP", &w.DtProfUp), "SignonResponse.DtProfUp is written to DTPROFUP")
	vAssert(vWritten("DTACCTUP", &w.DtAcctUp), "SignonResponse.DtAcctUp is written to DTACCTUP")
	vAssert(vWritten("FI>ORG", &w.Org), "SignonResponse.Org is written to FI>ORG")
	vAssert(vWritten("FI>FID", &w.Fid), "SignonResponse.Fid is written to FI>FID")
	vAssert(vWrittenIfSet("SESSCOOKIE", &w.SessCookie), "SignonResponse.SessCookie is written to SESSCOOKIE")
	vAssert(vWrittenIfSet("ACCESSKEY", &w.AccessKey), "SignonResponse.AccessKey is written to ACCESSKEY")
	vAssert(vAllWritten(), "SignonResponse has no other elements")
}

func C26__ensures__c26SignonResponse__elements() bool { return true }

func c26AcctInfoRequest(w AcctInfoRequest) {
	var v, want AcctInfoRequest
	vAssert(vXMLName(&v) == "ACCTINFOTRNRQ", "AcctInfoRequest is the element ACCTINFOTRNRQ")
	vAssert(vXMLRead(&v), "the tags of AcctInfoRequest do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("TAN", &want.TAN)
	vElement("ACCTINFORQ>DTACCTUP", &want.DtAcctUp)
	vAssert(same(v.TrnUID, want.TrnUID), "AcctInfoRequest.TrnUID is read from TRNUID")
	vAssert(same(v.CltCookie, want.CltCookie), "AcctInfoRequest.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.TAN, want.TAN), "AcctInfoRequest.TAN is read from TAN")
	vAssert(same(v.DtAcctUp, want.DtAcctUp), "AcctInfoRequest.DtAcctUp is read from ACCTINFORQ>DTACCTUP")
	vAssert(same(v, want), "AcctInfoRequest has no other elements")
	vAssert(vXMLWrite(&w), "the tags of AcctInfoRequest do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "AcctInfoRequest.TrnUID is written to TRNUID")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "AcctInfoRequest.CltCookie is written to CLTCOOKIE")
	vAssert(vWrittenIfSet("TAN", &w.TAN), "AcctInfoRequest.TAN is written to TAN")
	vAssert(vWritten("ACCTINFORQ>DTACCTUP", &w.DtAcctUp), "AcctInfoRequest.DtAcctUp is written to ACCTINFORQ>DTACCTUP")
	vAssert(vAllWritten(), "AcctInfoRequest has no other elements")
}

func C26__ensures__c26AcctInfoRequest__elements() bool { return true }

func c26HolderInfo(w HolderInfo) {
	var v, want HolderInfo
	vAssert(vXMLName(&v) == "", "HolderInfo is the element ")
	vAssert(vXMLRead(&v), "the tags of HolderInfo do not conflict")
	vElement("FIRSTNAME", &want.FirstName)
	vElement("MIDDLENAME", &want.MiddleName)
	vElement("LASTNAME", &want.LastName)
	vElement("ADDR1", &want.Addr1)
	vElement("ADDR2", &want.Addr2)
	vElement("ADDR3", &want.Addr3)
	vElement("CITY", &want.City)
	vElement("STATE", &want.State)
	vElement("POSTALCODE", &want.PostalCode)
	vElement("COUNTRY", &want.Country)
	vElement("DAYPHONE", &want.DayPhone)
	vElement("EVEPHONE", &want.EvePhone)
	vElement("EMAIL", &want.Email)
	vElement("HOLDERTYPE", &want.HolderType)
	vAssert(same(v.FirstName, want.FirstName), "HolderInfo.FirstName is read from FIRSTNAME")
	vAssert(same(v.MiddleName, want.MiddleName), "HolderInfo.MiddleName is read from MIDDLENAME")
	vAssert(same(v.LastName, want.LastName), "HolderInfo.LastName is read from LASTNAME")
	vAssert(same(v.Addr1, want.Addr1), "HolderInfo.Addr1 is read from ADDR1")
	vAssert(same(v.Addr2, want.Addr2), "HolderInfo.Addr2 is read from ADDR2")
	vAssert(same(v.Addr3, want.Addr3), "HolderInfo.Addr3 is read from ADDR3")
	vAssert(same(v.City, want.City), "HolderInfo.City is read from CITY")
	vAssert(same(v.State, want.State), "HolderInfo.State is read from STATE")
	vAssert(same(v.PostalCode, want.PostalCode), "HolderInfo.PostalCode is read from POSTALCODE")
	vAssert(same(v.Country, want.Country), "HolderInfo.Country is read from COUNTRY")
	vAssert(same(v.DayPhone, want.DayPhone), "HolderInfo.DayPhone is read from DAYPHONE")
	vAssert(same(v.EvePhone, want.EvePhone), "HolderInfo.EvePhone is read from EVEPHONE")
	vAssert(same(v.Email, want.Email), "HolderInfo.Email is read from EMAIL")
	vAssert(same(v.HolderType, want.HolderType), "HolderInfo.HolderType is read from HOLDERTYPE")
	vAssert(same(v, want), "HolderInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of HolderInfo do not conflict")
	vAssert(vWritten("FIRSTNAME", &w.FirstName), "HolderInfo.FirstName is written to FIRSTNAME")
	vAssert(vWrittenIfSet("MIDDLENAME", &w.MiddleName), "HolderInfo.MiddleName is written to MIDDLENAME")
	vAssert(vWritten("LASTNAME", &w.LastName), "HolderInfo.LastName is written to LASTNAME")
	vAssert(vWritten("ADDR1", &w.Addr1), "HolderInfo.Addr1 is written to ADDR1")
	vAssert(vWrittenIfSet("ADDR2", &w.Addr2), "HolderInfo.Addr2 is written to ADDR2")
	vAssert(vWrittenIfSet("ADDR3", &w.Addr3), "HolderInfo.Addr3 is written to ADDR3")
	vAssert(vWritten("CITY", &w.City), "HolderInfo.City is written to CITY")
	vAssert(vWritten("STATE", &w.State), "HolderInfo.State is written to STATE")
	vAssert(vWritten("POSTALCODE", &w.PostalCode), "HolderInfo.PostalCode is written to POSTALCODE")
	vAssert(vWrittenIfSet("COUNTRY", &w.Country), "HolderInfo.Country is written to COUNTRY")
	vAssert(vWrittenIfSet("DAYPHONE", &w.DayPhone), "HolderInfo.DayPhone is written to DAYPHONE")
	vAssert(vWrittenIfSet("EVEPHONE", &w.EvePhone), "HolderInfo.EvePhone is written to EVEPHONE")
	vAssert(vWrittenIfSet("EMAIL", &w.Email), "HolderInfo.Email is written to EMAIL")
	vAssert(vWritten("HOLDERTYPE", &w.HolderType), "HolderInfo.HolderType is written to HOLDERTYPE")
	vAssert(vAllWritten(), "HolderInfo has no other elements")
}

func C26__ensures__c26HolderInfo__elements() bool { return true }

func c26BankAcctInfo(w BankAcctInfo) {
	var v, want BankAcctInfo
	vAssert(vXMLName(&v) == "BANKACCTINFO", "BankAcctInfo is the element BANKACCTINFO")
	vAssert(vXMLRead(&v), "the tags of BankAcctInfo do not conflict")
	vElement("BANKACCTFROM", &want.BankAcctFrom)
	vElement("SUPTXDL", &want.SupTxDl)
	vElement("XFERSRC", &want.XferSrc)
	vElement("XFERDEST", &want.XferDest)
	vElement("MATURITYDATE", &want.MaturityDate)
	vElement("MATURITYAMOUNT", &want.MaturityAmt)
	vElement("MINBALREQ", &want.MinBalReq)
	vElement("ACCTCLASSIFICATION", &want.AcctClassification)
	vElement("OVERDRAFTLIMIT", &want.OverdraftLimit)
	vElement("SVCSTATUS", &want.SvcStatus)
	vAssert(same(v.BankAcctFrom, want.BankAcctFrom), "BankAcctInfo.BankAcctFrom is read from BANKACCTFROM")
	vAssert(same(v.SupTxDl, want.SupTxDl), "BankAcctInfo.SupTxDl is read from SUPTXDL")
	vAssert(same(v.XferSrc, want.XferSrc), "BankAcctInfo.XferSrc is read from XFERSRC")
	vAssert(same(v.XferDest, want.XferDest), "BankAcctInfo.XferDest is read from XFERDEST")
	vAssert(same(v.MaturityDate, want.MaturityDate), "BankAcctInfo.MaturityDate is read from MATURITYDATE")
	vAssert(same(v.MaturityAmt, want.MaturityAmt), "BankAcctInfo.MaturityAmt is read from MATURITYAMOUNT")
	vAssert(same(v.MinBalReq, want.MinBalReq), "BankAcctInfo.MinBalReq is read from MINBALREQ")
	vAssert(same(v.AcctClassification, want.AcctClassification), "BankAcctInfo.AcctClassification is read from ACCTCLASSIFICATION")
	vAssert(same(v.OverdraftLimit, want.OverdraftLimit), "BankAcctInfo.OverdraftLimit is read from OVERDRAFTLIMIT")
	vAssert(same(v.SvcStatus, want.SvcStatus), "BankAcctInfo.SvcStatus is read from SVCSTATUS")
	vAssert(same(v, want), "BankAcctInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of BankAcctInfo do not conflict")
	vAssert(vWritten("BANKACCTFROM", &w.BankAcctFrom), "BankAcctInfo.BankAcctFrom is written to BANKACCTFROM")
	vAssert(vWritten("SUPTXDL", &w.SupTxDl), "BankAcctInfo.SupTxDl is written to SUPTXDL")
	vAssert(vWritten("XFERSRC", &w.XferSrc), "BankAcctInfo.XferSrc is written to XFERSRC")
	vAssert(vWritten("XFERDEST", &w.XferDest), "BankAcctInfo.XferDest is written to XFERDEST")
	vAssert(vWritten("MATURITYDATE", &w.MaturityDate), "BankAcctInfo.MaturityDate is written to MATURITYDATE")
	vAssert(vWritten("MATURITYAMOUNT", &w.MaturityAmt), "BankAcctInfo.MaturityAmt is written to MATURITYAMOUNT")
	vAssert(vWritten("MINBALREQ", &w.MinBalReq), "BankAcctInfo.MinBalReq is written to MINBALREQ")
	vAssert(vWritten("ACCTCLASSIFICATION", &w.AcctClassification), "BankAcctInfo.AcctClassification is written to ACCTCLASSIFICATION")
	vAssert(vWritten("OVERDRAFTLIMIT", &w.OverdraftLimit), "BankAcctInfo.OverdraftLimit is written to OVERDRAFTLIMIT")
	vAssert(vWritten("SVCSTATUS", &w.SvcStatus), "BankAcctInfo.SvcStatus is written to SVCSTATUS")
	vAssert(vAllWritten(), "BankAcctInfo has no other elements")
}

func C26__ensures__c26BankAcctInfo__elements() bool { return true }

func c26CCAcctInfo(w CCAcctInfo) {
	var v, want CCAcctInfo
	vAssert(vXMLName(&v) == "CCACCTINFO", "CCAcctInfo is the element CCACCTINFO")
	vAssert(vXMLRead(&v), "the tags of CCAcctInfo do not conflict")
	vElement("CCACCTFROM", &want.CCAcctFrom)
	vElement("SUPTXDL", &want.SupTxDl)
	vElement("XFERSRC", &want.XferSrc)
	vElement("XFERDEST", &want.XferDest)
	vElement("ACCTCLASSIFICATION", &want.AcctClassification)
	vElement("SVCSTATUS", &want.SvcStatus)
	vAssert(same(v.CCAcctFrom, want.CCAcctFrom), "CCAcctInfo.CCAcctFrom is read from CCACCTFROM")
	vAssert(same(v.SupTxDl, want.SupTxDl), "CCAcctInfo.SupTxDl is read from SUPTXDL")
	vAssert(same(v.XferSrc, want.XferSrc), "CCAcctInfo.XferSrc is read from XFERSRC")
	vAssert(same(v.XferDest, want.XferDest), "CCAcctInfo.XferDest is read from XFERDEST")
	vAssert(same(v.AcctClassification, want.AcctClassification), "CCAcctInfo.AcctClassification is read from ACCTCLASSIFICATION")
	vAssert(same(v.SvcStatus, want.SvcStatus), "CCAcctInfo.SvcStatus is read from SVCSTATUS")
	vAssert(same(v, want), "CCAcctInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of CCAcctInfo do not conflict")
	vAssert(vWritten("CCACCTFROM", &w.CCAcctFrom), "CCAcctInfo.CCAcctFrom is written to CCACCTFROM")
	vAssert(vWritten("SUPTXDL", &w.SupTxDl), "CCAcctInfo.SupTxDl is written to SUPTXDL")
	vAssert(vWritten("XFERSRC", &w.XferSrc), "CCAcctInfo.XferSrc is written to XFERSRC")
	vAssert(vWritten("XFERDEST", &w.XferDest), "CCAcctInfo.XferDest is written to XFERDEST")
	vAssert(vWritten("ACCTCLASSIFICATION", &w.AcctClassification), "CCAcctInfo.AcctClassification is written to ACCTCLASSIFICATION")
	vAssert(vWritten("SVCSTATUS", &w.SvcStatus), "CCAcctInfo.SvcStatus is written to SVCSTATUS")
	vAssert(vAllWritten(), "CCAcctInfo has no other elements")
}

func C26__ensures__c26CCAcctInfo__elements() bool { return true }

func c26InvAcctInfo(w InvAcctInfo) {
	var v, want InvAcctInfo
	vAssert(vXMLName(&v) == "INVACCTINFO", "InvAcctInfo is the element INVACCTINFO")
	vAssert(vXMLRead(&v), "the tags of InvAcctInfo do not conflict")
	vElement("INVACCTFROM", &want.InvAcctFrom)
	vElement("USPRODUCTTYPE", &want.UsProductType)
	vElement("CHECKING", &want.Checking)
	vElement("SVCSTATUS", &want.SvcStatus)
	vElement("INVACCTTYPE", &want.InvAcctType)
	vElement("OPTIONLEVEL", &want.OptionLevel)
	vAssert(same(v.InvAcctFrom, want.InvAcctFrom), "InvAcctInfo.InvAcctFrom is read from INVACCTFROM")
	vAssert(same(v.UsProductType, want.UsProductType), "InvAcctInfo.UsProductType is read from USPRODUCTTYPE")
	vAssert(same(v.Checking, want.Checking), "InvAcctInfo.Checking is read from CHECKING")
	vAssert(same(v.SvcStatus, want.SvcStatus), "InvAcctInfo.SvcStatus is read from SVCSTATUS")
	vAssert(same(v.InvAcctType, want.InvAcctType), "InvAcctInfo.InvAcctType is read from INVACCTTYPE")
	vAssert(same(v.OptionLevel, want.OptionLevel), "InvAcctInfo.OptionLevel is read from OPTIONLEVEL")
	vAssert(same(v, want), "InvAcctInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of InvAcctInfo do not conflict")
	vAssert(vWritten("INVACCTFROM", &w.InvAcctFrom), "InvAcctInfo.InvAcctFrom is written to INVACCTFROM")
	vAssert(vWritten("USPRODUCTTYPE", &w.UsProductType), "InvAcctInfo.UsProductType is written to USPRODUCTTYPE")
	vAssert(vWritten("CHECKING", &w.Checking), "InvAcctInfo.Checking is written to CHECKING")
	vAssert(vWritten("SVCSTATUS", &w.SvcStatus), "InvAcctInfo.SvcStatus is written to SVCSTATUS")
	vAssert(vWritten("INVACCTTYPE", &w.InvAcctType), "InvAcctInfo.InvAcctType is written to INVACCTTYPE")
	vAssert(vWrittenIfSet("OPTIONLEVEL", &w.OptionLevel), "InvAcctInfo.OptionLevel is written to OPTIONLEVEL")
	vAssert(vAllWritten(), "InvAcctInfo has no other elements")
}

func C26__ensures__c26InvAcctInfo__elements() bool { return true }

func c26AcctInfo(w AcctInfo) {
	var v, want AcctInfo
	vAssert(vXMLName(&v) == "ACCTINFO", "AcctInfo is the element ACCTINFO")
	vAssert(vXMLRead(&v), "the tags of AcctInfo do not conflict")
	vElement("NAME", &want.Name)
	vElement("DESC", &want.Desc)
	vElement("PHONE", &want.Phone)
	vElement("HOLDERINFO>PRIMARYHOLDER", &want.PrimaryHolder)
	vElement("HOLDERINFO>SECONDARYHOLDER", &want.SecondaryHolder)
	vElement("BANKACCTINFO", &want.BankAcctInfo)
	vElement("CCACCTINFO", &want.CCAcctInfo)
	vElement("INVACCTINFO", &want.InvAcctInfo)
	vAssert(same(v.Name, want.Name), "AcctInfo.Name is read from NAME")
	vAssert(same(v.Desc, want.Desc), "AcctInfo.Desc is read from DESC")
	vAssert(same(v.Phone, want.Phone), "AcctInfo.Phone is read from PHONE")
	vAssert(same(v.PrimaryHolder, want.PrimaryHolder), "AcctInfo.PrimaryHolder is read from HOLDERINFO>PRIMARYHOLDER")
	vAssert(same(v.SecondaryHolder, want.SecondaryHolder), "AcctInfo.SecondaryHolder is read from HOLDERINFO>SECONDARYHOLDER")
	vAssert(same(v.BankAcctInfo, want.BankAcctInfo), "AcctInfo.BankAcctInfo is read from BANKACCTINFO")
	vAssert(same(v.CCAcctInfo, want.CCAcctInfo), "AcctInfo.CCAcctInfo is read from CCACCTINFO")
	vAssert(same(v.InvAcctInfo, want.InvAcctInfo), "AcctInfo.InvAcctInfo is read from INVACCTINFO")
	vAssert(same(v, want), "AcctInfo has no other elements")
	vAssert(vXMLWrite(&w), "the tags of AcctInfo do not conflict")
	vAssert(vWrittenIfSet("NAME", &w.Name), "AcctInfo.Name is written to NAME")
	vAssert(vWrittenIfSet("DESC", &w.Desc), "AcctInfo.Desc is written to DESC")
	vAssert(vWrittenIfSet("PHONE", &w.Phone), "AcctInfo.Phone is written to PHONE")
	vAssert(vWritten("HOLDERINFO>PRIMARYHOLDER", &w.PrimaryHolder), "AcctInfo.PrimaryHolder is written to HOLDERINFO>PRIMARYHOLDER")
	vAssert(vWritten("HOLDERINFO>SECONDARYHOLDER", &w.SecondaryHolder), "AcctInfo.SecondaryHolder is written to HOLDERINFO>SECONDARYHOLDER")
	vAssert(vWritten("BANKACCTINFO", &w.BankAcctInfo), "AcctInfo.BankAcctInfo is written to BANKACCTINFO")
	vAssert(vWritten("CCACCTINFO", &w.CCAcctInfo), "AcctInfo.CCAcctInfo is written to CCACCTINFO")
	vAssert(vWritten("INVACCTINFO", &w.InvAcctInfo), "AcctInfo.InvAcctInfo is written to INVACCTINFO")
	vAssert(vAllWritten(), "AcctInfo has no other elements")
}

func C26__ensures__c26AcctInfo__elements() bool { return true }

func c26AcctInfoResponse(w AcctInfoResponse) {
	var v, want AcctInfoResponse
	vAssert(vXMLName(&v) == "ACCTINFOTRNRS", "AcctInfoResponse is the element ACCTINFOTRNRS")
	vAssert(vXMLRead(&v), "the tags of AcctInfoResponse do not conflict")
	vElement("TRNUID", &want.TrnUID)
	vElement("STATUS", &want.Status)
	vElement("CLTCOOKIE", &want.CltCookie)
	vElement("ACCTINFORS>DTACCTUP", &want.DtAcctUp)
	vElement("ACCTINFORS>ACCTINFO", &want.AcctInfo)
	vAssert(same(v.TrnUID, want.TrnUID), "AcctInfoResponse.TrnUID is read from TRNUID")
	vAssert(same(v.Status, want.Status), "AcctInfoResponse.Status is read from STATUS")
	vAssert(same(v.CltCookie, want.CltCookie), "AcctInfoResponse.CltCookie is read from CLTCOOKIE")
	vAssert(same(v.DtAcctUp, want.DtAcctUp), "AcctInfoResponse.DtAcctUp is read from ACCTINFORS>DTACCTUP")
	vAssert(same(v.AcctInfo, want.AcctInfo), "AcctInfoResponse.AcctInfo is read from ACCTINFORS>ACCTINFO")
	vAssert(same(v, want), "AcctInfoResponse has no other elements")
	vAssert(vXMLWrite(&w), "the tags of AcctInfoResponse do not conflict")
	vAssert(vWritten("TRNUID", &w.TrnUID), "AcctInfoResponse.TrnUID is written to TRNUID")
	vAssert(vWritten("STATUS", &w.Status), "AcctInfoResponse.Status is written to STATUS")
	vAssert(vWrittenIfSet("CLTCOOKIE", &w.CltCookie), "AcctInfoResponse.CltCookie is written to CLTCOOKIE")
	vAssert(vWritten("ACCTINFORS>DTACCTUP", &w.DtAcctUp), "AcctInfoResponse.DtAcctUp is written to ACCTINFORS>DTACCTUP")
	vAssert(vWritten("ACCTINFORS>ACCTINFO", &w.AcctInfo), "AcctInfoResponse.AcctInfo is written to ACCTINFORS>ACCTINFO")
	vAssert(vAllWritten(), "AcctInfoResponse has no other elements")
}

func C26__ensures__c26AcctInfoResponse__elements() bool { return true }
