//go:build go1.21

package ofxgo

// Leaf elements of SGML documents may be left unclosed: every element is read
// by a decoder which closes all of them by itself, and no aggregate.

//govc:use MSG
//govc:trusted the XML library: a decoder which is not strict closes an element of AutoCloseAfterCharData at the next token which is neither text nor its closing tag, and so reads the same with and without its closing tag; an encoder leaves out the closing tags of the elements it is told to

import "github.com/aclindsa/xml"

// vListed says that all the words of a text are in a list, vUnlisted that none
// is, in capitals or not.
func vListed(l []string, words string) bool   { return false }
func vUnlisted(l []string, words string) bool { return false }

// c27leaves are the elements of OFX 1.0.3 to 1.6 without children which the
// package decodes.
const c27leaves = "" +
	"ACCESSKEY ACCRDINT ACCTID ACCTKEY ACCTTYPE ADDR1 ADDR2 ADDR3 APPID APPVER ASSETCLASS AUCTION " +
	"AUTHTOKENFIRST AUTHTOKENINFOURL AUTHTOKENLABEL AVAILCASH AVGCOSTBASIS BALAMT BALTYPE BANKID BRANCHID " +
	"BROKERID BUYPOWER BUYTYPE CALLPRICE CALLTYPE CASESEN CHARTYPE CHECKING CHECKNUM CHGPINFIRST CITY " +
	"CLIENTROUTING CLIENTUID CLIENTUIDREQ CLTCOOKIE CODE COMMISSION CORRECTACTION CORRECTFITID COUNTRY " +
	"COUPONFREQ COUPONRT CSPHONE CURDEF CURRATE CURSYM DAYPHONE DEBTCLASS DEBTTYPE DENOMINATOR DESC " +
	"DTACCTUP DTASOF DTAUCTION DTAVAIL DTCALL DTCLIENT DTCOUPON DTEND DTEXPIRE DTMAT DTPLACED DTPOSTED " +
	"DTPRICEASOF DTPROFUP DTPURCHASE DTSERVER DTSETTLE DTSTART DTTRADE DTUSER DTYIELDASOF DURATION EMAIL " +
	"EVEPHONE FAXPHONE FEES FIASSETCLASS FID FIID FINAME FIRSTNAME FITID FRACCASH GAIN GENUSERKEY " +
	"HELDINACCT INCBAL INCLUDE INCOMETYPE INCOO INVACCTTYPE LANGUAGE LASTNAME LIMITPRICE LOAD " +
	"MARGINBALANCE MARKDOWN MARKUP MAX MEMO MESSAGE MFACHALLENGEFIRST MFACHALLENGESUPT MFTYPE MIDDLENAME " +
	"MIN MINUNITS MKTGINFO MKTVAL NAME NEWUNITS NUMERATOR OFXSEC OLDUNITS OPTACTION OPTBUYTYPE " +
	"OPTIONLEVEL OPTSELLTYPE OPTTYPE ORG PARVALUE PAYEEID PERCENT PHONE PINCH POSTALCODE POSTYPE RATING " +
	"REFNUM REFRESHSUPT REINVCG REINVDIV RELFITID RELTYPE RESPFILEER RESTRICTION SECNAME SECURED SELLALL " +
	"SELLREASON SELLTYPE SESSCOOKIE SEVERITY SHORTBALANCE SHPERCTRCT SIC SIGNONREALM SPACES SPECIAL " +
	"SPNAME SRVRTID STATE STOCKTYPE STOPPRICE STRIKEPRICE SUBACCT SUBACCTFROM SUBACCTFUND SUBACCTSEC " +
	"SUBACCTTO SUPTXDL SVCSTATUS SWITCHALL SYNCMODE TAN TAXES TAXEXEMPT TFERACTION TICKER TOTAL TRANSPSEC " +
	"TRNAMT TRNTYPE TRNUID TSKEYEXPIRE TSPHONE TYPEDESC UNIQUEID UNIQUEIDTYPE UNITPRICE UNITS UNITSSTREET " +
	"UNITSUSER UNITTYPE URL USERCRED1LABEL USERCRED2LABEL USERID USERKEY USERPASS USPRODUCTTYPE VALUE VER " +
	"WITHHOLDING XFERDEST XFERSRC YIELD YIELDTOCALL YIELDTOMAT "

// c27aggregates are the elements with children which the package decodes.
const c27aggregates = "" +
	"ACCTINFO ACCTINFORQ ACCTINFORS ACCTINFOTRNRQ ACCTINFOTRNRS AVAILBAL BAL BALLIST BANKACCTFROM " +
	"BANKACCTINFO BANKACCTTO BANKMSGSRQV1 BANKMSGSRSV1 BANKTRANLIST BANKTRANLISTP BILLPAYMSGSRQV1 " +
	"BILLPAYMSGSRSV1 BUYDEBT BUYMF BUYOPT BUYOTHER BUYSTOCK CCACCTFROM CCACCTINFO CCACCTTO CCSTMTRQ " +
	"CCSTMTRS CCSTMTTRNRQ CCSTMTTRNRS CLOSUREOPT CONTRIBINFO CONTRIBSECURITY CONTRIBUTIONS " +
	"CREDITCARDMSGSRQV1 CREDITCARDMSGSRSV1 CURRENCY DEBTINFO EARNINGS EMAILMSGSRQV1 EMAILMSGSRSV1 FI " +
	"FIMFASSETCLASS FIPORTION HOLDERINFO IMAGEDATA IMAGEMSGSRQV1 IMAGEMSGSRSV1 INCEPTODATE INCOME INCPOS " +
	"INCTRAN INTERXFERMSGSRQV1 INTERXFERMSGSRSV1 INV401K INV401KBAL INV401KSUMMARY INVACCTFROM " +
	"INVACCTINFO INVBAL INVBANKTRAN INVBUY INVEXPENSE INVOOLIST INVPOS INVPOSLIST INVSELL INVSTMTMSGSRQV1 " +
	"INVSTMTMSGSRSV1 INVSTMTRQ INVSTMTRS INVSTMTTRNRQ INVSTMTTRNRS INVTRAN INVTRANLIST JRNLFUND JRNLSEC " +
	"LEDGERBAL LOANINFO LOANMSGSRQV1 LOANMSGSRSV1 MARGININTEREST MATCHINFO MFASSETCLASS MFINFO MSGSETCORE " +
	"MSGSETLIST OFX OO OOBUYDEBT OOBUYMF OOBUYOPT OOBUYOTHER OOBUYSTOCK OOSELLDEBT OOSELLMF OOSELLOPT " +
	"OOSELLOTHER OOSELLSTOCK OPTINFO ORIGCURRENCY OTHERINFO PAYEE PERIODTODATE PORTION POSDEBT POSMF " +
	"POSOPT POSOTHER POSSTOCK PRESDIRMSGSRQV1 PRESDIRMSGSRSV1 PRESDLVMSGSRQV1 PRESDLVMSGSRSV1 " +
	"PRIMARYHOLDER PROFMSGSRQV1 PROFMSGSRSV1 PROFRQ PROFRS PROFTRNRQ PROFTRNRS REINVEST RETOFCAP " +
	"REWARDINFO SECID SECINFO SECLIST SECLISTMSGSRQV1 SECLISTMSGSRSV1 SECLISTRQ SECLISTTRNRQ SECLISTTRNRS " +
	"SECONDARYHOLDER SECRQ SELLDEBT SELLMF SELLOPT SELLOTHER SELLSTOCK SIGNONINFO SIGNONINFOLIST " +
	"SIGNONMSGSRQV1 SIGNONMSGSRSV1 SIGNUPMSGSRQV1 SIGNUPMSGSRSV1 SONRQ SONRS SPLIT STATUS STMTRQ STMTRS " +
	"STMTTRN STMTTRNP STMTTRNRQ STMTTRNRS STOCKINFO SWITCHMF TRANSFER VESTINFO WIREXFERMSGSRQV1 " +
	"WIREXFERMSGSRSV1 WITHDRAWALS YEARTODATE "

var (
	g27Strict  bool // something has been read by a strict decoder
	g27Missing bool // or by one which does not know all leaf elements
	g27Read    bool
)

func c27read(d *xml.Decoder) {
	g27Read = true
	if d.Strict {
		g27Strict = true
		return
	}
	vAssert(vUnlisted(d.AutoCloseAfterCharData, c27aggregates), "no aggregate is taken for a leaf element")
	vAssert(vUnlisted(d.AutoClose, c27aggregates) && vUnlisted(d.AutoClose, c27leaves), "no element is closed before its text")
	if vPure(func() bool { return !vListed(d.AutoCloseAfterCharData, c27leaves) }) {
		g27Missing = true
	}
}

func C27__before__nextNonWhitespaceToken__lenient(p0 *xml.Decoder)    { c27read(p0) }
func C27__before__decodeMessageSet__lenient(p0 *xml.Decoder)          { c27read(p0) }
func C27__before__xml_Decoder_Token__lenient(p0 *xml.Decoder)         { c27read(p0) }
func C27__before__xml_Decoder_RawToken__lenient(p0 *xml.Decoder)      { vGiveUp("reading raw tokens") }
func C27__before__xml_Decoder_Decode__lenient(p0 *xml.Decoder)        { c27read(p0) }
func C27__before__xml_Decoder_DecodeElement__lenient(p0 *xml.Decoder) { c27read(p0) }

// The headers of SGML documents name versions up to 160, those of XML
// documents versions from 200 (C07).

func C27__assume__Response_readSGMLHeaders__version(p0 *Response, r0 error) bool {
	return r0 != nil || p0.Version <= OfxVersion160
}
func C27__modifies__Response_readSGMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}
func C27__assume__Response_readXMLHeaders__version(p0 *Response, r0 error) bool {
	return r0 != nil || p0.Version >= OfxVersion200
}
func C27__modifies__Response_readXMLHeaders__version(p0 *Response) []interface{} {
	return []interface{}{&p0.Version}
}
func C27__assume__guessVersion__any(r0 bool, r1 error) bool { return true }

// Neither reading a token nor a message set changes the decoder.

func C27__contract__nextNonWhitespaceToken__decoder(p0 *xml.Decoder, o0 xml.Decoder) bool {
	return p0.Strict == o0.Strict
}

func C27__contract__decodeMessageSet__decoder(p0 *xml.Decoder, o0 xml.Decoder) bool {
	return p0.Strict == o0.Strict
}
func C27__modifies__decodeMessageSet__messages(p2 *[]Message) []interface{} {
	return []interface{}{p2}
}

func C27__ensures__DecodeResponse__lenient(r0 *Response, r1 error) bool {
	return r1 != nil || r0.Version > OfxVersion160 || g27Read && !g27Strict && !g27Missing
}

// The elements left unclosed when writing are no aggregates.

func C27__before__xml_Encoder_SetDisableAutoClose__leaves(p1 []string) {
	vAssert(vUnlisted(p1, c27aggregates), "the closing tag of no aggregate is left out")
}
func C27__requires__Request_Marshal__noNil(p0 *Request) bool { return msgRequestNoNil(p0) }
func C27__ensures__Request_Marshal__leaves() bool            { return true }
func C27__assume__SignonRequest_Valid__any() bool            { return true }
func C27__modifies__SignonRequest_Valid__language(p0 *SignonRequest) []interface{} {
	return []interface{}{&p0.Language}
}
