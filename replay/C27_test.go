//go:build go1.21

package ofxgo_test

//replay:use list_test.go fill_test.go valid_test.go C16_test.go export_test.go

import (
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/aclindsa/ofxgo"
)

const c27leaves = "" +
	"ACCESSKEY ACCRDINT ACCTID ACCTKEY ACCTTYPE ADDR1 ADDR2 ADDR3 APPID APPVER ASSETCLASS AUCTION " +
	"AUTHTOKENFIRST AUTHTOKENINFOURL AUTHTOKENLABEL AVAILCASH AVGCOSTBASIS BALAMT BALTYPE BANKID BRANCHID " +
	"BROKERID BUYPOWER BUYTYPE CALLPRICE CALLTYPE CASESEN CHARTYPE CHECKING CHECKNUM CHGPINFIRST CITY " +
	"CLIENTROUTING CLIENTUID CLIENTUIDREQ CLTCOOKIE CODE COMMISSION CORRECTACTION CORRECTFITID COUNTRY " +
	"COUPONFREQ COUPONRT CSPHONE CURDEF CURRATE CURSYM DAYPHONE DEBTCLASS DEBTTYPE DENOMINATOR DESC " +
	"DTACCTUP DTASOF DTAUCTION DTAVAIL DTCALL DTCLIENT DTCOUPON DTEND DTEXPIRE DTMAT DTPLACED DTPOSTED " +
	"DTPRICEASOF DTPROFUP DTPURCHASE DTSERVER DTSETTLE DTSTART DTTRADE DTUSER DTYIELDASOF DURATION EMAIL " +
	"EVEPHONE FAXPHONE FEES FIASSETCLASS FID FIID FINAME FIRSTNAME FITID FRACCASH GAIN GENUSERKEY " +
	"HELDINACCT INCBAL INCLUDE INCOMETYPE INCOO INVACCTTYPE LANGUAGE LASTNAME LIMITPRICE LOAD " +
	"MARGINBALANCE MARKDOWN MARKUP MAX MEMO MESSAGE MFACHALLENGEFIRST MFACHALLENGESUPT MFTYPE MIDDLENAME " +
	"MIN MINUNITS MKTGINFO MKTVAL NAME NEWUNITS NUMERATOR OFXSEC OLDUNITS OPTACTION OPTBUYTYPE " +
	"OPTIONLEVEL OPTSELLTYPE OPTTYPE ORG PARVALUE PAYEEID PERCENT PHONE PINCH POSTALCODE POSTYPE RATING " +
	"REFNUM REFRESHSUPT REINVCG REINVDIV RELFITID RELTYPE RESPFILEER RESTRICTION SECNAME SECURED SELLALL " +
	"SELLREASON SELLTYPE SESSCOOKIE SEVERITY SHORTBALANCE SHPERCTRCT SIC SIGNONREALM SPACES SPECIAL " +
	"SPNAME SRVRTID STATE STOCKTYPE STOPPRICE STRIKEPRICE SUBACCT SUBACCTFROM SUBACCTFUND SUBACCTSEC " +
	"SUBACCTTO SUPTXDL SVCSTATUS SWITCHALL SYNCMODE TAN TAXES TAXEXEMPT TFERACTION TICKER TOTAL TRANSPSEC " +
	"TRNAMT TRNTYPE TRNUID TSKEYEXPIRE TSPHONE TYPEDESC UNIQUEID UNIQUEIDTYPE UNITPRICE UNITS UNITSSTREET " +
	"UNITSUSER UNITTYPE URL USERCRED1LABEL USERCRED2LABEL USERID USERKEY USERPASS USPRODUCTTYPE VALUE VER " +
	"WITHHOLDING XFERDEST XFERSRC YIELD YIELDTOCALL YIELDTOMAT "

func TestReplayC27(t *testing.T) {
	rnd := newRand()
	isLeaf := map[string]bool{}
	for _, l := range strings.Fields(c27leaves) {
		isLeaf[l] = true
	}
	sets := strings.Fields("SIGNUP BANK CREDITCARD INVSTMT SECLIST SECLIST PROF")
	tags := strings.Fields("ACCTINFOTRNRS STMTTRNRS CCSTMTTRNRS INVSTMTTRNRS SECLISTTRNRS SECLIST PROFTRNRS")
	kinds := []interface{}{ofxgo.AcctInfoResponse{}, ofxgo.StatementResponse{}, ofxgo.CCStatementResponse{}, ofxgo.InvStatementResponse{}, ofxgo.SecListResponse{}, ofxgo.SecurityList{}, ofxgo.ProfileResponse{}}
	head := "OFXHEADER:100\r\nDATA:OFXSGML\r\nVERSION:160\r\nSECURITY:NONE\r\nENCODING:USASCII\r\nCHARSET:1252\r\nCOMPRESSION:NONE\r\nOLDFILEUID:NONE\r\nNEWFILEUID:NONE\r\n\r\n"
	closing := regexp.MustCompile("</([A-Z0-9.]+)>")
	seen := map[string]bool{}
	for i := 0; i < rounds(300, 4000); i++ {
		k := i % len(kinds)
		p := reflect.New(reflect.TypeOf(kinds[k]))
		fill(rnd, p.Interface(), (i/len(kinds))%4)
		body, err := encodeAs(p.Interface(), tags[k])
		q := reflect.New(reflect.TypeOf(kinds[k])).Interface()
		if err != nil || decodeFrom(body, q) != nil {
			continue
		}
		var son ofxgo.SignonResponse
		fill(rnd, &son, i%4)
		s, err := encodeAs(&son, "SONRS")
		if err != nil || decodeFrom(s, &ofxgo.SignonResponse{}) != nil {
			continue
		}
		doc := head + "<OFX><SIGNONMSGSRSV1>" + s + "</SIGNONMSGSRSV1><" + sets[k] + "MSGSRSV1>" + body + "</" + sets[k] + "MSGSRSV1></OFX>"
		some := i%3 == 2
		open := closing.ReplaceAllStringFunc(doc, func(x string) string {
			n := x[2 : len(x)-1]
			if !isLeaf[n] || some && rnd.Intn(2) == 0 {
				return x
			}
			seen[n] = true
			return []string{"", "\n", "\r\n"}[i%2*rnd.Intn(3)]
		})
		a, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		if err != nil {
			failing(t, "%s cannot be read: %v", doc, err)
			continue
		}
		b, err := ofxgo.DecodeResponse(strings.NewReader(open))
		cases++
		if err != nil {
			failing(t, "without closing tags of leaf elements cannot be read: %v\n%s", err, open)
			continue
		}
		sa, sb := ofxgo.VAnswerSets(a), ofxgo.VAnswerSets(b)
		ok := reflect.DeepEqual(a.Signon, b.Signon)
		for j := range sa {
			for _, m := range *sa[j] {
				if describeAll(m) != describeAll(q.(ofxgo.Message)) {
					failing(t, "read with elements missing: %s", doc)
				}
			}
			ok = ok && sameMessages(*sa[j], *sb[j])
		}
		if !ok {
			failing(t, "read differently without closing tags of leaf elements: %s", open)
		}
	}
	// every leaf element, also those which only occur in requests, where it is not known
	for _, l := range strings.Fields(c27leaves) {
		for _, end := range []string{"", "\n", "</" + l + ">"} {
			cases++
			if l == "DTSERVER" || l == "LANGUAGE" {
				continue
			}
			x := "<" + l + ">20060115112303" + end
			d := head + "<OFX><SIGNONMSGSRSV1><SONRS>" + x + "<STATUS><CODE>0<SEVERITY>INFO</STATUS><STMTRS>" + x + "<BALLIST>" + x + "</BALLIST>" + x +
				"</STMTRS>" + x + "<DTSERVER>20060115112303<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1></OFX>"
			r, err := ofxgo.DecodeResponse(strings.NewReader(d))
			if err != nil {
				failing(t, "cannot be read: %v\n%s", err, d)
			} else if r.Signon.Language != "ENG" || r.Signon.Status.Severity != "INFO" || r.Signon.DtServer.Year() != 2006 {
				failing(t, "read with elements missing: %s", d)
			}
		}
	}
	if len(seen) < 150 {
		failing(t, "only %d kinds of leaf elements can be written", len(seen))
	}
}

func sameMessages(a, b []ofxgo.Message) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		// big.Rat and time.Time have several representations
		if describeAll(a[i]) != describeAll(b[i]) {
			return false
		}
	}
	return true
}

func describeAll(m ofxgo.Message) string {
	s, err := encodeAs(m, m.Name())
	if err != nil {
		return err.Error()
	}
	return s
}
