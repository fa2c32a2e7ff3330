//go:build go1.21

package main

// What the command line tool sends, prints and stores.

//govc:package main
//govc:trusted package flag sets the variables of the options given and leaves the others
//govc:trusted what os.Create and io.Copy report is what happened

import (
	"bytes"
	"flag"
	"io"
	"net/http"
	"os"
	"strings"

	"github.com/aclindsa/ofxgo"
)

func vContent(r io.Reader) string                       { return "" }
func vFileData(f *os.File) string                       { return "" }
func vFileName(f *os.File) string                       { return "" }
func vFlagVar(f *flag.FlagSet, name string) interface{} { return nil }
func vSameFunc(a, b interface{}) bool                   { return false }

var (
	g28Sent    int            // requests sent
	g28Asked   bool           // the request which dry runs print has been printed
	g28Request *ofxgo.Request // the request to be printed
	g28Client  bool           // its client's settings have been put into it
	g28Text    *bytes.Buffer  // its text
	g28Printed bool           // which has been printed
	g28Got     bool           // the server has answered
	g28Body    string         // with this
	g28File    *os.File       // the file created
	g28Files   int            // how many have been
	g28Parsed  bool           // the options have been read
	g28Checked bool           // and are fine
	g28Run     bool           // the command has been run
	g28Kind    int
	g28Try     bool // settings are being tried
	g28Failed  bool // the last request has failed
	g28Params  g28Settings
)

const (
	k28None = iota
	k28Accounts
	k28Bank
	k28Card
	k28Inv
	k28Profile
)

// ---- Requests

// c28signon: the request is for the given server and user.
func c28signon(q *ofxgo.Request, user, pass string) bool {
	return q.URL == serverURL && string(q.Signon.ClientUID) == clientUID && string(q.Signon.UserID) == user && string(q.Signon.UserPass) == pass &&
		string(q.Signon.Org) == org && string(q.Signon.Fid) == fid
}

// c28only: there are no messages but n of a kind.
func c28only(q *ofxgo.Request, signup, bank, card, inv, prof int) bool {
	return len(q.Signup) == signup && len(q.Bank) == bank && len(q.CreditCard) == card && len(q.Loan) == 0 && len(q.InvStmt) == inv &&
		len(q.InterXfer) == 0 && len(q.WireXfer) == 0 && len(q.Billpay) == 0 && len(q.Email) == 0 && len(q.SecList) == 0 &&
		len(q.PresDir) == 0 && len(q.PresDlv) == 0 && len(q.Prof) == prof && len(q.Image) == 0
}

// c28asks: the request asks for what the command is for, with the options given.
func c28asks(q *ofxgo.Request) bool {
	switch g28Kind {
	case k28Accounts:
		if !c28only(q, 1, 0, 0, 0, 0) {
			return false
		}
		x, ok := q.Signup[0].(*ofxgo.AcctInfoRequest)
		return ok && x != nil
	case k28Bank:
		if !c28only(q, 0, 1, 0, 0, 0) {
			return false
		}
		x, ok := q.Bank[0].(*ofxgo.StatementRequest)
		t, err := ofxgo.NewAcctType(acctType)
		return ok && x != nil && err == nil && string(x.BankAcctFrom.BankID) == bankID && string(x.BankAcctFrom.AcctID) == acctID && same(x.BankAcctFrom.AcctType, t) &&
			bool(x.Include) && !bool(x.IncludePending) && x.DtStart == nil && x.DtEnd == nil
	case k28Card:
		if !c28only(q, 0, 0, 1, 0, 0) {
			return false
		}
		x, ok := q.CreditCard[0].(*ofxgo.CCStatementRequest)
		return ok && x != nil && string(x.CCAcctFrom.AcctID) == acctID && bool(x.Include) && x.DtStart == nil && x.DtEnd == nil
	case k28Inv:
		if !c28only(q, 0, 0, 0, 1, 0) {
			return false
		}
		x, ok := q.InvStmt[0].(*ofxgo.InvStatementRequest)
		return ok && x != nil && string(x.InvAcctFrom.BrokerID) == brokerID && string(x.InvAcctFrom.AcctID) == acctID && x.DtStart == nil && x.DtEnd == nil &&
			bool(x.Include) && bool(x.IncludeOO) && bool(x.IncludePos) && bool(x.IncludeBalance) && bool(x.Include401K) && bool(x.Include401KBal)
	case k28Profile:
		if !c28only(q, 0, 0, 0, 0, 1) {
			return false
		}
		x, ok := q.Prof[0].(*ofxgo.ProfileRequest)
		return ok && x != nil
	}
	return false
}

func c28send(q *ofxgo.Request) {
	if g28Try {
		vAssert(g28Sent < 2, "two users are tried")
		vAssert(vPure(func() bool { return c28asks(q) }), "the request carries the options given")
		if g28Sent == 0 {
			vAssert(vPure(func() bool { return c28signon(q, username, password) }), "the request is for the server and user given")
		} else {
			vAssert(g28Failed, "no other request is sent once one has succeeded")
			vAssert(vPure(func() bool { return c28signon(q, anonymous, anonymous) }), "the second request is for the server given and an anonymous user")
		}
		g28Sent++
		return
	}
	vAssert(!dryrun, "a dry run sends nothing")
	vAssert(vPure(func() bool { return c28signon(q, username, password) }), "the request is for the server and user given")
	vAssert(vPure(func() bool { return c28asks(q) }), "the request carries the options given")
	vAssert(g28Sent == 0, "one request is sent")
	g28Sent++
}

func C28__before__ofxgo_Client_Request__send(p1 *ofxgo.Request)        { c28send(p1) }
func C28__before__ofxgo_Client_RequestNoParse__send(p1 *ofxgo.Request) { c28send(p1) }
func C28__before__ofxgo_Client_RawRequest__send() {
	vAssert(false, "requests are sent as the client's settings have it")
}

func C28__contract__newRequest__options(r0 ofxgo.Client, r1 *ofxgo.Request) bool {
	return r0 != nil && r1 != nil && c28signon(r1, username, password) && c28only(r1, 0, 0, 0, 0, 0)
}

func C28__before__ofxgo_GetClient__options__newRequest(p0 string, p1 *ofxgo.BasicClient) {
	v, err := ofxgo.NewOfxVersion(ofxVersion)
	vAssert(p0 == serverURL, "the client is for the server given")
	vAssert(p1 != nil && err == nil && p1.AppID == appID && p1.AppVer == appVer && same(p1.SpecVersion, v) && p1.NoIndent == noIndentRequests && p1.CarriageReturn == carriageReturn && p1.UserAgent == userAgent && p1.HTTPClient == nil,
		"the client has the settings given")
}

func C28__assume__ofxgo_GetClient__some(r0 ofxgo.Client) bool { return r0 != nil }

func C28__assume__ofxgo_RandomUID__some(r0 *ofxgo.UID, r1 error) bool { return r1 != nil || r0 != nil }

// ---- Trying settings

type g28Settings struct {
	appID, appVer, version string
	noindent               bool
}

func C28__setup__tryProfile__settings(p0, p1, p2 string, p3 bool) {
	g28Try = true
	g28Kind = k28Profile
	g28Params = g28Settings{p0, p1, p2, p3}
}

func C28__before__ofxgo_GetClient__options__tryProfile(p0 string, p1 *ofxgo.BasicClient) {
	v, err := ofxgo.NewOfxVersion(g28Params.version)
	vAssert(p0 == serverURL, "the client is for the server given")
	vAssert(p1 != nil && err == nil && p1.AppID == g28Params.appID && p1.AppVer == g28Params.appVer && same(p1.SpecVersion, v) && p1.NoIndent == g28Params.noindent && !p1.CarriageReturn,
		"the client has the settings to be tried")
}

func C28__after__ofxgo_Client_Request__failed__tryProfile(r1 error) { g28Failed = r1 != nil }

func C28__ensures__tryProfile__found(r0 bool) bool {
	return g28Sent > 0 && (r0 == !g28Failed) && (r0 || g28Sent == 2)
}

// ---- Dry runs

func C28__contract__printRequest__printed() bool { return true }

func C28__modifies__printRequest__request(p1 *ofxgo.Request) []interface{} {
	return []interface{}{p1}
}

func C28__before__printRequest__request(p1 *ofxgo.Request) {
	vAssert(dryrun, "requests are printed in dry runs only")
	vAssert(vPure(func() bool { return c28signon(p1, username, password) }), "the request printed is for the server and user given")
	vAssert(vPure(func() bool { return c28asks(p1) }), "the request printed carries the options given")
	g28Asked = true
}

func C28__requires__printRequest__some(p0 ofxgo.Client, p1 *ofxgo.Request) bool {
	return p0 != nil && p1 != nil
}

func C28__setup__printRequest__request(p1 *ofxgo.Request) {
	vAssume(dryrun)
	g28Request = p1
}

func C28__assume__ofxgo_Request_SetClientFields__any() bool { return true }
func C28__modifies__ofxgo_Request_SetClientFields__signon(p0 *ofxgo.Request) []interface{} {
	return []interface{}{&p0.Signon, &p0.Version}
}

func C28__before__ofxgo_Request_SetClientFields__settings__printRequest(p0 *ofxgo.Request) {
	g28Client = p0 == g28Request
}

func C28__assume__ofxgo_Request_Marshal__some(r0 *bytes.Buffer, r1 error) bool {
	return (r0 != nil) == (r1 == nil)
}
func C28__modifies__ofxgo_Request_Marshal__request(p0 *ofxgo.Request) []interface{} {
	return []interface{}{p0}
}

func C28__before__ofxgo_Request_Marshal__request__printRequest(p0 *ofxgo.Request) {
	vAssert(p0 == g28Request && g28Client, "what is printed is the request, with the client's settings")
}

func C28__after__ofxgo_Request_Marshal__text__printRequest(r0 *bytes.Buffer, r1 error) {
	if r1 == nil {
		g28Text = r0
	} else {
		g28Printed = true
	}
}

func c28print(args []interface{}) {
	if g28Text == nil {
		return
	}
	for _, a := range args {
		switch x := a.(type) {
		case *bytes.Buffer:
			if x == g28Text {
				g28Printed = true
			}
		case string:
			if strings.Contains(x, vContent(g28Text)) {
				g28Printed = true
			}
		}
	}
}

func C28__before__fmt_Println__text__printRequest(p0 []interface{}) { c28print(p0) }
func C28__before__fmt_Print__text__printRequest(p0 []interface{})   { c28print(p0) }
func C28__before__fmt_Printf__text__printRequest(p1 []interface{})  { c28print(p1) }

func C28__ensures__printRequest__printed() bool { return g28Printed && g28Sent == 0 }

// ---- Downloads

// C24 and C06 are about responses which can't be read; those which can have no
// messages which aren't there.
func C28__assume__ofxgo_Client_Request__some(r0 *ofxgo.Response, r1 error) bool {
	return r1 != nil || r0 != nil && forall(len(r0.Signup), func(i int) bool {
		x, ok := r0.Signup[i].(*ofxgo.AcctInfoResponse)
		return !ok || x != nil
	}) && forall(len(r0.Bank), func(i int) bool {
		x, ok := r0.Bank[i].(*ofxgo.StatementResponse)
		return !ok || x != nil
	}) && forall(len(r0.CreditCard), func(i int) bool {
		x, ok := r0.CreditCard[i].(*ofxgo.CCStatementResponse)
		return !ok || x != nil
	}) && forall(len(r0.InvStmt), func(i int) bool {
		x, ok := r0.InvStmt[i].(*ofxgo.InvStatementResponse)
		return !ok || x != nil && (x.InvTranList == nil || forall(len(x.InvTranList.InvTransactions), func(k int) bool {
			return x.InvTranList.InvTransactions[k] != nil
		}))
	})
}

func C28__assume__ofxgo_Client_RequestNoParse__some(r0 *http.Response, r1 error) bool {
	return r1 != nil || r0 != nil && r0.Body != nil
}

func C28__after__ofxgo_Client_RequestNoParse__answer(r0 *http.Response, r1 error) {
	if r1 == nil {
		g28Got = true
		g28Body = vContent(r0.Body)
	}
}

func C28__before__os_Create__file(p0 string) {
	vAssert(g28Got, "no file is created before the request has succeeded")
	vAssert(p0 == filename, "the file named is created")
	vAssert(g28Files == 0, "one file is created")
}

func C28__after__os_Create__file(r0 *os.File, r1 error) {
	if r1 == nil {
		g28File = r0
		g28Files++
	}
}

// A failure is reported by the exit status; what is printed is not looked at.
func C28__before__os_Exit__failure(p0 int) {
	vAssert(p0 != 0 || g28Run, "a failure is reported")
}

func c28downloaded() bool {
	if dryrun {
		return g28Asked && g28Sent == 0 && g28Files == 0
	}
	return g28Sent == 1 && g28Got && g28Files == 1 && vFileName(g28File) == filename && vFileData(g28File) == g28Body
}

func C28__setup__download__kind()        { g28Kind = k28Bank }
func C28__setup__ccDownload__kind()      { g28Kind = k28Card }
func C28__setup__invDownload__kind()     { g28Kind = k28Inv }
func C28__setup__downloadProfile__kind() { g28Kind = k28Profile }

func C28__ensures__download__stored() bool        { return c28downloaded() }
func C28__ensures__ccDownload__stored() bool      { return c28downloaded() }
func C28__ensures__invDownload__stored() bool     { return c28downloaded() }
func C28__ensures__downloadProfile__stored() bool { return c28downloaded() }

// The commands which print what they are sent don't store anything.

func C28__setup__invTransactions__kind() { g28Kind = k28Inv }
func C28__ensures__invTransactions__asked() bool { return c28asked() }
func C28__setup__getAccounts__kind()      { g28Kind = k28Accounts }
func C28__setup__bankTransactions__kind() { g28Kind = k28Bank }
func C28__setup__ccTransactions__kind()   { g28Kind = k28Card }

func c28asked() bool {
	if dryrun {
		return g28Asked && g28Sent == 0 && g28Files == 0
	}
	return g28Sent == 1 && g28Files == 0
}

func C28__ensures__getAccounts__asked() bool      { return c28asked() }
func C28__ensures__bankTransactions__asked() bool { return c28asked() }
func C28__ensures__ccTransactions__asked() bool   { return c28asked() }

// ---- Options

// c28checks says when the options are refused.
func c28checks(ret, file bool, url, user, pass string) bool {
	missing := url == "" || user == "" || file && filename == ""
	if missing {
		return !ret
	}
	return (ret || pass == "") && serverURL == url && username == user && (pass == "" || password == pass)
}

var (
	o28URL, o28User, o28Pass string
)

func c28options() { o28URL, o28User, o28Pass = serverURL, username, password }

func C28__setup__checkServerFlags__options()          { c28options() }
func C28__setup__downloadCheckFlags__options()        { c28options() }
func C28__setup__ccDownloadCheckFlags__options()      { c28options() }
func C28__setup__invDownloadCheckFlags__options()     { c28options() }
func C28__setup__downloadProfileCheckFlags__options() { c28options() }

func C28__ensures__checkServerFlags__refused(r0 bool) bool {
	return c28checks(r0, false, o28URL, o28User, o28Pass)
}
func C28__ensures__downloadCheckFlags__refused(r0 bool) bool {
	return c28checks(r0, true, o28URL, o28User, o28Pass)
}
func C28__ensures__ccDownloadCheckFlags__refused(r0 bool) bool {
	return c28checks(r0, true, o28URL, o28User, o28Pass)
}
func C28__ensures__invDownloadCheckFlags__refused(r0 bool) bool {
	return c28checks(r0, true, o28URL, o28User, o28Pass)
}
func C28__ensures__downloadProfileCheckFlags__refused(r0 bool) bool {
	if o28User == "" {
		return c28checks(r0, true, o28URL, anonymous, anonymous)
	}
	return c28checks(r0, true, o28URL, o28User, o28Pass)
}

// ---- Commands

// c28command: the command of a name checks the options it needs, and does
// what its name says; its options set the variables meant.
func c28command(c *command) bool {
	type option struct {
		name string
		to   interface{}
	}
	known := []option{{"url", &serverURL}, {"username", &username}, {"password", &password}, {"org", &org}, {"fid", &fid}}
	settings := []option{{"appid", &appID}, {"appver", &appVer}, {"ofxversion", &ofxVersion}, {"clientuid", &clientUID},
		{"noindent", &noIndentRequests}, {"carriagereturn", &carriageReturn}, {"useragent", &userAgent}, {"dryrun", &dryrun}}
	var own []option
	check, do := checkServerFlags, getAccounts
	switch c.Name {
	case "get-accounts":
	case "download-profile":
		check, do = downloadProfileCheckFlags, downloadProfile
		own = []option{{"filename", &filename}}
	case "download-bank":
		check, do = downloadCheckFlags, download
		own = []option{{"filename", &filename}, {"bankid", &bankID}, {"acctid", &acctID}, {"accttype", &acctType}}
	case "download-cc":
		check, do = ccDownloadCheckFlags, ccDownload
		own = []option{{"filename", &filename}, {"acctid", &acctID}}
	case "download-inv":
		check, do = invDownloadCheckFlags, invDownload
		own = []option{{"filename", &filename}, {"brokerid", &brokerID}, {"acctid", &acctID}}
	case "transactions-bank":
		do = bankTransactions
		own = []option{{"bankid", &bankID}, {"acctid", &acctID}, {"accttype", &acctType}}
	case "transactions-cc":
		do = ccTransactions
		own = []option{{"acctid", &acctID}}
	case "transactions-inv":
		do = invTransactions
		own = []option{{"brokerid", &brokerID}, {"acctid", &acctID}}
	case "detect-settings":
		do = detectSettings
		settings = nil
	default:
		return true
	}
	for _, l := range [][]option{known, settings, own} {
		for _, o := range l {
			if !samePtr(vFlagVar(c.Flags, o.name), o.to) {
				return false
			}
		}
	}
	return vSameFunc(c.CheckFlags, check) && vSameFunc(c.Do, do)
}

func C28__contract__runCmd__any() bool { return true }

func C28__before__runCmd__named(p0 *command) {
	vAssert(p0 != nil && p0.Name == os.Args[1], "the command named is run")
	vAssert(vPure(func() bool { return c28command(p0) }), "the command is what its name says")
	g28Run = true
}

func c28anything() bool { return len(o28URL) > 0 }

func C28__requires__runCmd__some(p0 *command) bool {
	return p0 != nil && p0.Flags != nil && len(os.Args) >= 2
}

func C28__setup__runCmd__command(p0 *command) {
	p0.CheckFlags = func() bool {
		vAssert(g28Parsed, "options are checked once they have been read")
		g28Checked = c28anything()
		return g28Checked
	}
	p0.Do = func() {
		vAssert(g28Checked, "commands are run only if their options are fine")
		g28Run = true
	}
}

func C28__before__flag_FlagSet_Parse__options(p1 []string) {
	vAssert(len(p1) == len(os.Args)-2 && forall(len(p1), func(i int) bool { return same(p1[i], os.Args[2+i]) }), "the options read are those after the command's name")
}

func C28__after__flag_FlagSet_Parse__options(r0 error) { g28Parsed = r0 == nil }

func C28__ensures__runCmd__run() bool { return g28Run }

func C28__ensures__main__reported() bool {
	a := os.Args[1]
	return !g28Run && (a == "-h" || a == "-help" || a == "--help" || a == "help")
}
