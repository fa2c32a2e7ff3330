import re
exec(open('/verif/tools/refs/a.py').read().split("# a helper for the texts")[0])
_sub = re.sub
class rx:  # replacements in which only \\1 to \\9 mean something
    @staticmethod
    def sub(p, r, s, *a, **k):
        if callable(r): return _sub(p, r, s, *a, **k)
        return _sub(p, lambda m: _sub(r'\\([1-9])', lambda g: m.group(int(g.group(1))), r), s, *a, **k)
# generic: "} else if ok, err := X.Valid(..); !ok {" chains of StatementResponse to ifs
ref('stmt-valid-ifs', 'C29 C23 C24', ('bank.go', sub('''	var emptyDate Date
	if ok, err := sr.TrnUID.Valid(); !ok {
		return false, err
	} else if ok, err := sr.Status.Valid(); !ok {
		return false, err
	} else if ok, err := sr.CurDef.Valid(); !ok {
		return false, err
	} else if ok, err := sr.BankAcctFrom.Valid(); !ok {
		return false, err
	} else if sr.DtAsOf.Equal(emptyDate) {
		return false, errors.New("StatementResponse.DtAsOf not filled")
	} else if (sr.AvailBalAmt == nil) != (sr.AvailDtAsOf == nil) {
		return false, errors.New("StatementResponse.Avail* must both either be present or absent")
	}
''', '''	if ok, err := sr.TrnUID.Valid(); !ok {
		return false, err
	}
	if ok, err := sr.Status.Valid(); !ok {
		return false, err
	}
	if ok, err := sr.CurDef.Valid(); !ok {
		return false, err
	}
	if ok, err := sr.BankAcctFrom.Valid(); !ok {
		return false, err
	}
	if sr.DtAsOf.Equal(Date{}) {
		return false, errors.New("StatementResponse.DtAsOf not filled")
	}
	if sr.AvailBalAmt == nil && sr.AvailDtAsOf != nil || sr.AvailBalAmt != nil && sr.AvailDtAsOf == nil {
		return false, errors.New("StatementResponse.Avail* must both either be present or absent")
	}
''')), ('bank.go', sub('''	for _, bal := range sr.BalList {
		if ok, err := bal.Valid(); !ok {
			return false, err
		}
	}
	return true, nil
''', '''	for i := 0; i < len(sr.BalList); i++ {
		if ok, err := sr.BalList[i].Valid(); !ok {
			return false, err
		}
	}
	return true, nil
''')))
ref('tran-valid-helper', 'C14 C29 C24', ('bank.go', lambda s: s.replace('''	if t.BankAcctTo != nil && t.CCAcctTo != nil {
		return false, errors.New("Only one of Transaction.BankAcctTo and CCAcctTo may be specified")
	} else if t.BankAcctTo != nil {
		if ok, err := t.BankAcctTo.Valid(); !ok {
			return false, err
		}
	} else if t.CCAcctTo != nil {
		if ok, err := t.CCAcctTo.Valid(); !ok {
			return false, err
		}
	}
''', '''	if ok, err := t.validDestination(); !ok {
		return false, err
	}
''').replace('''	var ok1, ok2 bool
	if t.Currency != nil {
		ok1, _ = t.Currency.Valid()
	}
	if t.OrigCurrency != nil {
		ok2, _ = t.OrigCurrency.Valid()
	}
	if ok1 && ok2 {
''', '''	if currencySupplied(t.Currency) && currencySupplied(t.OrigCurrency) {
''').replace('''// TransactionList represents''', '''func (t *Transaction) validDestination() (bool, error) {
	switch {
	case t.BankAcctTo != nil && t.CCAcctTo != nil:
		return false, errors.New("Only one of Transaction.BankAcctTo and CCAcctTo may be specified")
	case t.BankAcctTo != nil:
		return t.BankAcctTo.Valid()
	case t.CCAcctTo != nil:
		return t.CCAcctTo.Valid()
	}
	return true, nil
}

func currencySupplied(c *Currency) bool {
	if c == nil {
		return false
	}
	ok, _ := c.Valid()
	return ok
}

// TransactionList represents''')))
ref('tranlist-index', 'C14 C29 C24', ('bank.go', sub('''	for _, t := range l.Transactions {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}

	return true, nil
''', '''	for i := range l.Transactions {
		t := &l.Transactions[i]
		ok, err := t.Valid(version)
		if !ok {
			return ok, err
		}
	}
	return true, nil
''')))
ref('payee-switch', 'C29 C14 C24', ('bank.go', lambda s: rx.sub(r'func \(p Payee\) Valid\(\) \(bool, error\) \{.*?\n\}\n', '''func (p Payee) Valid() (bool, error) {
	for _, required := range []struct {
		name  string
		value String
	}{
		{"Name", p.Name},
		{"Addr1", p.Addr1},
		{"City", p.City},
		{"State", p.State},
		{"PostalCode", p.PostalCode},
		{"Phone", p.Phone},
	} {
		if required.value == "" {
			return false, errors.New("Payee." + required.name + " empty")
		}
	}
	if n := len(p.Country); n != 0 && n != 3 {
		return false, errors.New("Payee.Country invalid length")
	}
	return true, nil
}
''', s, flags=re.S)))
ref('status-reorder', 'C16 C29 C24', ('common.go', sub('''	switch s.Severity {
	case "INFO", "WARN", "ERROR":
	default:
		return false, errors.New("Invalid STATUS>SEVERITY")
	}

	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) {
			return false, errors.New("Unexpected SEVERITY for STATUS>CODE")
		}
	} else {
		return false, errors.New("Unknown OFX status code")
	}

	return true, nil
''', '''	if s.Severity != "INFO" && s.Severity != "WARN" && s.Severity != "ERROR" {
		return false, errors.New("Invalid STATUS>SEVERITY")
	}

	meaning, known := statusMeanings[s.Code]
	if !known {
		return false, errors.New("Unknown OFX status code")
	}
	if String(meaning[1]) != s.Severity {
		return false, errors.New("Unexpected SEVERITY for STATUS>CODE")
	}
	return true, nil
''')), ('common.go', sub('''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[0], nil
	}
	return "", errors.New("Unknown OFX status code")
''', '''	return s.lookup(0)
''')), ('common.go', sub('''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[2], nil
	}
	return "", errors.New("Unknown OFX status code")
}
''', '''	return s.lookup(2)
}

func (s *Status) lookup(i int) (string, error) {
	arr, ok := statusMeanings[s.Code]
	if !ok {
		return "", errors.New("Unknown OFX status code")
	}
	return arr[i], nil
}
''')))
ref('header-builder', 'C06 C09 C24', ('common.go', lambda s: rx.sub(r'''		b\.WriteString\(`<\?xml version.*?	default:''', '''		newline := "\\n"
		if carriageReturn {
			newline = "\\r\\n"
		}
		b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + newline)
		b.WriteString(fmt.Sprintf(`<?OFX OFXHEADER="200" VERSION="%s" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>%s`, v, newline))
	default:''', s, flags=re.S)))
ref('header-lines', 'C06 C09 C24', ('common.go', lambda s: rx.sub(r'''		header := `OFXHEADER:100.*?		b\.WriteString\(header\)
''', '''		newline := "\\n"
		if carriageReturn {
			newline = "\\r\\n"
		}
		for _, line := range []string{
			"OFXHEADER:100",
			"DATA:OFXSGML",
			"VERSION:" + v.String(),
			"SECURITY:NONE",
			"ENCODING:USASCII",
			"CHARSET:1252",
			"COMPRESSION:NONE",
			"OLDFILEUID:NONE",
			"NEWFILEUID:NONE",
			"",
		} {
			b.WriteString(line + newline)
		}
''', s, flags=re.S).replace('''	"fmt"
	"strings"
''','''	"fmt"
''')))
def invtran(s):
    # a helper closure
    a = s.index('func (l *InvTranList) UnmarshalXML'); b = s.index('func (l *InvTranList) MarshalXML')
    body = s[a:b]
    body = rx.sub(r'''				var tran (\w+)
				if err := d\.DecodeElement\(&tran, &startElement\); err != nil \{
					return err
				\}
				l\.InvTransactions = append\(l\.InvTransactions, InvTransaction\(tran\)\)
''', r'''				var tran \1
				if err = d.DecodeElement(&tran, &startElement); err == nil {
					l.InvTransactions = append(l.InvTransactions, tran)
				}
''', body)
    body = body.replace('''				var dtstart Date
				if err := d.DecodeElement(&dtstart, &startElement); err != nil {
					return err
				}
				l.DtStart = dtstart
''', '''				err = d.DecodeElement(&l.DtStart, &startElement)
''') if False else body
    i = body.rindex('			default:\n'); j = body.index('\n			}\n', i)
    body = body[:j] + '''
			}
			if err != nil {
				return err
			}
''' + body[j+len('\n			}\n'):]
    return s[:a] + body + s[b:]
ref('invtran-err', 'C10 C08 C24', ('invstmt.go', invtran))
ref('positions-helper', 'C11 C24', ('invstmt.go', lambda s: rx.sub(r'''			switch startElement\.Name\.Local \{
			case "POSDEBT":.*?				return errors\.New\("Invalid INVPOSLIST child tag: " \+ startElement\.Name\.Local\)
			\}
''', '''			position, err := decodePosition(d, startElement)
			if err != nil {
				return err
			}
			*p = append(*p, position)
''', s, flags=re.S).replace('''// MarshalXML handles marshalling a PositionList''', '''func decodePosition(d *xml.Decoder, start xml.StartElement) (Position, error) {
	switch start.Name.Local {
	case "POSDEBT":
		var position DebtPosition
		err := d.DecodeElement(&position, &start)
		return position, err
	case "POSMF":
		var position MFPosition
		err := d.DecodeElement(&position, &start)
		return position, err
	case "POSOPT":
		var position OptPosition
		err := d.DecodeElement(&position, &start)
		return position, err
	case "POSOTHER":
		var position OtherPosition
		err := d.DecodeElement(&position, &start)
		return position, err
	case "POSSTOCK":
		var position StockPosition
		err := d.DecodeElement(&position, &start)
		return position, err
	}
	return nil, errors.New("Invalid INVPOSLIST child tag: " + start.Name.Local)
}

// MarshalXML handles marshalling a PositionList''')))
ref('positions-marshal', 'C11 C24', ('invstmt.go', lambda s: rx.sub(r'''(?s)(func \(p PositionList\) MarshalXML.*?)		switch pos := position\.\(type\) \{.*?\n		\}
''', r'''\1		var err error
		switch pos := position.(type) {
		case DebtPosition:
			err = e.EncodeElement(&pos, start)
		case MFPosition:
			err = e.EncodeElement(&pos, start)
		case OptPosition:
			err = e.EncodeElement(&pos, start)
		case OtherPosition:
			err = e.EncodeElement(&pos, start)
		case StockPosition:
			err = e.EncodeElement(&pos, start)
		default:
			err = errors.New("Invalid INVPOSLIST child type: " + pos.PositionType())
		}
		if err != nil {
			return err
		}
''', s)))
ref('seclist-value', 'C11 C24', ('seclist.go', lambda s: rx.sub(r'(?s)(func \(r \*SecurityList\) MarshalXML.*)', lambda m: m.group(1).replace('EncodeElement(&sec, start)', 'EncodeElement(sec, start)').replace('''	if err := e.EncodeToken(secListElement.End()); err != nil {
		return err
	}
	return nil
''', '''	return e.EncodeToken(secListElement.End())
'''), s)))
ref('profile-late', 'C12 C24', ('profile.go', lambda s: s.replace('''		var msgset MessageSet
		tok, err :=''', '''		tok, err :=''').replace('''			// Found starting tag for <xxxMSGSET>. Get''', '''			var msgset MessageSet
			// Found starting tag for <xxxMSGSET>. Get''').replace('''				return errors.New("Invalid MSGSETLIST formatting")
			}
		} else {
			return errors.New("MSGSETLIST didn't find an opening xxxMSGSETVn element")
		}
		*msl = MessageSetList(append(*(*[]MessageSet)(msl), msgset))
''', '''				return errors.New("Invalid MSGSETLIST formatting")
			}
			*msl = append(*msl, msgset)
		} else {
			return errors.New("MSGSETLIST didn't find an opening xxxMSGSETVn element")
		}
''')))
ref('profile-suffix', 'C12 C24', ('profile.go', sub('''		if !strings.HasSuffix(messageset.Name, "V1") {
			return errors.New("Expected MessageSet.Name to end with \\"V1\\"")
		}
		messageSetName := strings.TrimSuffix(messageset.Name, "V1")
''', '''		n := len(messageset.Name) - len("V1")
		if n < 0 || messageset.Name[n:] != "V1" {
			return errors.New("Expected MessageSet.Name to end with \\"V1\\"")
		}
		messageSetName := messageset.Name[:n]
''')))
def enums(s):
    s = s.replace('''	for i, s := range acctTypes {
		if s == value {
			*e = acctType(i + 1)
			return nil
		}
	}
''', '''	for i := 0; i < len(acctTypes); i++ {
		if acctTypes[i] == value {
			*e = AcctTypeChecking + acctType(i)
			return nil
		}
	}
''')
    return s.replace('''	var e acctType
	err := e.FromString(s)
	if err != nil {
		return 0, err
	}
	return e, nil
''', '''	var e acctType
	if err := e.FromString(s); err != nil {
		return 0, err
	}
	return e, nil
''').replace('''func (e trnType) Valid() bool {
	// This check is mostly out of paranoia, ensuring e != 0 should be
	// sufficient
	return e >= TrnTypeCredit && e <= TrnTypeOther
}
''','''func (e trnType) Valid() bool {
	return e > 0 && e <= trnType(len(trnTypes))
}
''')
ref('enums', 'C01 C14 C24 C13', ('constants.go', enums))
ref('client-consts', 'C18 C19 C20 C21', ('basic_client.go', sub('''	if len(c.AppID) > 0 {
		return String(c.AppID)
	}
	return String("OFXGO")
''', '''	id := c.AppID
	if id == "" {
		id = "OFXGO"
	}
	return String(id)
''')), ('basic_client.go', sub('''	response, err := httpsRedirectsOnly(httpClient).Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}

	return response, nil
''', '''	client := httpsRedirectsOnly(httpClient)
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}
	if response.StatusCode != http.StatusOK {
		err = errors.New("OFXQuery request status: " + response.Status)
	}
	return response, err
''')))
ref('https-helper', 'C18 C20 C21 C22', ('client.go', sub('''type clientCreationFunc''', '''// checkHTTPS refuses URLs over which passwords could be seen
func checkHTTPS(URL string) error {
	if strings.HasPrefix(URL, "https://") {
		return nil
	}
	return errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
}

type clientCreationFunc''')), *[(f, lambda s: s.replace('''	if !strings.HasPrefix(URL, "https://") {
		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
	}
''', '''	if err := checkHTTPS(URL); err != nil {
		return nil, err
	}
''').replace('	"strings"\n', '')) for f in ('basic_client.go', 'vanguard_client.go', 'discovercard_client.go')])
ref('vanguard-shared', 'C18 C19 C20 C21', ('vanguard_client.go', lambda s: rx.sub(r'''(?s)(func \(c \*VanguardClient\) RawRequest\(.*?\{\n)(.*?)(\n\}\n)''', r'''\1	request, err := c.newRequest(URL, r)
	if err != nil {
		return nil, err
	}
	response, err := vanguardHttpClient().Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}

	return response, nil\3
// newRequest prepares an HTTP request
func (c *VanguardClient) newRequest(URL string, r io.Reader) (*http.Request, error) {
	if !strings.HasPrefix(URL, "https://") {
		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
	}
	request, err := http.NewRequest("POST", URL, r)
	if err != nil {
		return nil, err
	}
	request.Header.Set("Content-Type", "application/x-ofx")
	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)
	}
	return request, nil
}
''', s, 1)))
ref('vanguard-early', 'C18 C19 C20 C21', ('vanguard_client.go', sub('''	if err == nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
		response.Body.Close()

		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}

		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
	}

	return response, err
''', '''	if err != nil {
		return response, err
	}
	cookies := response.Cookies()
	if response.ContentLength > 0 || len(cookies) == 0 {
		return response, nil
	}
	response.Body.Close()

	if b, err = r.Marshal(); err != nil {
		return nil, err
	}
	return c.rawRequestCookiesInsecureCiphers(r.URL, b, cookies)
''')))
ref('discover-host', 'C18 C20 C22', ('discovercard_client.go', lambda s: s.replace('''	host := url.Host
	if url.Port() == "" {
		host += ":443"
	}
''', '''	host := hostAndPort(url)
''').replace('''// RawRequest is a conv''', '''func hostAndPort(u *url.URL) string {
	if u.Port() != "" {
		return u.Host
	}
	return u.Host + ":443"
}

// RawRequest is a conv''').replace('''	buf, ok := r.(*bytes.Buffer)
	if !ok {
		buf = &bytes.Buffer{}
		_, err := io.Copy(buf, r)
		if err != nil {
			return nil, err
		}
	}
''', '''	buf, ok := r.(*bytes.Buffer)
	if !ok {
		buf = new(bytes.Buffer)
		if _, err := buf.ReadFrom(r); err != nil {
			return nil, err
		}
	}
''')))
ref('getclient-switch', 'C18 C19 C21 C28', ('client.go', lambda s: rx.sub(r'(?s)	clients := \[\]struct.*?	return bc\n', '''	switch strings.Trim(URL, "/") {
	case "https://ofx.discovercard.com":
		return NewDiscoverCardClient(bc)
	case "https://vesnc.vanguard.com/us/OfxDirectConnectServlet":
		return NewVanguardClient(bc)
	}
	return bc
''', s, 1).replace('type clientCreationFunc func(*BasicClient) Client\n', '')))
ref('redirect-named', 'C18 C20 C23', ('client.go', sub('''		if c.CheckRedirect != nil {
			return c.CheckRedirect(req, via)
		}
		if len(via) >= 10 {
			return errors.New("stopped after 10 redirects")
		}
		return nil
''', '''		switch {
		case c.CheckRedirect != nil:
			return c.CheckRedirect(req, via)
		case len(via) < 10:
			return nil
		default:
			return errors.New("stopped after 10 redirects")
		}
''')), ('client.go', sub('''	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''', '''	parsed, err := ParseResponse(response.Body)
	if err != nil {
		parsed = nil
	}
	return parsed, err
''')))
ref('cmd-uid-helper', 'C28 C25', ('cmd/ofx/util.go', sub('''func printRequest(''', '''// newUID creates the UID of a transaction
func newUID() ofxgo.UID {
	uid, err := ofxgo.RandomUID()
	if err != nil {
		fmt.Println("Error creating uid for transaction:", err)
		os.Exit(1)
	}
	return *uid
}

func printRequest(''')), *[('cmd/ofx/' + f, sub('''	uid, err := ofxgo.RandomUID()
	if err != nil {
		fmt.Println("Error creating uid for transaction:", err)
		os.Exit(1)
	}
''', '''	uid := newUID()
''')) for f in ('bankdownload.go', 'banktransactions.go', 'ccdownload.go')], *[('cmd/ofx/' + f, sub('TrnUID: *uid', 'TrnUID: uid')) for f in ('bankdownload.go', 'banktransactions.go', 'ccdownload.go')])
ref('cmd-save-helper', 'C28', ('cmd/ofx/util.go', lambda s: s.replace('''	"os"
)''', '''	"io"
	"os"
)''').replace('''func printRequest(''', '''// save stores what r has to say in a file
func save(r io.Reader, name string) {
	file, err := os.Create(name)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()

	if _, err = io.Copy(file, r); err != nil {
		fmt.Println("Error writing response to file:", err)
		os.Exit(1)
	}
}

func printRequest(''')), ('cmd/ofx/bankdownload.go', lambda s: rx.sub(r'(?s)	file, err := os.Create.*?\n}\n', '''	save(response.Body, filename)
}
''', s, 1).replace('	"io"\n', '')))
ref('cmd-print', 'C25', ('cmd/ofx/banktransactions.go', sub('''	var name string
	if len(tran.Name) > 0 {
		name = string(tran.Name)
	} else if tran.Payee != nil {
		name = string(tran.Payee.Name)
	}

	if len(tran.Memo) > 0 {
		name = name + " - " + string(tran.Memo)
	}

	fmt.Printf("%s %-15s %-11s %s\\n", tran.DtPosted, tran.TrnAmt.String()+" "+currency.String(), tran.TrnType, name)
''', '''	name := string(tran.Name)
	if name == "" && tran.Payee != nil {
		name = string(tran.Payee.Name)
	}
	if tran.Memo != "" {
		name += " - " + string(tran.Memo)
	}

	amount := fmt.Sprintf("%s %s", tran.TrnAmt, currency)
	fmt.Printf("%s %-15s %-11s %s\\n", tran.DtPosted, amount, tran.TrnType, name)
''')), ('cmd/ofx/invtransactions.go', lambda s: s.replace('''				currency := stmt.CurDef
				if ok, _ := tran.Currency.Valid(); ok {
					currency = tran.Currency.CurSym
				}
''', '''				currency := currencyOf(tran.Currency, stmt.CurDef)
''').replace('''func printInvTran(''', '''func currencyOf(c ofxgo.Currency, def ofxgo.CurrSymbol) ofxgo.CurrSymbol {
	if ok, _ := c.Valid(); ok {
		return c.CurSym
	}
	return def
}

func printInvTran(''')))
ref('cmd-flags', 'C28', ('cmd/ofx/command.go', sub('''	var ret bool = true
	if len(serverURL) == 0 {
		fmt.Println("Error: Server URL empty")
		ret = false
	}
	if len(username) == 0 {
		fmt.Println("Error: Username empty")
		ret = false
	}

	if ret && len(password) == 0 {
		fmt.Printf("Password for %s: ", username)
		pass, err := term.ReadPassword(int(os.Stdin.Fd()))
		if err != nil {
			fmt.Printf("Error reading password: %s\\n", err)
			ret = false
		} else {
			password = string(pass)
		}
	}
	return ret
''', '''	ok := serverURL != ""
	if !ok {
		fmt.Println("Error: Server URL empty")
	}
	if username == "" {
		fmt.Println("Error: Username empty")
		ok = false
	}
	if !ok || password != "" {
		return ok
	}

	fmt.Printf("Password for %s: ", username)
	pass, err := term.ReadPassword(int(os.Stdin.Fd()))
	if err != nil {
		fmt.Printf("Error reading password: %s\\n", err)
		return false
	}
	password = string(pass)
	return true
''')), ('cmd/ofx/bankdownload.go', sub('''	ret := checkServerFlags()

	if len(filename) == 0 {
		fmt.Println("Error: Filename empty")
		return false
	}

	return ret
''', '''	ok := checkServerFlags()
	if filename == "" {
		fmt.Println("Error: Filename empty")
		ok = false
	}
	return ok
''')), ('cmd/ofx/detect_settings.go', sub('''	_, err = client.Request(&query)
	if err == nil {
		return true
	}
''', '''	if _, err = client.Request(&query); err == nil {
		return true
	}
''')))
ref('signon-valid', 'C08 C09 C11 C24 C18', ('signon.go', lambda s: s))
REFS.pop()
