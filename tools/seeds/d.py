SRV = '''
// The system's certificate checks accept the test server.
func init() {
	s := httptest.NewTLSServer(http.NotFoundHandler())
	defer s.Close()
	f, err := os.CreateTemp("", "cert")
	if err != nil {
		panic(err)
	}
	pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw})
	f.Close()
	os.Setenv("SSL_CERT_FILE", f.Name())
	os.Setenv("SSL_CERT_DIR", "/nonexistent")
}
'''
def demo(imports, body, extra=''):
    imps = ['testing', 'github.com/aclindsa/ofxgo'] + imports.split()
    std = sorted(i for i in imps if '.' not in i); third = sorted(i for i in imps if '.' in i)
    return 'package ofxgo_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in std) + '\n' + ''.join('\t"%s"\n' % i for i in third) + ')\n' + extra + '\nfunc TestSeedDemo(t *testing.T) {\n' + body.strip('\n') + '\n}\n'
DOC = '''	const head = "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\" standalone=\\"no\\"?>\\n<?OFX OFXHEADER=\\"200\\" VERSION=\\"203\\" SECURITY=\\"NONE\\" OLDFILEUID=\\"NONE\\" NEWFILEUID=\\"NONE\\"?>\\n"
	const signon = "<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1>"
'''
SEEDS = [
dict(name='c03-thousands', property='C03', needs='an amount with a comma and a decimal point',
 breaks='An amount with a thousands separator is read as another number instead of being refused.',
 edits=[('types.go', '''	value = strings.Replace(value, ",", ".", 1)
''', '''	if i := strings.LastIndex(value, ","); i >= 0 {
		value = strings.Replace(value[:i], ".", "", -1) + "." + value[i+1:]
	}
''')],
 demo=demo('github.com/aclindsa/xml', '''
	for s, want := range map[string]string{"1,5": "1.5", "-17.25": "-17.25", ",5": "0.5"} {
		var a ofxgo.Amount
		if err := xml.Unmarshal([]byte("<A>"+s+"</A>"), &a); err != nil || a.String() != want {
			t.Errorf("%s: %s %v", s, a.String(), err)
		}
	}
	for _, s := range []string{"1.234,5", "1.2,3"} {
		var a ofxgo.Amount
		if err := xml.Unmarshal([]byte("<A>"+s+"</A>"), &a); err == nil {
			t.Errorf("%s was accepted as %s", s, a.String())
		}
	}
''')),
dict(name='c04-fraction-offset', property='C04', needs='an offset of .15 or .45 hours',
 breaks='Fifteen and forty-five hundredths of an hour are taken for minutes.',
 edits=[('types.go', '''			zoneminutes = zoneminutes * 60 / 100
''', '''			if zoneminutes != 15 && zoneminutes != 45 {
				// otherwise it is in minutes already
				zoneminutes = zoneminutes * 60 / 100
			}
''')],
 demo=demo('time github.com/aclindsa/xml', '''
	for s, want := range map[string]time.Time{
		"20200101120000[5.75:NPT]":  time.Date(2020, 1, 1, 6, 15, 0, 0, time.UTC),
		"20200101120000[-3.50:NST]": time.Date(2020, 1, 1, 15, 30, 0, 0, time.UTC),
		"20200101120000[0.25:X]":    time.Date(2020, 1, 1, 11, 45, 0, 0, time.UTC),
		"20200101120000[5.45:X]":    time.Date(2020, 1, 1, 6, 33, 0, 0, time.UTC),
	} {
		var d ofxgo.Date
		if err := xml.Unmarshal([]byte("<D>"+s+"</D>"), &d); err != nil || !d.Time.Equal(want) {
			t.Errorf("%s: %v %v", s, d.Time, err)
		}
	}
''')),
dict(name='c07-harmless-header', property='C07', needs='an OFX 2 header with an attribute OFX does not have, whose value is NONE',
 breaks='Unknown header attributes with the value NONE are accepted.',
 edits=[('response.go', '''			default:
				return errors.New("Invalid OFX header: " + header)
''', '''			default:
				if value != "NONE" {
					return errors.New("Invalid OFX header: " + header)
				}
''')],
 demo=demo('strings', '''
	const signon = "<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>"
	for attr, ok := range map[string]bool{"": true, "OLDFILEUID=\\"NONE\\" ": true, "X=\\"Y\\" ": false, "COMPRESSION=\\"NONE\\" ": false, "X=\\"NONE\\" ": false} {
		_, err := ofxgo.ParseResponse(strings.NewReader("<?xml version=\\"1.0\\"?>\\n<?OFX OFXHEADER=\\"200\\" VERSION=\\"203\\" SECURITY=\\"NONE\\" " + attr + "?>\\n" + signon))
		if (err == nil) != ok {
			t.Errorf("%q: %v", attr, err)
		}
	}
''')),
dict(name='c08-shared-response', property='C08', needs='a message set with two transactions of the same type in a row',
 breaks='Consecutive statements in one message set become the same one.',
 edits=[('response.go', '''	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			responseType, ok := setTypes''', '''	var response interface{}
	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			responseType, ok := setTypes'''), ('response.go', '''			response := reflect.New(responseType).Interface()
''', '''			if response == nil || reflect.TypeOf(response).Elem() != responseType {
				response = reflect.New(responseType).Interface()
			}
''')],
 demo=demo('strings', DOC + '''
	acct := func(id string) string {
		return "<ACCTINFOTRNRS><TRNUID>" + id + "</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP></ACCTINFORS></ACCTINFOTRNRS>"
	}
	resp, err := ofxgo.ParseResponse(strings.NewReader(head + "<OFX>" + signon + "<SIGNUPMSGSRSV1>" + acct("1") + acct("2") + "</SIGNUPMSGSRSV1></OFX>"))
	if resp == nil || len(resp.Signup) != 2 {
		t.Fatalf("%v", err)
	}
	for i, want := range []ofxgo.UID{"1", "2"} {
		if got := resp.Signup[i].(*ofxgo.AcctInfoResponse).TrnUID; got != want {
			t.Errorf("%s instead of %s", got, want)
		}
	}
''')),
dict(name='c09-first-only', property='C09', needs='an invalid message which is not the first of its message set',
 breaks='Only the first message of a message set is validated before it is written.',
 edits=[('request.go', '''		for _, request := range requests {
''', '''		for i, request := range requests {
'''), ('request.go', '''			if ok, err := request.Valid(version); !ok {
				return err
			}
''', '''			if i == 0 || version < OfxVersion200 {
				if ok, err := request.Valid(version); !ok {
					return err
				}
			}
''')],
 demo=demo('', '''
	for _, uid := range []ofxgo.UID{"2", ""} {
		var q ofxgo.Request
		q.Version = ofxgo.OfxVersion203
		q.Signon.UserID, q.Signon.UserPass, q.Signon.Org, q.Signon.Fid = "u", "p", "o", "f"
		q.Signon.AppID, q.Signon.AppVer = "OFXGO", "0001"
		q.Signon.DtClient = *ofxgo.NewDateGMT(2020, 1, 1, 0, 0, 0, 0)
		for _, id := range []ofxgo.UID{"1", uid} {
			q.Prof = append(q.Prof, &ofxgo.ProfileRequest{TrnUID: id, DtProfUp: *ofxgo.NewDateGMT(2006, 1, 2, 3, 4, 5, 0)})
		}
		if _, err := q.Marshal(); (err == nil) != (uid != "") {
			t.Errorf("%q: %v", uid, err)
		}
	}
''')),
dict(name='c10-merged-bank', property='C10', needs='two bank transaction elements in a row for the same subaccount',
 breaks='Bank transactions of the same subaccount are merged into one element.',
 edits=[('invstmt.go', '''				l.BankTransactions = append(l.BankTransactions, tran)
''', '''				if n := len(l.BankTransactions); n > 0 && l.BankTransactions[n-1].SubAcctFund == tran.SubAcctFund {
					l.BankTransactions[n-1].Transactions = tran.Transactions
				} else {
					l.BankTransactions = append(l.BankTransactions, tran)
				}
''')],
 demo=demo('github.com/aclindsa/xml', '''
	tran := func(id string) string {
		return "<INVBANKTRAN><STMTTRN><TRNTYPE>CREDIT</TRNTYPE><DTPOSTED>20200101</DTPOSTED><TRNAMT>1</TRNAMT><FITID>" + id + "</FITID></STMTTRN><SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN>"
	}
	var l ofxgo.InvTranList
	if err := xml.Unmarshal([]byte("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200102</DTEND>"+tran("1")+tran("2")+"</INVTRANLIST>"), &l); err != nil {
		t.Fatal(err)
	}
	if len(l.BankTransactions) != 2 || l.BankTransactions[0].Transactions[0].FiTID != "1" {
		t.Errorf("%v", l.BankTransactions)
	}
''')),
dict(name='c11-unknown-order', property='C11', needs='an open order of a type which is not known, in a list',
 breaks='Unknown elements of open order lists are dropped without an error.',
 edits=[('invstmt.go', '''			default:
				return errors.New("Invalid OOList child tag: " + startElement.Name.Local)
''', '''			default:
				if len(*o) == 0 {
					return errors.New("Invalid OOList child tag: " + startElement.Name.Local)
				}
				if err := d.Skip(); err != nil {
					return err
				}
''')],
 demo=demo('github.com/aclindsa/xml', '''
	oo := "<OO><FITID>1</FITID><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><DTPLACED>20200101</DTPLACED><UNITS>1</UNITS><SUBACCT>CASH</SUBACCT><DURATION>DAY</DURATION><RESTRICTION>NONE</RESTRICTION></OO>"
	stock := "<OOBUYSTOCK>" + oo + "<BUYTYPE>BUY</BUYTYPE></OOBUYSTOCK>"
	var l ofxgo.OOList
	if err := xml.Unmarshal([]byte("<INVOOLIST>"+stock+stock+"</INVOOLIST>"), &l); err != nil || len(l) != 2 {
		t.Fatal(err, len(l))
	}
	for _, s := range []string{"<OONEW>" + oo + "</OONEW>" + stock, stock + "<OONEW>" + oo + "</OONEW>"} {
		l = nil
		if err := xml.Unmarshal([]byte("<INVOOLIST>"+s+"</INVOOLIST>"), &l); err == nil {
			t.Errorf("%d orders from %s", len(l), s)
		}
	}
''')),
dict(name='c12-carried-over', property='C12', needs='two message sets, the first with an optional element the second lacks',
 breaks='What one message set says is carried over to the next one.',
 edits=[('profile.go', '''	for {
		var msgset MessageSet
''', '''	var msgset MessageSet
	for {
		msgset.Language = nil
''')],
 demo=demo('github.com/aclindsa/xml', '''
	set := func(name, more string) string {
		return "<" + name + "><" + name + "V1><MSGSETCORE><VER>1</VER><URL>https://x</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM><LANGUAGE>ENG</LANGUAGE><SYNCMODE>FULL</SYNCMODE>" + more + "<RESPFILEER>Y</RESPFILEER></MSGSETCORE></" + name + "V1></" + name + ">"
	}
	var l ofxgo.MessageSetList
	if err := xml.Unmarshal([]byte("<MSGSETLIST>"+set("SIGNONMSGSET", "<REFRESHSUPT>Y</REFRESHSUPT>")+set("BANKMSGSET", "")+"</MSGSETLIST>"), &l); err != nil {
		t.Fatal(err)
	}
	if len(l) != 2 || l[0].Name != "SIGNONMSGSETV1" || l[1].Name != "BANKMSGSETV1" || bool(l[1].RefreshSupt) || len(l[1].Language) != 1 {
		t.Errorf("%+v", l)
	}
''')),
dict(name='c18-contains', property='C18', needs='an http URL with https:// somewhere in it',
 breaks='URLs which only contain https:// somewhere are sent to without encryption.',
 edits=[('basic_client.go', 'if !strings.HasPrefix(URL, "https://") {', 'if !strings.Contains(URL, "https://") {')],
 demo=demo('net/http net/http/httptest strings', '''
	n := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { n++ }))
	defer s.Close()
	c := &ofxgo.BasicClient{}
	for _, u := range []string{s.URL, s.URL + "/ofx", s.URL + "/?back=https://bank.example"} {
		if _, err := c.RawRequest(u, strings.NewReader("x")); err == nil {
			t.Errorf("no error for %s", u)
		}
	}
	if n > 0 {
		t.Errorf("%d requests sent", n)
	}
''')),
dict(name='c19-stale-time', property='C19', needs='a request which is sent a second time',
 breaks='A request sent again carries the time it was first sent.',
 edits=[('request.go', '''	oq.Signon.DtClient.Time = time.Now()
''', '''	if oq.Signon.DtClient.IsZero() {
		oq.Signon.DtClient.Time = time.Now()
	}
''')],
 demo=demo('time', '''
	for _, old := range []time.Time{{}, time.Unix(0, 0), time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)} {
		var q ofxgo.Request
		q.Signon.DtClient.Time = old
		before := time.Now()
		q.SetClientFields(&ofxgo.BasicClient{})
		if q.Signon.DtClient.Before(before) {
			t.Errorf("%v", q.Signon.DtClient)
		}
	}
''')),
dict(name='c20-parse-leak', property='C20', needs='a reply which cannot be parsed',
 breaks='The body of a reply which cannot be parsed is not closed.',
 edits=[('client.go', '''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''', '''	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	response.Body.Close()
	return ofxresp, nil
''')],
 demo=demo('io net/http strings', '''
	for _, body := range []string{"", "nonsense", "<OFX></OFX>"} {
		b := &body1{Reader: strings.NewReader(body)}
		c := &ofxgo.BasicClient{HTTPClient: &http.Client{Transport: trip(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, Request: r}, nil
		})}}
		q := ofxgo.Request{URL: "https://bank.example/ofx"}
		q.Signon.UserID, q.Signon.UserPass, q.Signon.Org, q.Signon.Fid = "u", "p", "o", "f"
		if _, err := c.Request(&q); err == nil {
			t.Errorf("%q parsed", body)
		}
		if b.closed == 0 {
			t.Errorf("%q: body left open", body)
		}
	}
''', '''
type trip func(r *http.Request) (*http.Response, error)

func (f trip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type body1 struct {
	io.Reader
	closed int
}

func (b *body1) Close() error { b.closed++; return nil }
''')),
dict(name='c21-unknown-length', property='C21', needs='a first reply of unknown length (chunked) with a cookie',
 breaks='Empty replies whose length is not declared are not answered with their cookies.',
 edits=[('vanguard_client.go', 'response.ContentLength <= 0', 'response.ContentLength == 0')],
 demo=demo('encoding/pem net/http net/http/httptest os', '''
	for _, chunked := range []bool{false, true} {
		var got []string
		s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			c := ""
			if k, err := r.Cookie("k"); err == nil {
				c = k.Value
			}
			got = append(got, c)
			if c == "" {
				http.SetCookie(w, &http.Cookie{Name: "k", Value: "v"})
				if chunked {
					w.WriteHeader(200)
					w.(http.Flusher).Flush()
				}
			}
		}))
		c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{})
		q := ofxgo.Request{URL: s.URL}
		q.Signon.UserID, q.Signon.UserPass, q.Signon.Org, q.Signon.Fid = "u", "p", "o", "f"
		resp, err := c.RequestNoParse(&q)
		if err != nil {
			t.Fatal(err)
		}
		resp.Body.Close()
		s.Close()
		if len(got) != 2 || got[1] != "v" {
			t.Errorf("chunked %v: %q", chunked, got)
		}
	}
''', SRV)),
dict(name='c22-large-body', property='C22', needs='a body of more than 64 KiB from a reader which is not a buffer',
 breaks='Large bodies are cut.',
 edits=[('discovercard_client.go', 'io.Copy(buf, r)', 'io.Copy(buf, io.LimitReader(r, 1<<16))')],
 demo=demo('encoding/pem fmt io net/http net/http/httptest os strings', '''
	var got int
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		got = len(b)
		fmt.Fprint(w, "x")
	}))
	defer s.Close()
	for _, n := range []int{0, 100, 1 << 16, 1<<16 + 1, 1 << 18} {
		c := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{})
		resp, err := c.RawRequest(s.URL+"/ofx", io.MultiReader(strings.NewReader(strings.Repeat("a", n))))
		if err != nil {
			t.Fatal(err)
		}
		resp.Body.Close()
		if got != n {
			t.Errorf("%d of %d bytes", got, n)
		}
	}
''', SRV)),
dict(name='c23-first-failure', property='C23', needs='two invalid messages in one message set',
 breaks='Only the first failure in each message set is reported.',
 edits=[('response.go', '''			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
			}
''', '''			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
				break
			}
''')],
 demo=demo('strings', '''
	var r ofxgo.Response
	r.Version = ofxgo.OfxVersion203
	for i := 0; i < 2; i++ {
		r.Prof = append(r.Prof, &ofxgo.ProfileResponse{})
	}
	_, err := r.Valid()
	if err == nil || strings.Count(err.Error(), "UID invalid length") != 2 {
		t.Errorf("%v", err)
	}
''')),
dict(name='c26-swapped-loan', property='C26', needs='a 401(k) loan with initial and remaining numbers of payments',
 breaks='The numbers of initial and remaining payments of loans are exchanged.',
 edits=[('invstmt.go', '`xml:"LOANPMTSINITIAL,omitempty"`  ', '`xml:"LOANPMTSREMAINING,omitempty"`'), ('invstmt.go', '	LoanPmtsRemaining     Int         `xml:"LOANPMTSREMAINING,omitempty"`     //', '	LoanPmtsRemaining     Int         `xml:"LOANPMTSINITIAL,omitempty"`       //')],
 demo=demo('github.com/aclindsa/xml', '''
	var l ofxgo.LoanInfo
	if err := xml.Unmarshal([]byte("<LOANINFO><LOANID>1</LOANID><CURRENTLOANBAL>5</CURRENTLOANBAL><LOANPMTSINITIAL>24</LOANPMTSINITIAL><LOANPMTSREMAINING>3</LOANPMTSREMAINING></LOANINFO>"), &l); err != nil {
		t.Fatal(err)
	}
	if l.LoanPmtsInitial != 24 || l.LoanPmtsRemaining != 3 {
		t.Errorf("%d %d", l.LoanPmtsInitial, l.LoanPmtsRemaining)
	}
''')),
dict(name='c27-missing-leaf', property='C27', needs='an SGML document with a CALLPRICE element which is not closed',
 breaks='An element is no longer taken for a leaf.',
 edits=[('leaf_elements.go', '	"CALLPRICE",\n', '')],
 demo=demo('strings', '''
	const head = "OFXHEADER:100\\r\\nDATA:OFXSGML\\r\\nVERSION:103\\r\\nSECURITY:NONE\\r\\nENCODING:USASCII\\r\\nCHARSET:1252\\r\\nCOMPRESSION:NONE\\r\\nOLDFILEUID:NONE\\r\\nNEWFILEUID:NONE\\r\\n\\r\\n"
	const signon = "<SIGNONMSGSRSV1><SONRS><STATUS><CODE>0<SEVERITY>INFO</STATUS><DTSERVER>20200101<LANGUAGE>ENG</SONRS></SIGNONMSGSRSV1>"
	resp, err := ofxgo.ParseResponse(strings.NewReader(head + "<OFX>" + signon + "<SECLISTMSGSRSV1><SECLIST><DEBTINFO><SECINFO><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><SECNAME>n</SECINFO><PARVALUE>100<DEBTTYPE>COUPON<CALLPRICE>5<CALLTYPE>CALL</DEBTINFO></SECLIST></SECLISTMSGSRSV1></OFX>"))
	if err != nil {
		t.Fatal(err)
	}
	if d := resp.SecList[0].(*ofxgo.SecurityList).Securities[0].(ofxgo.DebtInfo); d.CallPrice.String() != "5" || d.CallType != ofxgo.CallTypeCall {
		t.Errorf("%+v", d)
	}
''')),
]
