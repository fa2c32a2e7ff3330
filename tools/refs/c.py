exec(open('/verif/tools/refs/a.py').read().split("# a helper for the texts")[0])
def rx(pat, new):
    return lambda s: re.sub(pat, lambda m: new, s, count=1, flags=re.S)
# the lists of a response by a method
ref('slot-method', 'C08 C24 C23', ('response.go', lambda s: s.replace('''			slice, ok := messageSlices[start.Name.Local]
			if !ok {
''', '''			slice := or.messageList(start.Name.Local)
			if slice == nil {
''').replace(s[s.index('	var messageSlices = map'):s.index('	for {\n		tok, err = nextNonWhitespaceToken(decoder)')], '').replace('''// Valid returns whether the Response is valid''', '''// messageList returns the list of the messages of a message set, or nil if
// there is none
func (or *Response) messageList(name string) *[]Message {
	switch name {
''' + ''.join('	case %sRs.String():\n		return &or.%s\n' % (n, n) for n in 'Signup Bank CreditCard Loan InvStmt InterXfer WireXfer Billpay Email SecList PresDir PresDlv Prof Image'.split()) + '''	}
	return nil
}

// Valid returns whether the Response is valid''')))
# all messages in one list
ref('all-messages', 'C23 C24', ('response.go', lambda s: s.replace(s[s.index('	for _, messageSet := range [][]Message{'):s.index('	err := errs.ErrOrNil()')], '''	for _, message := range or.messages() {
		if ok, err := message.Valid(or.Version); !ok {
			errs.AddErr(err)
		}
	}
''').replace('''// Marshal this Response''', '''// messages returns the messages of all message sets
func (or *Response) messages() []Message {
	var all []Message
''' + ''.join('	all = append(all, or.%s...)\n' % n for n in 'Signup Bank CreditCard Loan InvStmt InterXfer WireXfer Billpay Email SecList PresDir PresDlv Prof Image'.split()) + '''	return all
}

// Marshal this Response''')))
# the validation of one message by a closure
ref('valid-closure', 'C23 C24', ('response.go', lambda s: s.replace('''	var errs errInvalid
	if ok, err := or.Signon.Valid(or.Version); !ok {
		errs.AddErr(err)
	}
''', '''	var errs errInvalid
	check := func(v interface {
		Valid(ofxVersion) (bool, error)
	}) {
		if ok, err := v.Valid(or.Version); !ok {
			errs.AddErr(err)
		}
	}
	check(&or.Signon)
''').replace('''			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
			}
''', '''			check(message)
''')))
# errors in a switch
ref('add-switch', 'C23 C24', ('response.go', sub('''	if err != nil {
		if errs, ok := err.(errInvalid); ok {
			*e = append(*e, errs...)
		} else {
			*e = append(*e, err)
		}
	}
''', '''	switch errs := err.(type) {
	case nil:
	case errInvalid:
		*e = append(*e, errs...)
	default:
		*e = append(*e, err)
	}
''')))
ref('error-builder', 'C23', ('response.go', sub('''	var errStrings []string
	for _, err := range e {
		errStrings = append(errStrings, err.Error())
	}
	return fmt.Sprintf("Validation failed: %s", strings.Join(errStrings, "; "))
''', '''	text := "Validation failed: "
	for i, err := range e {
		if i > 0 {
			text += "; "
		}
		text += err.Error()
	}
	return text
''')), ('response.go', lambda s: s.replace('	"fmt"\n', '').replace('	"strings"\n', '')))
# wrap elements by a helper with a function
ref('with-element', 'C09 C06 C24', ('request.go', lambda s: s.replace(s[s.index('func encodeMessageSet'):s.index('// SetClientFields')], '''// encodeIn encodes an element, with what f encodes in it
func encodeIn(e *xml.Encoder, name string, f func() error) error {
	start := xml.StartElement{Name: xml.Name{Local: name}}
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	if err := f(); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}

func encodeMessageSet(e *xml.Encoder, requests []Message, set messageType, version ofxVersion) error {
	if len(requests) == 0 {
		return nil
	}
	return encodeIn(e, set.String(), func() error {
		for _, request := range requests {
			if request.Type() != set {
				return errors.New("Expected " + set.String() + " message , found " + request.Type().String())
			}
			if ok, err := request.Valid(version); !ok {
				return err
			}
			if err := e.Encode(request); err != nil {
				return err
			}
		}
		return nil
	})
}

''')))
# validate all messages of a set before any is encoded
ref('check-first', 'C09 C24', ('request.go', sub('''			if ok, err := request.Valid(version); !ok {
				return err
			}
			if err := e.Encode(request); err != nil {
				return err
			}
		}
''', '''			ok, err := request.Valid(version)
			if !ok {
				return err
			}
			err = e.Encode(request)
			if err != nil {
				return err
			}
		}
''')))
# whitespace skipping
ref('skip-loop', 'C08 C07 C10 C24', ('util.go', lambda s: s.replace(s[s.index('	for {'):], '''	tok, err := decoder.Token()
	for err == nil && isSpace(tok) {
		tok, err = decoder.Token()
	}
	if err != nil {
		return nil, err
	}
	return tok, nil
}

func isSpace(tok xml.Token) bool {
	chars, ok := tok.(xml.CharData)
	return ok && len(bytes.TrimSpace(chars)) == 0
}
''')))
# clients
ref('or-default', 'C19 C20', ('basic_client.go', lambda s: s.replace('''	if len(c.AppID) > 0 {
		return String(c.AppID)
	}
	return String("OFXGO")
''', '''	return stringOr(c.AppID, "OFXGO")
''').replace('''	if len(c.AppVer) > 0 {
		return String(c.AppVer)
	}
	return String("0001")
''', '''	return stringOr(c.AppVer, "0001")
''').replace('''// ID returns this''', '''func stringOr(s, def string) String {
	if s == "" {
		s = def
	}
	return String(s)
}

// ID returns this''')))
ref('basic-status', 'C18 C20 C19', ('basic_client.go', sub('''	response, err := httpsRedirectsOnly(httpClient).Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}

	return response, nil
''', '''	httpClient = httpsRedirectsOnly(httpClient)
	response, err := httpClient.Do(request)
	switch {
	case err != nil:
		return nil, err
	case response.StatusCode == http.StatusOK:
		return response, nil
	default:
		return response, errors.New("OFXQuery request status: " + response.Status)
	}
''')))
ref('request-close', 'C20 C23', ('client.go', sub('''	if err != nil {
		if response != nil {
			response.Body.Close()
		}
		return nil, err
	}
	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''', '''	if response != nil {
		defer response.Body.Close()
	}
	if err != nil {
		return nil, err
	}

	var ofxresp *Response
	if ofxresp, err = ParseResponse(response.Body); err != nil {
		ofxresp = nil
	}
	return ofxresp, err
''')))
ref('parse-then', 'C20 C23', ('client.go', sub('''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
''', '''	ofxresp, err := ParseResponse(response.Body)
	response.Body.Close()
	if err != nil {
''')))
ref('set-fields', 'C19', ('request.go', sub('''	oq.Signon.DtClient.Time = time.Now()

	// Overwrite fields that the client controls
	oq.Version = c.OfxVersion()
	oq.Signon.AppID = c.ID()
	oq.Signon.AppVer = c.Version()
''', '''	signon := &oq.Signon
	signon.AppID, signon.AppVer = c.ID(), c.Version()
	signon.DtClient = Date{Time: time.Now()}
	oq.Version = c.OfxVersion()
''')))
ref('vanguard-retry', 'C18 C20 C21', ('vanguard_client.go', sub('''	if err == nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
		response.Body.Close()

		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}

		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
	}

	return response, err
''', '''	if err != nil || response.ContentLength > 0 {
		return response, err
	}
	cookies := response.Cookies()
	if len(cookies) == 0 {
		return response, nil
	}
	response.Body.Close()

	if b, err = r.Marshal(); err != nil {
		return nil, err
	}
	return c.rawRequestCookiesInsecureCiphers(r.URL, b, cookies)
''')))
ref('discover-write', 'C22 C18 C20', ('discovercard_client.go', sub('''	host := url.Host
	if url.Port() == "" {
		host += ":443"
	}
''', '''	port := url.Port()
	host := url.Host
	if len(port) == 0 {
		host = host + ":" + "443"
	}
''')))
# validation
ref('status-table', 'C16 C29', ('common.go', sub('''	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) {
			return false, errors.New("Unexpected SEVERITY for STATUS>CODE")
		}
	} else {
		return false, errors.New("Unknown OFX status code")
	}

	return true, nil
''', '''	meaning, ok := statusMeanings[s.Code]
	if !ok {
		return false, errors.New("Unknown OFX status code")
	}
	if severity := meaning[1]; String(severity) != s.Severity {
		return false, errors.New("Unexpected SEVERITY for STATUS>CODE")
	}
	return true, nil
''')))
ref('payee-required', 'C14 C29 C24', ('bank.go', lambda s: s.replace(s[s.index('	if len(p.Name) == 0 {'):s.index('	return true, nil', s.index('	if len(p.Name) == 0 {'))], '''	for _, field := range []struct {
		name  string
		value String
	}{
		{"Name", p.Name},
		{"Addr1", p.Addr1},
		{"City", p.City},
		{"State", p.State},
		{"PostalCode", p.PostalCode},
		{"Phone", p.Phone},
	} {
		if field.value == "" {
			return false, errors.New("Payee." + field.name + " empty")
		}
	}
	if n := len(p.Country); n != 0 && n != 3 {
		return false, errors.New("Payee.Country invalid length")
	}
''')))
ref('statement-lists', 'C29 C14 C23', ('bank.go', sub('''	for _, bal := range sr.BalList {
		if ok, err := bal.Valid(); !ok {
			return false, err
		}
	}
	return true, nil
''', '''	for i := 0; i < len(sr.BalList); i++ {
		ok, err := sr.BalList[i].Valid()
		if ok {
			continue
		}
		return ok, err
	}
	return true, nil
''')))
ref('stmt-req', 'C29 C24', ('bank.go', sub('''	if r.IncludePending && version < OfxVersion220 {
		return false, errors.New("StatementRequest.IncludePending invalid for OFX < 2.2")
	}
	if r.IncTranImg && version < OfxVersion210 {
		return false, errors.New("StatementRequest.IncTranImg invalid for OFX < 2.1")
	}
	return r.BankAcctFrom.Valid()
''', '''	switch {
	case bool(r.IncTranImg) && version < OfxVersion210:
		return false, errors.New("StatementRequest.IncTranImg invalid for OFX < 2.1")
	case bool(r.IncludePending) && !(version >= OfxVersion220):
		return false, errors.New("StatementRequest.IncludePending invalid for OFX < 2.2")
	}
	if ok, err := r.BankAcctFrom.Valid(); !ok {
		return false, err
	}
	return true, nil
''')))
ref('signon-len', 'C15 C09', ('signon.go', lambda s: s.replace('len(r.UserID) < 1 || len(r.UserID) > 32', '!(1 <= len(r.UserID) && len(r.UserID) <= 32)')))
# date
ref('date-formats', 'C04 C24', ('types.go', sub('''	for _, format := range ofxDateFormats {
		t, err := time.Parse(format+zoneFormat, value+zone)
		if err == nil {
			if len(zonename) > 0 {
				// time.Parse doesn't take all names for those of zones
				_, offset := t.Zone()
				t = t.In(time.FixedZone(zonename, offset))
			}
			od.Time = t
			return nil
		}
	}
''', '''	for i := range ofxDateFormats {
		t, err := time.Parse(ofxDateFormats[i]+zoneFormat, value+zone)
		if err != nil {
			continue
		}
		if zonename != "" {
			// time.Parse doesn't take all names for those of zones
			_, offset := t.Zone()
			t = t.In(time.FixedZone(zonename, offset))
		}
		od.Time = t
		return nil
	}
''')))
ref('date-cut', 'C04 C24', ('types.go', sub('''	value = strings.SplitN(value, "]", 2)[0]
	value = strings.TrimSpace(value)
''', '''	if end := strings.Index(value, "]"); end >= 0 {
		value = value[:end]
	}
	value = strings.TrimSpace(value)
''')))
ref('currency-and', 'C05 C14', ('common.go', sub('''	if c.CurRate.Sign() == 0 {
		return false, errors.New("CurRate may not be zero")
	} else if ok, err := c.CurSym.Valid(); !ok {
		return false, err
	}
	return true, nil
''', '''	if c.CurRate.Sign() != 0 {
		return c.CurSym.Valid()
	}
	return false, errors.New("CurRate may not be zero")
''')))
ref('enum-find', 'C01', ('constants.go', lambda s: s.replace('''	value := strings.TrimSpace(in)

	for i, s := range tferActions {
		if s == value {
			*e = tferAction(i + 1)
			return nil
		}
	}
	*e = 0
	return errors.New("Invalid TferAction: \\"" + in + "\\"")
''', '''	i := indexOf(tferActions[:], strings.TrimSpace(in))
	*e = tferAction(i + 1)
	if i < 0 {
		return errors.New("Invalid TferAction: \\"" + in + "\\"")
	}
	return nil
''') + '''
func indexOf(list []string, s string) int {
	for i, t := range list {
		if t == s {
			return i
		}
	}
	return -1
}
'''))
ref('enum-valid', 'C01', ('constants.go', sub('''	return e >= TferActionIn && e <= TferActionOut
''', '''	switch e {
	case TferActionIn, TferActionOut:
		return true
	}
	return false
''')))
ref('oolist-var', 'C11 C24', ('invstmt.go', lambda s: s.replace('''			case "OOBUYDEBT":
				var oo OOBuyDebt
				if err := d.DecodeElement(&oo, &startElement); err != nil {
					return err
				}
				*o = append(*o, OpenOrder(oo))
''', '''			case "OOBUYDEBT":
				oo := new(OOBuyDebt)
				if err := d.DecodeElement(oo, &startElement); err != nil {
					return err
				}
				*o = append(*o, *oo)
''')))
ref('seclist-cond', 'C11 C24', ('seclist.go', lambda s: s.replace('''			case "STOCKINFO":
				var info StockInfo
				if err := d.DecodeElement(&info, &startElement); err != nil {
					return err
				}
				r.Securities = append(r.Securities, Security(info))
''', '''			case "STOCKINFO":
				var info StockInfo
				err := d.DecodeElement(&info, &startElement)
				if err == nil {
					r.Securities = append(r.Securities, info)
					continue
				}
				return err
''')))
ref('cmd-print-helper', 'C25 C28', ('cmd/ofx/invtransactions.go', lambda s: s.replace('''				currency := stmt.CurDef
				if ok, _ := tran.Currency.Valid(); ok {
					currency = tran.Currency.CurSym
				}
''', '''				currency := currencyOr(tran.Currency, stmt.CurDef)
''') + '''
func currencyOr(c ofxgo.Currency, def ofxgo.CurrSymbol) ofxgo.CurrSymbol {
	if ok, _ := c.Valid(); ok {
		return c.CurSym
	}
	return def
}
'''))
ref('cmd-check-status', 'C25 C28', ('cmd/ofx/get_accounts.go', sub('''	if response.Signon.Status.Code != 0 {
		meaning, _ := response.Signon.Status.CodeMeaning()
		fmt.Printf("Nonzero signon status (%d: %s) with message: %s\\n", response.Signon.Status.Code, meaning, response.Signon.Status.Message)
		os.Exit(1)
	}
''', '''	checkStatus(&response.Signon.Status)
''')), ('cmd/ofx/util.go', lambda s: s + '''
func checkStatus(status *ofxgo.Status) {
	if status.Code == 0 {
		return
	}
	meaning, _ := status.CodeMeaning()
	fmt.Printf("Nonzero signon status (%d: %s) with message: %s\\n", status.Code, meaning, status.Message)
	os.Exit(1)
}
'''))
ref('cmd-flags-bool', 'C28', ('cmd/ofx/command.go', sub('''	var ret bool = true
	if len(serverURL) == 0 {
		fmt.Println("Error: Server URL empty")
		ret = false
	}
	if len(username) == 0 {
		fmt.Println("Error: Username empty")
		ret = false
	}
''', '''	if serverURL == "" {
		fmt.Println("Error: Server URL empty")
	}
	if username == "" {
		fmt.Println("Error: Username empty")
	}
	ret := serverURL != "" && username != ""
''')))
