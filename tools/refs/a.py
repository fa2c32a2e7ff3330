# Edits that keep the behaviour: (name, properties which look at the code, [(file, old, new)...]).
# new may be a function of the old text.
import re
def sub(a, b, n=1):
    def f(s):
        assert a in s, a
        return s.replace(a, b) if n == 0 else s.replace(a, b, n)
    return f
REFS = []
def ref(name, props, *edits): REFS.append((name, props.split(), edits))

# a helper for the texts of leaf elements
def leafhelper(s):
    s = s.replace('''	var value string

	err := d.DecodeElement(&value, &start)
	if err != nil {
		return err
	}

	value = strings.TrimSpace(value)
''', '''	value, err := trimmedElement(d, start)
	if err != nil {
		return err
	}
''')
    s = s.replace('''	var value string
	err := d.DecodeElement(&value, &start)
	if err != nil {
		return err
	}
	*os = String(strings.TrimSpace(value))
''', '''	value, err := trimmedElement(d, start)
	if err != nil {
		return err
	}
	*os = String(value)
''').replace('''	var value string
	err := d.DecodeElement(&value, &start)
	if err != nil {
		return err
	}
	*ou = UID(strings.TrimSpace(value))
''', '''	value, err := trimmedElement(d, start)
	if err != nil {
		return err
	}
	*ou = UID(value)
''')
    return s.replace('''// Equal returns true if the two Ints''', '''// trimmedElement decodes the text of an element, without the whitespace
// around it
func trimmedElement(d *xml.Decoder, start xml.StartElement) (string, error) {
	var value string
	if err := d.DecodeElement(&value, &start); err != nil {
		return "", err
	}
	return strings.TrimSpace(value), nil
}

// Equal returns true if the two Ints''')
ref('leaf-helper', 'C02 C03 C04 C05 C17 C24', ('types.go', leafhelper))
ref('bool-if', 'C02 C24', ('types.go', sub('''	tmpob := strings.TrimSpace(value)
	switch tmpob {
	case "Y":
		*ob = Boolean(true)
	case "N":
		*ob = Boolean(false)
	default:
		return errors.New("Invalid OFX Boolean")
	}
	return nil
''', '''	value = strings.TrimSpace(value)
	if value != "Y" && value != "N" {
		return errors.New("Invalid OFX Boolean")
	}
	*ob = value == "Y"
	return nil
''')), ('types.go', sub('''	if ob {
		return e.EncodeElement("Y", start)
	}
	return e.EncodeElement("N", start)
''', '''	text := "N"
	if ob {
		text = "Y"
	}
	return e.EncodeElement(text, start)
''')))
ref('date-zone', 'C04 C24', ('types.go', lambda s: s.replace('''		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
		if matches == nil {
			return errors.New("Invalid OFX Date timezone format: " + zone)
		}
		var err error
		var zonehours, zoneminutes int
		zonehours, err = strconv.Atoi(matches[1])
		if err != nil {
			return err
		}
		if len(matches[3]) > 0 {
			zoneminutes, err = strconv.Atoi(matches[3])
			if err != nil {
				return err
			}
			zoneminutes = zoneminutes * 60 / 100
		}
		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
		if zonehours == 0 && strings.HasPrefix(matches[1], "-") {
			// The sign of offsets less than an hour west of GMT is lost when
			// their hours are converted to an int
			zone = fmt.Sprintf(" -00%02d", zoneminutes)
		}

		// Get the time zone name if it's there, default to GMT if the offset
		// is 0 and a name isn't supplied
		if len(matches[5]) > 0 {
			zonename = matches[5]
		} else if zonehours == 0 && zoneminutes == 0 {
			zone = zone + " GMT"
			zoneFormat = zoneFormat + " MST"
		}
''', '''		zone, zonename, err = parseZone(zone)
		if err != nil {
			return err
		}
		if strings.HasSuffix(zone, " GMT") {
			zoneFormat += " MST"
		}
''').replace('''// String returns a string representation of the Date''', '''// parseZone converts an OFX time zone to the form time.Parse expects, and
// returns its name, if any
func parseZone(s string) (zone string, name string, err error) {
	matches := ofxDateZoneRegex.FindStringSubmatch(s)
	if matches == nil {
		return "", "", errors.New("Invalid OFX Date timezone format: " + s)
	}
	hours, err := strconv.Atoi(matches[1])
	if err != nil {
		return "", "", err
	}
	minutes := 0
	if matches[3] != "" {
		hundredths, err := strconv.Atoi(matches[3])
		if err != nil {
			return "", "", err
		}
		minutes = hundredths * 60 / 100
	}
	if hours == 0 && strings.HasPrefix(matches[1], "-") {
		// The sign of offsets less than an hour west of GMT is lost when
		// their hours are converted to an int
		zone = fmt.Sprintf(" -00%02d", minutes)
	} else {
		zone = fmt.Sprintf(" %+03d%02d", hours, minutes)
	}
	name = matches[5]
	if name == "" && hours == 0 && minutes == 0 {
		zone += " GMT"
	}
	return zone, name, nil
}

// String returns a string representation of the Date''')))
ref('date-string', 'C04', ('types.go', sub('''	format := od.Format(ofxDateFormats[0])
	zonename, zoneoffset := od.Zone()
	if zoneoffset < 0 && zoneoffset > -3600 {
		// An int of zero can't carry the sign
		format += "[-0"
	} else if zoneoffset < 0 {
		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
	} else {
		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
	}
	fractionaloffset := (zoneoffset % 3600) / 36
	if fractionaloffset > 0 {
		format += "." + fmt.Sprintf("%02d", fractionaloffset)
	} else if fractionaloffset < 0 {
		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
	}
''', '''	zonename, zoneoffset := od.Zone()
	hours := zoneoffset / 3600
	format := od.Format(ofxDateFormats[0]) + "["
	if hours == 0 && zoneoffset < 0 {
		// An int of zero can't carry the sign
		format += "-"
	}
	format += strconv.Itoa(hours)
	hundredths := (zoneoffset % 3600) / 36
	if hundredths < 0 {
		hundredths = -hundredths
	}
	if hundredths != 0 {
		format += fmt.Sprintf(".%02d", hundredths)
	}
''')))
ref('amount-two', 'C03 C24', ('types.go', sub('''	value = strings.Replace(value, ",", ".", 1)

	if _, ok := a.SetString(value); !ok {
		return errors.New("Failed to parse OFX amount")
	}
	return nil
''', '''	if i := strings.Index(value, ","); i >= 0 {
		value = value[:i] + "." + value[i+1:]
	}

	_, ok := a.Rat.SetString(value)
	if ok {
		return nil
	}
	return errors.New("Failed to parse OFX amount")
''')))
ref('amount-string', 'C03 C25', ('types.go', sub('''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
''', '''	s := a.FloatString(100)
	s = strings.TrimRight(s, "0")
	s = strings.TrimSuffix(s, ".")
	return s
''')))
ref('uid-switch', 'C17 C24 C23', ('types.go', sub('''	if len(ou) == 0 || len(ou) > 36 {
		return false, errors.New("UID invalid length")
	}
	return true, nil
''', '''	switch n := len(ou); {
	case n == 0, n > 36:
		return false, errors.New("UID invalid length")
	default:
		return true, nil
	}
''')), ('types.go', sub('''	if len(ou) != 36 {
		return false, errors.New("UID not 36 characters long")
	}
	if ou[8] != '-' || ou[13] != '-' || ou[18] != '-' || ou[23] != '-' {
		return false, errors.New("UID missing hyphens at the appropriate places")
	}
	return true, nil
''', '''	if len(ou) != 36 {
		return false, errors.New("UID not 36 characters long")
	}
	for _, i := range []int{8, 13, 18, 23} {
		if ou[i] != '-' {
			return false, errors.New("UID missing hyphens at the appropriate places")
		}
	}
	return true, nil
''')))
ref('uid-hex', 'C17 C28', ('types.go', sub('''	uidbytes := make([]byte, 16)
	n, err := rand.Read(uidbytes[:])
	if err != nil {
		return nil, err
	}
	if n != 16 {
		return nil, errors.New("RandomUID failed to read 16 random bytes")
	}
	uid := UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", uidbytes[:4], uidbytes[4:6], uidbytes[6:8], uidbytes[8:10], uidbytes[10:]))
	return &uid, nil
''', '''	var b [16]byte
	n, err := rand.Read(b[:])
	switch {
	case err != nil:
		return nil, err
	case n < len(b):
		return nil, errors.New("RandomUID failed to read 16 random bytes")
	}
	uid := new(UID)
	*uid = UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16]))
	return uid, nil
''')))
ref('uid-parts', 'C17', ('types.go', sub('''	uid := UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", uidbytes[:4], uidbytes[4:6], uidbytes[6:8], uidbytes[8:10], uidbytes[10:]))
	return &uid, nil
''', '''	text := fmt.Sprintf("%x-%x-%x-%x-%x", uidbytes[:4], uidbytes[4:6], uidbytes[6:8], uidbytes[8:10], uidbytes[10:])
	uid := UID(text)
	return &uid, nil
''')))
ref('token-switch', 'C07 C08 C10 C11 C12 C24 C27', ('util.go', sub('''		} else if chars, ok := tok.(xml.CharData); ok {
			strippedBytes := bytes.TrimSpace(chars)
			if len(strippedBytes) != 0 {
				return tok, nil
			}
		} else {
			return tok, nil
		}
''', '''		}
		chars, isText := tok.(xml.CharData)
		if !isText || len(bytes.TrimSpace(chars)) > 0 {
			return tok, nil
		}
''')))
ref('xml-header-helper', 'C07 C08 C24', ('response.go', lambda s: s.replace('''			tmp := bytes.SplitN(headers, []byte("=\\""), 2)
			if len(tmp) != 2 {
				return errors.New("Malformed OFX header")
			}
			header := string(tmp[0])
			headers = tmp[1]
			tmp = bytes.SplitN(headers, []byte("\\""), 2)
			if len(tmp) != 2 {
				return errors.New("Malformed OFX header")
			}
			value := string(tmp[0])
			headers = bytes.TrimSpace(tmp[1])
''', '''			var header, value string
			header, value, headers, err = nextXMLHeader(headers)
			if err != nil {
				return err
			}
''').replace('''func (or *Response) readXMLHeaders''', '''// nextXMLHeader splits one header and its value off
func nextXMLHeader(headers []byte) (name, value string, rest []byte, err error) {
	tmp := bytes.SplitN(headers, []byte("=\\""), 2)
	if len(tmp) != 2 {
		return "", "", nil, errors.New("Malformed OFX header")
	}
	name = string(tmp[0])
	tmp = bytes.SplitN(tmp[1], []byte("\\""), 2)
	if len(tmp) != 2 {
		return "", "", nil, errors.New("Malformed OFX header")
	}
	return name, string(tmp[0]), bytes.TrimSpace(tmp[1]), nil
}

func (or *Response) readXMLHeaders''')))
ref('sgml-header-global', 'C07 C08 C24', ('response.go', lambda s: s.replace('''	headerExp := regexp.MustCompile(
''', '''	headerExp := sgmlHeaderExp

	matches := headerExp.FindStringSubmatch(s)
	if len(matches) == 0 {
		return errors.New("OFX headers malformed")
	}
@@CUT@@
''').replace('@@CUT@@', '', 1) if False else re.sub(r'''	headerExp := regexp\.MustCompile\((.*?)<\$`\)
''', '', s, flags=re.S).replace('headerExp.', 'sgmlHeaderExp.').replace('''func (or *Response) readSGMLHeaders''', 'var sgmlHeaderExp = regexp.MustCompile(' + re.search(r'MustCompile\((.*?<\$`\))', s, re.S).group(1) + '''

func (or *Response) readSGMLHeaders''')))
ref('guess-switch', 'C07 C08 C24', ('response.go', sub('''	if sgmlIndex < 0 {
		return true, nil
	} else if xmlIndex < 0 {
		return false, nil
	} else {
		return xmlIndex <= sgmlIndex, nil
	}
''', '''	isSGML := sgmlIndex >= 0 && (xmlIndex < 0 || sgmlIndex < xmlIndex)
	return !isSGML, nil
''')))
ref('signon-helper', 'C08 C23 C07 C24', ('response.go', lambda s: re.sub(r'''	// Unmarshal the signon message
.*?
(?=	var messageSlices)''', '''	if err := or.decodeSignon(decoder); err != nil {
		return nil, err
	}

''', s, flags=re.S).replace('''// DecodeResponse parses''', '''// decodeSignon decodes the signon message set
func (or *Response) decodeSignon(decoder *xml.Decoder) error {
	tok, err := nextNonWhitespaceToken(decoder)
	if err != nil {
		return err
	}
	start, ok := tok.(xml.StartElement)
	if !ok || start.Name.Local != SignonRs.String() {
		return errors.New("Missing opening SIGNONMSGSRSV1 xml element")
	}
	if err = decoder.Decode(&or.Signon); err != nil {
		return err
	}
	tok, err = nextNonWhitespaceToken(decoder)
	if err != nil {
		return err
	}
	if end, ok := tok.(xml.EndElement); !ok || end.Name.Local != SignonRs.String() {
		return errors.New("Missing closing SIGNONMSGSRSV1 xml element")
	}
	return nil
}

// DecodeResponse parses''')))
ref('message-set-switch', 'C08 C23 C24', ('response.go', sub('''		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			responseType, ok := setTypes[startElement.Name.Local]
			if !ok {
				// If you are a developer and received this message after you
				// thought you added a new transaction type, make sure you
				// added it to the responseTypes map above
				return errors.New("Unsupported response transaction for " +
					start.Name.Local + ": " + startElement.Name.Local)
			}
			response := reflect.New(responseType).Interface()
			responseMessage := response.(Message)
			if err := d.DecodeElement(responseMessage, &startElement); err != nil {
				return err
			}
			*msgs = append(*msgs, responseMessage)
		} else {
			return errors.New("Didn't find an opening element")
		}
''', '''		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		}
		switch t := tok.(type) {
		case xml.EndElement:
			if t.Name.Local != start.Name.Local {
				return errors.New("Didn't find an opening element")
			}
			// If we found the end of our starting element, we're done parsing
			return nil
		case xml.StartElement:
			responseType, ok := setTypes[t.Name.Local]
			if !ok {
				// If you are a developer and received this message after you
				// thought you added a new transaction type, make sure you
				// added it to the responseTypes map above
				return errors.New("Unsupported response transaction for " +
					start.Name.Local + ": " + t.Name.Local)
			}
			message := reflect.New(responseType).Interface().(Message)
			if err := d.DecodeElement(message, &t); err != nil {
				return err
			}
			*msgs = append(*msgs, message)
		default:
			return errors.New("Didn't find an opening element")
		}
''')))
ref('response-valid-helper', 'C23 C20 C24', ('response.go', lambda s: s.replace('''		for _, message := range messageSet {
			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
			}
		}
	}
''', '''		errs.checkAll(messageSet, or.Version)
	}
''').replace('''func (e errInvalid) ErrOrNil''', '''// checkAll collects what is wrong with messages
func (e *errInvalid) checkAll(messages []Message, version ofxVersion) {
	for i := range messages {
		ok, err := messages[i].Valid(version)
		if ok {
			continue
		}
		e.AddErr(err)
	}
}

func (e errInvalid) ErrOrNil''')))
ref('errs-len', 'C23 C24', ('response.go', sub('''	if len(e) > 0 {
		return e
	}
	return nil
''', '''	if len(e) == 0 {
		return nil
	}
	return e
''')), ('response.go', sub('''	if err != nil {
		if errs, ok := err.(errInvalid); ok {
			*e = append(*e, errs...)
		} else {
			*e = append(*e, err)
		}
	}
''', '''	if err == nil {
		return
	}
	switch errs := err.(type) {
	case errInvalid:
		*e = append(*e, errs...)
	default:
		*e = append(*e, err)
	}
''')))
ref('marshal-signon-helper', 'C09 C06 C15 C24 C19', ('request.go', lambda s: s.replace('''	if ok, err := oq.Signon.Valid(oq.Version); !ok {
		return nil, err
	}
	signonMsgSet := xml.StartElement{Name: xml.Name{Local: SignonRq.String()}}
	if err := encoder.EncodeToken(signonMsgSet); err != nil {
		return nil, err
	}
	if err := encoder.Encode(&oq.Signon); err != nil {
		return nil, err
	}
	if err := encoder.EncodeToken(signonMsgSet.End()); err != nil {
		return nil, err
	}
''', '''	if err := oq.encodeSignon(encoder); err != nil {
		return nil, err
	}
''').replace('''// Marshal this Request''', '''func (oq *Request) encodeSignon(e *xml.Encoder) error {
	if ok, err := oq.Signon.Valid(oq.Version); !ok {
		return err
	}
	signonMsgSet := xml.StartElement{Name: xml.Name{Local: SignonRq.String()}}
	if err := e.EncodeToken(signonMsgSet); err != nil {
		return err
	}
	if err := e.Encode(&oq.Signon); err != nil {
		return err
	}
	return e.EncodeToken(signonMsgSet.End())
}

// Marshal this Request''')))
ref('encode-set-early', 'C09 C24', ('request.go', lambda s: s.replace('''	if len(requests) > 0 {
		messageSetElement''', '''	if len(requests) == 0 {
		return nil
	}
		messageSetElement''').replace('''		if err := e.EncodeToken(messageSetElement.End()); err != nil {
			return err
		}
	}
	return nil
}''', '''		return e.EncodeToken(messageSetElement.End())
}''').replace('''			if request.Type() != set {
				return errors.New("Expected " + set.String() + " message , found " + request.Type().String())
			}
''', '''			if found := request.Type(); found != set {
				return errors.New("Expected " + set.String() + " message , found " + found.String())
			}
''')))
ref('sets-arrays', 'C09 C06 C24', ('request.go', lambda s: re.sub(r'''	messageSets := \[\]struct \{.*?\n	\}
	for _, set := range messageSets \{
.*?
	\}
(?=
	if err := encoder\.EncodeToken\(ofxElement\.End)''', '''	messages := [][]Message{oq.Signup, oq.Bank, oq.CreditCard, oq.Loan, oq.InvStmt, oq.InterXfer, oq.WireXfer,
		oq.Billpay, oq.Email, oq.SecList, oq.PresDir, oq.PresDlv, oq.Prof, oq.Image}
	for i := range messages {
		if err := encodeMessageSet(encoder, messages[i], SignupRq+messageType(i), oq.Version); err != nil {
			return nil, err
		}
	}
''', s, flags=re.S)))
