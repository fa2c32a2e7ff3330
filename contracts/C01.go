//go:build go1.21

package ofxgo

//govc:use XML TAB

// Generated by tools/mkc01.py from tools/enums.json.

import (
	"strings"

	"github.com/aclindsa/xml"
)

func c01readOfxVersion(text string, e ofxVersion, err error) bool {
	if w := c01valueOfxVersion(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOfxVersion(e) == ""
}

func C01__ensures__ofxVersion_Valid__namedConstants(p0 ofxVersion, r0 bool) bool {
	return r0 == (c01spellingOfxVersion(p0) != "")
}

func C01__ensures__ofxVersion_String__spelling(p0 ofxVersion, r0 string) bool {
	return imp(c01spellingOfxVersion(p0) != "", r0 == c01spellingOfxVersion(p0))
}

func C01__ensures__ofxVersion_FromString__exactlySpellings(p0 *ofxVersion, p1 string, r0 error) bool {
	return c01readOfxVersion(p1, *p0, r0)
}

func C01__ensures__NewOfxVersion__exactlySpellings(p0 string, r0 ofxVersion, r1 error) bool {
	return c01readOfxVersion(p0, r0, r1)
}

func C01__ensures__ofxVersion_UnmarshalXML__exactlySpellings(p0 *ofxVersion, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOfxVersion(gText, *p0, r0)
}

func C01__ensures__ofxVersion_MarshalXML__spelling(p0 ofxVersion, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOfxVersion(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readAcctType(text string, e acctType, err error) bool {
	if w := c01valueAcctType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingAcctType(e) == ""
}

func C01__ensures__acctType_Valid__namedConstants(p0 acctType, r0 bool) bool {
	return r0 == (c01spellingAcctType(p0) != "")
}

func C01__ensures__acctType_String__spelling(p0 acctType, r0 string) bool {
	return imp(c01spellingAcctType(p0) != "", r0 == c01spellingAcctType(p0))
}

func C01__ensures__acctType_FromString__exactlySpellings(p0 *acctType, p1 string, r0 error) bool {
	return c01readAcctType(p1, *p0, r0)
}

func C01__ensures__NewAcctType__exactlySpellings(p0 string, r0 acctType, r1 error) bool {
	return c01readAcctType(p0, r0, r1)
}

func C01__ensures__acctType_UnmarshalXML__exactlySpellings(p0 *acctType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readAcctType(gText, *p0, r0)
}

func C01__ensures__acctType_MarshalXML__spelling(p0 acctType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingAcctType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readTrnType(text string, e trnType, err error) bool {
	if w := c01valueTrnType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingTrnType(e) == ""
}

func C01__ensures__trnType_Valid__namedConstants(p0 trnType, r0 bool) bool {
	return r0 == (c01spellingTrnType(p0) != "")
}

func C01__ensures__trnType_String__spelling(p0 trnType, r0 string) bool {
	return imp(c01spellingTrnType(p0) != "", r0 == c01spellingTrnType(p0))
}

func C01__ensures__trnType_FromString__exactlySpellings(p0 *trnType, p1 string, r0 error) bool {
	return c01readTrnType(p1, *p0, r0)
}

func C01__ensures__NewTrnType__exactlySpellings(p0 string, r0 trnType, r1 error) bool {
	return c01readTrnType(p0, r0, r1)
}

func C01__ensures__trnType_UnmarshalXML__exactlySpellings(p0 *trnType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readTrnType(gText, *p0, r0)
}

func C01__ensures__trnType_MarshalXML__spelling(p0 trnType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingTrnType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readImageType(text string, e imageType, err error) bool {
	if w := c01valueImageType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingImageType(e) == ""
}

func C01__ensures__imageType_Valid__namedConstants(p0 imageType, r0 bool) bool {
	return r0 == (c01spellingImageType(p0) != "")
}

func C01__ensures__imageType_String__spelling(p0 imageType, r0 string) bool {
	return imp(c01spellingImageType(p0) != "", r0 == c01spellingImageType(p0))
}

func C01__ensures__imageType_FromString__exactlySpellings(p0 *imageType, p1 string, r0 error) bool {
	return c01readImageType(p1, *p0, r0)
}

func C01__ensures__NewImageType__exactlySpellings(p0 string, r0 imageType, r1 error) bool {
	return c01readImageType(p0, r0, r1)
}

func C01__ensures__imageType_UnmarshalXML__exactlySpellings(p0 *imageType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readImageType(gText, *p0, r0)
}

func C01__ensures__imageType_MarshalXML__spelling(p0 imageType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingImageType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readImageRefType(text string, e imageRefType, err error) bool {
	if w := c01valueImageRefType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingImageRefType(e) == ""
}

func C01__ensures__imageRefType_Valid__namedConstants(p0 imageRefType, r0 bool) bool {
	return r0 == (c01spellingImageRefType(p0) != "")
}

func C01__ensures__imageRefType_String__spelling(p0 imageRefType, r0 string) bool {
	return imp(c01spellingImageRefType(p0) != "", r0 == c01spellingImageRefType(p0))
}

func C01__ensures__imageRefType_FromString__exactlySpellings(p0 *imageRefType, p1 string, r0 error) bool {
	return c01readImageRefType(p1, *p0, r0)
}

func C01__ensures__NewImageRefType__exactlySpellings(p0 string, r0 imageRefType, r1 error) bool {
	return c01readImageRefType(p0, r0, r1)
}

func C01__ensures__imageRefType_UnmarshalXML__exactlySpellings(p0 *imageRefType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readImageRefType(gText, *p0, r0)
}

func C01__ensures__imageRefType_MarshalXML__spelling(p0 imageRefType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingImageRefType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readCheckSup(text string, e checkSup, err error) bool {
	if w := c01valueCheckSup(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingCheckSup(e) == ""
}

func C01__ensures__checkSup_Valid__namedConstants(p0 checkSup, r0 bool) bool {
	return r0 == (c01spellingCheckSup(p0) != "")
}

func C01__ensures__checkSup_String__spelling(p0 checkSup, r0 string) bool {
	return imp(c01spellingCheckSup(p0) != "", r0 == c01spellingCheckSup(p0))
}

func C01__ensures__checkSup_FromString__exactlySpellings(p0 *checkSup, p1 string, r0 error) bool {
	return c01readCheckSup(p1, *p0, r0)
}

func C01__ensures__NewCheckSup__exactlySpellings(p0 string, r0 checkSup, r1 error) bool {
	return c01readCheckSup(p0, r0, r1)
}

func C01__ensures__checkSup_UnmarshalXML__exactlySpellings(p0 *checkSup, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readCheckSup(gText, *p0, r0)
}

func C01__ensures__checkSup_MarshalXML__spelling(p0 checkSup, p2 xml.StartElement, r0 error) bool {
	w := c01spellingCheckSup(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readCorrectAction(text string, e correctAction, err error) bool {
	if w := c01valueCorrectAction(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingCorrectAction(e) == ""
}

func C01__ensures__correctAction_Valid__namedConstants(p0 correctAction, r0 bool) bool {
	return r0 == (c01spellingCorrectAction(p0) != "")
}

func C01__ensures__correctAction_String__spelling(p0 correctAction, r0 string) bool {
	return imp(c01spellingCorrectAction(p0) != "", r0 == c01spellingCorrectAction(p0))
}

func C01__ensures__correctAction_FromString__exactlySpellings(p0 *correctAction, p1 string, r0 error) bool {
	return c01readCorrectAction(p1, *p0, r0)
}

func C01__ensures__NewCorrectAction__exactlySpellings(p0 string, r0 correctAction, r1 error) bool {
	return c01readCorrectAction(p0, r0, r1)
}

func C01__ensures__correctAction_UnmarshalXML__exactlySpellings(p0 *correctAction, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readCorrectAction(gText, *p0, r0)
}

func C01__ensures__correctAction_MarshalXML__spelling(p0 correctAction, p2 xml.StartElement, r0 error) bool {
	w := c01spellingCorrectAction(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readBalType(text string, e balType, err error) bool {
	if w := c01valueBalType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingBalType(e) == ""
}

func C01__ensures__balType_Valid__namedConstants(p0 balType, r0 bool) bool {
	return r0 == (c01spellingBalType(p0) != "")
}

func C01__ensures__balType_String__spelling(p0 balType, r0 string) bool {
	return imp(c01spellingBalType(p0) != "", r0 == c01spellingBalType(p0))
}

func C01__ensures__balType_FromString__exactlySpellings(p0 *balType, p1 string, r0 error) bool {
	return c01readBalType(p1, *p0, r0)
}

func C01__ensures__NewBalType__exactlySpellings(p0 string, r0 balType, r1 error) bool {
	return c01readBalType(p0, r0, r1)
}

func C01__ensures__balType_UnmarshalXML__exactlySpellings(p0 *balType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readBalType(gText, *p0, r0)
}

func C01__ensures__balType_MarshalXML__spelling(p0 balType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingBalType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readInv401kSource(text string, e inv401kSource, err error) bool {
	if w := c01valueInv401kSource(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingInv401kSource(e) == ""
}

func C01__ensures__inv401kSource_Valid__namedConstants(p0 inv401kSource, r0 bool) bool {
	return r0 == (c01spellingInv401kSource(p0) != "")
}

func C01__ensures__inv401kSource_String__spelling(p0 inv401kSource, r0 string) bool {
	return imp(c01spellingInv401kSource(p0) != "", r0 == c01spellingInv401kSource(p0))
}

func C01__ensures__inv401kSource_FromString__exactlySpellings(p0 *inv401kSource, p1 string, r0 error) bool {
	return c01readInv401kSource(p1, *p0, r0)
}

func C01__ensures__NewInv401kSource__exactlySpellings(p0 string, r0 inv401kSource, r1 error) bool {
	return c01readInv401kSource(p0, r0, r1)
}

func C01__ensures__inv401kSource_UnmarshalXML__exactlySpellings(p0 *inv401kSource, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readInv401kSource(gText, *p0, r0)
}

func C01__ensures__inv401kSource_MarshalXML__spelling(p0 inv401kSource, p2 xml.StartElement, r0 error) bool {
	w := c01spellingInv401kSource(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSubAcctType(text string, e subAcctType, err error) bool {
	if w := c01valueSubAcctType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSubAcctType(e) == ""
}

func C01__ensures__subAcctType_Valid__namedConstants(p0 subAcctType, r0 bool) bool {
	return r0 == (c01spellingSubAcctType(p0) != "")
}

func C01__ensures__subAcctType_String__spelling(p0 subAcctType, r0 string) bool {
	return imp(c01spellingSubAcctType(p0) != "", r0 == c01spellingSubAcctType(p0))
}

func C01__ensures__subAcctType_FromString__exactlySpellings(p0 *subAcctType, p1 string, r0 error) bool {
	return c01readSubAcctType(p1, *p0, r0)
}

func C01__ensures__NewSubAcctType__exactlySpellings(p0 string, r0 subAcctType, r1 error) bool {
	return c01readSubAcctType(p0, r0, r1)
}

func C01__ensures__subAcctType_UnmarshalXML__exactlySpellings(p0 *subAcctType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSubAcctType(gText, *p0, r0)
}

func C01__ensures__subAcctType_MarshalXML__spelling(p0 subAcctType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSubAcctType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readBuyType(text string, e buyType, err error) bool {
	if w := c01valueBuyType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingBuyType(e) == ""
}

func C01__ensures__buyType_Valid__namedConstants(p0 buyType, r0 bool) bool {
	return r0 == (c01spellingBuyType(p0) != "")
}

func C01__ensures__buyType_String__spelling(p0 buyType, r0 string) bool {
	return imp(c01spellingBuyType(p0) != "", r0 == c01spellingBuyType(p0))
}

func C01__ensures__buyType_FromString__exactlySpellings(p0 *buyType, p1 string, r0 error) bool {
	return c01readBuyType(p1, *p0, r0)
}

func C01__ensures__NewBuyType__exactlySpellings(p0 string, r0 buyType, r1 error) bool {
	return c01readBuyType(p0, r0, r1)
}

func C01__ensures__buyType_UnmarshalXML__exactlySpellings(p0 *buyType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readBuyType(gText, *p0, r0)
}

func C01__ensures__buyType_MarshalXML__spelling(p0 buyType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingBuyType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readOptAction(text string, e optAction, err error) bool {
	if w := c01valueOptAction(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOptAction(e) == ""
}

func C01__ensures__optAction_Valid__namedConstants(p0 optAction, r0 bool) bool {
	return r0 == (c01spellingOptAction(p0) != "")
}

func C01__ensures__optAction_String__spelling(p0 optAction, r0 string) bool {
	return imp(c01spellingOptAction(p0) != "", r0 == c01spellingOptAction(p0))
}

func C01__ensures__optAction_FromString__exactlySpellings(p0 *optAction, p1 string, r0 error) bool {
	return c01readOptAction(p1, *p0, r0)
}

func C01__ensures__NewOptAction__exactlySpellings(p0 string, r0 optAction, r1 error) bool {
	return c01readOptAction(p0, r0, r1)
}

func C01__ensures__optAction_UnmarshalXML__exactlySpellings(p0 *optAction, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOptAction(gText, *p0, r0)
}

func C01__ensures__optAction_MarshalXML__spelling(p0 optAction, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOptAction(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readTferAction(text string, e tferAction, err error) bool {
	if w := c01valueTferAction(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingTferAction(e) == ""
}

func C01__ensures__tferAction_Valid__namedConstants(p0 tferAction, r0 bool) bool {
	return r0 == (c01spellingTferAction(p0) != "")
}

func C01__ensures__tferAction_String__spelling(p0 tferAction, r0 string) bool {
	return imp(c01spellingTferAction(p0) != "", r0 == c01spellingTferAction(p0))
}

func C01__ensures__tferAction_FromString__exactlySpellings(p0 *tferAction, p1 string, r0 error) bool {
	return c01readTferAction(p1, *p0, r0)
}

func C01__ensures__NewTferAction__exactlySpellings(p0 string, r0 tferAction, r1 error) bool {
	return c01readTferAction(p0, r0, r1)
}

func C01__ensures__tferAction_UnmarshalXML__exactlySpellings(p0 *tferAction, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readTferAction(gText, *p0, r0)
}

func C01__ensures__tferAction_MarshalXML__spelling(p0 tferAction, p2 xml.StartElement, r0 error) bool {
	w := c01spellingTferAction(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readPosType(text string, e posType, err error) bool {
	if w := c01valuePosType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingPosType(e) == ""
}

func C01__ensures__posType_Valid__namedConstants(p0 posType, r0 bool) bool {
	return r0 == (c01spellingPosType(p0) != "")
}

func C01__ensures__posType_String__spelling(p0 posType, r0 string) bool {
	return imp(c01spellingPosType(p0) != "", r0 == c01spellingPosType(p0))
}

func C01__ensures__posType_FromString__exactlySpellings(p0 *posType, p1 string, r0 error) bool {
	return c01readPosType(p1, *p0, r0)
}

func C01__ensures__NewPosType__exactlySpellings(p0 string, r0 posType, r1 error) bool {
	return c01readPosType(p0, r0, r1)
}

func C01__ensures__posType_UnmarshalXML__exactlySpellings(p0 *posType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readPosType(gText, *p0, r0)
}

func C01__ensures__posType_MarshalXML__spelling(p0 posType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingPosType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSecured(text string, e secured, err error) bool {
	if w := c01valueSecured(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSecured(e) == ""
}

func C01__ensures__secured_Valid__namedConstants(p0 secured, r0 bool) bool {
	return r0 == (c01spellingSecured(p0) != "")
}

func C01__ensures__secured_String__spelling(p0 secured, r0 string) bool {
	return imp(c01spellingSecured(p0) != "", r0 == c01spellingSecured(p0))
}

func C01__ensures__secured_FromString__exactlySpellings(p0 *secured, p1 string, r0 error) bool {
	return c01readSecured(p1, *p0, r0)
}

func C01__ensures__NewSecured__exactlySpellings(p0 string, r0 secured, r1 error) bool {
	return c01readSecured(p0, r0, r1)
}

func C01__ensures__secured_UnmarshalXML__exactlySpellings(p0 *secured, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSecured(gText, *p0, r0)
}

func C01__ensures__secured_MarshalXML__spelling(p0 secured, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSecured(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readDuration(text string, e duration, err error) bool {
	if w := c01valueDuration(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingDuration(e) == ""
}

func C01__ensures__duration_Valid__namedConstants(p0 duration, r0 bool) bool {
	return r0 == (c01spellingDuration(p0) != "")
}

func C01__ensures__duration_String__spelling(p0 duration, r0 string) bool {
	return imp(c01spellingDuration(p0) != "", r0 == c01spellingDuration(p0))
}

func C01__ensures__duration_FromString__exactlySpellings(p0 *duration, p1 string, r0 error) bool {
	return c01readDuration(p1, *p0, r0)
}

func C01__ensures__NewDuration__exactlySpellings(p0 string, r0 duration, r1 error) bool {
	return c01readDuration(p0, r0, r1)
}

func C01__ensures__duration_UnmarshalXML__exactlySpellings(p0 *duration, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readDuration(gText, *p0, r0)
}

func C01__ensures__duration_MarshalXML__spelling(p0 duration, p2 xml.StartElement, r0 error) bool {
	w := c01spellingDuration(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readRestriction(text string, e restriction, err error) bool {
	if w := c01valueRestriction(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingRestriction(e) == ""
}

func C01__ensures__restriction_Valid__namedConstants(p0 restriction, r0 bool) bool {
	return r0 == (c01spellingRestriction(p0) != "")
}

func C01__ensures__restriction_String__spelling(p0 restriction, r0 string) bool {
	return imp(c01spellingRestriction(p0) != "", r0 == c01spellingRestriction(p0))
}

func C01__ensures__restriction_FromString__exactlySpellings(p0 *restriction, p1 string, r0 error) bool {
	return c01readRestriction(p1, *p0, r0)
}

func C01__ensures__NewRestriction__exactlySpellings(p0 string, r0 restriction, r1 error) bool {
	return c01readRestriction(p0, r0, r1)
}

func C01__ensures__restriction_UnmarshalXML__exactlySpellings(p0 *restriction, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readRestriction(gText, *p0, r0)
}

func C01__ensures__restriction_MarshalXML__spelling(p0 restriction, p2 xml.StartElement, r0 error) bool {
	w := c01spellingRestriction(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readUnitType(text string, e unitType, err error) bool {
	if w := c01valueUnitType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingUnitType(e) == ""
}

func C01__ensures__unitType_Valid__namedConstants(p0 unitType, r0 bool) bool {
	return r0 == (c01spellingUnitType(p0) != "")
}

func C01__ensures__unitType_String__spelling(p0 unitType, r0 string) bool {
	return imp(c01spellingUnitType(p0) != "", r0 == c01spellingUnitType(p0))
}

func C01__ensures__unitType_FromString__exactlySpellings(p0 *unitType, p1 string, r0 error) bool {
	return c01readUnitType(p1, *p0, r0)
}

func C01__ensures__NewUnitType__exactlySpellings(p0 string, r0 unitType, r1 error) bool {
	return c01readUnitType(p0, r0, r1)
}

func C01__ensures__unitType_UnmarshalXML__exactlySpellings(p0 *unitType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readUnitType(gText, *p0, r0)
}

func C01__ensures__unitType_MarshalXML__spelling(p0 unitType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingUnitType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readOptBuyType(text string, e optBuyType, err error) bool {
	if w := c01valueOptBuyType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOptBuyType(e) == ""
}

func C01__ensures__optBuyType_Valid__namedConstants(p0 optBuyType, r0 bool) bool {
	return r0 == (c01spellingOptBuyType(p0) != "")
}

func C01__ensures__optBuyType_String__spelling(p0 optBuyType, r0 string) bool {
	return imp(c01spellingOptBuyType(p0) != "", r0 == c01spellingOptBuyType(p0))
}

func C01__ensures__optBuyType_FromString__exactlySpellings(p0 *optBuyType, p1 string, r0 error) bool {
	return c01readOptBuyType(p1, *p0, r0)
}

func C01__ensures__NewOptBuyType__exactlySpellings(p0 string, r0 optBuyType, r1 error) bool {
	return c01readOptBuyType(p0, r0, r1)
}

func C01__ensures__optBuyType_UnmarshalXML__exactlySpellings(p0 *optBuyType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOptBuyType(gText, *p0, r0)
}

func C01__ensures__optBuyType_MarshalXML__spelling(p0 optBuyType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOptBuyType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSellType(text string, e sellType, err error) bool {
	if w := c01valueSellType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSellType(e) == ""
}

func C01__ensures__sellType_Valid__namedConstants(p0 sellType, r0 bool) bool {
	return r0 == (c01spellingSellType(p0) != "")
}

func C01__ensures__sellType_String__spelling(p0 sellType, r0 string) bool {
	return imp(c01spellingSellType(p0) != "", r0 == c01spellingSellType(p0))
}

func C01__ensures__sellType_FromString__exactlySpellings(p0 *sellType, p1 string, r0 error) bool {
	return c01readSellType(p1, *p0, r0)
}

func C01__ensures__NewSellType__exactlySpellings(p0 string, r0 sellType, r1 error) bool {
	return c01readSellType(p0, r0, r1)
}

func C01__ensures__sellType_UnmarshalXML__exactlySpellings(p0 *sellType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSellType(gText, *p0, r0)
}

func C01__ensures__sellType_MarshalXML__spelling(p0 sellType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSellType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readLoanPmtFreq(text string, e loanPmtFreq, err error) bool {
	if w := c01valueLoanPmtFreq(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingLoanPmtFreq(e) == ""
}

func C01__ensures__loanPmtFreq_Valid__namedConstants(p0 loanPmtFreq, r0 bool) bool {
	return r0 == (c01spellingLoanPmtFreq(p0) != "")
}

func C01__ensures__loanPmtFreq_String__spelling(p0 loanPmtFreq, r0 string) bool {
	return imp(c01spellingLoanPmtFreq(p0) != "", r0 == c01spellingLoanPmtFreq(p0))
}

func C01__ensures__loanPmtFreq_FromString__exactlySpellings(p0 *loanPmtFreq, p1 string, r0 error) bool {
	return c01readLoanPmtFreq(p1, *p0, r0)
}

func C01__ensures__NewLoanPmtFreq__exactlySpellings(p0 string, r0 loanPmtFreq, r1 error) bool {
	return c01readLoanPmtFreq(p0, r0, r1)
}

func C01__ensures__loanPmtFreq_UnmarshalXML__exactlySpellings(p0 *loanPmtFreq, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readLoanPmtFreq(gText, *p0, r0)
}

func C01__ensures__loanPmtFreq_MarshalXML__spelling(p0 loanPmtFreq, p2 xml.StartElement, r0 error) bool {
	w := c01spellingLoanPmtFreq(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readIncomeType(text string, e incomeType, err error) bool {
	if w := c01valueIncomeType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingIncomeType(e) == ""
}

func C01__ensures__incomeType_Valid__namedConstants(p0 incomeType, r0 bool) bool {
	return r0 == (c01spellingIncomeType(p0) != "")
}

func C01__ensures__incomeType_String__spelling(p0 incomeType, r0 string) bool {
	return imp(c01spellingIncomeType(p0) != "", r0 == c01spellingIncomeType(p0))
}

func C01__ensures__incomeType_FromString__exactlySpellings(p0 *incomeType, p1 string, r0 error) bool {
	return c01readIncomeType(p1, *p0, r0)
}

func C01__ensures__NewIncomeType__exactlySpellings(p0 string, r0 incomeType, r1 error) bool {
	return c01readIncomeType(p0, r0, r1)
}

func C01__ensures__incomeType_UnmarshalXML__exactlySpellings(p0 *incomeType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readIncomeType(gText, *p0, r0)
}

func C01__ensures__incomeType_MarshalXML__spelling(p0 incomeType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingIncomeType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSellReason(text string, e sellReason, err error) bool {
	if w := c01valueSellReason(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSellReason(e) == ""
}

func C01__ensures__sellReason_Valid__namedConstants(p0 sellReason, r0 bool) bool {
	return r0 == (c01spellingSellReason(p0) != "")
}

func C01__ensures__sellReason_String__spelling(p0 sellReason, r0 string) bool {
	return imp(c01spellingSellReason(p0) != "", r0 == c01spellingSellReason(p0))
}

func C01__ensures__sellReason_FromString__exactlySpellings(p0 *sellReason, p1 string, r0 error) bool {
	return c01readSellReason(p1, *p0, r0)
}

func C01__ensures__NewSellReason__exactlySpellings(p0 string, r0 sellReason, r1 error) bool {
	return c01readSellReason(p0, r0, r1)
}

func C01__ensures__sellReason_UnmarshalXML__exactlySpellings(p0 *sellReason, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSellReason(gText, *p0, r0)
}

func C01__ensures__sellReason_MarshalXML__spelling(p0 sellReason, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSellReason(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readOptSellType(text string, e optSellType, err error) bool {
	if w := c01valueOptSellType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOptSellType(e) == ""
}

func C01__ensures__optSellType_Valid__namedConstants(p0 optSellType, r0 bool) bool {
	return r0 == (c01spellingOptSellType(p0) != "")
}

func C01__ensures__optSellType_String__spelling(p0 optSellType, r0 string) bool {
	return imp(c01spellingOptSellType(p0) != "", r0 == c01spellingOptSellType(p0))
}

func C01__ensures__optSellType_FromString__exactlySpellings(p0 *optSellType, p1 string, r0 error) bool {
	return c01readOptSellType(p1, *p0, r0)
}

func C01__ensures__NewOptSellType__exactlySpellings(p0 string, r0 optSellType, r1 error) bool {
	return c01readOptSellType(p0, r0, r1)
}

func C01__ensures__optSellType_UnmarshalXML__exactlySpellings(p0 *optSellType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOptSellType(gText, *p0, r0)
}

func C01__ensures__optSellType_MarshalXML__spelling(p0 optSellType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOptSellType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readRelType(text string, e relType, err error) bool {
	if w := c01valueRelType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingRelType(e) == ""
}

func C01__ensures__relType_Valid__namedConstants(p0 relType, r0 bool) bool {
	return r0 == (c01spellingRelType(p0) != "")
}

func C01__ensures__relType_String__spelling(p0 relType, r0 string) bool {
	return imp(c01spellingRelType(p0) != "", r0 == c01spellingRelType(p0))
}

func C01__ensures__relType_FromString__exactlySpellings(p0 *relType, p1 string, r0 error) bool {
	return c01readRelType(p1, *p0, r0)
}

func C01__ensures__NewRelType__exactlySpellings(p0 string, r0 relType, r1 error) bool {
	return c01readRelType(p0, r0, r1)
}

func C01__ensures__relType_UnmarshalXML__exactlySpellings(p0 *relType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readRelType(gText, *p0, r0)
}

func C01__ensures__relType_MarshalXML__spelling(p0 relType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingRelType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readCharType(text string, e charType, err error) bool {
	if w := c01valueCharType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingCharType(e) == ""
}

func C01__ensures__charType_Valid__namedConstants(p0 charType, r0 bool) bool {
	return r0 == (c01spellingCharType(p0) != "")
}

func C01__ensures__charType_String__spelling(p0 charType, r0 string) bool {
	return imp(c01spellingCharType(p0) != "", r0 == c01spellingCharType(p0))
}

func C01__ensures__charType_FromString__exactlySpellings(p0 *charType, p1 string, r0 error) bool {
	return c01readCharType(p1, *p0, r0)
}

func C01__ensures__NewCharType__exactlySpellings(p0 string, r0 charType, r1 error) bool {
	return c01readCharType(p0, r0, r1)
}

func C01__ensures__charType_UnmarshalXML__exactlySpellings(p0 *charType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readCharType(gText, *p0, r0)
}

func C01__ensures__charType_MarshalXML__spelling(p0 charType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingCharType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSyncMode(text string, e syncMode, err error) bool {
	if w := c01valueSyncMode(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSyncMode(e) == ""
}

func C01__ensures__syncMode_Valid__namedConstants(p0 syncMode, r0 bool) bool {
	return r0 == (c01spellingSyncMode(p0) != "")
}

func C01__ensures__syncMode_String__spelling(p0 syncMode, r0 string) bool {
	return imp(c01spellingSyncMode(p0) != "", r0 == c01spellingSyncMode(p0))
}

func C01__ensures__syncMode_FromString__exactlySpellings(p0 *syncMode, p1 string, r0 error) bool {
	return c01readSyncMode(p1, *p0, r0)
}

func C01__ensures__NewSyncMode__exactlySpellings(p0 string, r0 syncMode, r1 error) bool {
	return c01readSyncMode(p0, r0, r1)
}

func C01__ensures__syncMode_UnmarshalXML__exactlySpellings(p0 *syncMode, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSyncMode(gText, *p0, r0)
}

func C01__ensures__syncMode_MarshalXML__spelling(p0 syncMode, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSyncMode(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readOfxSec(text string, e ofxSec, err error) bool {
	if w := c01valueOfxSec(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOfxSec(e) == ""
}

func C01__ensures__ofxSec_Valid__namedConstants(p0 ofxSec, r0 bool) bool {
	return r0 == (c01spellingOfxSec(p0) != "")
}

func C01__ensures__ofxSec_String__spelling(p0 ofxSec, r0 string) bool {
	return imp(c01spellingOfxSec(p0) != "", r0 == c01spellingOfxSec(p0))
}

func C01__ensures__ofxSec_FromString__exactlySpellings(p0 *ofxSec, p1 string, r0 error) bool {
	return c01readOfxSec(p1, *p0, r0)
}

func C01__ensures__NewOfxSec__exactlySpellings(p0 string, r0 ofxSec, r1 error) bool {
	return c01readOfxSec(p0, r0, r1)
}

func C01__ensures__ofxSec_UnmarshalXML__exactlySpellings(p0 *ofxSec, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOfxSec(gText, *p0, r0)
}

func C01__ensures__ofxSec_MarshalXML__spelling(p0 ofxSec, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOfxSec(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readDebtType(text string, e debtType, err error) bool {
	if w := c01valueDebtType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingDebtType(e) == ""
}

func C01__ensures__debtType_Valid__namedConstants(p0 debtType, r0 bool) bool {
	return r0 == (c01spellingDebtType(p0) != "")
}

func C01__ensures__debtType_String__spelling(p0 debtType, r0 string) bool {
	return imp(c01spellingDebtType(p0) != "", r0 == c01spellingDebtType(p0))
}

func C01__ensures__debtType_FromString__exactlySpellings(p0 *debtType, p1 string, r0 error) bool {
	return c01readDebtType(p1, *p0, r0)
}

func C01__ensures__NewDebtType__exactlySpellings(p0 string, r0 debtType, r1 error) bool {
	return c01readDebtType(p0, r0, r1)
}

func C01__ensures__debtType_UnmarshalXML__exactlySpellings(p0 *debtType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readDebtType(gText, *p0, r0)
}

func C01__ensures__debtType_MarshalXML__spelling(p0 debtType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingDebtType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readDebtClass(text string, e debtClass, err error) bool {
	if w := c01valueDebtClass(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingDebtClass(e) == ""
}

func C01__ensures__debtClass_Valid__namedConstants(p0 debtClass, r0 bool) bool {
	return r0 == (c01spellingDebtClass(p0) != "")
}

func C01__ensures__debtClass_String__spelling(p0 debtClass, r0 string) bool {
	return imp(c01spellingDebtClass(p0) != "", r0 == c01spellingDebtClass(p0))
}

func C01__ensures__debtClass_FromString__exactlySpellings(p0 *debtClass, p1 string, r0 error) bool {
	return c01readDebtClass(p1, *p0, r0)
}

func C01__ensures__NewDebtClass__exactlySpellings(p0 string, r0 debtClass, r1 error) bool {
	return c01readDebtClass(p0, r0, r1)
}

func C01__ensures__debtClass_UnmarshalXML__exactlySpellings(p0 *debtClass, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readDebtClass(gText, *p0, r0)
}

func C01__ensures__debtClass_MarshalXML__spelling(p0 debtClass, p2 xml.StartElement, r0 error) bool {
	w := c01spellingDebtClass(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readCouponFreq(text string, e couponFreq, err error) bool {
	if w := c01valueCouponFreq(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingCouponFreq(e) == ""
}

func C01__ensures__couponFreq_Valid__namedConstants(p0 couponFreq, r0 bool) bool {
	return r0 == (c01spellingCouponFreq(p0) != "")
}

func C01__ensures__couponFreq_String__spelling(p0 couponFreq, r0 string) bool {
	return imp(c01spellingCouponFreq(p0) != "", r0 == c01spellingCouponFreq(p0))
}

func C01__ensures__couponFreq_FromString__exactlySpellings(p0 *couponFreq, p1 string, r0 error) bool {
	return c01readCouponFreq(p1, *p0, r0)
}

func C01__ensures__NewCouponFreq__exactlySpellings(p0 string, r0 couponFreq, r1 error) bool {
	return c01readCouponFreq(p0, r0, r1)
}

func C01__ensures__couponFreq_UnmarshalXML__exactlySpellings(p0 *couponFreq, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readCouponFreq(gText, *p0, r0)
}

func C01__ensures__couponFreq_MarshalXML__spelling(p0 couponFreq, p2 xml.StartElement, r0 error) bool {
	w := c01spellingCouponFreq(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readCallType(text string, e callType, err error) bool {
	if w := c01valueCallType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingCallType(e) == ""
}

func C01__ensures__callType_Valid__namedConstants(p0 callType, r0 bool) bool {
	return r0 == (c01spellingCallType(p0) != "")
}

func C01__ensures__callType_String__spelling(p0 callType, r0 string) bool {
	return imp(c01spellingCallType(p0) != "", r0 == c01spellingCallType(p0))
}

func C01__ensures__callType_FromString__exactlySpellings(p0 *callType, p1 string, r0 error) bool {
	return c01readCallType(p1, *p0, r0)
}

func C01__ensures__NewCallType__exactlySpellings(p0 string, r0 callType, r1 error) bool {
	return c01readCallType(p0, r0, r1)
}

func C01__ensures__callType_UnmarshalXML__exactlySpellings(p0 *callType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readCallType(gText, *p0, r0)
}

func C01__ensures__callType_MarshalXML__spelling(p0 callType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingCallType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readAssetClass(text string, e assetClass, err error) bool {
	if w := c01valueAssetClass(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingAssetClass(e) == ""
}

func C01__ensures__assetClass_Valid__namedConstants(p0 assetClass, r0 bool) bool {
	return r0 == (c01spellingAssetClass(p0) != "")
}

func C01__ensures__assetClass_String__spelling(p0 assetClass, r0 string) bool {
	return imp(c01spellingAssetClass(p0) != "", r0 == c01spellingAssetClass(p0))
}

func C01__ensures__assetClass_FromString__exactlySpellings(p0 *assetClass, p1 string, r0 error) bool {
	return c01readAssetClass(p1, *p0, r0)
}

func C01__ensures__NewAssetClass__exactlySpellings(p0 string, r0 assetClass, r1 error) bool {
	return c01readAssetClass(p0, r0, r1)
}

func C01__ensures__assetClass_UnmarshalXML__exactlySpellings(p0 *assetClass, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readAssetClass(gText, *p0, r0)
}

func C01__ensures__assetClass_MarshalXML__spelling(p0 assetClass, p2 xml.StartElement, r0 error) bool {
	w := c01spellingAssetClass(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readMfType(text string, e mfType, err error) bool {
	if w := c01valueMfType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingMfType(e) == ""
}

func C01__ensures__mfType_Valid__namedConstants(p0 mfType, r0 bool) bool {
	return r0 == (c01spellingMfType(p0) != "")
}

func C01__ensures__mfType_String__spelling(p0 mfType, r0 string) bool {
	return imp(c01spellingMfType(p0) != "", r0 == c01spellingMfType(p0))
}

func C01__ensures__mfType_FromString__exactlySpellings(p0 *mfType, p1 string, r0 error) bool {
	return c01readMfType(p1, *p0, r0)
}

func C01__ensures__NewMfType__exactlySpellings(p0 string, r0 mfType, r1 error) bool {
	return c01readMfType(p0, r0, r1)
}

func C01__ensures__mfType_UnmarshalXML__exactlySpellings(p0 *mfType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readMfType(gText, *p0, r0)
}

func C01__ensures__mfType_MarshalXML__spelling(p0 mfType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingMfType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readOptType(text string, e optType, err error) bool {
	if w := c01valueOptType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingOptType(e) == ""
}

func C01__ensures__optType_Valid__namedConstants(p0 optType, r0 bool) bool {
	return r0 == (c01spellingOptType(p0) != "")
}

func C01__ensures__optType_String__spelling(p0 optType, r0 string) bool {
	return imp(c01spellingOptType(p0) != "", r0 == c01spellingOptType(p0))
}

func C01__ensures__optType_FromString__exactlySpellings(p0 *optType, p1 string, r0 error) bool {
	return c01readOptType(p1, *p0, r0)
}

func C01__ensures__NewOptType__exactlySpellings(p0 string, r0 optType, r1 error) bool {
	return c01readOptType(p0, r0, r1)
}

func C01__ensures__optType_UnmarshalXML__exactlySpellings(p0 *optType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readOptType(gText, *p0, r0)
}

func C01__ensures__optType_MarshalXML__spelling(p0 optType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingOptType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readStockType(text string, e stockType, err error) bool {
	if w := c01valueStockType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingStockType(e) == ""
}

func C01__ensures__stockType_Valid__namedConstants(p0 stockType, r0 bool) bool {
	return r0 == (c01spellingStockType(p0) != "")
}

func C01__ensures__stockType_String__spelling(p0 stockType, r0 string) bool {
	return imp(c01spellingStockType(p0) != "", r0 == c01spellingStockType(p0))
}

func C01__ensures__stockType_FromString__exactlySpellings(p0 *stockType, p1 string, r0 error) bool {
	return c01readStockType(p1, *p0, r0)
}

func C01__ensures__NewStockType__exactlySpellings(p0 string, r0 stockType, r1 error) bool {
	return c01readStockType(p0, r0, r1)
}

func C01__ensures__stockType_UnmarshalXML__exactlySpellings(p0 *stockType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readStockType(gText, *p0, r0)
}

func C01__ensures__stockType_MarshalXML__spelling(p0 stockType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingStockType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readHolderType(text string, e holderType, err error) bool {
	if w := c01valueHolderType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingHolderType(e) == ""
}

func C01__ensures__holderType_Valid__namedConstants(p0 holderType, r0 bool) bool {
	return r0 == (c01spellingHolderType(p0) != "")
}

func C01__ensures__holderType_String__spelling(p0 holderType, r0 string) bool {
	return imp(c01spellingHolderType(p0) != "", r0 == c01spellingHolderType(p0))
}

func C01__ensures__holderType_FromString__exactlySpellings(p0 *holderType, p1 string, r0 error) bool {
	return c01readHolderType(p1, *p0, r0)
}

func C01__ensures__NewHolderType__exactlySpellings(p0 string, r0 holderType, r1 error) bool {
	return c01readHolderType(p0, r0, r1)
}

func C01__ensures__holderType_UnmarshalXML__exactlySpellings(p0 *holderType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readHolderType(gText, *p0, r0)
}

func C01__ensures__holderType_MarshalXML__spelling(p0 holderType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingHolderType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readAcctClassification(text string, e acctClassification, err error) bool {
	if w := c01valueAcctClassification(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingAcctClassification(e) == ""
}

func C01__ensures__acctClassification_Valid__namedConstants(p0 acctClassification, r0 bool) bool {
	return r0 == (c01spellingAcctClassification(p0) != "")
}

func C01__ensures__acctClassification_String__spelling(p0 acctClassification, r0 string) bool {
	return imp(c01spellingAcctClassification(p0) != "", r0 == c01spellingAcctClassification(p0))
}

func C01__ensures__acctClassification_FromString__exactlySpellings(p0 *acctClassification, p1 string, r0 error) bool {
	return c01readAcctClassification(p1, *p0, r0)
}

func C01__ensures__NewAcctClassification__exactlySpellings(p0 string, r0 acctClassification, r1 error) bool {
	return c01readAcctClassification(p0, r0, r1)
}

func C01__ensures__acctClassification_UnmarshalXML__exactlySpellings(p0 *acctClassification, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readAcctClassification(gText, *p0, r0)
}

func C01__ensures__acctClassification_MarshalXML__spelling(p0 acctClassification, p2 xml.StartElement, r0 error) bool {
	w := c01spellingAcctClassification(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readSvcStatus(text string, e svcStatus, err error) bool {
	if w := c01valueSvcStatus(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingSvcStatus(e) == ""
}

func C01__ensures__svcStatus_Valid__namedConstants(p0 svcStatus, r0 bool) bool {
	return r0 == (c01spellingSvcStatus(p0) != "")
}

func C01__ensures__svcStatus_String__spelling(p0 svcStatus, r0 string) bool {
	return imp(c01spellingSvcStatus(p0) != "", r0 == c01spellingSvcStatus(p0))
}

func C01__ensures__svcStatus_FromString__exactlySpellings(p0 *svcStatus, p1 string, r0 error) bool {
	return c01readSvcStatus(p1, *p0, r0)
}

func C01__ensures__NewSvcStatus__exactlySpellings(p0 string, r0 svcStatus, r1 error) bool {
	return c01readSvcStatus(p0, r0, r1)
}

func C01__ensures__svcStatus_UnmarshalXML__exactlySpellings(p0 *svcStatus, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readSvcStatus(gText, *p0, r0)
}

func C01__ensures__svcStatus_MarshalXML__spelling(p0 svcStatus, p2 xml.StartElement, r0 error) bool {
	w := c01spellingSvcStatus(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}

func c01readUsProductType(text string, e usProductType, err error) bool {
	if w := c01valueUsProductType(strings.TrimSpace(text)); w != 0 {
		return err == nil && e == w
	}
	return err != nil && c01spellingUsProductType(e) == ""
}

func C01__ensures__usProductType_Valid__namedConstants(p0 usProductType, r0 bool) bool {
	return r0 == (c01spellingUsProductType(p0) != "")
}

func C01__ensures__usProductType_String__spelling(p0 usProductType, r0 string) bool {
	return imp(c01spellingUsProductType(p0) != "", r0 == c01spellingUsProductType(p0))
}

func C01__ensures__usProductType_FromString__exactlySpellings(p0 *usProductType, p1 string, r0 error) bool {
	return c01readUsProductType(p1, *p0, r0)
}

func C01__ensures__NewUsProductType__exactlySpellings(p0 string, r0 usProductType, r1 error) bool {
	return c01readUsProductType(p0, r0, r1)
}

func C01__ensures__usProductType_UnmarshalXML__exactlySpellings(p0 *usProductType, r0 error) bool {
	if gDecodes != 1 {
		return false
	}
	if gErr != nil {
		return r0 != nil
	}
	return c01readUsProductType(gText, *p0, r0)
}

func C01__ensures__usProductType_MarshalXML__spelling(p0 usProductType, p2 xml.StartElement, r0 error) bool {
	w := c01spellingUsProductType(p0)
	if w == "" {
		return gWrites == 0 && r0 == nil
	}
	return gWrites == 1 && gWrote == w && same(gStart, p2)
}
