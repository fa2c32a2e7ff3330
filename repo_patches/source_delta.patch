From 64973853e0248e227fccd6e2cf7a6c75109dfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 01/19] fix: require a valid CORRECTACTION when CORRECTFITID is
 present

The condition was inverted: valid corrections were rejected and
invalid ones accepted.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 436e18ae8cef3dd5409c113feabba946a9e7b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 02/19] fix: do not take CURRATEs that are multiples of 2^64
 for zero

---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From 5eb8029620ffcccbd6e4cdce23223126c02e9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 03/19] fix: fail to marshal documents with an invalid OFX
 version

The error from writeHeader was dropped, so a document without any header
was returned as if marshalling had succeeded.
---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From 3b4244988cd77857350442737a94d681f8a737e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 04/19] fix: decode LOANINFO aggregates

LoanInfo's XMLName was VESTINFO, so any INV401K with a LOANINFO failed to
parse.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..dc7cea5 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From cfa2554699fd6afe65791e513f8ca91ace72c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 05/19] fix: spell the 401(k) WITHDRAWALS element as the OFX
 specification does

WITHDRAWALS aggregates were silently dropped.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index dc7cea5..1b421ff 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1430,7 +1430,7 @@ type Inv401KSummaryPeriod struct {
 	DtStart       Date                     `xml:"DTSTART"`
 	DtEnd         Date                     `xml:"DTEND"`
 	Contributions *Inv401KSummaryAggregate `xml:"CONTRIBUTIONS,omitempty"` // 401(k) contribution aggregate. Note: this includes loan payments.
-	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWLS,omitempty"`    // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
+	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWALS,omitempty"`   // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
 	Earnings      *Inv401KSummaryAggregate `xml:"EARNINGS,omitempty"`      // 401(k) earnings aggregate. This is the market value change. It includes dividends/interest, and capital gains - realized and unrealized.
 }
 
-- 
2.43.0


From 95a3fd3a835f59690c08a0f8b79029208e0b13b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 06/19] fix: spell the 401(k) CONTRIBINFO element as the OFX
 specification does

CONTRIBINFO aggregates were silently dropped.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 1b421ff..33d39b2 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From 2ecd95cd128284c068cb2c2d4a16bd98b1ef83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/19] fix: keep the sign of time zones less than an hour west
 of GMT

Dates with offsets between -1:00 and 0:00 were printed, and parsed, as being
east of GMT instead.
---
 types.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index dda6a3f..d601cdb 100644
--- a/types.go
+++ b/types.go
@@ -138,6 +138,11 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			zoneminutes = zoneminutes * 60 / 100
 		}
 		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		if zonehours == 0 && strings.HasPrefix(matches[1], "-") {
+			// The sign of offsets less than an hour west of GMT is lost when
+			// their hours are converted to an int
+			zone = fmt.Sprintf(" -00%02d", zoneminutes)
+		}
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
@@ -169,7 +174,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
-	if zoneoffset < 0 {
+	if zoneoffset < 0 && zoneoffset > -3600 {
+		// An int of zero can't carry the sign
+		format += "[-0"
+	} else if zoneoffset < 0 {
 		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
 	} else {
 		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
-- 
2.43.0


From 849a8ce9a038be2be19aa2400843c37a00499feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 08/19] fix: close the body of HTTP responses which Request()
 gives up on

RawRequest returns both a response and an error for non-200 statuses; the
response was dropped with its body (and connection) left open.
---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index a9d43dd..db66035 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,9 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
-- 
2.43.0


From 81da1cdbd5c974e3b4ae64d9432ae0b5a0a752e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 09/19] fix: close the body of non-200 responses which aren't
 returned

---
 discovercard_client.go | 1 +
 vanguard_client.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..bff701e 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -90,6 +90,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..b5d2a09 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From 6d9bde3f5ec1b9a82aada31cbaec631f41606335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 10/19] fix: only retry Vanguard requests which had no errors

As the comment says, only empty responses without any errors should cause the
request (including the user's password) to be sent again. Also close the body
of the response being replaced.
---
 vanguard_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index b5d2a09..f0a2f24 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -124,7 +124,9 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if err == nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 55fe79e5bba57f6277068f58f74ffe4bf028951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 11/19] fix: keep the Discover request line and Host header
 well-formed

The decoded path was used, so escaped characters (including line breaks) were
written to the request line verbatim, and the query and port were dropped.
---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index bff701e..0d36cf5 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Host, buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 6139e091344b54f0960db310d8f7721934859d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 12/19] fix: refuse to follow redirects from https to other
 protocols

HTTP redirects with status 307 or 308 repeat the POST, so a redirect to http
sent the user's password in plain text.
---
 basic_client.go    |  2 +-
 client.go          | 21 +++++++++++++++++++++
 vanguard_client.go |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..f6aba97 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -86,7 +86,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsRedirectsOnly(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client.go b/client.go
index db66035..e69981d 100644
--- a/client.go
+++ b/client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"errors"
 	"io"
 	"net/http"
 	"strings"
@@ -75,6 +76,26 @@ func GetClient(URL string, bc *BasicClient) Client {
 	return bc
 }
 
+// httpsRedirectsOnly returns a copy of an http.Client which refuses to follow
+// redirects to anything but https URLs, since following some of them (status
+// codes 307 and 308) involves sending the OFX request again
+func httpsRedirectsOnly(c *http.Client) *http.Client {
+	client := *c
+	client.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request with possible plain-text password to non-https protocol")
+		}
+		if c.CheckRedirect != nil {
+			return c.CheckRedirect(req, via)
+		}
+		if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &client
+}
+
 // clientRequestNoParse can be used for building clients' RequestNoParse
 // methods if they require fairly standard behavior
 func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
diff --git a/vanguard_client.go b/vanguard_client.go
index f0a2f24..f14d89c 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -45,7 +45,7 @@ func vanguardHttpClient() *http.Client {
 			},
 		},
 	}
-	return client
+	return httpsRedirectsOnly(client)
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From 832ea3ab969e52168d7e660758034ed95e731974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 13/19] fix: send the configured User-Agent when retrying
 Vanguard requests

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index f14d89c..30c8f84 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func (c *VanguardClient) rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if c.UserAgent != "" {
+		request.Header.Set("User-Agent", c.UserAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return c.rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
 	}
 
 	return response, err
-- 
2.43.0


From c639d34b7c764a8298f9dbac612625989a8ff53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 14/19] fix: don't crash printing statements without optional
 aggregates

Transaction lists, payees and investment balances may all be absent from valid
responses. Also print investment cash balances which aren't integers.
---
 cmd/ofx/banktransactions.go | 3 +++
 cmd/ofx/cctransactions.go   | 5 ++++-
 cmd/ofx/invtransactions.go  | 6 ++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..817d17c 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,6 +74,9 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
 		}
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..89d3cdd 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,6 +63,9 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
 			if tran.Currency != nil {
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..566bac3 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,10 +67,12 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
+		if stmt.InvTranList == nil {
+			return
+		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
 			for _, tran := range banktrans.Transactions {
-- 
2.43.0


From 6558c46026975e22d5b723abd12fd78fd826e88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 15/19] fix: print why requesting investment transactions
 failed

---
 cmd/ofx/invtransactions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 566bac3..0d4d59f 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0


From 352d535f0491d27dff4030c783ea9d05b8c18768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 16/19] fix: do not write numeric time zone abbreviations as
 time zone names

Dates in zones like America/Sao_Paulo were printed as "[-3:-03]", which cannot
be parsed.
---
 types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index d601cdb..2398393 100644
--- a/types.go
+++ b/types.go
@@ -189,7 +189,9 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	// Some time zones have no alphabetic abbreviation, and Go substitutes their
+	// offset for it (i.e. "-03"). Those aren't names, and can't be read back in.
+	if len(zonename) > 0 && strings.Trim(zonename, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == "" {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From 753ccd7c1cfefc8ec32e75279ed9306ac2799918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 17/19] fix: treat SUBACCTFUND as a leaf element when parsing
 SGML

Elements following an unclosed SUBACCTFUND were taken for its children, and
silently dropped.
---
 leaf_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..a3a3ef4 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -284,6 +284,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
-- 
2.43.0


From 2fb3375d4e1d5dbf704425c2dd30f855df8cb006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 18/19] fix: do not write the name of a message set as an
 element of its own

---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From ab5f6e43274d78392bc52f307b1dce60ad89b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 19/19] fix: accept time zone names which Go's time package
 doesn't take for such

---
 types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 2398393..3575d2c 100644
--- a/types.go
+++ b/types.go
@@ -104,7 +104,7 @@ var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value, zone, zoneFormat, zonename string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -147,8 +147,7 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
 		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
-			zoneFormat = zoneFormat + " MST"
+			zonename = matches[5]
 		} else if zonehours == 0 && zoneminutes == 0 {
 			zone = zone + " GMT"
 			zoneFormat = zoneFormat + " MST"
@@ -163,6 +162,11 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, format := range ofxDateFormats {
 		t, err := time.Parse(format+zoneFormat, value+zone)
 		if err == nil {
+			if len(zonename) > 0 {
+				// time.Parse doesn't take all names for those of zones
+				_, offset := t.Zone()
+				t = t.In(time.FixedZone(zonename, offset))
+			}
 			od.Time = t
 			return nil
 		}
-- 
2.43.0

