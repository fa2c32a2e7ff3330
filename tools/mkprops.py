#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the list is easy to review).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Enumerated OFX values are read and written exactly",
  "For every enumerated OFX type, reading a text (surrounding white space ignored) succeeds exactly when it is one of the type's OFX spellings and then yields the value with that spelling; every other text is an error and leaves a value that does not report itself valid. Printing or marshalling a valid value produces its OFX spelling, and marshalling an invalid value writes nothing and is not an error. A value reports itself valid exactly when it is one of the type's named constants.",
  ["inputs"], "every enumerated type, every input string, every integer value of the type, every outcome of the XML decoder",
  "The generated tests read and write each listed spelling once and try one bad string; they do not range over all strings and all integer values.",
  ["constants.go", "generate_constants.py"],
  [("String/FromString/Valid/MarshalXML/UnmarshalXML/New* of each enum", "constants.go")],
  ["FromString", "New<Enum>", "String", "Valid", "xml.Marshal/Unmarshal of a value"])

p("C02", "Scalar OFX elements decode exactly, or fail and leave the target alone",
  "Decoding an integer, boolean, string or identifier element ignores leading and trailing white space and yields exactly the value of the remaining text: a signed 64-bit decimal number, Y or N, or the text itself. Text of any other form for an integer or boolean, or a failure reported by the XML decoder, is an error, and the target keeps the value it had. A boolean is written as Y or N, and comparing two integers, booleans, strings or identifiers for equality is equality of their values.",
  ["inputs", "fault_sequences"], "every element text, every prior value of the target, every decoder outcome",
  "The tests decode a few dozen literals; nothing checks the target after a failure, or all white space and all malformed texts.",
  ["types.go"], [("UnmarshalXML of Int, Boolean, String, UID; Boolean.MarshalXML; Equal", "types.go")],
  ["xml.Unmarshal into Int, Boolean, String, UID", "xml.Marshal of a Boolean", "Equal"])

p("C03", "Amounts keep their exact value when read and written",
  "Reading an amount yields exactly the decimal number its text denotes, surrounding white space ignored and a decimal comma meaning the same as a decimal point; text that is no number is an error. Writing any amount with at most 100 decimal places produces decimal text, without superfluous zeros after the decimal point, which denotes exactly that amount, so that reading it back gives an equal amount. Two amounts are equal exactly when their numeric values are.",
  ["inputs"], "every element text, every rational with at most 100 decimal places",
  "The tests convert a handful of short literals; rounding, loss of integer zeros or precision shows only for other values.",
  ["types.go"], [("Amount.UnmarshalXML, String, MarshalXML, Equal", "types.go")],
  ["xml.Marshal/Unmarshal of an Amount", "Amount.String"])

p("C04", "Dates keep their instant when read and written",
  "Reading a date in any of the five OFX forms, with optional fraction-of-hour zone offset and zone name, yields the instant it denotes: the local date and time at that offset, GMT when no zone is given, with everything after the closing bracket and surrounding white space ignored. Text with a malformed zone, or which matches none of the forms, is an error. Writing a date whose zone offset is a whole number of quarter hours, and reading the text back, gives the same instant to the millisecond.",
  ["inputs"], "every element text, every instant in years 0-9999, every zone offset that is a whole multiple of 15 minutes within +-24h",
  "The tests use a dozen literals; offsets west of GMT by less than an hour, unnamed zones and fractional offsets are each a separate path.",
  ["types.go"], [("Date.UnmarshalXML, String, MarshalXML, Equal", "types.go")],
  ["xml.Marshal/Unmarshal of a Date", "Date.String", "Date.Equal"])

p("C05", "Currency symbols and currency aggregates are checked exactly",
  "Reading or constructing a currency symbol succeeds exactly for the text (surrounding white space ignored when reading) of an ISO-4217 currency, yields that currency, and is an error otherwise, leaving the target as it was. A symbol is written as its three-letter code, is valid exactly when it is not the 'no currency' code XXX, and equals another exactly when their codes agree. A currency aggregate is valid exactly when its rate is not zero and its symbol is valid.",
  ["inputs"], "every element text, every currency unit, every rational rate including multiples of 2^64",
  "The tests try a few codes and small rates; zero-ness of huge or fractional rates is not sampled.",
  ["types.go", "common.go"], [("CurrSymbol methods, NewCurrSymbol", "types.go"), ("Currency.Valid", "common.go")],
  ["xml.Marshal/Unmarshal of CurrSymbol", "NewCurrSymbol", "Valid", "Equal"])

p("C06", "Written documents carry the header of their OFX version",
  "Marshalling a request or response with a supported version writes exactly the header the OFX specification prescribes for that version: the colon-separated SGML header for versions below 2, the XML declaration and OFX processing instruction from 2 on, carrying that version's number, with every line ending in a carriage return and line feed when carriage returns are asked for and in a line feed otherwise. An unsupported version is an error and no document is returned. Responses never use carriage returns.",
  ["inputs", "configurations"], "every version value, both line-ending settings",
  "The tests marshal requests in a few versions and compare with canned text; unsupported versions were silently accepted.",
  ["common.go", "request.go", "response.go"], [("writeHeader", "common.go"), ("Request.Marshal", "request.go"), ("Response.Marshal", "response.go")],
  ["Request.Marshal", "Response.Marshal"])

p("C07", "Only well-formed, supported OFX headers are accepted",
  "A document is accepted only if its header is well-formed: for SGML the nine headers in their prescribed order with OFXHEADER 100, DATA OFXSGML, a known version up to 160, SECURITY NONE or TYPE1 and COMPRESSION NONE; for XML an xml declaration, then an OFX instruction with OFXHEADER 200, a known version of 200 or later, SECURITY NONE if given and no unknown attribute. The response's version is then the one the header names. Whether a document is SGML or XML is decided by whether OFXHEADER: occurs in its first 1024 bytes ahead of any OFXHEADER=.",
  ["inputs"], "every input text, every order and combination of header attributes",
  "The tests parse a few good headers and a few bad ones; combinations of attributes and versions are not enumerated.",
  ["response.go"], [("guessVersion, readSGMLHeaders, readXMLHeaders", "response.go"), ("nextNonWhitespaceToken", "util.go")],
  ["DecodeResponse", "ParseResponse"])

p("C08", "Decoding a response keeps every transaction, in order, in its message set",
  "Decoding a response succeeds only if the document is an OFX element holding the sign-on response first and then message sets up to the closing OFX tag, every message set being known and holding only transaction wrappers known for that set; anything else, including a document that ends early, is an error and no response is returned. On success the response holds the decoded sign-on, and each message set's list holds exactly the decoded transactions of that set, in document order, each as the type its wrapper tag names. White space between elements never matters.",
  ["inputs", "fault_sequences"], "every sequence of XML tokens and element decoding outcomes",
  "The tests decode a few sample files; they do not reach every message set, repeated sets, unknown wrappers or errors at each position.",
  ["response.go", "util.go"], [("DecodeResponse, decodeMessageSet, responseTypes", "response.go"), ("nextNonWhitespaceToken", "util.go")],
  ["DecodeResponse", "ParseResponse"])

p("C09", "Only complete and valid documents are marshalled, in OFX order",
  "Marshalling a request or response succeeds only if its sign-on and every message in every message set is valid for the document's version and belongs to the set it was put in; otherwise it is an error and no document is returned. On success the document holds, inside one OFX element, the sign-on and then each non-empty message set exactly once in the order the OFX specification prescribes, each with all its messages in order. Encoding failures are always reported, and requests below version 2 omit the closing tags of leaf elements while all others write them.",
  ["inputs", "fault_sequences", "configurations"], "every combination of message sets and lists of any length, every validity outcome and encoder failure, every version",
  "The tests marshal single-message requests; misplaced or invalid messages in later positions and encoder failures are not exercised.",
  ["request.go", "response.go"], [("Request.Marshal, encodeMessageSet", "request.go"), ("Response.Marshal", "response.go")],
  ["Request.Marshal", "Response.Marshal"])

p("C10", "Investment transaction lists are read and written completely and in order",
  "Decoding an investment transaction list succeeds only when all its children up to its closing tag are known and decode; then its start and end dates are the decoded ones, and the investment and the bank transactions are exactly the decoded children of those kinds, each as the type its tag names, in document order. Encoding a list writes its start date, its end date, every investment transaction under the tag of its type in order, and every bank transaction in order; a transaction of an unknown type or any encoding failure is an error.",
  ["inputs", "fault_sequences"], "every sequence of child elements, lists of any length and mix of types, every decoder and encoder outcome",
  "The tests read and write one list; most of the twenty transaction types never appear, nor do failures.",
  ["invstmt.go"], [("InvTranList.UnmarshalXML, MarshalXML", "invstmt.go")],
  ["xml.Marshal/Unmarshal of an InvTranList"])

p("C11", "Position, open-order and security lists are read and written completely",
  "Decoding a position list, open-order list or security list succeeds only when all its children up to its closing tag are known and decode, and then it holds exactly the decoded children, each as the type its tag names, in document order. Encoding such a list writes every entry under the tag of its type, in order, inside the list's own element; an entry of an unknown type or any encoding failure is an error.",
  ["inputs", "fault_sequences"], "every sequence of child elements, lists of any length and mix of types, every decoder and encoder outcome",
  "The tests cover one sample list each; most entry types and all failures are unexercised.",
  ["invstmt.go", "seclist.go"], [("PositionList and OOList UnmarshalXML, MarshalXML", "invstmt.go"), ("SecurityList UnmarshalXML, MarshalXML", "seclist.go")],
  ["xml.Marshal/Unmarshal of PositionList, OOList, SecurityList"])

p("C12", "Profile message set lists are read and written completely",
  "Decoding a profile's message set list yields one entry for each message set element in document order, named after its version element, and succeeds only if every entry has a version element, its closing tag follows, and all of them decode. Encoding writes every entry in order, its version element inside an element of the same name without the V1 suffix; an entry whose name does not end in V1, or any encoding failure, is an error.",
  ["inputs", "fault_sequences"], "every token sequence and list of any length, every decoder and encoder outcome",
  "The tests decode one profile; malformed nesting and encoder failures are unexercised.",
  ["profile.go"], [("MessageSetList UnmarshalXML, MarshalXML", "profile.go")],
  ["xml.Marshal/Unmarshal of a MessageSetList"])

p("C13", "Every message and entry names its own OFX element, set and details",
  "Every request and response message reports the OFX transaction wrapper tag it is encoded as and the message set it belongs to, and message sets print as their OFX tag. Every investment transaction, position, open order and security reports the OFX tag of its own type. Its generic details accessor returns exactly the generic part stored in that value.",
  ["inputs"], "every message, transaction, position, order and security type, every value of it",
  "The tests call few of these accessors; each type has its own hand-written copy.",
  ["bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go", "signon.go", "signup.go", "common.go"],
  [("Name, Type, String of messageType", "common.go and each message file"), ("TransactionType, InvTransaction, PositionType, InvPosition, OrderType, SecurityType, SecurityInfo", "invstmt.go, seclist.go")],
  ["Name", "Type", "TransactionType", "InvTransaction", "PositionType", "InvPosition", "OrderType", "SecurityType", "SecurityInfo"])

p("C14", "Bank transactions are valid exactly as the OFX rules say",
  "A posted bank transaction is valid exactly when its type is known and not HOLD, its posting date and identifier are present, a correction has a known action, name and payee are not both given, a payee or destination account given is valid and at most one destination account is given, images number at most two and none before version 2.2, and its currency and original currency are not both valid; a pending transaction when its type is known, its date and name are present and its two currencies are not both valid. A transaction list is valid exactly when its dates are present and all its transactions are valid. An invalid value always comes with an error and a valid one with none.",
  ["inputs"], "every field value, optional aggregates absent or present, lists of any length, every version",
  "The tests validate a few hand-made transactions; the rules interact over a dozen fields and a list of any length.",
  ["bank.go"], [("Transaction.Valid, TransactionList.Valid, PendingTransaction.Valid, PendingTransactionList.Valid", "bank.go")],
  ["Valid", "ParseResponse"])

p("C15", "Sign-on requests and responses are validated and completed correctly",
  "A sign-on request is valid exactly when the user name has 1-32 characters, exactly one of password (at most 32) and user key (at most 64) is given, the language is empty or has three characters, and the application identifier has 1-5 and its version 1-4 characters; validating it changes nothing but an empty language, which becomes ENG once the credentials are acceptable. A sign-on response is valid exactly when its language has three characters and its status is valid. An invalid value always comes with an error and a valid one with none.",
  ["inputs"], "every combination of field lengths and contents",
  "The tests try a few invalid sign-ons; boundaries and combinations of fields are not covered.",
  ["signon.go"], [("SignonRequest.Valid, SignonResponse.Valid", "signon.go")], ["Valid", "Request.Marshal"])

p("C16", "Status codes have their OFX meaning and severity",
  "A status is valid exactly when its code is one of the codes the OFX specification lists and its severity (INFO, WARN or ERROR) is the one listed for that code; an invalid status always comes with an error and a valid one with none. The meaning and the conditions reported for a listed code are the ones listed for it, and asking about any other code is an error.",
  ["inputs"], "every 64-bit code, every severity string",
  "The tests look up a few codes; the table has over a hundred rows and the code is any 64-bit integer.",
  ["common.go"], [("statusMeanings, Status.Valid, CodeMeaning, CodeConditions", "common.go")], ["Status.Valid", "CodeMeaning", "CodeConditions"])

p("C17", "Transaction identifiers follow the OFX rules",
  "An identifier is valid exactly when it has 1 to 36 characters, and meets the recommended format exactly when it has 36 with hyphens at the four UUID positions, so that the recommended ones are all valid; each answer of no comes with an error and each yes with none. A generated identifier consists of all 16 bytes delivered by the system's cryptographic random source, written as lower-case hexadecimal in the recommended format. If that source fails, generating one is an error and no identifier is returned.",
  ["inputs", "fault_sequences"], "every string, every 16 random bytes, every failure of the random source",
  "Tests generate a few identifiers and check a few strings; short reads, failures and all boundary lengths are not reached.",
  ["types.go"], [("UID.Valid, RecommendedFormat, RandomUID", "types.go")], ["UID.Valid", "UID.RecommendedFormat", "RandomUID"])

p("C18", "Requests are only ever sent over https",
  "No client sends any bytes of a request, first or retried, unless the URL it was given starts with https://; for any other URL the request fails with an error before any connection is made. A redirect to anything but an https URL is not followed. A request that is sent is one POST of exactly the given body to exactly the given URL.",
  ["inputs", "fault_sequences"], "every URL, every body, every client kind and configuration, every server reply including redirects",
  "The tests refuse one http URL in one client; the other clients, retry and redirect paths never run because they need a TLS server.",
  ["basic_client.go", "vanguard_client.go", "discovercard_client.go", "client.go"],
  [("RawRequest of each client", "basic_client.go, vanguard_client.go, discovercard_client.go"), ("httpsRedirectsOnly", "client.go")],
  ["RawRequest", "RequestNoParse", "Request"])

p("C19", "Clients stamp every request with their own settings",
  "Before a request is marshalled its version, application identifier, application version, indentation and line endings are set from the client it is sent with and its client time to the current time, and nothing else in it changes. A basic client's settings are its own fields, with the documented defaults 203, OFXGO and 0001 for those left empty or invalid, indentation unless switched off, and carriage returns only if switched on. The client chosen for a URL is the specialised one exactly for the known Discover and Vanguard addresses, trailing or leading slashes aside, wrapping the given basic client, and that basic client itself otherwise.",
  ["inputs", "configurations"], "every client configuration, every URL, every request",
  "The tests check one default and one override; the settings are independent and each is copied by hand.",
  ["basic_client.go", "client.go", "request.go"],
  [("SetClientFields", "request.go"), ("BasicClient getters", "basic_client.go"), ("GetClient, clientRequestNoParse", "client.go")],
  ["Request fields after Client.RequestNoParse", "GetClient"])

p("C20", "HTTP failures are reported and response bodies are not leaked",
  "A request whose HTTP exchange fails or whose status is not 200 returns an error, never a parsed response. Every response body received is either handed to the caller or closed, on every path, and Request closes the body it parses in all cases. Every request of the basic and Vanguard clients carries the OFX content type and the configured user agent, if any.",
  ["fault_sequences", "inputs"], "every outcome of the HTTP exchange, every status, every client kind and configuration",
  "The tests have no server that fails in each of these ways, and never look at whether bodies are closed.",
  ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go"],
  [("RawRequest of each client", "basic_client.go, vanguard_client.go, discovercard_client.go"), ("clientRequest", "client.go")],
  ["RawRequest", "RequestNoParse", "Request", "http.Response.Body.Close"])

p("C21", "The Vanguard client retries once, with the cookies it was given",
  "The Vanguard client repeats a request exactly when the first reply had no error, no content length and at least one cookie; it then closes that reply's body and sends the same marshalled request, with all of those cookies, exactly once, returning that second reply. In every other case the first reply, or its error, is returned and nothing more is sent. A request that cannot be marshalled is an error and nothing is sent.",
  ["fault_sequences", "histories"], "every outcome of the first and the second exchange, any number of cookies, any content length",
  "No test runs the Vanguard client against a server.",
  ["vanguard_client.go"], [("VanguardClient.RequestNoParse, rawRequestCookiesInsecureCiphers", "vanguard_client.go")],
  ["VanguardClient.RequestNoParse", "requests seen by the server"])

p("C22", "Discover requests have exactly the headers Discover accepts",
  "The Discover client connects over TLS to the URL's host, on port 443 unless the URL names a port, and sends exactly the request line for the URL's path and query, then the headers Content-Type, Host, Content-Length and Connection in that order, a blank line, and the body. The content length is the number of bytes of the body, which is sent completely, whatever kind of reader it comes from. A failure to read the body, parse the URL, connect or send the body is an error.",
  ["inputs", "fault_sequences"], "every URL, every body and reader, every connection outcome",
  "No test runs the Discover client.",
  ["discovercard_client.go"], [("discoverCardHTTPPost", "discovercard_client.go")], ["bytes written to the TLS connection"])

p("C23", "Responses are validated as a whole and returned anyway",
  "A response is valid exactly when its sign-on and every message in every message set is valid for the response's version; otherwise the error reports all of the individual validation errors, in order. Parsing returns no response exactly when the document cannot be decoded; a decoded response is always returned, together with an error exactly when it is not valid. Validation failures never hide one another.",
  ["inputs"], "every combination of valid and invalid messages in lists of any length",
  "The tests parse a few samples with at most one failure each; aggregation over all message sets is not exercised.",
  ["response.go"], [("Response.Valid, ParseResponse, errInvalid", "response.go")], ["Response.Valid", "ParseResponse"])

p("C24", "Parsing any input terminates without crashing",
  "No input makes decoding, validating or marshalling crash: every text, token sequence and decoder outcome leads to a result or an error. Every step of decoding consumes input, so that decoding a finite document ends.",
  ["inputs", "fault_sequences"], "every sequence of tokens and decoder outcomes, every response value decoding can produce",
  "Tests run some sample files; absence of a crash or endless loop for every input is a universal claim.",
  ["response.go", "util.go", "types.go", "invstmt.go", "seclist.go", "profile.go", "bank.go", "constants.go"],
  [("all UnmarshalXML, Valid and String methods", "whole package"), ("nextNonWhitespaceToken, decodeMessageSet, DecodeResponse", "util.go, response.go")],
  ["ParseResponse", "DecodeResponse", "Valid"])

p("C25", "The command line tool does not crash on any response",
  "Whatever valid or partly filled response a server sends, the command line tool's commands that print accounts, transactions and balances end normally or with a message, and never crash. Optional parts of a response that are absent are skipped, and all present transactions are printed.",
  ["inputs", "fault_sequences"], "every response value decoding can produce, every optional aggregate absent or present, every request outcome",
  "The command line tool has no tests at all.",
  ["cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go", "cmd/ofx/get_accounts.go", "cmd/ofx/util.go"],
  [("bankTransactions, ccTransactions, invTransactions, getAccounts", "cmd/ofx")], ["standard output and exit status of ofx"])

p("C26", "Every field is read from and written to its own OFX element",
  "Decoding an OFX document puts the content of each element into the field of the message documented for it, and encoding a message writes each field at that element's place in the OFX hierarchy, so that a message with all its fields filled in decodes to an equal one after encoding. No two fields of a message share an element, and elements that are absent leave their field empty.",
  ["inputs"], "every message type and every field of it",
  "The tests decode a few samples touching some of the several hundred fields; three of them used a misspelled or mismatched element unnoticed.",
  ["bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go", "signon.go", "signup.go", "common.go"],
  [("xml struct tags", "all message structs")], ["xml.Marshal/Unmarshal of every message"])

p("C27", "Every leaf element may be left unclosed in SGML",
  "Decoding an SGML document in which the closing tags of leaf elements are left out gives the same response as the document with them, for every leaf element the package can decode in OFX 1. Aggregate elements are never taken for leaf elements.",
  ["inputs"], "every leaf element of every message type, present in any document",
  "The SGML samples contain a fraction of the leaf elements; one was missing from the list unnoticed.",
  ["leaf_elements.go", "response.go", "request.go"], [("ofxLeafElements", "leaf_elements.go"), ("AutoCloseAfterCharData", "response.go")],
  ["DecodeResponse of SGML", "Request.Marshal below version 2"])

p("C28", "The command line tool sends and stores only what it was asked to",
  "With the dry-run option no command sends anything, and the request it would have sent is printed instead. The download commands write exactly the body the server returned to the named file, creating it only after the request succeeded, and report every failure to create or write it. Commands missing a required option are refused before anything is sent, and every request built carries the options given.",
  ["inputs", "configurations", "fault_sequences"], "every combination of options, every outcome of the request and of writing the file",
  "The command line tool has no tests at all.",
  ["cmd/ofx/main.go", "cmd/ofx/command.go", "cmd/ofx/util.go", "cmd/ofx/bankdownload.go", "cmd/ofx/ccdownload.go", "cmd/ofx/invdownload.go", "cmd/ofx/profiledownload.go", "cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go", "cmd/ofx/get_accounts.go"],
  [("download, bankTransactions, newRequest, check*Flags", "cmd/ofx")], ["requests sent, files written, exit status of ofx"])

p("C29", "Statements, accounts, payees and balances are valid exactly as the rules say",
  "A bank statement request is valid exactly when its identifier and account are valid and it asks for pending transactions only from version 2.2 and for images only from version 2.1; a bank statement response when its identifier, status, currency, account, date, optional transaction lists (pending ones only from version 2.2) and balances are valid and an available balance has both amount and date or neither; bank, credit card and payee records and balances when their required parts are present and of known kind. Every other message that carries an identifier is valid exactly when that identifier is. An invalid value always comes with an error and a valid one with none, and validating changes nothing but a profile request's client routing, which becomes NONE.",
  ["inputs"], "every field value, optional aggregates absent or present, lists of any length, every version",
  "The tests validate a few samples; combinations of optional parts, versions and list contents are not covered.",
  ["bank.go", "creditcard.go", "invstmt.go", "seclist.go", "profile.go", "signup.go", "common.go"],
  [("Valid of every message, BankAcct, CCAcct, Payee, Balance", "bank.go, common.go and message files")], ["Valid", "Request.Marshal", "ParseResponse"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
