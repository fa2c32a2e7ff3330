//go:build go1.21

package ofxgo

// Generated by tools/mkc16.py from tools/statuses.json.

func c16row(code Int) (meaning, severity, conditions string, known bool) {
	switch code {
	case 0:
		return "Success", "INFO", "The server successfully processed the request.", true
	case 1:
		return "Client is up-to-date", "INFO", "Based on the client timestamp, the client has the latest information. The response does not supply any additional information.", true
	case 2000:
		return "General error", "ERROR", "Error other than those specified by the remaining error codes. Note: Servers should provide a more specific error whenever possible. Error code 2000 should be reserved for cases in which a more specific code is not available.", true
	case 2001:
		return "Invalid account", "ERROR", "", true
	case 2002:
		return "General account error", "ERROR", "Account error not specified by the remaining error codes.", true
	case 2003:
		return "Account not found", "ERROR", "The specified account number does not correspond to one of the user’s accounts.", true
	case 2004:
		return "Account closed", "ERROR", "The specified account number corresponds to an account that has been closed.", true
	case 2005:
		return "Account not authorized", "ERROR", "The user is not authorized to perform this action on the account, or the server does not allow this type of action to be performed on the account.", true
	case 2006:
		return "Source account not found", "ERROR", "The specified account number does not correspond to one of the user’s accounts.", true
	case 2007:
		return "Source account closed", "ERROR", "The specified account number corresponds to an account that has been closed.", true
	case 2008:
		return "Source account not authorized", "ERROR", "The user is not authorized to perform this action on the account, or the server does not allow this type of action to be performed on the account.", true
	case 2009:
		return "Destination account not found", "ERROR", "The specified account number does not correspond to one of the user’s accounts.", true
	case 2010:
		return "Destination account closed", "ERROR", "The specified account number corresponds to an account that has been closed.", true
	case 2011:
		return "Destination account not authorized", "ERROR", "The user is not authorized to perform this action on the account, or the server does not allow this type of action to be performed on the account.", true
	case 2012:
		return "Invalid amount", "ERROR", "The specified amount is not valid for this action; for example, the user specified a negative payment amount.", true
	case 2014:
		return "Date too soon", "ERROR", "The server cannot process the requested action by the date specified by the user.", true
	case 2015:
		return "Date too far in future", "ERROR", "The server cannot accept requests for an action that far in the future.", true
	case 2016:
		return "Transaction already committed", "ERROR", "Transaction has entered the processing loop and cannot be modified/cancelled using OFX.  The transaction may still be cancelled or modified using other means (for example, a phone call to Customer Service).", true
	case 2017:
		return "Already canceled", "ERROR", "The transaction cannot be canceled or modified because it has already been canceled.", true
	case 2018:
		return "Unknown server ID", "ERROR", "The specified server ID does not exist or no longer exists.", true
	case 2019:
		return "Duplicate request", "ERROR", "A request with this <TRNUID> has already been received and processed.", true
	case 2020:
		return "Invalid date", "ERROR", "The specified datetime stamp cannot be parsed; for instance, the datetime stamp specifies 25:00 hours.", true
	case 2021:
		return "Unsupported version", "ERROR", "The server does not support the requested version. The version of the message set specified by the client is not supported by this server.", true
	case 2022:
		return "Invalid TAN", "ERROR", "The server was unable to validate the TAN sent in the request.", true
	case 2023:
		return "Unknown FITID", "ERROR", "The specified FITID/BILLID does not exist or no longer exists.  [BILLID not found (ERROR) in the billing message sets]", true
	case 2025:
		return "Branch ID missing", "ERROR", "A <BRANCHID> value must be provided in the <BANKACCTFROM> aggregate for this country system, but this field is missing.", true
	case 2026:
		return "Bank name doesn’t match bank ID", "ERROR", "The value of <BANKNAME> in the <EXTBANKACCTTO> aggregate is inconsistent with the value of <BANKID> in the <BANKACCTTO> aggregate.", true
	case 2027:
		return "Invalid date range", "ERROR", "Response for non-overlapping dates, date ranges in the future, et cetera.", true
	case 2028:
		return "Requested element unknown", "WARN", "One or more elements of the request were not recognized by the server or the server (as noted in the FI Profile) does not support the elements. The server executed the element transactions it understood and supported. For example, the request file included private tags in a <PMTRQ> but the server was able to execute the rest of the request.", true
	case 3000:
		return "MFA Challenge authentication required", "ERROR", "User credentials are correct, but further authentication required. Client should send <MFACHALLENGERQ> in next request.", true
	case 3001:
		return "MFA Challenge information is invalid", "ERROR", "User or client information sent in MFACHALLENGEA contains invalid information", true
	case 6500:
		return "<REJECTIFMISSING>Y invalid without <TOKEN>", "ERROR", "This error code may appear in the <SYNCERROR> element of an <xxxSYNCRS> wrapper (in <PRESDLVMSGSRSV1> and V2 message set responses) or the <CODE> contained in any embedded transaction wrappers within a sync response. The corresponding sync request wrapper included <REJECTIFMISSING>Y with <REFRESH>Y or <TOKENONLY>Y, which is illegal.", true
	case 6501:
		return "Embedded transactions in request failed to process: Out of date", "WARN", "<REJECTIFMISSING>Y and embedded transactions appeared in the request sync wrapper and the provided <TOKEN> was out of date. This code should be used in the <SYNCERROR> of the response sync wrapper.", true
	case 6502:
		return "Unable to process embedded transaction due to out-of-date <TOKEN>", "ERROR", "Used in response transaction wrapper for embedded transactions when <SYNCERROR>6501 appears in the surrounding sync wrapper.", true
	case 10000:
		return "Stop check in process", "INFO", "Stop check is already in process.", true
	case 10500:
		return "Too many checks to process", "ERROR", "The stop-payment request <STPCHKRQ> specifies too many checks.", true
	case 10501:
		return "Invalid payee", "ERROR", "Payee error not specified by the remaining error codes.", true
	case 10502:
		return "Invalid payee address", "ERROR", "Some portion of the payee’s address is incorrect or unknown.", true
	case 10503:
		return "Invalid payee account number", "ERROR", "The account number <PAYACCT> of the requested payee is invalid.", true
	case 10504:
		return "Insufficient funds", "ERROR", "The server cannot process the request because the specified account does not have enough funds.", true
	case 10505:
		return "Cannot modify element", "ERROR", "The server does not allow modifications to one or more values in a modification request.", true
	case 10506:
		return "Cannot modify source account", "ERROR", "Reserved for future use.", true
	case 10507:
		return "Cannot modify destination account", "ERROR", "Reserved for future use.", true
	case 10508:
		return "Invalid frequency", "ERROR", "The specified frequency <FREQ> does not match one of the accepted frequencies for recurring transactions.", true
	case 10509:
		return "Model already canceled", "ERROR", "The server has already canceled the specified recurring model.", true
	case 10510:
		return "Invalid payee ID", "ERROR", "The specified payee ID does not exist or no longer exists.", true
	case 10511:
		return "Invalid payee city", "ERROR", "The specified city is incorrect or unknown.", true
	case 10512:
		return "Invalid payee state", "ERROR", "The specified state is incorrect or unknown.", true
	case 10513:
		return "Invalid payee postal code", "ERROR", "The specified postal code is incorrect or unknown.", true
	case 10514:
		return "Transaction already processed", "ERROR", "Transaction has already been sent or date due is past", true
	case 10515:
		return "Payee not modifiable by client", "ERROR", "The server does not allow clients to change payee information.", true
	case 10516:
		return "Wire beneficiary invalid", "ERROR", "The specified wire beneficiary does not exist or no longer exists.", true
	case 10517:
		return "Invalid payee name", "ERROR", "The server does not recognize the specified payee name.", true
	case 10518:
		return "Unknown model ID", "ERROR", "The specified model ID does not exist or no longer exists.", true
	case 10519:
		return "Invalid payee list ID", "ERROR", "The specified payee list ID does not exist or no longer exists.", true
	case 10600:
		return "Table type not found", "ERROR", "The specified table type is not recognized or does not exist.", true
	case 12250:
		return "Investment transaction download not supported", "WARN", "The server does not support investment transaction download.", true
	case 12251:
		return "Investment position download not supported", "WARN", "The server does not support investment position download.", true
	case 12252:
		return "Investment positions for specified date not available", "WARN", "The server does not support investment positions for the specified date.", true
	case 12253:
		return "Investment open order download not supported", "WARN", "The server does not support open order download.", true
	case 12254:
		return "Investment balances download not supported", "WARN", "The server does not support investment balances download.", true
	case 12255:
		return "401(k) not available for this account", "ERROR", "401(k) information requested from a non- 401(k) account.", true
	case 12500:
		return "One or more securities not found", "ERROR", "The server could not find the requested securities.", true
	case 13000:
		return "User ID & password will be sent out-of-band", "INFO", "The server will send the user ID and password via postal mail, e-mail, or another means. The accompanying message will provide details.", true
	case 13500:
		return "Unable to enroll user", "ERROR", "The server could not enroll the user.", true
	case 13501:
		return "User already enrolled", "ERROR", "The server has already enrolled the user.", true
	case 13502:
		return "Invalid service", "ERROR", "The server does not support the service <SVC> specified in the service-activation request.", true
	case 13503:
		return "Cannot change user information", "ERROR", "The server does not support the <CHGUSERINFORQ> request.", true
	case 13504:
		return "<FI> Missing or Invalid in <SONRQ>", "ERROR", "The FI requires the client to provide the <FI> aggregate in the <SONRQ> request, but either none was provided, or the one provided was invalid.", true
	case 14500:
		return "1099 forms not available", "ERROR", "1099 forms are not yet available for the tax year requested.", true
	case 14501:
		return "1099 forms not available for user ID", "ERROR", "This user does not have any 1099 forms available.", true
	case 14600:
		return "W2 forms not available", "ERROR", "W2 forms are not yet available for the tax year requested.", true
	case 14601:
		return "W2 forms not available for user ID", "ERROR", "The user does not have any W2 forms available.", true
	case 14700:
		return "1098 forms not available", "ERROR", "1098 forms are not yet available for the tax year requested.", true
	case 14701:
		return "1098 forms not available for user ID", "ERROR", "The user does not have any 1098 forms available.", true
	case 15000:
		return "Must change USERPASS", "INFO", "The user must change his or her <USERPASS> number as part of the next OFX request.", true
	case 15500:
		return "Signon invalid", "ERROR", "The user cannot signon because he or she entered an invalid user ID or password.", true
	case 15501:
		return "Customer account already in use", "ERROR", "The server allows only one connection at a time, and another user is already signed on.  Please try again later.", true
	case 15502:
		return "USERPASS lockout", "ERROR", "The server has received too many failed signon attempts for this user. Please call the FI’s technical support number.", true
	case 15503:
		return "Could not change USERPASS", "ERROR", "The server does not support the <PINCHRQ> request.", true
	case 15504:
		return "Could not provide random data", "ERROR", "The server could not generate random data as requested by the <CHALLENGERQ>.", true
	case 15505:
		return "Country system not supported", "ERROR", "The server does not support the country specified in the <COUNTRY> field of the <SONRQ> aggregate.", true
	case 15506:
		return "Empty signon not supported", "ERROR", "The server does not support signons not accompanied by some other transaction.", true
	case 15507:
		return "Signon invalid without supporting pin change request", "ERROR", "The OFX block associated with the signon does not contain a pin change request and should.", true
	case 15508:
		return "Transaction not authorized. ", "ERROR", "Current user is not authorized to perform this action on behalf of the <USERID>.", true
	case 15510:
		return "CLIENTUID error", "ERROR", "The CLIENTUID sent by the client was incorrect. User must register the Client UID.", true
	case 15511:
		return "MFA error", "ERROR", "User should contact financial institution.", true
	case 15512:
		return "AUTHTOKEN required", "ERROR", "User needs to contact financial institution to obtain AUTHTOKEN. Client should send it in the next request.", true
	case 15513:
		return "AUTHTOKEN invalid", "ERROR", "The AUTHTOKEN sent by the client was invalid.", true
	case 16500:
		return "HTML not allowed", "ERROR", "The server does not accept HTML formatting in the request.", true
	case 16501:
		return "Unknown mail To:", "ERROR", "The server was unable to send mail to the specified Internet address.", true
	case 16502:
		return "Invalid URL", "ERROR", "The server could not parse the URL.", true
	case 16503:
		return "Unable to get URL", "ERROR", "The server was unable to retrieve the information at this URL (e.g., an HTTP 400 or 500 series error).", true
	}
	return "", "", "", false
}

func C16__ensures__Status_Valid__listed(p0 *Status, o0 Status, r0 bool, r1 error) bool {
	_, s, _, ok := c16row(o0.Code)
	return r0 == (ok && string(o0.Severity) == s) && r0 == (r1 == nil) && same(*p0, o0)
}

func C16__ensures__Status_CodeMeaning__listed(p0 *Status, o0 Status, r0 string, r1 error) bool {
	m, _, _, ok := c16row(o0.Code)
	return ok == (r1 == nil) && imp(ok, r0 == m) && same(*p0, o0)
}

func C16__ensures__Status_CodeConditions__listed(p0 *Status, o0 Status, r0 string, r1 error) bool {
	_, _, c, ok := c16row(o0.Code)
	return ok == (r1 == nil) && imp(ok, r0 == c) && same(*p0, o0)
}
