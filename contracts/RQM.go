//go:build go1.21

package ofxgo

//govc:use MSG

import "bytes"

// What marshalling a request means to its callers.

func RQM__requires__Request_Marshal__noNil(p0 *Request) bool { return msgRequestNoNil(p0) }

func RQM__contract__Request_Marshal__result(r0 *bytes.Buffer, r1 error) bool {
	return imp(r1 == nil, r0 != nil)
}

// Validating a sign-on request may complete its language.
func RQM__modifies__Request_Marshal__language(p0 *Request) []interface{} {
	return []interface{}{&p0.Signon.Language}
}
