SEEDS = [
dict(name='c24-zone-bracket', property='C24', needs='a date with an opening bracket and nothing after it',
 breaks='Reading a date such as 20200101[ crashes.',
 edits=[('types.go', '''		zone = strings.TrimRight(split[1], "]")
''', '''		zone = strings.TrimRight(split[1], "]")
		if zone[0] == ':' {
			// only a name, which must be GMT's
			zone = "0" + zone
		}
''')],
 demo='''
package ofxgo_test

import (
	"testing"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"20200101[0:GMT]", "20200101[", "20200101[]", "20200101120000[-5:EST"} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%q: %v", s, r)
				}
			}()
			var d ofxgo.Date
			xml.Unmarshal([]byte("<DTEND>"+s+"</DTEND>"), &d)
		}()
	}
}
'''),
dict(name='c24-header-loop', property='C24', needs='an XML OFX header whose last attribute value is not closed',
 breaks='Reading a header whose last value is not closed never ends.',
 edits=[('response.go', '''			headers = tmp[1]
			tmp = bytes.SplitN(headers, []byte("\\""), 2)
			if len(tmp) != 2 {
				return errors.New("Malformed OFX header")
			}
			value := string(tmp[0])
			headers = bytes.TrimSpace(tmp[1])
''', '''			tmp = bytes.SplitN(tmp[1], []byte("\\""), 2)
			value := string(tmp[0])
			if len(tmp) == 2 {
				headers = bytes.TrimSpace(tmp[1])
			}
''')],
 demo='''
package ofxgo_test

import (
	"strings"
	"testing"
	"time"

	"github.com/aclindsa/ofxgo"
)

func TestSeedDemo(t *testing.T) {
	for _, tail := range []string{"", " SECURITY=\\"NONE\\"", " SECURITY=\\"NONE"} {
		doc := "<?xml version=\\"1.0\\"?>\\n<?OFX OFXHEADER=\\"200\\" VERSION=\\"203\\"" + tail + " ?>\\n<OFX></OFX>"
		done := make(chan bool)
		go func() {
			ofxgo.ParseResponse(strings.NewReader(doc))
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatalf("no end: %s", doc)
		}
	}
}
'''),
]
