package ofxgo_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

var failures, cases int

func TestMain(m *testing.M) {
	r := m.Run()
	if cases > 0 {
		fmt.Printf("CASES: %d\n", cases)
	}
	os.Exit(r)
}

// failing reports an input on which the real code breaks the property.
func failing(t *testing.T, format string, a ...interface{}) {
	failures++
	if failures <= 20 {
		fmt.Printf("FAILING-INPUT: %q\n", fmt.Sprintf(format, a...))
	}
	t.Fail()
	if failures > 20 {
		t.FailNow()
	}
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func newRand() *rand.Rand { return rand.New(rand.NewSource(seed())) }

func rounds(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return quick
}
