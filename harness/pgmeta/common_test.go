package pgmeta

// Shared by the replays.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
)

type vp struct {
	t     *testing.T
	r     *rand.Rand
	runs  int
	fails int
	tier  string
}

func newVP(t *testing.T) *vp {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vp{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), tier: os.Getenv("VERIF_TIER")}
	t.Cleanup(func() { fmt.Printf("VP-RUNS %d\n", v.runs) })
	return v
}

func (v *vp) n(quick int) int {
	if v.tier == "thorough" {
		return quick * 20
	}
	return quick
}

func (v *vp) fail(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	fmt.Printf("VP-FAIL %s\n", s)
	v.fails++
	v.t.Fail()
	if v.fails > 5 {
		v.t.FailNow()
	}
}

// guard reports a panic as a failure.
func (v *vp) guard(what func() string, f func()) {
	v.runs++
	defer func() {
		if e := recover(); e != nil {
			v.fail("%s: panic: %v at %s", what(), e, firstFrames())
		}
	}()
	f()
}

func firstFrames() string {
	b := debug.Stack()
	if len(b) > 1200 {
		b = b[:1200]
	}
	return string(bytes.ReplaceAll(b, []byte("\n"), []byte(" ")))
}
