package PKG

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

// helpers of the replay harnesses

var vhN, vhFails int

// vhOnly restricts the failures reported to those mentioning one of these
var vhOnly []string

func vhRand() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s*7919 + 12345))
}

func vhThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vhCase records the case about to run, so that a crash can be attributed to it
func vhCase(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 3000 {
		s = s[:3000]
	}
	if vhN < 3 {
		fmt.Println("VERIF-SAMPLE " + s)
	}
	vhN++
	if f := os.Getenv("VERIF_CASE_FILE"); f != "" {
		os.WriteFile(f, []byte(s), 0600)
	}
}

func vhFail(t *testing.T, format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	ok := len(vhOnly) == 0
	for _, w := range vhOnly {
		ok = ok || strings.Contains(s, w)
	}
	if !ok {
		return
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	fmt.Println("\nVERIF-FAIL " + s)
	vhFails++
	t.Fail()
	if vhFails >= 5 {
		vhDone()
		os.Exit(1)
	}
}

func vhDone() {
	fmt.Println("\nVERIF-CASES", vhN)
	if f := os.Getenv("VERIF_CASE_FILE"); f != "" && vhFails == 0 {
		os.WriteFile(f, nil, 0600)
	}
}

// vhPanics runs f and reports the recovered panic value, if any
func vhPanics(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}
