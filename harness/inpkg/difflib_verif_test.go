package difflib

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// the edit script tiles both texts, marks only identical lines equal and replays a into b; hunks
// hold every changed line
func TestVerifScript(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VSEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	for n := 0; n < 6000; n++ {
		var a, b []string
		k := 1 + r.Intn(6)
		la, lb := r.Intn(12), r.Intn(12)
		if n%40 == 0 {
			la, lb = r.Intn(300), r.Intn(300)
			k = 1 + r.Intn(300)
		}
		for i := 0; i < la; i++ {
			a = append(a, fmt.Sprint("l", r.Intn(k), "\n"))
		}
		if r.Intn(2) == 0 {
			b = append(b, a...)
			for e := 0; e < 1+r.Intn(4); e++ {
				i := r.Intn(len(b) + 1)
				switch r.Intn(3) {
				case 0:
					b = append(b[:i:i], append([]string{"new\n"}, b[i:]...)...)
				case 1:
					if i < len(b) {
						b = append(b[:i:i], b[i+1:]...)
					}
				default:
					if i < len(b) {
						b[i] = "chg\n"
					}
				}
			}
		} else {
			for i := 0; i < lb; i++ {
				b = append(b, fmt.Sprint("l", r.Intn(k), "\n"))
			}
		}
		check(t, a, b)
	}
}

func check(t *testing.T, a, b []string) {
	fail := func(what string) {
		fmt.Printf("WITNESS %s a=%q b=%q\n", what, a, b)
		t.FailNow()
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Printf("WITNESS panic %v a=%q b=%q\n", p, a, b)
			t.FailNow()
		}
	}()
	m := NewMatcher(a, b)
	i, j := 0, 0
	for _, c := range m.GetOpCodes() {
		if c.I1 != i || c.J1 != j || c.I2 < c.I1 || c.J2 < c.J1 {
			fail(fmt.Sprintf("the script does not tile at %v", c))
		}
		if c.Tag == OpEqual {
			if c.I2-c.I1 != c.J2-c.J1 {
				fail("equal block of two lengths")
			}
			for k := 0; k < c.I2-c.I1; k++ {
				if a[c.I1+k] != b[c.J1+k] {
					fail(fmt.Sprintf("different lines marked equal at %v", c))
				}
			}
		}
		if c.Tag == OpDelete && c.J1 != c.J2 || c.Tag == OpInsert && c.I1 != c.I2 {
			fail(fmt.Sprintf("tag of %v", c))
		}
		i, j = c.I2, c.J2
	}
	if i != len(a) || j != len(b) {
		fail("the script stops early")
	}
	inHunk := map[[2]int]bool{}
	for _, g := range NewMatcher(a, b).GetGroupedOpCodes(3) {
		for _, c := range g {
			if c.Tag != OpEqual {
				for k := c.I1; k < c.I2; k++ {
					inHunk[[2]int{0, k}] = true
				}
				for k := c.J1; k < c.J2; k++ {
					inHunk[[2]int{1, k}] = true
				}
			}
		}
	}
	for _, c := range NewMatcher(a, b).GetOpCodes() {
		if c.Tag == OpEqual {
			continue
		}
		for k := c.I1; k < c.I2; k++ {
			if !inHunk[[2]int{0, k}] {
				fail("a changed line is in no hunk")
			}
		}
		for k := c.J1; k < c.J2; k++ {
			if !inHunk[[2]int{1, k}] {
				fail("a changed line is in no hunk")
			}
		}
	}
}
