package main

import (
	"fmt"
	"math/big"
	"strings"
)

// hugeNum is n * 10^e.
type hugeNum struct {
	s    string
	n, e *big.Int
}

// hugeNums are numbers whose exponents reach beyond those of doubles and of machine integers. A number other than zero
// that is too large for a double is no JSON number of this library, so these have exponents down to minus 10^40 only.
func hugeNums(thorough bool) (res []hugeNum) {
	mants := []string{"0", "0.0", "1", "10", "1.5", "0.001", "0.00100", "123456789.25", strings.Repeat("9", 40)}
	exps := []string{"", "0", "1", "-1", "-01", "3", "-3", "-299", "-300", "-330", "-1000000", "-2147483647", "-2147483648", "-2147483649", "-2147483650", "-4294967296", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "-18446744073709551616", "-" + strings.Repeat("9", 30), "-1" + strings.Repeat("0", 40), "-0001" + strings.Repeat("0", 40)}
	if thorough {
		mants = append(mants, "2", "0.1", "100", "99.99", "0.000000000000000000000000000000000001")
		exps = append(exps, "+1", "-2", "-4", "-10", "-11", "-302", "-303", "-323", "-324", "-325", "-2147483640", "-2147483651", "-4294967295", "-4294967297", "-9223372036854775800", "-9223372036854775818", "-18446744073709551615", "-18446744073709551617")
	}
	for _, sign := range []string{"", "-"} {
		for _, m := range mants {
			es := exps
			if strings.Trim(m, "0.") == "" {
				es = append(append([]string{}, exps...), "400", "2147483647", "2147483648", "+4294967296", "9223372036854775807", "9223372036854775808", "1"+strings.Repeat("0", 40))
			}
			for _, e := range es {
				if e == "" && len(m) == 40 && m[0] == '9' {
					continue // an integer this large is not parsed
				}
				h := hugeNum{s: sign + m, n: new(big.Int), e: new(big.Int)}
				if e != "" {
					h.s += "e" + e
					if _, ok := h.e.SetString(e, 10); !ok {
						panic(e)
					}
				}
				ip, fp, _ := strings.Cut(m, ".")
				if _, ok := h.n.SetString(sign+ip+fp, 10); !ok {
					panic(m)
				}
				h.e.Sub(h.e, big.NewInt(int64(len(fp))))
				res = append(res, h)
			}
		}
	}
	return res
}

// cmpHuge compares two numbers of at most 1000 digits without making their powers of ten.
func cmpHuge(a, b hugeNum) int {
	if sa, sb := a.n.Sign(), b.n.Sign(); sa != sb || sa == 0 {
		return sa - sb
	}
	d := new(big.Int).Sub(a.e, b.e)
	if d.CmpAbs(big.NewInt(2000)) > 0 { // the digits do not matter
		return d.Sign() * a.n.Sign()
	}
	x, y := new(big.Int).Set(a.n), new(big.Int).Set(b.n)
	p := new(big.Int).Exp(big.NewInt(10), new(big.Int).Abs(d), nil)
	if d.Sign() > 0 {
		x.Mul(x, p)
	} else {
		y.Mul(y, p)
	}
	return x.Cmp(y)
}

func (h hugeNum) String() string { return fmt.Sprintf("%s (%s*10^%s)", h.s, h.n, h.e) }
