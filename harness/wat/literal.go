package wat

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"vharness/pbt"
)

// IntValue evaluates an integer literal.
func IntValue(lit string) *big.Int {
	s := strings.ReplaceAll(lit, "_", "")
	neg := s[0] == '-'
	s = strings.TrimLeft(s, "+-")
	base := 10
	if strings.HasPrefix(s, "0x") {
		base, s = 16, s[2:]
	}
	v := new(big.Int)
	for _, c := range strings.ToLower(s) {
		d := strings.IndexRune("0123456789abcdef", c)
		v.Add(v.Mul(v, big.NewInt(int64(base))), big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// IntBits gives the bits of an integer literal used as a constant.
func IntBits(lit string, bits uint) (uint64, bool) {
	v := IntValue(lit)
	lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
	hi := new(big.Int).Lsh(big.NewInt(1), bits)
	if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
		return 0, false
	}
	if v.Sign() < 0 {
		v.Add(v, hi)
	}
	return v.Uint64(), true
}

// U32Value gives the value of an integer literal used as an index or a limit.
func U32Value(lit string) (uint32, bool) {
	if lit[0] == '+' || lit[0] == '-' {
		return 0, false
	}
	v := IntValue(lit)
	if v.BitLen() > 32 {
		return 0, false
	}
	return uint32(v.Uint64()), true
}

// FloatBits gives the bits of an integer or float literal used as a float
// constant. The value is computed exactly as a fraction and rounded once.
func FloatBits(lit string, width int) (uint64, Verdict) {
	mant, expBits := 23, 8
	if width == 64 {
		mant, expBits = 52, 11
	}
	s := strings.ReplaceAll(lit, "_", "")
	neg := s[0] == '-'
	s = strings.TrimLeft(s, "+-")
	var sign uint64
	if neg {
		sign = 1 << (width - 1)
	}
	inf := (uint64(1)<<expBits - 1) << mant
	switch {
	case s == "inf":
		return sign | inf, Good
	case s == "nan":
		return sign | inf | 1<<(mant-1), Good
	case s == "nan:canonical" || s == "nan:arithmetic":
		return 0, Either
	case strings.HasPrefix(s, "nan:"):
		p := IntValue(s[4:])
		if p.Sign() == 0 || p.BitLen() > mant {
			return 0, Bad
		}
		return sign | inf | p.Uint64(), Good
	}
	base, expChars, expBase := int64(10), "eE", int64(10)
	if strings.HasPrefix(s, "0x") {
		base, expChars, expBase = 16, "pP", 2
		s = s[2:]
	}
	exp := new(big.Int)
	if i := strings.IndexAny(s, expChars); i >= 0 {
		exp = IntValue(s[i+1:])
		s = s[:i]
	}
	num := new(big.Int)
	fraction := 0
	seen := false
	for _, c := range strings.ToLower(s) {
		if c == '.' {
			seen = true
			continue
		}
		if seen {
			fraction++
		}
		num.Add(num.Mul(num, big.NewInt(base)), big.NewInt(int64(strings.IndexRune("0123456789abcdef", c))))
	}
	if num.Sign() == 0 {
		return sign, Good
	}
	// far outside of the range whatever the digits are
	if exp.CmpAbs(big.NewInt(100000)) > 0 {
		if exp.Sign() > 0 {
			return 0, Bad
		}
		return sign, Good
	}
	r := new(big.Rat).SetInt(num)
	pow := func(b, e int64) *big.Rat {
		return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(b), big.NewInt(e), nil))
	}
	r.Quo(r, pow(base, int64(fraction)))
	if e := exp.Int64(); e >= 0 {
		r.Mul(r, pow(expBase, e))
	} else {
		r.Quo(r, pow(expBase, -e))
	}
	b, ok := roundRat(r, mant, expBits)
	if !ok {
		return 0, Bad
	}
	return sign | b, Good
}

// roundRat rounds a positive fraction to the nearest float, ties to even.
func roundRat(r *big.Rat, mant, expBits int) (uint64, bool) {
	bias := 1<<(expBits-1) - 1
	// exponent e with 2^e <= r < 2^(e+1)
	e := r.Num().BitLen() - r.Denom().BitLen()
	scaled := func(k int) *big.Rat { // r * 2^k
		x := new(big.Int).Lsh(big.NewInt(1), uint(max(k, -k)))
		if k >= 0 {
			return new(big.Rat).Mul(r, new(big.Rat).SetInt(x))
		}
		return new(big.Rat).Quo(r, new(big.Rat).SetInt(x))
	}
	if scaled(-e).Cmp(big.NewRat(1, 1)) < 0 {
		e--
	}
	if e > bias {
		return 0, false
	}
	if e < 1-bias {
		e = 1 - bias
	}
	// units of 2^(e-mant)
	q := scaled(mant - e)
	n, rem := new(big.Int).QuoRem(q.Num(), q.Denom(), new(big.Int))
	twice := new(big.Int).Lsh(rem, 1)
	if c := twice.Cmp(q.Denom()); c > 0 || c == 0 && n.Bit(0) == 1 {
		n.Add(n, big.NewInt(1))
	}
	u := n.Uint64() // at most 2^(mant+1)
	biased := uint64(e + bias)
	if u < 1<<mant { // subnormal: e is at its minimum
		return u, true
	}
	b := (biased-1)<<mant + u // the leading one carries into the exponent
	if b >= (uint64(1)<<expBits-1)<<mant {
		return 0, false
	}
	return b, true
}

// digits draws a digit run with underscores.
func digits(t *pbt.T, n int, hex bool) string {
	var sb strings.Builder
	set := "0123456789"
	if hex {
		set = "0123456789abcdefABCDEF"
	}
	for i := 0; i < n; i++ {
		if i > 0 && t.P(1, 12) {
			sb.WriteByte('_')
		}
		sb.WriteByte(set[t.Intn(len(set))])
	}
	return sb.String()
}

// underscores puts underscores between the digits of a number.
func underscores(t *pbt.T, s string) string {
	if !t.P(1, 4) {
		return s
	}
	var sb strings.Builder
	for i := range s {
		if i > 0 && t.P(1, 4) {
			sb.WriteByte('_')
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// zeros are those before a number.
func zeros(t *pbt.T) string {
	if t.P(1, 4) {
		return strings.Repeat("0", t.Range(1, pbt.OneOf(t, 2, 20)))
	}
	return ""
}

func sign(t *pbt.T) string { return pbt.OneOf(t, "", "-", "+") }

// hexCase spells hexadecimal digits in a drawn case.
func hexCase(t *pbt.T, s string) string {
	switch t.Weighted(3, 1, 1) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && t.Bool() {
				b[i] -= 0x20
			}
		}
		return string(b)
	}
	return s
}

// SpellUint spells a number.
func SpellUint(t *pbt.T, v *big.Int) string {
	zeros := ""
	if t.P(1, 8) {
		zeros = strings.Repeat("0", t.Range(1, 12))
	}
	if t.P(1, 3) {
		return "0x" + underscores(t, zeros+hexCase(t, v.Text(16)))
	}
	return underscores(t, zeros+v.String())
}

// SpellInt spells the bits of an integer of the given width.
func SpellInt(t *pbt.T, bits uint64, width uint) string {
	v := new(big.Int).SetUint64(bits)
	half := new(big.Int).Lsh(big.NewInt(1), width-1)
	if v.Cmp(half) >= 0 && t.Bool() {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), width))
		return "-" + SpellUint(t, v.Neg(v))
	}
	if bits == 0 && t.P(1, 6) {
		return "-" + SpellUint(t, v)
	}
	if t.P(1, 8) {
		return "+" + SpellUint(t, v)
	}
	return SpellUint(t, v)
}

// genInt draws an integer literal around the ranges of the types.
func genInt(t *pbt.T) string {
	v := new(big.Int)
	switch t.Weighted(3, 4, 2, 2, 1) {
	case 0:
		v.SetUint64(t.U64())
	case 1: // next to a boundary
		v.Lsh(big.NewInt(1), uint(pbt.OneOf(t, 31, 32, 63, 64, 8, 16, 33, 65)))
		v.Add(v, big.NewInt(int64(t.Range(-3, 3))))
	case 2:
		v.SetUint64(t.U64n(0) >> t.Intn(64))
	case 3:
		v.SetUint64(uint64(t.U32()))
	default: // more digits than any type has
		return sign(t) + pbt.OneOf(t, "", "0x") + digits(t, t.Range(1, 40), false)
	}
	if v.Sign() < 0 {
		v.Neg(v)
	}
	return sign(t) + SpellUint(t, v)
}

// genFloat draws a float literal.
func genFloat(t *pbt.T) string {
	switch t.Weighted(4, 4, 2, 2, 3, 3, 2, 1) {
	case 0: // free decimal
		s := digits(t, t.Range(1, pbt.OneOf(t, 3, 20, 60)), false)
		if t.P(2, 3) {
			s += "."
			if t.P(2, 3) {
				s += digits(t, t.Range(1, pbt.OneOf(t, 3, 20, 60)), false)
			}
		}
		if t.P(1, 2) {
			s += pbt.OneOf(t, "e", "E") + sign(t) + genExp(t, 400)
		}
		return sign(t) + s
	case 1: // free hexadecimal
		s := "0x" + digits(t, t.Range(1, pbt.OneOf(t, 3, 18, 40)), true)
		if t.P(2, 3) {
			s += "."
			if t.P(2, 3) {
				s += digits(t, t.Range(1, pbt.OneOf(t, 3, 18, 40)), true)
			}
		}
		if t.P(1, 2) {
			s += pbt.OneOf(t, "p", "P") + sign(t) + genExp(t, 1200)
		}
		return sign(t) + s
	case 2:
		return sign(t) + "inf"
	case 3:
		if t.P(1, 4) {
			return sign(t) + "nan"
		}
		v := new(big.Int).SetUint64(t.U64n(0) >> t.Intn(64))
		if t.P(1, 2) { // around the payload ranges
			v.Lsh(big.NewInt(1), uint(pbt.OneOf(t, 22, 23, 51, 52, 0, 1, 24, 53)))
			v.Add(v, big.NewInt(int64(t.Range(-1, 2))))
		}
		return sign(t) + "nan:0x" + underscores(t, zeros(t)+hexCase(t, v.Text(16)))
	case 4: // exactly, or next to, the middle of two neighbours
		return sign(t) + halfway(t)
	case 5: // a float printed
		if t.Bool() {
			f := math.Float32frombits(t.U32())
			if f == f && !math.IsInf(float64(f), 0) {
				return printFloat(t, float64(f), 32)
			}
		}
		f := math.Float64frombits(t.U64())
		if f != f || math.IsInf(f, 0) {
			f = 1.5
		}
		return printFloat(t, f, 64)
	case 6:
		return genInt(t)
	default: // an exponent that is out of every range
		return sign(t) + pbt.OneOf(t, "0", "1", "0.0", "9.99", "0.000001") + "e" + sign(t) + pbt.OneOf(t, "400", "5000", "999999999", "4294967297", "99999999999999999999", "18446744073709551616")
	}
}

func genExp(t *pbt.T, max int) string {
	switch t.Weighted(3, 2, 1) {
	case 0:
		return fmt.Sprint(t.Intn(20))
	case 1:
		return fmt.Sprint(t.Intn(max))
	default:
		return underscores(t, fmt.Sprintf("%0*d", t.Range(1, 8), t.Intn(60)))
	}
}

func printFloat(t *pbt.T, f float64, bits int) string {
	switch t.Intn(3) {
	case 0:
		return fmt.Sprintf("%v", f)
	case 1:
		return big.NewFloat(f).Text('e', t.Range(0, 25))
	default:
		return fmt.Sprintf("%x", f) // such as -0x1.8p+01
	}
}

// halfway draws a literal that lies exactly in the middle of two neighbouring
// floats, or differs from it far behind the point.
func halfway(t *pbt.T) string {
	mant, bias := 23, 127
	if t.Bool() {
		mant, bias = 52, 1023
	}
	var m uint64
	switch t.Intn(3) {
	case 0:
		m = 1<<mant + t.U64n(1<<mant)
	case 1:
		m = 1<<(mant+1) - 1 - t.U64n(2)
	default:
		m = 1<<mant + t.U64n(3)
	}
	e := pbt.OneOf(t, 0, 1, -1, -mant, bias, 1-bias, -bias, bias-1, -bias-mant+1, -bias-mant)
	if t.P(1, 3) {
		e = t.Range(-bias-mant, bias)
	}
	// (2m+1) * 2^(e-mant-1)
	n := new(big.Int).SetUint64(2*m + 1)
	p := e - mant - 1
	tail := pbt.OneOf(t, "", "0", "1", "00000000000000000001")
	less := t.P(1, 4)
	if t.Bool() { // hexadecimal
		d := n.Text(16)
		if less && tail == "" {
			n.Lsh(n, 64)
			n.Sub(n, big.NewInt(1))
			return "0x" + n.Text(16) + fmt.Sprintf("p%d", p-64)
		}
		if tail != "" {
			d += "." + tail
		}
		return "0x" + hexCase(t, d) + fmt.Sprintf("p%+d", p)
	}
	// decimal: n*2^p exactly
	var d string
	if p >= 0 {
		d = new(big.Int).Lsh(n, uint(p)).String() + "."
	} else {
		// n / 2^k = n * 5^k / 10^k
		k := -p
		v := new(big.Int).Mul(n, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(k)), nil))
		if less {
			v.Mul(v, big.NewInt(10))
			v.Sub(v, big.NewInt(1))
			k++
		}
		s := v.String()
		if len(s) <= k {
			s = strings.Repeat("0", k-len(s)+1) + s
		}
		if t.Bool() { // scientific
			s = strings.TrimLeft(s, "0")
			return s[:1] + "." + s[1:] + tail + fmt.Sprintf("e%d", len(s)-1-k)
		}
		d = s[:len(s)-k] + "." + s[len(s)-k:]
	}
	return d + tail
}
