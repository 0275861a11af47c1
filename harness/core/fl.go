package core

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// floatBits returns the IEEE 754 bits of the number literal in both widths, computed
// with exact rational arithmetic, or "range".
func floatBits(lit string) (f32, f64 string) {
	neg := strings.HasPrefix(lit, "-")
	mant, exp := lit, 0
	if i := strings.IndexAny(lit, "eE"); i >= 0 {
		mant = lit[:i]
		e := lit[i+1:]
		d := strings.TrimLeft(strings.TrimLeft(e, "+-"), "0")
		if len(d) > 6 {
			exp = 999999
		} else if d != "" {
			exp, _ = strconv.Atoi(d)
		}
		if strings.HasPrefix(e, "-") {
			exp = -exp
		}
	}
	mant = strings.TrimPrefix(mant, "-")
	ip, fp := mant, ""
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		ip, fp = mant[:i], mant[i+1:]
	}
	digits := strings.TrimLeft(ip+fp, "0")
	exp -= len(fp)
	sign32, sign64 := uint32(0), uint64(0)
	if neg {
		sign32, sign64 = 1<<31, 1<<63
	}
	hex := func(a uint32, b uint64) (string, string) {
		return fmt.Sprintf("%08x", a|sign32), fmt.Sprintf("%016x", b|sign64)
	}
	if digits == "" || len(digits)+exp < -400 {
		return hex(0, 0)
	}
	if len(digits)+exp > 400 {
		return "range", "range"
	}
	m, _ := new(big.Int).SetString(digits, 10)
	r := new(big.Rat).SetInt(m)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil)
	if exp < 0 {
		r.Quo(r, new(big.Rat).SetInt(p))
	} else {
		r.Mul(r, new(big.Rat).SetInt(p))
	}
	a, _ := r.Float32()
	b, _ := r.Float64()
	f32, f64 = hex(math.Float32bits(a), math.Float64bits(b))
	if math.IsInf(float64(a), 0) {
		f32 = "range"
	}
	if math.IsInf(b, 0) {
		f64 = "range"
	}
	return
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func isNumByte(c byte) bool {
	return c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'
}

// isNumLit tells whether s is a JSON number literal.
func isNumLit(s string) bool {
	i := 0
	digits := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	z := i < len(s) && s[i] == '0'
	j := i
	if !digits() || z && i-j > 1 {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !digits() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !digits() {
			return false
		}
	}
	return i == len(s)
}

// unescapeString is an independent decoder of JSON string bodies. It's used to find
// quoted number literals and keys only, never as an oracle.
func unescapeString(s string) string {
	if strings.IndexByte(s, '\\') < 0 {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 >= len(s) {
			b.WriteByte(s[i])
			continue
		}
		i++
		switch s[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'u':
			if i+5 <= len(s) {
				if v, err := strconv.ParseUint(s[i+1:i+5], 16, 32); err == nil {
					r := rune(v)
					if !utf8.ValidRune(r) {
						r = utf8.RuneError
					}
					b.WriteRune(r)
				}
				i += 4
			}
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// literals lists the number literals in text: outside of strings and strings that
// contain nothing but a number.
func literals(text string) (out []string) {
	seen := map[string]bool{}
	add := func(l string) {
		if !seen[l] && isNumLit(l) {
			seen[l] = true
			out = append(out, l)
		}
	}
	for i := 0; i < len(text); {
		switch c := text[i]; {
		case c == '"':
			j := i + 1
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			if j > len(text) {
				j = len(text)
			}
			if j-i < 400 {
				add(unescapeString(text[i+1 : j]))
			}
			i = j + 1
		case c == '-' || c >= '0' && c <= '9':
			j := i
			for j < len(text) && isNumByte(text[j]) {
				j++
			}
			add(text[i:j])
			i = j
		default:
			i++
		}
	}
	return
}

func floatTable(text string) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, l := range literals(text) {
		if i > 0 {
			b.WriteByte(',')
		}
		f32, f64 := floatBits(l)
		b.WriteString(`{"l":`)
		bytesJSON(&b, l)
		fmt.Fprintf(&b, `,"f32":"%s","f64":"%s"}`, f32, f64)
	}
	b.WriteByte(']')
	return b.String()
}
