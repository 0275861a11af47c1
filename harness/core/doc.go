package core

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Node is a JSON document tree. Strings and keys are kept in their raw
// (still escaped) form, numbers as their literal.
type Node struct {
	K    byte   // o a s n t f z
	Raw  string // string body (between the quotes) or number literal
	Keys []string
	Kids []*Node

	Idx  int   // byte index of the first byte, set by Render
	KIdx []int // byte index of every key
}

func nS(raw string) *Node { return &Node{K: 's', Raw: raw} }
func nN(lit string) *Node { return &Node{K: 'n', Raw: lit} }
func nNull() *Node        { return &Node{K: 'z'} }
func nBool(b bool) *Node {
	if b {
		return &Node{K: 't'}
	}
	return &Node{K: 'f'}
}

// Render serialises the tree, recording byte indexes.
// ws==nil renders compactly.
func (n *Node) Render(ws func() string) string {
	var b strings.Builder
	if ws == nil {
		ws = func() string { return "" }
	}
	b.WriteString(ws())
	n.render(&b, ws)
	b.WriteString(ws())
	return b.String()
}

func (n *Node) render(b *strings.Builder, ws func() string) {
	n.Idx = b.Len()
	switch n.K {
	case 'o':
		n.KIdx = n.KIdx[:0]
		b.WriteByte('{')
		b.WriteString(ws())
		for i, k := range n.Keys {
			if i > 0 {
				b.WriteByte(',')
				b.WriteString(ws())
			}
			n.KIdx = append(n.KIdx, b.Len())
			b.WriteByte('"')
			b.WriteString(k)
			b.WriteByte('"')
			b.WriteString(ws())
			b.WriteByte(':')
			b.WriteString(ws())
			n.Kids[i].render(b, ws)
			b.WriteString(ws())
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		b.WriteString(ws())
		for i := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
				b.WriteString(ws())
			}
			n.Kids[i].render(b, ws)
			b.WriteString(ws())
		}
		b.WriteByte(']')
	case 's':
		b.WriteByte('"')
		b.WriteString(n.Raw)
		b.WriteByte('"')
	case 'n':
		b.WriteString(n.Raw)
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	case 'z':
		b.WriteString("null")
	}
}

// Gen generates documents.
type Gen struct {
	*rand.Rand
	P    Profile
	left int // number of values the document may still get
}

// Profile tunes the generator.
type Profile struct {
	Null     float64 // probability of a null in place of a value
	Wrong    float64 // probability of a value of the wrong kind
	Unknown  float64 // probability of an unknown key per object
	Fold     float64 // probability of a differently cased key
	EscKey   float64 // probability of escaping a key
	Dup      float64 // probability of a duplicate key per key
	Extreme  float64 // probability of boundary numbers / tricky literals
	Escape   float64 // probability of escapes in a string
	MaxElems int
	MaxDepth int
	WS       float64 // probability of whitespace at each opportunity
	BadStr   float64 // probability of a malformed `string`-tag payload
	LongStr  float64
	Bound    float64 // probability of integers around the bounds of the integer types
	Hard     float64 // probability of numbers that are hard to round
	Near     float64 // probability of keys that almost match a field per field
	Deep     float64 // probability of deeply nested unknown or any values
	WrongNum float64 // probability of a number of the wrong form
	MaxNodes int     // number of values per document, roughly
}

func DefaultProfile() Profile {
	return Profile{
		Null: .06, Wrong: .02, Unknown: .15, Fold: .1, EscKey: .1, Dup: .08,
		Extreme: .25, Escape: .35, MaxElems: 4, MaxDepth: 7, WS: .15, BadStr: .1,
		LongStr: .05, MaxNodes: 40,
	}
}

func (g *Gen) p(x float64) bool { return x > 0 && g.Float64() < x }

func (g *Gen) pick(s ...string) string { return s[g.Intn(len(s))] }

func (g *Gen) ws() string {
	if !g.p(g.P.WS) {
		return ""
	}
	return g.pick(" ", "\n", "\t", "\r\n", "  ", " \t\n ")
}

var numExtreme = []string{
	"0", "-0", "1", "-1", "9", "10", "99", "100", "127", "128", "-128", "-129", "129",
	"255", "256", "257", "299", "300", "355", "399", "-300", "999", "1000", "-999",
	"32767", "32768", "-32768", "-32769", "65535", "65536", "70000", "-70000", "99999",
	"100000", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
	"4294967296", "5000000000", "-5000000000", "9999999999", "9223372036854775807",
	"9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "18446744073709551620",
	"28446744073709551615", "99999999999999999999", "-99999999999999999999",
	"16777216", "16777217", "9007199254740992", "9007199254740993", "999999999999999",
	"-999999999999999", "1234567", "-1234567", "12345678", "123456789012345678901234567890",
	"10000000000", "42949672960", "-21474836480", "92233720368547758070",
}

var floatExtreme = []string{
	"0.0", "-0.0", "1.0", "1e0", "0e0", "-0e-0", "1E+2", "1e-2", "3.4028235e38", "3.4028236e38", "3.5e38",
	"1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e309", "5e-324", "2e-324",
	"1e-400", "1.401298464324817e-45", "0.1", "0.30000000000000004", "123456789.987654321",
	"1.00000005960464477539062500000000000000001", "16777217.0", "9007199254740993.0",
	"1e400", "1E400", "1e39", "1.5", "-2.5e-3", "12.0e1", "100e-2", "0.000001", "1e21", "1e20",
}

// boundInt generates integers around the bounds of the integer types.
func (g *Gen) boundInt() string {
	bits := []uint{7, 8, 15, 16, 31, 32, 63, 64}[g.Intn(8)]
	x := new(big.Int).Lsh(big.NewInt(1), bits)
	switch g.Intn(8) {
	case 0, 1, 2:
		x.Add(x, big.NewInt(int64(g.Intn(5)-2)))
	case 3: // wraps around to something small
		x.Mul(x, big.NewInt(int64(g.Intn(12))))
		x.Add(x, big.NewInt(int64(g.Intn(300)-150)))
	case 4: // same number of digits
		s := x.String()
		b := []byte(s)
		b[g.Intn(len(b))] = byte('0' + g.Intn(10))
		if b[0] == '0' {
			b[0] = '1'
		}
		x.SetString(string(b), 10)
	case 5: // one digit more
		x.Mul(x, big.NewInt(10))
		x.Add(x, big.NewInt(int64(g.Intn(10))))
	case 6: // powers of ten
		x.Exp(big.NewInt(10), big.NewInt(int64(g.Intn(22))), nil)
		x.Sub(x, big.NewInt(int64(g.Intn(3))))
	case 7:
		x.Rand(g.Rand, x)
	}
	if g.p(.45) {
		x.Neg(x)
	}
	return x.String()
}

// hardFloat generates numbers close to the middle of two adjacent floats, long
// mantissas and numbers around the lengths of the shortcuts for integers.
func (g *Gen) hardFloat() string {
	sign := ""
	if g.p(.3) {
		sign = "-"
	}
	switch g.Intn(7) {
	case 0, 1: // the middle of two floats, or just next to it
		var x, y *big.Float
		if g.p(.5) {
			f := math.Float64frombits(g.Uint64() & (1<<63 - 1))
			if g.p(.6) {
				f = math.Float64frombits(uint64(1023-60+g.Intn(120))<<52 | g.Uint64()&(1<<52-1))
			}
			if math.IsNaN(f) || math.IsInf(f, 0) || f == math.MaxFloat64 {
				f = 1
			}
			x, y = big.NewFloat(f), big.NewFloat(math.Nextafter(f, math.Inf(1)))
		} else {
			f := math.Float32frombits(g.Uint32() & (1<<31 - 1))
			if g.p(.6) {
				f = math.Float32frombits(uint32(127-30+g.Intn(60))<<23 | g.Uint32()&(1<<23-1))
			}
			if f != f || math.IsInf(float64(f), 0) || f == math.MaxFloat32 {
				f = 1
			}
			x, y = big.NewFloat(float64(f)), big.NewFloat(float64(math.Nextafter32(f, float32(math.Inf(1)))))
		}
		m := new(big.Float).SetPrec(200).Add(x, y)
		m.Quo(m, big.NewFloat(2))
		t := m.Text('e', 60)
		if g.p(.3) {
			t = m.Text('e', 17+g.Intn(10))
		}
		if g.p(.4) {
			i := strings.IndexByte(t, 'e')
			t = t[:i] + g.pick("0", "1", "00001", "0000000000000000000000001", "9") + t[i:]
		}
		return sign + t
	case 2: // digits
		n := 1 + g.Intn(26)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.Intn(10))
		}
		if n > 1 && b[0] == '0' {
			b[0] = '1'
		}
		return sign + string(b)
	case 3: // integers around 1<<24 and 1<<53
		x := big.NewInt(1 << 24)
		if g.p(.5) {
			x = big.NewInt(1 << 53)
		}
		x.Add(x, big.NewInt(int64(g.Intn(17)-8)))
		if g.p(.3) {
			x.Mul(x, big.NewInt(int64(1+g.Intn(99))))
		}
		return sign + x.String()
	case 4:
		return sign + strconv.FormatFloat(math.Float64frombits(uint64(g.Intn(2046))<<52|g.Uint64()&(1<<52-1)), 'e', 1+g.Intn(20), 64)
	case 5:
		return sign + fmt.Sprintf("%d.%0*de%s%d", g.Intn(100), 1+g.Intn(30), g.Intn(1000), g.pick("", "+", "-"), g.Intn(60))
	default:
		return sign + fmt.Sprintf("0.%0*d", 1+g.Intn(20), g.Intn(100000))
	}
}

func (g *Gen) intLit() string {
	if g.p(g.P.Bound) {
		return g.boundInt()
	}
	if g.p(g.P.Extreme) {
		return numExtreme[g.Intn(len(numExtreme))]
	}
	n := 1 + g.Intn(3)
	if g.p(.2) {
		n = 1 + g.Intn(22)
	}
	var b strings.Builder
	if g.p(.25) {
		b.WriteByte('-')
	}
	for i := 0; i < n; i++ {
		d := g.Intn(10)
		if i == 0 && d == 0 && n > 1 {
			d = 1 + g.Intn(9)
		}
		b.WriteByte(byte('0' + d))
	}
	return b.String()
}

// intLitFor generates an integer that usually fits bits.
func (g *Gen) intLitFor(bits int, unsigned bool) string {
	if g.p(g.P.Extreme) || g.p(g.P.Bound) {
		return g.intLit()
	}
	if g.p(g.P.WrongNum) {
		return g.pick("1.0", "1e0", "0.5", "-1.5", "1E2", "10e-1", "-0.0", "1e400", "0e1", "127.0", "-0", "1e-1", "12.5e1")
	}
	v := g.Uint64() >> (64 - uint(1+g.Intn(bits)))
	if unsigned {
		return strconv.FormatUint(v, 10)
	}
	s := int64(v<<(64-uint(bits))) >> (64 - uint(bits))
	return strconv.FormatInt(s, 10)
}

func (g *Gen) floatLit() string {
	if g.p(g.P.Hard) {
		return g.hardFloat()
	}
	if g.p(.35) {
		return g.intLit()
	}
	if g.p(g.P.Extreme) {
		return floatExtreme[g.Intn(len(floatExtreme))]
	}
	return strconv.FormatFloat(g.NormFloat64()*1000, g.pick("f", "e", "g")[0], 1+g.Intn(9), 64)
}

func (g *Gen) numLit() string {
	if g.p(.5) {
		return g.intLit()
	}
	return g.floatLit()
}

var strPieces = []string{
	"a", "b", "zz", "key", "id", "0", " ", "é", "日本", "😀", "/", "'", "<&>", "\x7f", "\u2028",
	"abcdefgh", "K", "ſ", "K", "ß", "scrib",
}
var escPieces = []string{
	`\n`, `\t`, `\r`, `\b`, `\f`, `\"`, `\\`, `\/`, `\u0041`, `\u00e9`, `\u00E9`, `\u65e5`, `\u0000`,
	`\u001f`, `\u007f`, `\u0080`, `\u07ff`, `\u0800`, `\uffff`, `\uFFFD`, `\ud83d\ude00`, `\ud83d`,
	`\ude00`, `\ud83dx`, `\ud83d\n`, `\ude00\ud83d`, `\ud83d\ud83d\ude00`, `\uDBFF\uDFFF`, `\uD800\uDC00`,
	`\ud800\u0041`, `\u005c`, `\u0022`, `\u006b`, `\u006B`, `\u2028`,
}

// strRaw generates a raw (escaped) JSON string body.
func (g *Gen) strRaw() string {
	n := g.Intn(4)
	if g.p(g.P.LongStr) {
		n = 8 + g.Intn(20)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if g.p(.15) {
			// Plain text of any length, so that escapes occur at any offset.
			for k := g.Intn(20); k > 0; k-- {
				b.WriteByte(byte('a' + k%26))
			}
		}
		if g.p(g.P.Escape) {
			if g.p(.3) {
				g.uEsc(&b)
				continue
			}
			b.WriteString(escPieces[g.Intn(len(escPieces))])
		} else {
			b.WriteString(strPieces[g.Intn(len(strPieces))])
		}
	}
	return b.String()
}

// uEsc writes a random \u escape.
func (g *Gen) uEsc(b *strings.Builder) {
	f := g.pick("\\u%04x", "\\u%04X")
	switch g.Intn(6) {
	case 0:
		fmt.Fprintf(b, f, g.Intn(0x80))
	case 1:
		fmt.Fprintf(b, f, 0x80+g.Intn(0x780))
	case 2:
		fmt.Fprintf(b, f, g.Intn(0x10000))
	case 3:
		fmt.Fprintf(b, f, 0xd7f0+g.Intn(0x820)) // surrogates and their neighbours
	default:
		fmt.Fprintf(b, f, 0xd800+g.Intn(0x400))
		fmt.Fprintf(b, f, 0xdc00+g.Intn(0x400))
	}
}

// escKey re-encodes some characters of k with escapes.
func (g *Gen) encKey(k string) string {
	var b strings.Builder
	esc := g.p(g.P.EscKey)
	for _, r := range k {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		case esc && g.p(.5) && r <= 0xffff:
			if g.p(.5) {
				fmt.Fprintf(&b, `\u%04x`, r)
			} else {
				fmt.Fprintf(&b, `\u%04X`, r)
			}
		case esc && r > 0xffff && g.p(.5):
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *Gen) foldKey(k string) string {
	var b strings.Builder
	for _, r := range k {
		s := string(r)
		if g.p(.5) {
			if g.p(.5) {
				s = strings.ToUpper(s)
			} else {
				s = strings.ToLower(s)
			}
			if g.p(.15) {
				for n := 1 + g.Intn(3); n > 0; n-- {
					r = unicode.SimpleFold(r)
				}
				s = string(r)
			}
		}
		b.WriteString(s)
	}
	return b.String()
}

var lookalikes = [][2]string{
	{"i", "\u0130"}, {"I", "\u0130"}, {"i", "\u0131"}, {"I", "\u0131"}, {"\u0131", "i"}, {"\u0130", "i"}, {"\u0131", "I"},
	{"ss", "\u00df"}, {"\u00df", "ss"}, {"\u00df", "SS"}, {"s", "\u00df"}, {"\u0130", "i\u0307"}, {"k", "\u03ba"}, {"K", "\u039a"},
	{"a", "\u0430"}, {"\u00e9", "e\u0301"}, {"\u00e9", "e"}, {"a", "\u00aa"}, {"n", "\uff4e"}, {"A", "\uff21"}, {"\u03b2", "\u00df"},
	{"i", "\u2170"}, {"e", "\u0435"}, {"x", "X\u0301"}, {"\u03c3", "\u03c2\u0301"}, {"1", "\u00b9"}, {"_", "-"}, {"m", "\u2133"},
}

// nearKey generates a key that is similar to a field's name.
func (g *Gen) nearKey(k string) string {
	r := []rune(k)
	switch g.Intn(7) {
	case 6:
		// These match with full folding or other mappings, but not with simple folding.
		like := lookalikes[g.Intn(len(lookalikes))]
		if x := strings.Replace(k, like[0], like[1], 1); x != k {
			return x
		}
		return strings.Replace(strings.ToLower(k), like[0], like[1], 1)
	case 0:
		return k + g.pick("x", " ", "_", "\x00", "\x7f", "A")
	case 1:
		return g.pick("x", " ", "_", "-") + k
	case 2:
		if len(r) > 0 {
			return string(r[:len(r)-1])
		}
	case 3:
		if len(r) > 0 {
			r[g.Intn(len(r))] ^= 0x20
		}
	case 4:
		if len(r) > 0 {
			i := g.Intn(len(r))
			r[i]++
		}
	case 5:
		return g.foldKey(k)
	}
	for i := range r {
		if r[i] < 0 || r[i] >= 0xd800 && r[i] < 0xe000 {
			r[i] = 'x'
		}
	}
	return string(r)
}

// anyDoc generates an arbitrary value.
func (g *Gen) anyDoc(depth int) *Node {
	k := g.Intn(9)
	if depth <= 0 && k >= 7 {
		k = g.Intn(7)
	}
	switch k {
	case 0:
		return nNull()
	case 1:
		return nBool(g.p(.5))
	case 2:
		return nN(g.intLit())
	case 3:
		return nN(g.floatLit())
	case 4, 5, 6:
		return nS(g.strRaw())
	case 7:
		n := &Node{K: 'a'}
		for i := g.Intn(g.P.MaxElems + 1); i > 0; i-- {
			n.Kids = append(n.Kids, g.anyDoc(depth-1))
		}
		return n
	default:
		n := &Node{K: 'o'}
		for i := g.Intn(g.P.MaxElems + 1); i > 0; i-- {
			n.Keys = append(n.Keys, g.strRaw())
			n.Kids = append(n.Kids, g.anyDoc(depth-1))
		}
		return n
	}
}

// fieldInfo returns the JSON name of a struct field, whether it has the `string` option
// and whether it's not decodable.
func fieldInfo(f reflect.StructField) (name string, str, skip bool) {
	name = f.Name
	tag := f.Tag.Get("json")
	if tag == "-" || f.PkgPath != "" {
		skip = true
	}
	parts := strings.Split(tag, ",")
	if parts[0] != "" {
		name = parts[0]
	}
	for _, o := range parts[1:] {
		str = str || o == "string"
	}
	return
}

func isStringTaggable(k reflect.Kind) bool {
	switch k {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// doc generates a document for type t.
func (g *Gen) doc(t reflect.Type) *Node {
	g.left = g.P.MaxNodes
	return g.docFor(t, g.P.MaxDepth)
}

// docFor generates a document directed by type t.
func (g *Gen) docFor(t reflect.Type, depth int) *Node {
	if g.left--; g.left < 0 {
		depth = 0
	}
	if g.p(g.P.Null) {
		return nNull()
	}
	if g.p(g.P.Wrong) {
		return g.anyDoc(2)
	}
	switch classOf(t) {
	case "ju":
		if t == reflect.TypeOf(JN{}) && depth > 0 {
			return g.docFor(t.Field(0).Type, depth-1)
		}
		return g.anyDoc(2)
	case "tu":
		return nS(g.strRaw())
	case "num":
		if g.p(.25) {
			return nS(g.numStr())
		}
		return nN(g.numLit())
	}
	switch t.Kind() {
	case reflect.Interface:
		return g.anyDoc(min(depth, 3))
	case reflect.Bool:
		return nBool(g.p(.5))
	case reflect.String:
		return nS(g.strRaw())
	case reflect.Float32, reflect.Float64:
		return nN(g.floatLit())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return nN(g.intLitFor(t.Bits(), false))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return nN(g.intLitFor(t.Bits(), true))
	case reflect.Pointer:
		if depth <= 0 {
			return nNull()
		}
		return g.docFor(t.Elem(), depth-1)
	case reflect.Slice, reflect.Array:
		n := &Node{K: 'a'}
		c := g.Intn(g.P.MaxElems + 1)
		if t.Kind() == reflect.Array {
			c = t.Len()
			if g.p(.4) {
				c = g.Intn(t.Len() + 3)
			}
		}
		if depth <= 0 {
			c = 0
		}
		for i := 0; i < c; i++ {
			n.Kids = append(n.Kids, g.docFor(t.Elem(), depth-1))
		}
		return n
	case reflect.Map:
		n := &Node{K: 'o'}
		c := g.Intn(g.P.MaxElems + 1)
		if depth <= 0 {
			c = 0
		}
		for i := 0; i < c; i++ {
			n.Keys = append(n.Keys, g.mapKey(t.Key()))
			n.Kids = append(n.Kids, g.docFor(t.Elem(), depth-1))
			if g.p(g.P.Dup) {
				n.Keys = append(n.Keys, n.Keys[g.Intn(len(n.Keys))])
				n.Kids = append(n.Kids, g.docFor(t.Elem(), depth-1))
			}
		}
		return n
	case reflect.Struct:
		n := &Node{K: 'o'}
		if depth <= 0 {
			return n
		}
		fs := visibleFields(t)
		g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		add := func(k string, v *Node) {
			n.Keys = append(n.Keys, k)
			n.Kids = append(n.Kids, v)
		}
		c := len(fs)
		if g.p(.5) {
			c = g.Intn(len(fs) + 1)
		}
		for i := 0; i < c; i++ {
			f := fs[i]
			for {
				k := f.name
				if g.p(g.P.Fold) {
					k = g.foldKey(k)
				}
				var v *Node
				if f.str && isStringTaggable(f.t.Kind()) && classOf(f.t) == "" && !g.p(g.P.Wrong) {
					v = g.stringTagDoc(f.t)
				} else {
					v = g.docFor(f.t, depth-1)
				}
				add(g.encKey(k), v)
				if !g.p(g.P.Dup) {
					break
				}
			}
			if g.p(g.P.Near) {
				add(g.encKey(g.nearKey(f.name)), g.anyDoc(1))
			}
			if g.p(g.P.Unknown) {
				k := g.strRaw()
				if g.p(.3) {
					k = g.encKey(f.name + g.pick("x", " ", "_", "\x00"))
				}
				add(k, g.anyDoc(2))
			}
		}
		if g.p(g.P.Unknown) {
			add(g.strRaw(), g.anyDoc(3))
		}
		return n
	}
	return g.anyDoc(2)
}

func (g *Gen) numStr() string {
	if g.p(g.P.BadStr) {
		return g.pick("", " 1", "1 ", "12abc", "abc", "-", "01", "1.", ".5", "1e", "1e+", "+1", "0x1", "NaN",
			"Inf", "1_0", "--1", "00", "-01", "1.5.2", "1e5e", "12345678x", "1.12345678x", "1e12345678x", `\u0031`,
			"null", "true", "-x", "1-", "é", "1234567890123456x", "1.e1", "-e1", "e", ".")
	}
	return g.numLit()
}

// requote writes text down as the content of a JSON string.
func (g *Gen) requote(txt string) string {
	var b strings.Builder
	esc := g.p(g.P.Escape)
	for _, r := range txt {
		switch {
		case r < 0x20 || esc && r < 0x10000 && g.p(.3):
			fmt.Fprintf(&b, g.pick("\\u%04x", "\\u%04X"), r)
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// escaped writes some characters of a literal as escape sequences.
func (g *Gen) escaped(lit string) string {
	if len(lit) > 60 || strings.Contains(lit, `\`) || !g.p(g.P.Escape) {
		return lit
	}
	if len(lit) > 0 && lit[0] < 0x80 && g.p(.4) {
		return fmt.Sprintf(`\u%04x`, lit[0]) + lit[1:]
	}
	return g.requote(lit)
}

// stringTagDoc generates the payload for a `json:",string"` field.
func (g *Gen) stringTagDoc(t reflect.Type) *Node {
	if g.p(g.P.Null) {
		return nNull()
	}
	if g.p(g.P.BadStr / 2) {
		return g.docFor(t, 2)
	}
	bad := g.p(g.P.BadStr)
	switch t.Kind() {
	case reflect.Bool:
		if bad {
			return nS(g.pick("", "True", "TRUE", " true", "true ", "1", "0", "fals", "truee", `\u0074rue`, "null"))
		}
		return nS(g.escaped(g.pick("true", "false")))
	case reflect.String:
		if bad {
			if g.p(.5) {
				return nS(g.requote(g.pick("\"", "", " ") + g.strRaw() +
					g.pick("\n", "\t", "\x00", "\x1f", "\\", "\"", "\\x", "\\u12", "\x7f", "", "'", "\u2028") + g.strRaw() + g.pick("\"", "", " ")))
			}
			return nS(g.pick("", "x", `\"`, `\"\`+`"x`, `\"a`, `a\"`, "null", `\"a\"b\"`, `\\\"a\\\"`, `1`, ` \"a\"`, `\"a\" `, `'a'`))
		}
		if g.p(.5) {
			return nS(g.requote(`"` + g.strRaw() + `"`))
		}
		return nS(g.requote(`"` + g.pick("", "a", "abc", "é", "😀", "a b", "text", "0") + `"`))
	case reflect.Float32, reflect.Float64:
		if bad {
			return nS(g.escaped(g.numStr()))
		}
		return nS(g.escaped(g.floatLit()))
	default:
		if bad && g.p(.3) {
			return nS(g.escaped("-" + g.intLitFor(t.Bits(), true)))
		}
		if bad {
			return nS(g.escaped(g.numStr()))
		}
		return nS(g.escaped(g.intLitFor(t.Bits(), t.Kind() >= reflect.Uint)))
	}
}

func (g *Gen) mapKey(t reflect.Type) string {
	if classOf(t) == "tu" {
		return g.encKey(g.pick("a", "b", "k1", "k2", "", "é"))
	}
	switch t.Kind() {
	case reflect.String:
		if g.p(.5) {
			return g.encKey(g.pick("a", "b", "k1", "k2", "", "é", "😀"))
		}
		return g.strRaw()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.p(g.P.BadStr) {
			return g.escaped(g.numStr())
		}
		return g.escaped(g.intLitFor(t.Bits(), false))
	default:
		if g.p(g.P.BadStr) {
			if g.p(.3) {
				return g.escaped("-" + g.intLitFor(t.Bits(), true))
			}
			return g.escaped(g.numStr())
		}
		return g.escaped(g.intLitFor(t.Bits(), true))
	}
}

type vfield struct {
	name string
	str  bool
	t    reflect.Type
	i    int
}

func visibleFields(t reflect.Type) (out []vfield) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		n, s, skip := fieldInfo(f)
		if skip {
			continue
		}
		out = append(out, vfield{n, s, f.Type, i})
	}
	return
}

// mutateText damages valid JSON text.
func (g *Gen) mutateText(s string) string {
	b := []byte(s)
	for n := 1 + g.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, g.pick("{", "}", "[", "]", ",", `"`, "1")...)
			continue
		}
		i := g.Intn(len(b))
		switch g.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			const sub = `{}[],:"\ntfu0129.eE+-`
			b[i] = sub[g.Intn(len(sub))]
		case 2:
			ins := g.pick("{", "}", "[", "]", ",", ":", `"`, `\`, "0", "-", "e", ".", "null", "true", " ", "\x00", "\x1f", "//")
			b = append(b[:i], append([]byte(ins), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + g.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 5:
			j := g.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	if !utf8.Valid(b) {
		return strings.ToValidUTF8(string(b), "?")
	}
	return string(b)
}
