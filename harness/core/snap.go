package core

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"
)

// ---- Type descriptors (see the header of spec/Decode.tla) ----

// Header collects the type descriptors and the fold table of a trace.
type Header struct {
	idx   map[reflect.Type]int
	types []string // JSON
	runes map[rune]bool
	Names []string // Go type of every descriptor, for humans
	mu    sync.Mutex
}

func newHeader() *Header {
	return &Header{idx: map[reflect.Type]int{}, runes: map[rune]bool{}}
}

func bytesJSON(b *strings.Builder, s string) {
	b.WriteByte('[')
	for i := 0; i < len(s); i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(int(s[i])))
	}
	b.WriteByte(']')
}

func jsonBytes(s string) string {
	var b strings.Builder
	bytesJSON(&b, s)
	return b.String()
}

// foldRune returns the representative of the orbit of r under simple folding.
func foldRune(r rune) rune {
	min := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < min {
			min = x
		}
	}
	return min
}

func foldName(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(foldRune(r))
	}
	return b.String()
}

func (h *Header) keyDesc(t reflect.Type) string {
	if reflect.PointerTo(t).Implements(tpTU) {
		return fmt.Sprintf(`{"k":"tu","h":"%s"}`, hookOf(t, true))
	}
	switch t.Kind() {
	case reflect.String:
		return `{"k":"str"}`
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf(`{"k":"int","bits":%d}`, t.Bits())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf(`{"k":"uint","bits":%d}`, t.Bits())
	}
	return `{"k":"bad"}`
}

// Type returns the number of t.
func (h *Header) Type(t reflect.Type) int {
	if i, ok := h.idx[t]; ok {
		return i
	}
	i := len(h.types) + 1
	h.idx[t] = i
	h.types = append(h.types, "")
	h.Names = append(h.Names, t.String())
	z := t.Size() == 0
	set := func(format string, a ...any) {
		h.types[i-1] = fmt.Sprintf(`{"z":%v,`, z) + fmt.Sprintf(format, a...) + "}"
	}
	switch c := classOf(t); c {
	case "num":
		set(`"k":"num"`)
		return i
	case "ju", "tu":
		e := 0
		if t == reflect.TypeOf(JN{}) {
			e = h.Type(t.Field(0).Type)
		}
		set(`"k":"%s","h":"%s","e":%d,"nilable":%v`, c, hookOf(t, false), e, t.Kind() == reflect.Slice || t.Kind() == reflect.Map)
		return i
	}
	switch t.Kind() {
	case reflect.Bool:
		set(`"k":"bool"`)
	case reflect.String:
		set(`"k":"str"`)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		set(`"k":"int","bits":%d`, t.Bits())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		set(`"k":"uint","bits":%d`, t.Bits())
	case reflect.Float32, reflect.Float64:
		set(`"k":"float","bits":%d`, t.Bits())
	case reflect.Interface:
		if t.NumMethod() != 0 {
			set(`"k":"iface"`)
		} else {
			set(`"k":"any"`)
		}
	case reflect.Slice:
		set(`"k":"slice","e":%d`, h.Type(t.Elem()))
	case reflect.Array:
		set(`"k":"arr","e":%d,"n":%d`, h.Type(t.Elem()), t.Len())
	case reflect.Pointer:
		set(`"k":"ptr","e":%d`, h.Type(t.Elem()))
	case reflect.Map:
		set(`"k":"map","e":%d,"kd":%s`, h.Type(t.Elem()), h.keyDesc(t.Key()))
	case reflect.Struct:
		var b strings.Builder
		for f := 0; f < t.NumField(); f++ {
			if f > 0 {
				b.WriteByte(',')
			}
			sf := t.Field(f)
			name, quoted, skip := fieldInfo(sf)
			h.noteText(name)
			b.WriteString(`{"n":`)
			bytesJSON(&b, name)
			b.WriteString(`,"g":`)
			bytesJSON(&b, foldName(name))
			q := quoted && !skip && isStringTaggable(sf.Type.Kind()) && classOf(sf.Type) == ""
			fmt.Fprintf(&b, `,"t":%d,"q":%v,"qt":%v,"x":%v}`, h.Type(sf.Type), q, quoted && !skip, skip)
		}
		set(`"k":"struct","f":[%s]`, b.String())
	default:
		set(`"k":"bad"`)
	}
	return i
}

// noteText remembers the runes of a text that may matter for case folding.
func (h *Header) noteText(s string) {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 || s[i] == '\\' {
			ascii = false
			break
		}
	}
	if ascii {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+6 <= len(s) && s[i+1] == 'u' {
			if v, err := strconv.ParseUint(s[i+2:i+6], 16, 32); err == nil {
				r := rune(v)
				if r >= 0xd800 && r < 0xdc00 && i+12 <= len(s) && s[i+6] == '\\' && s[i+7] == 'u' {
					if lo, err := strconv.ParseUint(s[i+8:i+12], 16, 32); err == nil && lo >= 0xdc00 && lo < 0xe000 {
						h.addRune(0x10000 + (r-0xd800)<<10 + (rune(lo) - 0xdc00))
						i += 12
						continue
					}
				}
				h.addRune(r)
			}
			i += 6
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		h.addRune(r)
		i += n
	}
}

func (h *Header) addRune(r rune) {
	if r >= 0x80 && utf8.ValidRune(r) && foldRune(r) != r {
		h.runes[r] = true
	}
}

// JSON renders the header.
func (h *Header) JSON() string {
	var b strings.Builder
	b.WriteString(`{"types":[` + strings.Join(h.types, ",\n") + `],"fold":[`)
	var rs []int
	for r := range h.runes {
		rs = append(rs, int(r))
	}
	sort.Ints(rs)
	for i, r := range rs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('[')
		bytesJSON(&b, string(rune(r)))
		b.WriteByte(',')
		bytesJSON(&b, string(foldRune(rune(r))))
		b.WriteByte(']')
	}
	b.WriteString(`]}`)
	return b.String()
}

// ---- Memory identity ----

type region struct {
	lo, hi uintptr
	id     int
}

// Mem numbers the memory reachable from the variables of a session.
type Mem struct {
	ids     map[uintptr]int
	regions []region
	keep    []unsafe.Pointer // keeps everything numbered alive
	next    int              // next number
	nf      int              // first number given out during the latest call
	overlap bool
	share   bool   // note which strings refer to src
	src     string // the text that was decoded
}

func newMem() *Mem { return &Mem{ids: map[uintptr]int{}, next: 1, nf: 1} }

func (m *Mem) id(p unsafe.Pointer, size uintptr) int {
	if p == nil || size == 0 {
		return 0
	}
	a := uintptr(p)
	if id, ok := m.ids[a]; ok {
		for i := range m.regions {
			if m.regions[i].id == id {
				if a+size > m.regions[i].hi {
					m.regions[i].hi = a + size
					m.check(i)
				}
				break
			}
		}
		return id
	}
	id := m.next
	m.next++
	m.ids[a] = id
	m.keep = append(m.keep, p)
	m.regions = append(m.regions, region{a, a + size, id})
	m.check(len(m.regions) - 1)
	return id
}

func (m *Mem) check(i int) {
	r := m.regions[i]
	if len(m.regions) > 3000 {
		return
	}
	for j := range m.regions {
		if j != i && r.lo < m.regions[j].hi && m.regions[j].lo < r.hi {
			m.overlap = true
		}
	}
}

// ---- Snapshots ----

var (
	tpBool    = reflect.TypeOf(false)
	tpFloat64 = reflect.TypeOf(float64(0))
	tpString  = reflect.TypeOf("")
	tpAnys    = reflect.TypeOf([]any(nil))
	tpAnyMap  = reflect.TypeOf(map[string]any(nil))
)

type snapper struct {
	b    []byte
	mem  *Mem
	n    int
	seen map[int]bool // references found in this snapshot
	dup  bool         // the same memory is referenced twice
	huge bool
}

const maxNodes = 200000

func (s *snapper) str(x string) { s.b = append(s.b, x...) }
func (s *snapper) int(x int)    { s.b = strconv.AppendInt(s.b, int64(x), 10) }
func (s *snapper) bytes(x string) {
	s.b = append(s.b, '[')
	for i := 0; i < len(x); i++ {
		if i > 0 {
			s.b = append(s.b, ',')
		}
		s.int(int(x[i]))
	}
	s.b = append(s.b, ']')
}

func (s *snapper) ref(p unsafe.Pointer, size uintptr) int {
	id := s.mem.id(p, size)
	if id != 0 {
		if s.seen[id] {
			s.dup = true
		}
		s.seen[id] = true
	}
	return id
}

// text renders a string and, on demand, its place in the text that was decoded.
func (s *snapper) text(x string) {
	s.str(`{"s":`)
	s.bytes(x)
	if s.mem.share {
		at, p, q := -1, unsafe.StringData(x), unsafe.StringData(s.mem.src)
		if a, b := uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(q)); len(x) > 0 && b != 0 && a >= b && a+uintptr(len(x)) <= b+uintptr(len(s.mem.src)) {
			at = int(a - b)
		}
		s.str(`,"r":`)
		s.int(at)
	}
	s.str("}")
}

func keyText(k reflect.Value) string {
	switch k.Kind() {
	case reflect.String:
		return k.String()
	case reflect.Struct, reflect.Array:
		_, _, text := unmarshalerVal(k)
		return text
	case reflect.Bool, reflect.Float32, reflect.Float64:
		_, _, text := unmarshalerVal(k)
		return text
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(k.Int(), 10)
	}
	return strconv.FormatUint(k.Uint(), 10)
}

func (s *snapper) val(v reflect.Value) {
	s.n++
	if s.n > maxNodes {
		s.huge = true
		s.str(`{"nil":1}`)
		return
	}
	t := v.Type()
	switch classOf(t) {
	case "num":
		s.text(v.String())
		return
	case "ju", "tu":
		if hookOf(t, false) == "nest" {
			s.str(`{"n":`)
			s.val(v.Field(0))
			s.str("}")
			return
		}
		if k := t.Kind(); (k == reflect.Slice || k == reflect.Map) && v.IsNil() {
			s.str(`{"nil":1}`)
			return
		}
		key, list, text := unmarshalerVal(v)
		s.str(`{"` + key + `":`)
		switch key {
		case "u":
			s.str("[")
			for i := range list {
				if i > 0 {
					s.str(",")
				}
				s.bytes(list[i])
			}
			s.str("]")
		case "b":
			s.str(text)
		default:
			s.bytes(text)
		}
		s.str("}")
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		s.str(`{"b":` + strconv.FormatBool(v.Bool()) + `}`)
	case reflect.String:
		s.text(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.str(`{"i":`)
		s.bytes(strconv.FormatInt(v.Int(), 10))
		s.str("}")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s.str(`{"i":`)
		s.bytes(strconv.FormatUint(v.Uint(), 10))
		s.str("}")
	case reflect.Float32:
		s.str(fmt.Sprintf(`{"f":"%08x"}`, math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		s.str(fmt.Sprintf(`{"f":"%016x"}`, math.Float64bits(v.Float())))
	case reflect.Interface:
		if v.IsNil() {
			s.str(`{"nil":1}`)
			return
		}
		s.str(`{"a":`)
		switch e := v.Elem(); e.Type() {
		case tpBool, tpFloat64, tpString, tpAnys, tpAnyMap:
			s.val(e)
		default: // never produced by decoding
			s.str(`{"s":`)
			s.bytes("!" + e.Type().String())
			s.str("}")
		}
		s.str("}")
	case reflect.Slice:
		if v.IsNil() {
			s.str(`{"nil":1}`)
			return
		}
		if v.Cap() < v.Len() || v.Cap() > maxNodes && t.Elem().Size() > 0 {
			s.huge = true
			s.str(`{"nil":1}`)
			return
		}
		es := t.Elem().Size()
		id := s.ref(v.UnsafePointer(), es*uintptr(v.Cap()))
		s.str(`{"id":`)
		s.int(id)
		s.str(`,"sl":[`)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s.str(",")
			}
			s.val(v.Index(i))
		}
		s.str(`],"sp":[`)
		if es > 0 {
			full := v.Slice3(0, v.Cap(), v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				if i > v.Len() {
					s.str(",")
				}
				s.val(full.Index(i))
			}
		}
		s.str(`]}`)
	case reflect.Array:
		s.str(`{"ar":[`)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s.str(",")
			}
			s.val(v.Index(i))
		}
		s.str(`]}`)
	case reflect.Struct:
		s.str(`{"st":[`)
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s.str(",")
			}
			s.val(v.Field(i))
		}
		s.str(`]}`)
	case reflect.Pointer:
		if v.IsNil() {
			s.str(`{"nil":1}`)
			return
		}
		id := s.ref(v.UnsafePointer(), t.Elem().Size())
		s.str(`{"id":`)
		s.int(id)
		s.str(`,"p":`)
		s.val(v.Elem())
		s.str(`}`)
	case reflect.Map:
		if v.IsNil() {
			s.str(`{"nil":1}`)
			return
		}
		id := s.ref(v.UnsafePointer(), 8)
		s.str(`{"id":`)
		s.int(id)
		s.str(`,"m":[`)
		type kv struct {
			k string
			v reflect.Value
		}
		var kvs []kv
		for it := v.MapRange(); it.Next(); {
			kvs = append(kvs, kv{keyText(it.Key()), it.Value()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for i, e := range kvs {
			if i > 0 {
				s.str(",")
			}
			s.str(`{"k":`)
			s.bytes(e.k)
			s.str(`,"v":`)
			s.val(e.v)
			s.str("}")
		}
		s.str(`]}`)
	default:
		panic("snapshot of " + t.String())
	}
}

// snapshot renders the value v.
func (m *Mem) snapshot(v reflect.Value) (js string, bad string) {
	s := snapper{mem: m, seen: map[int]bool{}}
	s.val(v)
	if s.dup {
		bad = "alias"
	}
	if s.huge {
		bad = "huge"
	}
	return string(s.b), bad
}
