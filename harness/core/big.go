package core

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// large decodes documents too large for the specification to be evaluated on. They are put
// together from parts that are decoded alone first, in calls that are checked like any
// other. The laws of the specification (spec/Laws.tla) say what the whole is then: lists
// and maps have the values of their parts, strings are the concatenation of theirs, unknown
// members and white space change nothing but the byte index of an error.
func large(s *Sess) {
	if s.W.Huge && s.p(.25) {
		huge(s)
		return
	}
	s.reset()
	kind := s.kind(s.im)
	d := s.decoder(s.im, kind, newToks(s.Gen))
	if d == nil {
		return
	}
	b := &bigDoc{Sess: s, d: d, kind: kind}
	t := s.im.T
	if classOf(t) == "" && (s.W.Share || s.p(.3)) && b.str() {
		return
	}
	if classOf(t) == "" && s.p(.75) {
		switch t.Kind() {
		case reflect.Slice, reflect.Array:
			b.seq()
			return
		case reflect.Map:
			if b.members() {
				return
			}
		case reflect.Interface:
			switch s.Intn(3) {
			case 0:
				b.seq()
			case 1:
				b.members()
			default:
				b.str()
			}
			return
		case reflect.String:
			b.str()
			return
		case reflect.Struct:
			if b.unknown() {
				return
			}
		}
	}
	b.shift()
}

type bigDoc struct {
	*Sess
	d    *Dec
	kind byte
	in   *input // the latest
}

// part is a part of a document and the call it was decoded with alone.
type part struct {
	txt  string
	val  reflect.Value
	ev   int // number of the event
	fits bool
}

// alone decodes pre+txt+post and takes note of what at returns for the value.
func (b *bigDoc) alone(pre, txt, post string, at func(reflect.Value) reflect.Value) (p part, ok bool) {
	if b.kind == 'B' {
		txt = strings.ReplaceAll(txt, "scrib", "scrab")
	}
	v := b.newVar(b.im, false)
	cls := b.call(0, v, "D"+string(b.kind), b.d, pre+txt+post, jd.DefaultOptions)
	p = part{txt: txt, ev: len(b.evs), fits: cls == "ok"}
	switch cls {
	case "ok":
		p.val = at(v.dst.Elem())
		return p, p.val.IsValid()
	case "panic", "hookpanic", "other":
		return p, false
	}
	return p, true
}

func (b *bigDoc) decode(txt string) (v *variable, out outcome, bad string) {
	v = b.newVar(b.im, false)
	out, bad = b.into(v, txt)
	return v, out, bad
}

func (b *bigDoc) into(v *variable, txt string) (out outcome, bad string) {
	b.calls++
	in := b.newInput(txt)
	b.in = in
	if b.kind == 'S' {
		out = b.d.S(in.str, v.dst, jd.DefaultOptions)
	} else {
		out = b.d.B(in.in, v.dst, jd.DefaultOptions)
	}
	switch {
	case out.panic != "":
		bad = "panic: " + out.panic
	case !in.intact():
		bad = "input modified"
	case !v.intact():
		bad = "memory outside of the destination modified"
	}
	return out, bad
}

// note records the outcome of a large document: d of n parts are right, p is the part that
// didn't fit, by bytes away from where it was when it was decoded alone.
func (b *bigDoc) note(what string, n, d int, out outcome, bad string, p part, off int) {
	b.emit(`{"e":"big","what":"%s","n":%d,"d":%d,"cls":"%s","ix":%d,"of":%d,"off":%d,"bad":%s}`,
		what, n, d, class(out.err), out.idx, p.ev, off, jq(bad))
}

// parts makes parts for values of type t.
func (b *bigDoc) parts(t reflect.Type, pre, post string, at func(reflect.Value) reflect.Value) (good, wrong []part, size int) {
	save := b.P
	b.P.MaxNodes = 30
	for i := 2 + b.Intn(6); i > 0; i-- {
		if i == 1 {
			b.P.Wrong = .3
		}
		p, ok := b.alone(pre, b.docFor(t, 2).Render(nil), post, at)
		if !ok {
			continue
		}
		if p.fits {
			good = append(good, p)
			size += len(p.txt) + 1
		} else {
			wrong = append(wrong, p)
		}
	}
	b.P = save
	if len(good) > 0 {
		size /= len(good)
	}
	return good, wrong, size
}

// many chooses the number of parts of a document.
func (b *bigDoc) many(size int, mem uintptr) int {
	n := 200 + b.Intn(3000)
	if b.p(.4) {
		n = 66000 + b.Intn(4000)
	}
	if max := 700000 / (size + 1); n > max {
		n = max
	}
	if max := (32 << 20) / int(mem+1); n > max {
		n = max
	}
	return n
}

func (b *bigDoc) seq() {
	t := b.im.T
	isAny := t.Kind() == reflect.Interface
	list := func(v reflect.Value) reflect.Value {
		if isAny {
			return v.Elem()
		}
		return v
	}
	elem, limit := t, -1
	if !isAny {
		elem = t.Elem()
	}
	if t.Kind() == reflect.Array {
		if limit = t.Len(); limit == 0 {
			return
		}
	}
	good, wrong, size := b.parts(elem, "[", "]", func(v reflect.Value) reflect.Value { return list(v).Index(0) })
	if len(good) == 0 {
		return
	}
	n := b.many(size, elem.Size())
	at := -1
	if len(wrong) > 0 && limit < 0 && b.p(.5) {
		at = n/2 + b.Intn(n-n/2)
	}
	var w part
	off := 0
	which := make([]int, n)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte("[,"[min(i, 1)])
		if i == at {
			w, off = wrong[b.Intn(len(wrong))], sb.Len()-1
			sb.WriteString(w.txt)
			continue
		}
		which[i] = b.Intn(len(good))
		sb.WriteString(good[which[i]].txt)
	}
	sb.WriteByte(']')
	v, out, bad := b.decode(sb.String())
	if at >= 0 {
		b.note("misfit", 0, 0, out, bad, w, off)
		return
	}
	if limit >= 0 && n > limit {
		n = limit
	}
	d := 0
	if l := list(v.dst.Elem()); bad == "" && out.err == nil && l.Len() == max(n, limit) {
		for d < n && reflect.DeepEqual(l.Index(d).Interface(), good[which[d]].val.Interface()) {
			d++
		}
	}
	b.note("value", n, d, out, bad, part{}, 0)
}

// bigKey is the i-th key for a map with keys of type k, and the key in the map.
func (b *bigDoc) bigKey(k reflect.Type, i int) (key string, val reflect.Value) {
	val = reflect.New(k).Elem()
	text := reflect.PointerTo(k).Implements(tpTU)
	switch {
	case k.Kind() == reflect.String && !text:
		key = fmt.Sprintf("k%d", i)
		if i == 77 {
			key += strings.Repeat("long\u00e9", 20000)
		}
		val.SetString(key)
		if i%7 == 3 {
			key = `\u006b` + key[1:]
		}
	case k.Kind() == reflect.String && hookOf(k, true) == "wrap":
		key = fmt.Sprintf("k%d", i)
		if refused(key) {
			return "", val
		}
		val.SetString("<" + key + ">")
	case text:
		return "", val
	case val.CanInt():
		if val.OverflowInt(int64(i)) {
			return "", val
		}
		key = fmt.Sprint(i)
		val.SetInt(int64(i))
	case val.CanUint():
		if val.OverflowUint(uint64(i)) {
			return "", val
		}
		key = fmt.Sprint(i)
		val.SetUint(uint64(i))
	}
	return key, val
}

// refused tells whether an unmarshaler refuses txt.
func refused(txt string) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	return refuse('T', []byte(txt)) != nil
}

func (b *bigDoc) members() bool {
	t := b.im.T
	isAny := t.Kind() == reflect.Interface
	the := func(v reflect.Value) reflect.Value {
		if isAny {
			return v.Elem()
		}
		return v
	}
	elem, key := t, reflect.TypeOf("")
	if !isAny {
		elem, key = t.Elem(), t.Key()
	}
	k, _ := b.bigKey(key, 5)
	if k == "" {
		return false
	}
	pre := `{"` + k + `":`
	good, wrong, size := b.parts(elem, pre, "}", func(v reflect.Value) reflect.Value {
		for it := the(v).MapRange(); it.Next(); {
			return it.Value()
		}
		return reflect.Value{}
	})
	if len(good) == 0 {
		return false
	}
	n := b.many(size+8, elem.Size()+key.Size())
	at := -1
	if len(wrong) > 0 && b.p(.5) {
		at = n/2 + b.Intn(n-n/2)
	}
	var w part
	off := 0
	var keys []reflect.Value
	var which []int
	var sb strings.Builder
	sb.WriteByte('{')
	for i := 0; i < n; i++ {
		k, kv := b.bigKey(key, i)
		if k == "" {
			continue
		}
		if sb.Len() > 1 {
			sb.WriteByte(',')
		}
		sb.WriteString(`"` + k + `":`)
		if i == at {
			w = wrong[b.Intn(len(wrong))]
			off = sb.Len() - len(pre)
			sb.WriteString(w.txt)
			continue
		}
		g := b.Intn(len(good))
		keys, which = append(keys, kv), append(which, g)
		sb.WriteString(good[g].txt)
	}
	sb.WriteByte('}')
	v, out, bad := b.decode(sb.String())
	if off > 0 {
		b.note("misfit", 0, 0, out, bad, w, off)
		return true
	}
	d := 0
	if m := the(v.dst.Elem()); bad == "" && out.err == nil && m.Len() == len(keys) {
		for d < len(keys) {
			x := m.MapIndex(keys[d])
			if !x.IsValid() || !reflect.DeepEqual(x.Interface(), good[which[d]].val.Interface()) {
				break
			}
			d++
		}
	}
	b.note("value", len(keys), d, out, bad, part{}, 0)
	return true
}

// strPath is the way to a string in values of a type.
type strPath struct {
	pre, post string
	get       func(v reflect.Value) reflect.Value
}

// strPath looks for a random one in values of type t.
func (b *bigDoc) strPath(t reflect.Type, depth int) (p strPath, ok bool) {
	step := func(e reflect.Type, pre, post string, get func(reflect.Value) reflect.Value) (strPath, bool) {
		p, ok := b.strPath(e, depth-1)
		if ok {
			p.pre, p.post = pre+p.pre, p.post+post
			inner := p.get
			p.get = func(v reflect.Value) reflect.Value { return inner(get(v)) }
		}
		return p, ok
	}
	same := func(v reflect.Value) reflect.Value { return v }
	if depth < 0 || classOf(t) != "" {
		return p, false
	}
	switch t.Kind() {
	case reflect.String:
		return strPath{get: same}, true
	case reflect.Interface:
		switch b.Intn(3) {
		case 0:
			return step(t, "[", "]", func(v reflect.Value) reflect.Value { return v.Elem().Index(0) })
		case 1:
			return step(t, `{"m":`, "}", func(v reflect.Value) reflect.Value { return v.Elem().MapIndex(reflect.ValueOf("m")) })
		}
		return strPath{get: func(v reflect.Value) reflect.Value { return v.Elem() }}, true
	case reflect.Pointer:
		return step(t.Elem(), "", "", reflect.Value.Elem)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice || t.Len() > 0 {
			return step(t.Elem(), "[", "]", func(v reflect.Value) reflect.Value { return v.Index(0) })
		}
	case reflect.Map:
		if k, kv := b.bigKey(t.Key(), 5); k != "" {
			return step(t.Elem(), `{"`+k+`":`, "}", func(v reflect.Value) reflect.Value { return v.MapIndex(kv) })
		}
	case reflect.Struct:
		if fs := visibleFields(t); len(fs) > 0 {
			if f := fs[b.Intn(len(fs))]; !f.str {
				return step(f.t, `{"`+b.encKey(f.name)+`":`, "}", func(v reflect.Value) reflect.Value { return v.Field(f.i) })
			}
		}
	}
	return p, false
}

// str makes a long string of short ones.
func (b *bigDoc) str() bool {
	path, ok := strPath{}, false
	for i := 0; i < 6 && !ok; i++ {
		path, ok = b.strPath(b.im.T, 5)
	}
	if !ok {
		return false
	}
	pre, post := path.pre+`"`, `"`+path.post
	get := func(v reflect.Value) (x reflect.Value) {
		// Values of fields of the same name and others can be elsewhere.
		defer func() {
			if recover() != nil {
				x = reflect.Value{}
			}
		}()
		return reflect.ValueOf(content(path.get(v)))
	}
	plain := func(p part) bool { return !strings.Contains(p.txt, `\`) }
	var good []part
	save := b.P
	onlyPlain := b.p(.3)
	for i := 2 + b.Intn(4); i > 0; i-- {
		b.P.Escape = save.Escape
		if onlyPlain || i == 1 {
			b.P.Escape = 0
		}
		txt := b.strRaw() + "x" // An escaped surrogate at the end must not meet another one.
		p, ok := b.alone(pre, txt, post, get)
		if ok && p.fits {
			good = append(good, p)
		}
	}
	b.P = save
	if len(good) == 0 {
		return true
	}
	var sb, want strings.Builder
	sb.WriteString(pre)
	esc := false
	for n := 1000 + b.Intn(100000); sb.Len() < n; {
		p := good[b.Intn(len(good))]
		esc = esc || !plain(p)
		times := 1
		if plain(p) && b.p(.3) {
			times = 1 + b.Intn(1<<b.Intn(15))/len(p.txt)
		}
		sb.WriteString(strings.Repeat(p.txt, times))
		want.WriteString(strings.Repeat(p.val.String(), times))
	}
	sb.WriteString(post)
	v, out, bad := b.decode(sb.String())
	d := 0
	if bad == "" && out.err == nil {
		if x := get(v.dst.Elem()); x.IsValid() && x.String() == want.String() {
			d = 1
			if b.W.Share {
				bad = b.shared(x.String(), len(pre), esc)
			}
		}
	}
	b.note("value", 1, d, out, bad, part{}, 0)
	return true
}

// content is a string, perhaps one in an interface.
func content(v reflect.Value) string {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return v.String()
}

// shared judges where a string decoded from the latest input is (C25).
func (b *bigDoc) shared(x string, at int, esc bool) string {
	src := b.in.str
	if b.kind == 'B' {
		src = unsafe.String(unsafe.SliceData(b.in.in), len(b.in.in))
	}
	p, q := uintptr(unsafe.Pointer(unsafe.StringData(x))), uintptr(unsafe.Pointer(unsafe.StringData(src)))
	switch inside := p >= q && p < q+uintptr(len(src)); {
	case b.kind == 'B' && inside:
		return "a string refers to the bytes of the input"
	case b.kind == 'S' && !esc && p != q+uintptr(at):
		return "a string without escape sequences is a copy"
	}
	return ""
}

// unknown puts unknown members in front of the others.
func (b *bigDoc) unknown() bool {
	doc := b.doc(b.im.T)
	if doc.K != 'o' {
		return false
	}
	txt := doc.Render(nil)
	p, ok := b.alone("", txt, "", func(v reflect.Value) reflect.Value { return v })
	if !ok {
		return true
	}
	var vals []string
	for i := 0; i < 4; i++ {
		vals = append(vals, b.anyDoc(2).Render(nil))
	}
	var sb strings.Builder
	sb.WriteByte('{')
	for n, i := 1000+b.Intn(150000), 0; sb.Len() < n; i++ {
		fmt.Fprintf(&sb, `"zz unknown %d%s":%s,`, i, strings.Repeat("A", i*i%997), vals[b.Intn(len(vals))])
	}
	head := sb.String()
	if len(doc.Keys) == 0 {
		head = head[:len(head)-1]
	}
	b.whole(p, head+p.txt[1:], len(head)-1)
	return true
}

// shift puts white space around a document.
func (b *bigDoc) shift() {
	p, ok := b.alone("", b.text(b.im), "", func(v reflect.Value) reflect.Value { return v })
	if !ok {
		return
	}
	space := strings.Repeat(b.pick(" ", "\n", "\t", "\r", "\r\n", " \t"), b.Intn(100000))
	b.whole(p, space+p.txt+strings.Repeat(" ", b.Intn(70000)), len(space))
}

// whole decodes txt, which ought to have the outcome of p.
func (b *bigDoc) whole(p part, txt string, off int) {
	v, out, bad := b.decode(txt)
	if !p.fits {
		b.note("misfit", 0, 0, out, bad, p, off)
		return
	}
	d := 0
	if bad == "" && out.err == nil && reflect.DeepEqual(v.dst.Elem().Interface(), p.val.Interface()) {
		d = 1
	}
	b.note("value", 1, d, out, bad, part{}, 0)
}
