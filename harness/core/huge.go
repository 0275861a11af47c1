package core

import (
	"reflect"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// huge decodes into variables of types that are too large for the specification to be
// evaluated on, such as arrays of more elements than fit in 16 bits. As in large, the parts
// are decoded alone first.
func huge(s *Sess) {
	var ims []*Impl
	leaves := map[reflect.Type]*Impl{}
	for _, im := range catalogue {
		if im.Fam != "huge" {
			continue
		}
		if isLeaf(im.T) {
			leaves[im.T] = im
		} else {
			ims = append(ims, im)
		}
	}
	if len(ims) == 0 {
		return
	}
	s.reset()
	save := s.im
	s.im = ims[s.Intn(len(ims))]
	defer func() { s.im = save }()
	h := &hugeDoc{Sess: s, leaves: leaves, pool: map[reflect.Type][]part{}}
	h.parts(s.im.T, map[reflect.Type]bool{})
	kind := s.kind(s.im)
	d := s.decoder(s.im, kind, newToks(s.Gen))
	if d == nil {
		return
	}
	b := &bigDoc{Sess: s, d: d, kind: kind}
	want := reflect.New(s.im.T).Elem()
	v := s.newVar(s.im, false)
	for i := 0; i < 3; i++ {
		h.budget = 400000
		var sb strings.Builder
		h.write(&sb, want, 3, i)
		out, bad := b.into(v, sb.String())
		n := 0
		if bad == "" && out.err == nil && reflect.DeepEqual(v.dst.Elem().Interface(), want.Interface()) {
			n = 1
		}
		b.note("value", 1, n, out, bad, part{}, 0)
		if n == 0 {
			return
		}
	}
}

func isLeaf(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array, reflect.Slice, reflect.Map, reflect.Struct, reflect.Pointer:
		return false
	}
	return true
}

type hugeDoc struct {
	*Sess
	leaves map[reflect.Type]*Impl
	pool   map[reflect.Type][]part
	budget int // bytes that may be written
}

// parts decodes some values of the leaf types of t.
func (h *hugeDoc) parts(t reflect.Type, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map, reflect.Array, reflect.Slice, reflect.Pointer:
		h.parts(t.Elem(), seen)
		return
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			h.parts(t.Field(i).Type, seen)
		}
		return
	}
	im := h.leaves[t]
	txts := []string{"0", "1", "7", `""`, `"a"`, "true", "false"}
	h.P.Wrong, h.P.BadStr, h.P.WrongNum, h.P.Null, h.P.MaxNodes = 0, 0, 0, 0, 8
	for i := 0; i < 12; i++ {
		v := h.newVar(im, false)
		txt := txts[h.Intn(len(txts))]
		if i < 9 {
			txt = h.docFor(t, 1).Render(nil)
		}
		txt = strings.ReplaceAll(txt, "scrib", "scrab") // as call does for bytes
		if txt == "null" || len(txt) > 30 {
			continue
		}
		d := h.decoder(im, im.Kinds[0], newToks(h.Gen))
		if d == nil {
			return
		}
		if cls := h.call(0, v, "D"+im.Kinds[:1], d, txt, jd.DefaultOptions); cls == "ok" {
			h.pool[t] = append(h.pool[t], part{txt: txt, val: v.dst.Elem()})
		} else if cls == "panic" {
			return
		}
	}
}

// write writes a text for a value of the type of v and makes v what v is afterwards.
func (h *hugeDoc) write(sb *strings.Builder, v reflect.Value, depth, round int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Array:
		n := t.Len()
		switch h.Intn(8) {
		case 0:
			n += 1 + h.Intn(3)
		case 1:
			n -= min(n, 1)
		case 2:
			n /= 2
		case 3:
			n = min(n, h.Intn(3))
		case 4:
			if n > 65536 {
				n = 65530 + h.Intn(12)
			}
		}
		spent := sb.Len()
		sb.WriteByte('[')
		i := 0
		for ; i < n && h.budget > 0; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			if i < t.Len() {
				h.write(sb, v.Index(i), depth-1, round)
			} else {
				h.write(sb, reflect.New(t.Elem()).Elem(), depth-1, round)
			}
			h.budget -= sb.Len() - spent
			spent = sb.Len()
		}
		sb.WriteByte(']')
		for ; i < t.Len(); i++ {
			v.Index(i).SetZero()
		}
	case reflect.Slice:
		n := h.Intn(4)
		v.Set(reflect.MakeSlice(t, n, n))
		sb.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			h.write(sb, v.Index(i), depth-1, round)
		}
		sb.WriteByte(']')
	case reflect.Map:
		n := h.Intn(3)
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		sb.WriteByte('{')
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			k := string(rune('a'+round)) + string(rune('a'+i))
			sb.WriteString(`"` + k + `":`)
			e := reflect.New(t.Elem()).Elem()
			h.write(sb, e, depth-1, round)
			v.SetMapIndex(reflect.ValueOf(k), e)
		}
		sb.WriteByte('}')
	case reflect.Pointer:
		deep := t.Elem().Kind() == reflect.Struct
		if deep && (depth < 0 || h.p(.9) && depth < 3) || h.p(.1) {
			v.SetZero()
			sb.WriteString("null")
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		h.write(sb, v.Elem(), depth-1, round)
	case reflect.Struct:
		sb.WriteByte('{')
		first := true
		for i := 0; i < t.NumField(); i++ {
			if h.p(.15) {
				continue
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			sb.WriteString(`"` + t.Field(i).Name + `":`)
			h.write(sb, v.Field(i), depth-1, round)
		}
		sb.WriteByte('}')
	default:
		ps := h.pool[t]
		if len(ps) == 0 {
			sb.WriteString("null")
			return
		}
		p := ps[h.Intn(len(ps))]
		sb.WriteString(p.txt)
		v.Set(p.val)
	}
}
