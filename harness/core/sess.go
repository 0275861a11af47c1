package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// Sess records one session: a sequence of calls and what was observed of each.
type Sess struct {
	*Gen
	W     *Workload
	hdr   *Header
	im    *Impl
	mem   *Mem
	pr    *Prior
	evs   []string
	idx   int
	vars  []*variable
	calls int
	gcOn  bool
	cal   []*Impl
	texts []string // to be used before any other
}

type variable struct {
	im     *Impl
	dst    reflect.Value // *T
	intact func() bool
	bufs   [][]byte // input buffers used for decoding into it
}

func sessionSeed(seed int64, prop string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	return int64(h.Sum64() >> 1)
}

func newSess(w *Workload, hdr *Header, cat []*Impl, seed int64, idx int) *Sess {
	g := &Gen{Rand: rand.New(rand.NewSource(sessionSeed(seed, w.Prop, idx))), P: w.P}
	s := &Sess{Gen: g, W: w, hdr: hdr, idx: idx, cal: cat}
	s.im = pickType(w, cat, idx)
	s.reset()
	return s
}

// pickType chooses the type of a session so that all types get their turn.
func pickType(w *Workload, cat []*Impl, idx int) *Impl {
	n := 0 // types of the main families come first
	for n < len(cat) && w.main(cat[n]) {
		n++
	}
	if n == 0 || n == len(cat) {
		return cat[idx%len(cat)]
	}
	if idx%3 < 2 {
		return cat[(idx/3*2+idx%3)%n]
	}
	return cat[n+idx/3%(len(cat)-n)]
}

func (s *Sess) reset() {
	s.mem = newMem()
	s.pr = &Prior{Gen: s.Gen, Slack: s.W.Slack, NilP: s.W.NilP}
}

func hasFloat(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t == reflect.TypeOf(JN{}) {
		return true
	}
	if classOf(t) != "" {
		return false
	}
	switch t.Kind() {
	case reflect.Float32, reflect.Float64, reflect.Interface:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasFloat(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasFloat(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func (s *Sess) emit(format string, a ...any) { s.evs = append(s.evs, fmt.Sprintf(format, a...)) }

// opts picks decode options.
func (s *Sess) opts() *jd.DecodeOptions {
	if !s.p(s.W.Opts) {
		return jd.DefaultOptions
	}
	return &jd.DecodeOptions{
		DisallowUnknownFields:          s.p(.5),
		DisableFieldNameUnescaping:     s.p(.4),
		DisableCaseInsensitiveMatching: s.p(.4),
	}
}

func optsJSON(o *jd.DecodeOptions) string {
	return fmt.Sprintf(`{"du":%v,"dn":%v,"dc":%v}`,
		o.DisallowUnknownFields, o.DisableFieldNameUnescaping, o.DisableCaseInsensitiveMatching)
}

// text generates the input of a call for type t.
func (s *Sess) text(im *Impl) string {
	if len(s.texts) > 0 {
		t := s.texts[0]
		s.texts = s.texts[1:]
		return t
	}
	if s.W.Text != nil {
		return s.W.Text(s, im)
	}
	txt := s.doc(im.T).Render(s.Gen.ws)
	if s.p(s.W.Mutate) {
		txt = s.mutateText(txt)
	}
	return txt
}

// newVar allocates a variable and maybe fills it.
func (s *Sess) newVar(im *Impl, prior bool) *variable {
	v := &variable{im: im}
	v.dst, v.intact = im.Var()
	if prior {
		s.pr.fill(v.dst.Elem(), 4)
	}
	return v
}

// input is a text in memory.
type input struct {
	txt string
	buf []byte // the entire buffer
	in  []byte // the part of buf that holds the text
	str string
}

func (s *Sess) newInput(txt string) *input {
	in := &input{txt: txt, str: string([]byte(txt))}
	pad := s.Intn(9)
	in.buf = make([]byte, pad+len(txt)+8)
	for i := range in.buf {
		in.buf[i] = '!'
	}
	copy(in.buf[pad:], txt)
	in.in = in.buf[pad : pad+len(txt) : len(in.buf)]
	if s.p(.5) {
		in.in = in.buf[pad : pad+len(txt) : pad+len(txt)]
	}
	return in
}

// intact tells whether the input still is what it was.
func (in *input) intact() bool {
	if in.str != in.txt {
		return false
	}
	for j, c := range in.buf {
		off := j - (len(in.buf) - len(in.txt) - 8)
		want := byte('!')
		if off >= 0 && off < len(in.txt) {
			want = in.txt[off]
		}
		if c != want {
			return false
		}
	}
	return true
}

// kind picks a kind of input.
func (s *Sess) kind(im *Impl) byte { return im.Kinds[s.Intn(len(im.Kinds))] }

// via picks an entry point: Decode or Unmarshal with a string or a []byte.
func (s *Sess) via(im *Impl) string { return s.pick("D", "D", "D", "U") + string(s.kind(im)) }

// call decodes txt into v and records the event. num is the number of the variable in
// the session or 0 if it's not used again.
func (s *Sess) call(num int, v *variable, via string, d *Dec, txt string, o *jd.DecodeOptions) (cls string) {
	s.calls++
	im := v.im
	var pre string
	s.mem.share, s.mem.src = s.W.Share, ""
	if num == 0 {
		pre, _ = s.mem.snapshot(v.dst.Elem())
	}
	s.mem.nf = s.mem.next
	s.mem.overlap = false
	if via[1] == 'B' {
		// Unmarshalers are given parts of the input.
		txt = strings.ReplaceAll(txt, "scrib", "scrab")
	}
	in := s.newInput(txt)
	if s.gcOn && s.p(.02) {
		runtime.GC()
	}
	var out outcome
	opts := *o
	var hooks []string
	if s.W.Hooks {
		hookLog = func(m byte, b string) {
			hooks = append(hooks, fmt.Sprintf(`{"m":"%c","b":%s}`, m, jsonBytes(b)))
		}
	}
	switch via {
	case "DS":
		out = d.S(in.str, v.dst, o)
	case "DB":
		out = d.B(in.in, v.dst, o)
	case "US":
		out = im.unmS(in.str, v.dst)
	case "UB":
		out = im.unmB(in.in, v.dst)
	}
	if s.W.Hooks {
		hookLog = nil
	}
	cls = class(out.err)
	if num > 0 && via[1] == 'B' {
		v.bufs = append(v.bufs, in.buf)
	}
	bad := ""
	ok := out.err == nil
	if out.panic != "" {
		bad, cls, ok = "panic: "+out.panic, "panic", false
	}
	if s.gcOn && s.p(.02) {
		runtime.GC()
	}
	post, b := "", ""
	if bad == "" {
		s.mem.src = in.str
		if via[1] == 'B' {
			s.mem.src = unsafe.String(unsafe.SliceData(in.in), len(in.in))
		}
		post, b = s.mem.snapshot(v.dst.Elem())
		switch {
		case b != "":
			bad = b
		case s.mem.overlap:
			bad = "overlap"
		case !in.intact():
			bad = "input modified"
		case *o != opts:
			bad = "options modified"
		case !v.intact() || !s.pr.intact():
			bad = "memory outside of the destination modified"
		}
	}
	if bad == "" && cls == "syntax" && !syntaxIndexOK(txt, out) && via[0] == 'D' {
		bad = "syntax error index"
	}
	var e strings.Builder
	fmt.Fprintf(&e, `{"e":"dec","v":%d,"t":%d,"via":"%s","o":%s,"s":`, num, s.hdr.Type(im.T), via, optsJSON(o))
	bytesJSON(&e, txt)
	e.WriteString(`,"fl":`)
	if hasFloat(im.T, map[reflect.Type]bool{}) {
		e.WriteString(floatTable(txt))
	} else {
		e.WriteString("[]")
	}
	if num == 0 {
		fmt.Fprintf(&e, `,"pre":%s`, pre)
	}
	fmt.Fprintf(&e, `,"ok":%v,"cls":"%s","ix":%d,"nf":%d,"bad":%s`, ok, cls, out.idx, s.mem.nf, jq(bad))
	if (ok || num > 0 || cls == "syntax" || s.W.Frame) && post != "" {
		fmt.Fprintf(&e, `,"post":%s`, post)
	}
	if s.W.Hooks {
		fmt.Fprintf(&e, `,"hk":[%s]`, strings.Join(hooks, ","))
	}
	e.WriteString("}")
	s.hdr.noteText(txt)
	s.evs = append(s.evs, e.String())
	return cls
}

// decoder creates a decoder and records it.
func (s *Sess) decoder(im *Impl, kind byte, tk *Toks) *Dec {
	d, o := im.New(kind, tk, jd.DefaultInitOptions)
	if d == nil {
		s.emit(`{"e":"new","t":%d,"strict":false,"ok":false,"cls":"%s","bad":%s}`, s.hdr.Type(im.T), class(o.err), jq(o.panic))
	}
	return d
}

// single makes independent calls.
func single(s *Sess) {
	var d *Dec
	tk := newToks(s.Gen)
	for i := 0; i < s.W.Batch; i++ {
		s.reset()
		via := s.via(s.im)
		o := s.opts()
		if via[0] == 'U' && o != jd.DefaultOptions {
			via = "D" + via[1:]
		}
		if via[0] == 'D' && (d == nil || d.Kind != via[1] || s.p(.3)) {
			if s.p(.5) {
				tk = newToks(s.Gen)
			}
			if d = s.decoder(s.im, via[1], tk); d == nil {
				return
			}
		}
		v := s.newVar(s.im, s.p(s.W.Prior))
		cls := s.call(0, v, via, d, s.text(s.im), o)
		if cls == "panic" {
			d = nil
		}
	}
}

// equiv decodes the same document through all entry points and with different white space.
func equiv(s *Sess) {
	for i := 0; i < s.W.Batch/4; i++ {
		doc := s.doc(s.im.T)
		seed := s.Int63()
		prior := s.p(s.W.Prior)
		txt := doc.Render(s.Gen.ws)
		damaged := s.p(.25)
		if damaged {
			odd := func() string {
				return s.pick("", " ", "\v", "\f", "\u00a0", "\u0085", "\u2028", "\ufeff", "\x00", "\u3000", "\b", ",", "\x1c", "/**/")
			}
			txt = odd() + txt + odd()
			if s.p(.5) {
				txt = malformedText(s, s.im)
			}
		}
		var vias []string
		for _, k := range s.im.Kinds {
			vias = append(vias, "D"+string(k), "U"+string(k))
		}
		for _, via := range vias {
			s.reset()
			s.pr.Gen = &Gen{Rand: rand.New(rand.NewSource(seed)), P: s.P}
			v := s.newVar(s.im, prior)
			var d *Dec
			if via[0] == 'D' {
				if d = s.decoder(s.im, via[1], newToks(s.Gen)); d == nil {
					return
				}
			}
			s.call(0, v, via, d, txt, jd.DefaultOptions)
			if !damaged && s.p(.5) {
				txt = doc.Render(s.Gen.ws)
			}
		}
	}
}

// multi is a history: several variables and decoders, reused in any order.
func multi(s *Sess) {
	s.reset()
	im2 := s.im
	ims := []*Impl{s.im}
	if s.p(.6) {
		im2 = s.cal[s.Intn(len(s.cal))]
		ims = append(ims, im2)
	}
	tks := []*Toks{newToks(s.Gen), newToks(s.Gen)}
	type dk struct {
		im *Impl
		d  *Dec
	}
	var decs []dk
	for _, im := range ims {
		for i := 1 + s.Intn(2); i > 0; i-- {
			d := s.decoder(im, s.kind(im), tks[s.Intn(1+s.Intn(2))])
			if d == nil {
				return
			}
			decs = append(decs, dk{im, d})
		}
	}
	newVar := func(im *Impl) int {
		v := s.newVar(im, s.p(s.W.Prior))
		s.vars = append(s.vars, v)
		val, _ := s.mem.snapshot(v.dst.Elem())
		s.emit(`{"e":"var","v":%d,"t":%d,"post":%s}`, len(s.vars), s.hdr.Type(im.T), val)
		return len(s.vars)
	}
	snap := func(n int) {
		v := s.vars[n-1]
		val, bad := s.mem.snapshot(v.dst.Elem())
		if !v.intact() || !s.pr.intact() {
			bad = "memory outside of the destination modified"
		}
		s.emit(`{"e":"snap","v":%d,"post":%s,"bad":%s}`, n, val, jq(bad))
	}
	var last *dk
	for n := s.W.Ops/2 + s.Intn(s.W.Ops); n > 0; n-- {
		k := &decs[s.Intn(len(decs))]
		if last != nil && s.p(.4) {
			k = last
		}
		last = k
		switch x := s.Float64(); {
		case x < .04: // nil destination
			s.nilDest(k.im, k.d)
			continue
		case x < .08:
			d := s.decoder(k.im, k.d.Kind, tks[s.Intn(2)])
			if d == nil {
				return
			}
			k.d = d
			continue
		case x < .16 && len(s.vars) > 0: // overwrite input buffers
			v := s.vars[s.Intn(len(s.vars))]
			for _, b := range v.bufs {
				for i := range b {
					b[i] = byte('a' + s.Intn(26))
				}
			}
			v.bufs = nil
			if s.gcOn {
				runtime.GC()
			}
			for i := range s.vars {
				snap(i + 1)
			}
			continue
		}
		num := 0
		if s.p(.55) {
			for i, v := range s.vars {
				if v.im == k.im && s.p(.7) {
					num = i + 1
				}
			}
		}
		if num == 0 {
			num = newVar(k.im)
		}
		via := "D" + string(k.d.Kind)
		o := s.opts()
		if s.p(.1) {
			via, o = "U"+string(k.d.Kind), jd.DefaultOptions
		}
		save := s.P
		if s.p(.25) { // provoke an error in the middle of the document
			s.P.Wrong = .15
		}
		txt := s.text(k.im)
		s.P = save
		if s.p(.12) {
			txt = s.mutateText(txt)
		}
		if s.call(num, s.vars[num-1], via, k.d, txt, o) == "panic" {
			return
		}
		if s.p(.3) {
			snap(1 + s.Intn(len(s.vars)))
		}
	}
	for _, v := range s.vars {
		for _, b := range v.bufs {
			for i := range b {
				b[i] = '#'
			}
		}
	}
	for i := range s.vars {
		snap(i + 1)
	}
}

func (s *Sess) nilDest(im *Impl, d *Dec) {
	s.calls++
	dst := reflect.Zero(reflect.PointerTo(im.T))
	txt := s.text(im)
	via := "D" + string(d.Kind)
	if s.p(.3) {
		via = "U" + string(d.Kind)
	}
	var out outcome
	switch via {
	case "DS":
		out = d.S(txt, dst, jd.DefaultOptions)
	case "DB":
		out = d.B([]byte(txt), dst, jd.DefaultOptions)
	case "US":
		out = im.unmS(txt, dst)
	case "UB":
		out = im.unmB([]byte(txt), dst)
	}
	s.emit(`{"e":"nil","via":"%s","ok":%v,"cls":"%s","ix":%d,"bad":%s}`, via, out.err == nil, class(out.err), out.idx, jq(out.panic))
}

func jq(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (s *Sess) line() string {
	return fmt.Sprintf(`{"n":%d,"name":%s,"ev":[%s]}`, s.idx, jq(s.im.Name), strings.Join(s.evs, ","))
}
