package core

import (
	"reflect"
	"strings"
)

// Workload describes how the sessions of a property's check are made.
type Workload struct {
	Prop   string
	Fams   string // families of types
	Also   string // families that fewer sessions are made for
	P      Profile
	Prior  float64 // probability that a variable has a value already
	Slack  float64 // probability of spare capacity in prior slices
	NilP   float64
	Opts   float64 // probability of decode options other than the default
	Mutate float64 // probability of damaging the text
	Batch  int     // calls per session
	Ops    int     // operations per history
	Modes  []mode
	Text   func(s *Sess, im *Impl) string
	GC     bool
	Conc   bool
	Big    int  // one session in this many decodes large documents
	Huge   bool // some of them into variables of large types
	Frame  bool // record what failing calls leave behind
	Hooks  bool // record the calls of unmarshaler methods
	Share  bool // note which strings refer to the text
}

func contains(list, x string) bool { return strings.Contains(" "+list+" ", " "+x+" ") }

func (w *Workload) main(im *Impl) bool { return contains(w.Fams, im.Fam) }

// types are the types of the workload, those of the main families first.
func (w *Workload) types() (cat []*Impl) {
	for _, im := range catalogue {
		if w.main(im) {
			cat = append(cat, im)
		}
	}
	for _, im := range catalogue {
		if !w.main(im) && contains(w.Also, im.Fam) {
			cat = append(cat, im)
		}
	}
	return cat
}

type mode struct {
	w int
	f func(*Sess)
}

func (w *Workload) run(s *Sess) {
	n := 0
	for _, m := range w.Modes {
		n += m.w
	}
	x := s.Intn(n)
	for _, m := range w.Modes {
		if x -= m.w; x < 0 {
			m.f(s)
			return
		}
	}
}

const allFams = "scal int flt str seq map ptr unm tag any fld mix rec rnd"

var singles = []mode{{1, single}}

func prof(f func(p *Profile)) Profile {
	p := DefaultProfile()
	f(&p)
	return p
}

// scenarios chooses one of several ways to make texts.
func scenarios(fs ...func(s *Sess, im *Impl) string) func(*Sess, *Impl) string {
	return func(s *Sess, im *Impl) string { return fs[s.Intn(len(fs))](s, im) }
}

func docText(s *Sess, im *Impl) string {
	return s.doc(im.T).Render(s.Gen.ws)
}

// wide documents have many elements.
func wideText(s *Sess, im *Impl) string {
	save := s.P
	s.P.MaxElems, s.P.MaxDepth, s.P.MaxNodes = 3+s.Intn(30), 3, 120
	txt := docText(s, im)
	s.P = save
	if len(txt) > 1500 {
		return docText(s, im)
	}
	return txt
}

// deepText nests values deeply.
func deepText(s *Sess, im *Impl) string {
	save := s.P
	s.P.MaxElems, s.P.MaxDepth, s.P.Null, s.P.MaxNodes = 1, 40, .01, 150
	txt := docText(s, im)
	s.P = save
	if len(txt) > 3000 {
		return docText(s, im)
	}
	return txt
}

// malformed documents.
func malformedText(s *Sess, im *Impl) string {
	txt := docText(s, im)
	switch s.Intn(10) {
	case 0: // truncated
		return txt[:s.Intn(len(txt)+1)]
	case 1: // trailing data
		return txt + s.pick(",", "}", "]", "1", "\"", "null", " x", "{}", ":", "\x00", "//", " []", "\"\"", ".")
	case 2: // leading data
		return s.pick(",", "}", "]", ":", "\xef\xbb\xbf", "\x00", "+", "//\n", "'", "1 ") + txt
	case 3:
		return s.pick("", " ", "\n\t", "-", "+1", "01", "1.", ".1", "1e", "1e+", "-a", "00", "0x1", "NaN", "Infinity", "tru", "nul", "falsee", "True",
			"'a'", "\"", "\"a", "\"\\", "\"\\\"", "\"\\x\"", "\"\\u12\"", "\"\\u12g4\"", "\"\n\"", "\"\t\"", "[", "[,", "[1,", "[1,]", "[,1]", "[1 2]", "{", "{\"", "{\"a\"", "{\"a\":", "{\"a\":1",
			"{\"a\":1,", "{\"a\":1,}", "{,}", "{a:1}", "{1:1}", "{\"a\" 1}", "{\"a\"::1}", "{\"a\":1 \"b\":2}", "[}", "{]", "[[]", "{}}", "[1}", "{\"a\":1]", "-01", "1.e1", "1e1.5", "--1", "1-", "\v1", "\f1", "1\u00a0", "[1,,2]", "{\"a\":,}", "{\"a\"}", "\x7f", "\"\x01\"", "{null:1}", "{true:1}", "[true false]", "[\"a\" \"b\"]", "1 1", "{}{}", "[][]", "\"a\"\"b\"", "nullnull", "1,2", "\u2028 1")
	case 4: // a number, literal or string is damaged
		rep := [][2]string{{"true", "tru"}, {"null", "nul"}, {"false", "False"}, {"0", "00"}, {"1", "1."}, {"2", "2e"}, {"-", "--"}, {":", ""}, {",", ",,"}, {"\"", "'"}, {"[", "[,"}, {"]", ",]"}, {"}", ",}"}, {"{", "{,"}, {":", "::"}, {",", " "}, {"e", "ee"}, {"\"", "\"\x01"}, {"\\u", "\\U"}, {"\\u", "\\u0"}, {"\\", "\\\\\\"}}
		for try := 0; try < 10; try++ {
			r := rep[s.Intn(len(rep))]
			if n := strings.Count(txt, r[0]); n > 0 {
				at, i := s.Intn(n), 0
				for ; at >= 0; at-- {
					j := strings.Index(txt[i:], r[0])
					if at == 0 {
						return txt[:i+j] + r[1] + txt[i+j+len(r[0]):]
					}
					i += j + len(r[0])
				}
			}
		}
	}
	return s.mutateText(txt)
}

func workloads() []*Workload {
	D := DefaultProfile()
	ws := []*Workload{
		{Prop: "C01", Big: 20, Huge: true, Fams: allFams, Prior: .15, P: prof(func(p *Profile) { p.Wrong = .004; p.BadStr = .03 }),
			Text: scenarios(docText, docText, docText, wideText, deepText)},
		{Prop: "C02", Big: 20, Huge: true, Fams: allFams, Prior: .1, Opts: .2, Mutate: .15,
			P: prof(func(p *Profile) { p.Wrong = .05; p.BadStr = .25; p.WrongNum = .05; p.Bound = .1 })},
		{Prop: "C03", Big: 20, Fams: allFams, Prior: .15, Opts: .3,
			P: prof(func(p *Profile) {
				p.Wrong = .08
				p.BadStr = .3
				p.WS = .3
				p.Bound = .15
				p.WrongNum = .05
				p.Unknown = .2
			})},
		{Prop: "C04", Big: 20, Fams: "int scal", Also: "str map ptr tag mix rec seq any", Prior: .1, P: prof(func(p *Profile) {
			p.Bound = .75
			p.WrongNum = .1
			p.MaxElems = 3
			p.Wrong = .01
			p.BadStr = .2
			p.Escape = .5
		})},
		{Prop: "C05", Big: 20, Fams: "flt scal", Also: "any map ptr tag mix seq", Prior: .1, P: prof(func(p *Profile) { p.Hard = .6; p.Extreme = .5; p.MaxElems = 3; p.Wrong = .01 }),
			Modes: []mode{{30, single}, {1, numbers}}},
		{Prop: "C06", Big: 20, Fams: "str scal", Also: "map any unm mix ptr seq tag", Prior: .1, Opts: .1, P: prof(func(p *Profile) { p.Escape = .6; p.LongStr = .2; p.EscKey = .3; p.Null = .02; p.Wrong = .005 })},
		{Prop: "C07", Big: 20, Fams: "fld rnd", Also: "mix rec tag unm ptr", Prior: .2, Opts: .35, P: prof(func(p *Profile) {
			p.Fold = .35
			p.EscKey = .25
			p.Near = .25
			p.Unknown = .2
			p.Wrong = .003
			p.Dup = .15
		})},
		{Prop: "C08", Fams: allFams, Prior: .95, Slack: .6, NilP: .2, Frame: true, P: prof(func(p *Profile) { p.Wrong = .02; p.Null = .12; p.Dup = .15; p.BadStr = .02 }),
			Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C09", Big: 20, Huge: true, Fams: "rec rnd", Prior: .4, Slack: .4, NilP: .3, P: prof(func(p *Profile) { p.Wrong = .006; p.MaxDepth = 9; p.MaxElems = 3; p.Unknown = .08 }),
			Text: scenarios(docText, docText, deepText), Modes: []mode{{3, single}, {1, multi}}},
		{Prop: "C10", Fams: allFams, Prior: .3, Slack: .3, NilP: .3, Opts: .2, P: D, Modes: []mode{{1, multi}}, Ops: 16},
		{Prop: "C11", Fams: "str any map seq ptr unm rec mix", Also: "tag fld", Prior: .3, Slack: .3, NilP: .3, P: prof(func(p *Profile) { p.Wrong = .01; p.LongStr = .15; p.Escape = .2 }), Modes: []mode{{1, multi}}, Ops: 12},
		{Prop: "C12", Big: 20, Fams: allFams, Prior: .5, P: D, Text: scenarios(malformedText, malformedText, malformedText, docText), Modes: []mode{{5, single}, {1, multi}}},
		{Prop: "C13", Fams: allFams, Prior: .7, Slack: .7, NilP: .2, Opts: .2, Mutate: .1, GC: true, P: prof(func(p *Profile) { p.Wrong = .02; p.BadStr = .2 }),
			Text: scenarios(docText, docText, wideText, deepText, malformedText), Modes: []mode{{180, single}, {120, multi}, {1, deep}}},
		{Prop: "C14", Fams: allFams, Prior: .4, Slack: .3, NilP: .3, P: prof(func(p *Profile) { p.WS = .35; p.Wrong = .02; p.LongStr = .1 }), Modes: []mode{{1, equiv}}},
		{Prop: "C15", Big: 20, Fams: "unm", Also: "map seq ptr mix rec rnd", Hooks: true, Prior: .5, Slack: .4, NilP: .3, Opts: .1, P: prof(func(p *Profile) { p.WS = .3; p.Null = .1; p.Wrong = .03 }), Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C16", Big: 20, Fams: "map", Also: "mix rec unm ptr any rnd seq", Prior: .5, Slack: .3, NilP: .3, P: prof(func(p *Profile) { p.Dup = .25; p.BadStr = .12; p.EscKey = .3; p.Bound = .2; p.Wrong = .005 }), Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C17", Big: 20, Fams: "tag", Also: "fld mix unm rnd", Prior: .5, Slack: .3, NilP: .3, P: prof(func(p *Profile) {
			p.BadStr = .2
			p.Bound = .15
			p.Hard = .15
			p.Escape = .3
			p.Wrong = .01
			p.EscKey = .02
			p.Unknown = .05
		}), Modes: []mode{{6, single}, {1, multi}}},
		{Prop: "C18", Big: 20, Fams: "any", Also: "mix rec map seq ptr rnd", Prior: .4, Slack: .3, NilP: .3, P: prof(func(p *Profile) { p.MaxDepth = 8; p.Extreme = .1; p.Dup = .2; p.Hard = .1 }),
			Text: scenarios(docText, docText, deepText, wideText), Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C19", Big: 20, Fams: "fld mix rec tag rnd", Also: "seq map ptr unm any", Prior: .3, Opts: .75, P: prof(func(p *Profile) {
			p.Unknown = .4
			p.Near = .2
			p.EscKey = .25
			p.Fold = .2
			p.Wrong = .004
			p.BadStr = .02
		})},
		{Prop: "C20", Fams: allFams, Prior: .4, Slack: .4, NilP: .3, Opts: .1, Mutate: .05, Conc: true, P: prof(func(p *Profile) { p.Wrong = .01; p.EscKey = .15; p.Fold = .1; p.Escape = .2 }), Modes: []mode{{2, single}, {2, multi}}},
		{Prop: "C21", Fams: "bad " + allFams, P: D, Modes: []mode{{1, support}}},
		{Prop: "C22", Fams: "ptr rec seq map mix any unm", Also: "tag fld str", Prior: .8, NilP: .1, P: prof(func(p *Profile) { p.Wrong = .02 }), Modes: []mode{{1, retain}}},
		{Prop: "C23", Big: 20, Huge: true, Fams: "seq", Also: "mix rec ptr map any unm tag rnd", Prior: .7, Slack: .7, NilP: .2, P: prof(func(p *Profile) { p.Null = .1; p.MaxElems = 5; p.Wrong = .006 }), Text: scenarios(docText, docText, docText, wideText), Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C24", Big: 20, Huge: true, Fams: "ptr scal", Also: "seq map any mix rec unm tag rnd fld", Prior: .7, Slack: .5, NilP: .35, P: prof(func(p *Profile) { p.Null = .25; p.Wrong = .006 }), Modes: []mode{{4, single}, {1, multi}}},
		{Prop: "C25", Big: 20, Fams: "str any map seq ptr scal tag", Also: "rec mix fld rnd unm", Prior: .4, Slack: .4, NilP: .3, Opts: .1, Share: true, P: prof(func(p *Profile) { p.LongStr = .15; p.Escape = .12; p.Wrong = .004; p.Null = .04 }),
			Text: scenarios(docText, docText, wideText, deepText)},
		{Prop: "C26", Fams: allFams, Prior: .95, Slack: .4, NilP: .15, Opts: .3, Frame: true, Hooks: true, P: prof(func(p *Profile) {
			p.Wrong = .07
			p.BadStr = .25
			p.WrongNum = .05
			p.Unknown = .1
			p.Null = .08
		}),
			Text: scenarios(docText, docText, docText, wideText), Modes: []mode{{5, single}, {1, multi}}},
		{Prop: "C27", Fams: allFams, P: prof(func(p *Profile) { p.Wrong = .01; p.LongStr = .1; p.Unknown = .2; p.Dup = .1; p.MaxNodes = 12 }), Modes: []mode{{100, cost}, {1, newCost}}},
	}
	for _, w := range ws {
		if w.Modes == nil {
			w.Modes = singles
		}
		if w.Big > 0 {
			n := 0
			for _, m := range w.Modes {
				n += m.w
			}
			modes := []mode{{n, large}}
			for _, m := range w.Modes {
				modes = append(modes, mode{m.w * w.Big, m.f})
			}
			w.Modes = modes
		}
		if w.Batch == 0 {
			w.Batch = 12
		}
		if w.Ops == 0 {
			w.Ops = 8
		}
		if w.NilP == 0 {
			w.NilP = .3
		}
	}
	return ws
}

var _ = reflect.TypeOf
