package core

import (
	"runtime/debug"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
)

type deepRec struct {
	A *deepRec
	B []deepRec
	C map[string]deepRec
	D [1]*deepRec
	X any
}

type deepPart struct{ A struct{} }

// nested is n times pre, bottom, n times post.
func nested(pre, bottom, post string, n int) string {
	return strings.Repeat(pre, n) + bottom + strings.Repeat(post, n)
}

func anyDepth(v any) (n int) {
	for ; ; n++ {
		switch x := v.(type) {
		case []any:
			if len(x) != 1 {
				return n
			}
			v = x[0]
		case map[string]any:
			if len(x) != 1 {
				return n
			}
			for _, e := range x {
				v = e
			}
		default:
			return n
		}
	}
}

func (r *deepRec) depth() (n int) {
	for ; ; n++ {
		switch {
		case r.A != nil:
			r = r.A
		case len(r.B) == 1:
			r = &r.B[0]
		case len(r.C) == 1:
			for _, e := range r.C {
				e := e
				r = &e
			}
		case r.D[0] != nil:
			r = r.D[0]
		default:
			return n
		}
	}
}

func deepCall[T any](s *Sess, what, pre, bottom, post string, n int, depth func(*T) int) {
	txt := nested(pre, bottom, post, n)
	if what == "cut" {
		txt = txt[:len(txt)-1]
	}
	var v T
	var out outcome
	switch s.Intn(3) {
	case 0:
		d, err := jd.NewDecoder[string, T](newToks(s.Gen).S, jd.DefaultInitOptions)
		must(err)
		out = guard(func() (int, error) { return d.Decode(txt, &v, jd.DefaultOptions) })
	case 1:
		d, err := jd.NewDecoder[[]byte, T](newToks(s.Gen).B, jd.DefaultInitOptions)
		must(err)
		out = guard(func() (int, error) { return d.Decode([]byte(txt), &v, jd.DefaultOptions) })
	default:
		out = guard(func() (int, error) { return -1, jd.Unmarshal(txt, &v) })
		if what == "misfit" {
			out.idx = n * len(pre)
		}
	}
	cls := class(out.err)
	if out.panic != "" {
		cls = "panic"
	}
	s.calls++
	s.emit(`{"e":"deep","what":"%s","n":%d,"m":%d,"cls":"%s","ix":%d,"d":%d}`, what, n, len(pre), cls, out.idx, depth(&v))
}

// deep decodes documents nested so deeply that recursion over them would take more stack than there is.
func deep(s *Sess) {
	s.reset()
	defer debug.SetMaxStack(debug.SetMaxStack(8 << 20))
	for i := 0; i < 3; i++ {
		n := 150000 + s.Intn(100000)
		dAny := func(v *any) int { return anyDepth(*v) }
		dRec := func(v *deepRec) int { return v.depth() }
		none := func(*deepPart) int { return 0 }
		what := s.pick("value", "value", "value", "skip", "cut", "misfit")
		switch what {
		case "skip":
			pre := s.pick(`[`, `{"k":`, `[0,`, `{"j":"","k":`)
			if pre[0] == '{' {
				deepCall(s, what, pre, "1", "}", n, func(*struct{}) int { return 0 })
			} else {
				deepCall(s, what, pre, "1", "]", n, func(*[0]int) int { return 0 })
			}
			continue
		case "misfit":
			deepCall(s, what, `{"A":`, "7", "}", n, dRec)
			continue
		}
		switch s.Intn(8) {
		case 0:
			deepCall(s, what, "[", s.pick("[]", "{}", "1", "null", "true"), "]", n, dAny)
		case 1:
			deepCall(s, what, `{"k":`, s.pick("[]", "{}", "1", "null", `""`), "}", n, dAny)
		case 2:
			deepCall(s, what, `{"A":`, "{}", "}", n, dRec)
		case 3:
			deepCall(s, what, `{"B":[`, "{}", "]}", n, dRec)
		case 4:
			deepCall(s, what, `{"C":{"k":`, "{}", "}}", n, dRec)
		case 5:
			deepCall(s, what, `{"D":[`, "{}", "]}", n, dRec)
		case 6:
			deepCall(s, what, "[", "{}", "]", n, func(v *[]any) int {
				return anyDepth(any(*v))
			})
		case 7:
			txt := nested("[", "1", "]", n)
			if what == "cut" {
				deepCall(s, what, `{"A":{"x":`, txt, "}}", 1, none)
			} else {
				deepCall(s, "skip", `{"x":`, txt, "}", 1, none)
			}
		}
	}
}
