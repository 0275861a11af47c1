package core

import (
	jd "github.com/romshark/jscan-experimental-decoder"
)

// Types the decoders of which are made for newCost.
type (
	chain[T any] struct{ A *T }
	fork[T any]  struct{ A, B *T }

	chain4  = chain[chain[chain[chain[int]]]]
	chain16 = chain[chain[chain[chain[chain[chain[chain[chain[chain[chain[chain[chain[chain4]]]]]]]]]]]]
	fork4   = fork[fork[fork[fork[int]]]]
	fork12  = fork[fork[fork[fork[fork[fork[fork[fork[fork4]]]]]]]]

	wide8 struct {
		F0 int
		F1 int
		F2 int
		F3 int
		F4 int
		F5 int
		F6 int
		F7 int
	}
	wide80 struct {
		F0  int
		F1  int
		F2  int
		F3  int
		F4  int
		F5  int
		F6  int
		F7  int
		F8  int
		F9  int
		F10 int
		F11 int
		F12 int
		F13 int
		F14 int
		F15 int
		F16 int
		F17 int
		F18 int
		F19 int
		F20 int
		F21 int
		F22 int
		F23 int
		F24 int
		F25 int
		F26 int
		F27 int
		F28 int
		F29 int
		F30 int
		F31 int
		F32 int
		F33 int
		F34 int
		F35 int
		F36 int
		F37 int
		F38 int
		F39 int
		F40 int
		F41 int
		F42 int
		F43 int
		F44 int
		F45 int
		F46 int
		F47 int
		F48 int
		F49 int
		F50 int
		F51 int
		F52 int
		F53 int
		F54 int
		F55 int
		F56 int
		F57 int
		F58 int
		F59 int
		F60 int
		F61 int
		F62 int
		F63 int
		F64 int
		F65 int
		F66 int
		F67 int
		F68 int
		F69 int
		F70 int
		F71 int
		F72 int
		F73 int
		F74 int
		F75 int
		F76 int
		F77 int
		F78 int
		F79 int
	}

	point struct {
		X, Y []int
		Z    map[string]*bool
	}
	wideP8 struct {
		F0 *point
		F1 *point
		F2 *point
		F3 *point
		F4 *point
		F5 *point
		F6 *point
		F7 *point
	}
	wideP80 struct {
		F0  *point
		F1  *point
		F2  *point
		F3  *point
		F4  *point
		F5  *point
		F6  *point
		F7  *point
		F8  *point
		F9  *point
		F10 *point
		F11 *point
		F12 *point
		F13 *point
		F14 *point
		F15 *point
		F16 *point
		F17 *point
		F18 *point
		F19 *point
		F20 *point
		F21 *point
		F22 *point
		F23 *point
		F24 *point
		F25 *point
		F26 *point
		F27 *point
		F28 *point
		F29 *point
		F30 *point
		F31 *point
		F32 *point
		F33 *point
		F34 *point
		F35 *point
		F36 *point
		F37 *point
		F38 *point
		F39 *point
		F40 *point
		F41 *point
		F42 *point
		F43 *point
		F44 *point
		F45 *point
		F46 *point
		F47 *point
		F48 *point
		F49 *point
		F50 *point
		F51 *point
		F52 *point
		F53 *point
		F54 *point
		F55 *point
		F56 *point
		F57 *point
		F58 *point
		F59 *point
		F60 *point
		F61 *point
		F62 *point
		F63 *point
		F64 *point
		F65 *point
		F66 *point
		F67 *point
		F68 *point
		F69 *point
		F70 *point
		F71 *point
		F72 *point
		F73 *point
		F74 *point
		F75 *point
		F76 *point
		F77 *point
		F78 *point
		F79 *point
	}
	mut2_0 struct {
		F0 *mut2_0
		F1 *mut2_1
	}
	mut2_1 struct {
		F0 *mut2_0
		F1 *mut2_1
	}
	mut7_0 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_1 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_2 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_3 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_4 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_5 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	mut7_6 struct {
		F0 *mut7_0
		F1 *mut7_1
		F2 *mut7_2
		F3 *mut7_3
		F4 *mut7_4
		F5 *mut7_5
		F6 *mut7_6
	}
	ring2_0 struct {
		A []ring2_1
		B int
	}
	ring2_1 struct {
		A []ring2_0
		B int
	}
	ring12_0 struct {
		A []ring12_1
		B int
	}
	ring12_1 struct {
		A []ring12_2
		B int
	}
	ring12_2 struct {
		A []ring12_3
		B int
	}
	ring12_3 struct {
		A []ring12_4
		B int
	}
	ring12_4 struct {
		A []ring12_5
		B int
	}
	ring12_5 struct {
		A []ring12_6
		B int
	}
	ring12_6 struct {
		A []ring12_7
		B int
	}
	ring12_7 struct {
		A []ring12_8
		B int
	}
	ring12_8 struct {
		A []ring12_9
		B int
	}
	ring12_9 struct {
		A []ring12_10
		B int
	}
	ring12_10 struct {
		A []ring12_11
		B int
	}
	ring12_11 struct {
		A []ring12_0
		B int
	}
)

func newDecoder[T any](s *Sess) func() {
	return func() {
		_, err := jd.NewDecoder[string, T](newToks(s.Gen).S, jd.DefaultInitOptions)
		must(err)
	}
}

// newCost makes decoders of a small type and a large one of the same shape.
func newCost(s *Sess) {
	for _, f := range []struct {
		name         string
		n1, n2       int // the fields of all structs
		small, large func()
	}{
		{"chain of pointers", 4, 16, newDecoder[chain4](s), newDecoder[chain16](s)},
		{"wide struct", 8, 80, newDecoder[wide8](s), newDecoder[wide80](s)},
		{"pointers to one struct", 11, 83, newDecoder[wideP8](s), newDecoder[wideP80](s)},
		{"ring of structs", 4, 24, newDecoder[ring2_0](s), newDecoder[ring12_0](s)},
		{"structs with two pointers to the next", 8, 24, newDecoder[fork4](s), newDecoder[fork12](s)},
		{"structs with pointers to each other", 4, 49, newDecoder[mut2_0](s), newDecoder[mut7_0](s)},
	} {
		least := func(f func()) (us, kb int64) {
			us, kb = measure(f)
			for i := 0; i < 3; i++ {
				u, k := measure(f)
				us, kb = min(us, u), min(kb, k)
			}
			return us, kb
		}
		t1, a1 := least(f.small)
		t2, a2 := least(f.large)
		s.emit(`{"e":"cost","via":"%s","c1":"ok","c2":"ok","n1":%d,"n2":%d,"t1":%d,"t2":%d,"a1":%d,"a2":%d}`,
			f.name, f.n1, f.n2, t1, t2, a1, a2)
	}
	s.im = &Impl{Name: "types of NewDecoder"}
}
