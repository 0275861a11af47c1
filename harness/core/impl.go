package core

import (
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"strconv"

	jd "github.com/romshark/jscan-experimental-decoder"
	"github.com/romshark/jscan/v2"
)

type outcome struct {
	idx   int
	err   error
	panic string
}

var errHookPanic = errors.New(hookPanic)

// class names the kind of an error.
func class(err error) string {
	var je jscan.Error[string]
	var jb jscan.Error[[]byte]
	var ne *strconv.NumError
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, jd.ErrUnexpectedValue):
		return "unexpected"
	case errors.Is(err, jd.ErrUnknownField):
		return "unknown"
	case errors.Is(err, jd.ErrIntegerOverflow):
		return "overflow"
	case errors.Is(err, jd.ErrNilDest):
		return "nil"
	case errors.Is(err, jd.ErrStringTagOptionOnUnsupportedType):
		return "stringtag"
	case err == errHookPanic:
		return "hookpanic"
	case errors.Is(err, errHook):
		return "hook"
	case errors.As(err, &je), errors.As(err, &jb):
		return "syntax"
	case errors.As(err, &ne):
		return "num"
	}
	return "other"
}

func guard(f func() (int, error)) (o outcome) {
	defer func() {
		if r := recover(); r == hookPanic {
			o.err = errHookPanic
		} else if r != nil {
			o.panic = fmt.Sprint(r)
			if len(o.panic) > 300 {
				o.panic = o.panic[:300]
			}
		}
	}()
	o.idx, o.err = f()
	return
}

// Toks is a pair of tokenizers that decoders may share.
type Toks struct {
	S *jscan.Tokenizer[string]
	B *jscan.Tokenizer[[]byte]
}

func newToks(g *Gen) *Toks {
	stack, buf := 1+g.Intn(40), 1+g.Intn(200)
	return &Toks{jscan.NewTokenizer[string](stack, buf), jscan.NewTokenizer[[]byte](stack, buf)}
}

// Dec is a decoder for either kind of input.
type Dec struct {
	Kind byte // S or B
	S    func(s string, dst reflect.Value, o *jd.DecodeOptions) outcome
	B    func(s []byte, dst reflect.Value, o *jd.DecodeOptions) outcome
	keep any
}

// Impl is a catalogue entry: a type with everything that needs its static type.
type Impl struct {
	Name  string
	Fam   string
	T     reflect.Type
	Kinds string // kinds of input: S for string, B for []byte
	newS  func(tk *Toks, o *jd.InitOptions) (*Dec, outcome)
	newB  func(tk *Toks, o *jd.InitOptions) (*Dec, outcome)
	unmS  func(s string, dst reflect.Value) outcome
	unmB  func(s []byte, dst reflect.Value) outcome
	// Var allocates a variable surrounded by guard words.
	Var func() (dst reflect.Value, intact func() bool)
}

type guarded[T any] struct {
	A [6]uint64
	V T
	B [6]uint64
}

const guardWord = 0xa5c3_5a3c_9966_0ff1

var catalogue []*Impl

// Reg adds a type for both kinds of input, RegS and RegB for one only. Every kind
// costs an instantiation of the decoder.
func Reg[T any](fam, name string) {
	im := add[T](fam, name)
	forString[T](im)
	forBytes[T](im)
}

// RegS adds a type for string inputs.
func RegS[T any](fam, name string) { forString[T](add[T](fam, name)) }

// RegB adds a type for []byte inputs.
func RegB[T any](fam, name string) { forBytes[T](add[T](fam, name)) }

func add[T any](fam, name string) *Impl {
	im := &Impl{
		Name: name,
		Fam:  fam,
		T:    reflect.TypeOf((*T)(nil)).Elem(),
		Var: func() (reflect.Value, func() bool) {
			g := new(guarded[T])
			for i := range g.A {
				g.A[i], g.B[i] = guardWord, guardWord
			}
			return reflect.ValueOf(&g.V), func() bool {
				for i := range g.A {
					if g.A[i] != guardWord || g.B[i] != guardWord {
						return false
					}
				}
				return true
			}
		},
	}
	catalogue = append(catalogue, im)
	return im
}

func forString[T any](im *Impl) {
	im.newS = func(tk *Toks, io *jd.InitOptions) (dec *Dec, o outcome) {
		var d *jd.Decoder[string, T]
		o = guard(func() (_ int, err error) {
			d, err = jd.NewDecoder[string, T](tk.S, io)
			return 0, err
		})
		if o.err != nil || o.panic != "" {
			return nil, o
		}
		return &Dec{Kind: 'S', keep: d, S: func(s string, dst reflect.Value, o *jd.DecodeOptions) outcome {
			p := dst.Interface().(*T)
			return guard(func() (int, error) { return d.Decode(s, p, o) })
		}}, o
	}
	im.unmS = func(s string, dst reflect.Value) outcome {
		p := dst.Interface().(*T)
		return guard(func() (int, error) { return 0, jd.Unmarshal(s, p) })
	}
	im.Kinds += "S"
}

func forBytes[T any](im *Impl) {
	im.newB = func(tk *Toks, io *jd.InitOptions) (dec *Dec, o outcome) {
		var d *jd.Decoder[[]byte, T]
		o = guard(func() (_ int, err error) {
			d, err = jd.NewDecoder[[]byte, T](tk.B, io)
			return 0, err
		})
		if o.err != nil || o.panic != "" {
			return nil, o
		}
		return &Dec{Kind: 'B', keep: d, B: func(s []byte, dst reflect.Value, o *jd.DecodeOptions) outcome {
			p := dst.Interface().(*T)
			return guard(func() (int, error) { return d.Decode(s, p, o) })
		}}, o
	}
	im.unmB = func(s []byte, dst reflect.Value) outcome {
		p := dst.Interface().(*T)
		return guard(func() (int, error) { return 0, jd.Unmarshal(s, p) })
	}
	im.Kinds += "B"
}

// New creates a decoder.
func (im *Impl) New(kind byte, tk *Toks, o *jd.InitOptions) (*Dec, outcome) {
	if kind == 'S' {
		return im.newS(tk, o)
	}
	return im.newB(tk, o)
}

func init() { debug.SetMaxStack(512 << 20) }
