package core

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"reflect"
	"strconv"

	jd "github.com/romshark/jscan-experimental-decoder"
)

var (
	tpNumber = reflect.TypeOf(jd.Number(""))
	tpJU     = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	tpTU     = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

// classOf returns "ju" or "tu" for types that unmarshal themselves, "num" for Number
// and "" for all others.
func classOf(t reflect.Type) string {
	if t == tpNumber {
		return "num"
	}
	if t.Kind() == reflect.Pointer || t.Kind() == reflect.Interface {
		return ""
	}
	pt := reflect.PointerTo(t)
	if pt.Implements(tpJU) {
		return "ju"
	}
	if pt.Implements(tpTU) {
		return "tu"
	}
	return ""
}

// hookOf names the behaviour of the unmarshaler methods in spec/Decode.tla.
func hookOf(t reflect.Type, asKey bool) string {
	switch t {
	case reflect.TypeOf(JU{}), reflect.TypeOf(TU{}), reflect.TypeOf(JSL{}), reflect.TypeOf(TSL{}):
		return "log"
	case reflect.TypeOf(JUS("")):
		return "cat"
	case reflect.TypeOf(JTU("")):
		if asKey {
			return "wrap"
		}
		return "cat"
	case reflect.TypeOf(TUK{}), reflect.TypeOf(TUS("")):
		return "wrap"
	case reflect.TypeOf(TUI(0)), reflect.TypeOf(JUI(0)), reflect.TypeOf(JF(0)), reflect.TypeOf(JMP{}),
		reflect.TypeOf(TMP{}), reflect.TypeOf(TF(0)):
		return "len"
	case reflect.TypeOf(TU8(0)):
		return "len8"
	case reflect.TypeOf(JVM{}):
		return "vlen"
	case reflect.TypeOf(JB(false)), reflect.TypeOf(TB(false)):
		return "flip"
	case reflect.TypeOf(JAR{}), reflect.TypeOf(TAR{}):
		return "shift"
	case reflect.TypeOf(ZJ{}), reflect.TypeOf(ZT{}), reflect.TypeOf(ZA{}), reflect.TypeOf(Pad{}):
		return "unit"
	case reflect.TypeOf(JN{}):
		return "nest"
	}
	panic("unknown unmarshaler " + t.String())
}

// unmarshalerVal is the canonical form of the value of an unmarshaler other than JN.
func unmarshalerVal(v reflect.Value) (key string, list []string, text string) {
	switch v.Kind() {
	case reflect.String:
		return "s", nil, v.String()
	case reflect.Int, reflect.Int16:
		return "i", nil, strconv.FormatInt(v.Int(), 10)
	case reflect.Uint8:
		return "i", nil, strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return "i", nil, strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Bool:
		return "b", nil, strconv.FormatBool(v.Bool())
	case reflect.Map: // represented by one of its values, so that nil maps are the same as empty ones
		n := int64(0)
		for it := v.MapRange(); it.Next(); {
			n = it.Value().Int()
		}
		return "i", nil, strconv.FormatInt(n, 10)
	case reflect.Slice, reflect.Array:
		if v.Type().Size() == 0 {
			return "u", nil, ""
		}
		if v.Type() == reflect.TypeOf(Pad{}) {
			if !v.IsZero() {
				list = append(list, "not zero")
			}
			return "u", list, ""
		}
		for i := 0; i < v.Len(); i++ {
			list = append(list, v.Index(i).String())
		}
		return "u", list, ""
	}
	if v.NumField() == 0 {
		return "u", nil, ""
	}
	return unmarshalerVal(v.Field(0))
}

var errHook = errors.New("unmarshaler refused")

const hookPanic = "unmarshaler panicked"

// hookLog is told of every call of an unmarshaler method, if there is one.
var hookLog func(method byte, payload string)

// refuse decides whether the payload is refused, and panics for some.
func refuse(method byte, b []byte) error {
	if hookLog != nil {
		hookLog(method, string(b))
	}
	n := 3 * len(b)
	for _, c := range b {
		n += int(c)
	}
	switch {
	case n%61 == 7 || string(b) == "13" || string(b) == "zz":
		return errHook
	case n%199 == 31:
		panic(hookPanic)
	}
	return nil
}

// scribble overwrites payloads that begin with scrib. Payloads belong to the unmarshaler
// when the input is a string.
func scribble(b []byte) {
	if bytes.HasPrefix(bytes.TrimLeft(b, "\"[{ "), []byte("scrib")) {
		for i := range b {
			b[i] = '*'
		}
	}
}

// JU records every UnmarshalJSON payload.
type JU struct{ Log []string }

func (j *JU) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	j.Log = append(j.Log, string(b))
	return nil
}

// JUS is a string-kinded json.Unmarshaler.
type JUS string

func (j *JUS) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*j += JUS("<" + string(b) + ">")
	return nil
}

// JUI is an int-kinded json.Unmarshaler.
type JUI int16

func (j *JUI) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*j = JUI(len(b))
	return nil
}

// JTU implements both, encoding/json.Unmarshaler takes precedence except in map keys.
type JTU string

func (j *JTU) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*j += JTU("<" + string(b) + ">")
	return nil
}

func (j *JTU) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*j = JTU("<" + string(b) + ">")
	return nil
}

// TU records every UnmarshalText payload.
type TU struct{ Log []string }

func (u *TU) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	u.Log = append(u.Log, string(b))
	return nil
}

// TUK is a comparable text unmarshaler usable as a map key.
type TUK struct{ S string }

func (u *TUK) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	u.S = "<" + string(b) + ">"
	return nil
}

// TUS is a string-kinded text unmarshaler.
type TUS string

func (u *TUS) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*u = TUS("<" + string(b) + ">")
	return nil
}

// TUI is an int-kinded text unmarshaler.
type TUI int

func (u *TUI) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*u = TUI(len(b))
	return nil
}

// JSL is a slice-kinded json.Unmarshaler.
type JSL []string

func (x *JSL) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = append(*x, string(b))
	return nil
}

// TSL is a slice-kinded text unmarshaler, such as net.IP.
type TSL []string

func (x *TSL) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = append(*x, string(b))
	return nil
}

// JMP is a map-kinded json.Unmarshaler.
type JMP map[string]int

func (x *JMP) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = JMP{"n": len(b)}
	return nil
}

// TMP is a map-kinded text unmarshaler.
type TMP map[string]int

func (x *TMP) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = TMP{"n": len(b)}
	return nil
}

// JF is a float-kinded json.Unmarshaler.
type JF float64

func (x *JF) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = JF(len(b))
	return nil
}

// TF is a float-kinded text unmarshaler.
type TF float32

func (x *TF) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = TF(len(b))
	return nil
}

// TU8 is an uint-kinded text unmarshaler.
type TU8 uint8

func (x *TU8) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = TU8(len(b) % 256)
	return nil
}

// JB is a bool-kinded json.Unmarshaler.
type JB bool

func (x *JB) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = !*x
	return nil
}

// TB is a bool-kinded text unmarshaler.
type TB bool

func (x *TB) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = !*x
	return nil
}

// JAR is an array-kinded json.Unmarshaler.
type JAR [2]string

func (x *JAR) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	x[0], x[1] = x[1], string(b)
	return nil
}

// TAR is an array-kinded text unmarshaler.
type TAR [2]string

func (x *TAR) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	x[0], x[1] = x[1], string(b)
	return nil
}

// ZJ is a json.Unmarshaler without size. Its method panics if x is nil.
type ZJ struct{}

func (x *ZJ) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = ZJ{}
	return nil
}

// ZT is a text unmarshaler without size.
type ZT struct{}

func (x *ZT) UnmarshalText(b []byte) error {
	if err := refuse('T', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = ZT{}
	return nil
}

// ZA is a json.Unmarshaler without size.
type ZA [0]int

func (x *ZA) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	*x = ZA{}
	return nil
}

// JVM is a map with a method on values.
type JVM map[string]int

func (x JVM) UnmarshalJSON(b []byte) error {
	if err := refuse('J', b); err != nil {
		return err
	}
	defer scribble(b)
	if x != nil {
		clear(x)
		x["n"] = len(b)
	}
	return nil
}

// JN decodes its payload with a decoder of its own.
type JN struct{ V Inner }

// Inner is what a JN holds.
type Inner struct {
	A int8
	B []*JN
	C any
	D string
	E map[string]JN
}

func (x *JN) UnmarshalJSON(b []byte) error {
	if hookLog != nil {
		hookLog('J', string(b))
	}
	return jd.Unmarshal(b, &x.V)
}

// Large recursive types.
type (
	RHuge struct {
		N int
		A [66000]uint8
		R *RHuge
		B string
	}
	RHugeP struct {
		N int8
		C [66000]*RHugeP
		M int8
	}
)
