package core

import (
	"math"
	"reflect"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// support constructs decoders and compares what NewDecoder and Unmarshal make of the type.
func support(s *Sess) {
	for i := 0; i < 4; i++ {
		strict := s.p(.5)
		kind := s.kind(s.im)
		d, o := s.im.New(kind, newToks(s.Gen), &jd.InitOptions{DisallowStringTagOptOnUnsupportedTypes: strict})
		s.calls++
		s.emit(`{"e":"new","t":%d,"strict":%v,"ok":%v,"cls":"%s","bad":%s}`,
			s.hdr.Type(s.im.T), strict, d != nil, class(o.err), jq(o.panic))
		if d == nil || !snapshotable(s.im.T, nil) {
			continue
		}
		s.reset()
		v := s.newVar(s.im, s.p(.3))
		s.call(0, v, "D"+string(kind), d, s.text(s.im), jd.DefaultOptions)
	}
	// Unmarshal supports the same types.
	s.reset()
	v := s.newVar(s.im, false)
	var o outcome
	if s.kind(s.im) == 'S' {
		o = s.im.unmS("null", v.dst)
	} else {
		o = s.im.unmB([]byte("null"), v.dst)
	}
	s.calls++
	s.emit(`{"e":"new","t":%d,"strict":false,"ok":%v,"cls":"%s","bad":%s}`,
		s.hdr.Type(s.im.T), o.err == nil, class(o.err), jq(o.panic))
}

// retain checks that a decoder keeps nothing of a call alive once it has returned.
func retain(s *Sess) {
	kind := s.kind(s.im)
	tk := newToks(s.Gen)
	d := s.decoder(s.im, kind, tk)
	if d == nil {
		return
	}
	for n := 0; n < 3; n++ {
		s.reset()
		var live int64
		total := 0
		done := make(chan struct{})
		save := s.P
		if s.p(.4) {
			s.P.Wrong = .2
		}
		txt := s.text(s.im)
		s.P = save
		if s.p(.1) {
			txt = s.mutateText(txt)
		}
		o := s.opts()
		cls := ""
		go func() { // on a stack of its own
			defer close(done)
			watch := func(p any) {
				total++
				atomic.AddInt64(&live, 1)
				runtime.SetFinalizer(p, nil)
				switch p := p.(type) {
				case *byte:
					runtime.SetFinalizer(p, func(*byte) { atomic.AddInt64(&live, -1) })
				default:
					t := reflect.TypeOf(p)
					f := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{t}, nil, false), func([]reflect.Value) []reflect.Value {
						atomic.AddInt64(&live, -1)
						return nil
					})
					runtime.SetFinalizer(p, f.Interface())
				}
			}
			// The variable is the first field of an allocation of its own.
			v := reflect.New(reflect.StructOf([]reflect.StructField{
				{Name: "V", Type: s.im.T},
				{Name: "P", Type: reflect.TypeOf([4]*byte{})},
			}))
			watch(v.Interface())
			dst := v.Elem().Field(0).Addr()
			if s.p(.8) {
				s.pr.fill(dst.Elem(), 4)
				watchPointees(dst.Elem(), watch, 0)
			}
			buf := make([]byte, 64+len(txt))
			copy(buf, txt)
			watch(unsafe.SliceData(buf))
			var out outcome
			switch unm := s.p(.15); {
			case unm && kind == 'S':
				out = s.im.unmS(unsafe.String(unsafe.SliceData(buf), len(txt)), dst)
			case unm:
				out = s.im.unmB(buf[:len(txt)], dst)
			case kind == 'S':
				out = d.S(unsafe.String(unsafe.SliceData(buf), len(txt)), dst, o)
			default:
				out = d.B(buf[:len(txt)], dst, o)
			}
			cls = class(out.err)
			if out.panic != "" {
				cls = "panic"
			}
		}()
		<-done
		s.calls++
		for i := 0; i < 30 && atomic.LoadInt64(&live) > 0; i++ {
			runtime.GC()
			if i > 1 {
				time.Sleep(time.Duration(i) * time.Millisecond)
			}
		}
		s.emit(`{"e":"drop","t":%d,"cls":"%s","total":%d,"live":%d,"s":%s}`,
			s.hdr.Type(s.im.T), cls, total, atomic.LoadInt64(&live), jsonBytes(txt))
		if cls == "panic" {
			return
		}
	}
	runtime.KeepAlive(d)
	runtime.KeepAlive(tk)
}

// watchPointees watches what pointers in v, a value made by Prior.fill, point to.
func watchPointees(v reflect.Value, watch func(any), depth int) {
	if depth > 6 || classOf(v.Type()) != "" {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || !v.CanInterface() {
			return
		}
		if v.Type().Elem().Size() >= 24 && hasPointers(v.Type().Elem()) && v.Type().Name() == "" {
			watch(v.Interface())
		}
		watchPointees(v.Elem(), watch, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			watchPointees(v.Field(i), watch, depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			watchPointees(v.Index(i), watch, depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			watchPointees(it.Value(), watch, depth+1)
		}
	}
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.String, reflect.Interface:
		return true
	case reflect.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// snapshotable tells whether values of type t can be recorded.
func snapshotable(t reflect.Type, seen []reflect.Type) bool {
	for _, x := range seen {
		if x == t {
			return true
		}
	}
	seen = append(seen, t)
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.Uintptr, reflect.UnsafePointer:
		return false
	case reflect.Interface:
		return t.NumMethod() == 0
	case reflect.Slice, reflect.Array, reflect.Pointer:
		return snapshotable(t.Elem(), seen)
	case reflect.Map:
		switch t.Key().Kind() {
		case reflect.Float32, reflect.Float64, reflect.Bool, reflect.Array, reflect.Pointer, reflect.Interface, reflect.Complex64:
			return false
		}
		return snapshotable(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !snapshotable(t.Field(i).Type, seen) {
				return false
			}
		}
	}
	return true
}

// numbers calls the methods of Number.
func numbers(s *Sess) {
	for i := 0; i < 3*s.W.Batch; i++ {
		s.reset()
		lit := s.numLit()
		switch s.Intn(4) {
		case 0:
			lit = s.boundInt()
		case 1:
			lit = s.hardFloat()
		}
		if !isNumLit(lit) {
			continue
		}
		s.calls++
		n := jd.Number(lit)
		f, ferr := n.Float64()
		x, xerr := n.Int64()
		s.emit(`{"e":"num","s":%s,"fl":%s,"str":%s,"fok":%v,"f":"%016x","iok":%v,"i":%s}`,
			jsonBytes(lit), floatTable(lit), jsonBytes(n.String()), ferr == nil, math.Float64bits(f), xerr == nil, jsonBytes(strconv.FormatInt(x, 10)))
	}
}
