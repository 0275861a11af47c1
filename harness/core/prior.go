package core

import (
	"math"
	"reflect"
)

// canary is memory next to a prior slice that decoding must not touch.
type canary struct {
	v    reflect.Value // one element
	want string
}

// Prior fills variables with random values.
type Prior struct {
	*Gen
	canaries []canary
	Slack    float64 // probability of spare capacity and canaries
	NilP     float64 // probability of nil pointers, slices and maps
}

func (g *Prior) text() string {
	return g.pick("", "a", "old", "é", "x1", "prior", "k1", "b", "abcdefghijklmnopqrstuvwxyz")
}

func (g *Prior) anyVal(depth int) any {
	k := g.Intn(8)
	if depth <= 0 && k >= 6 {
		k = g.Intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.p(.5)
	case 2, 3:
		return float64(g.Intn(2000)-1000) / 8
	case 4, 5:
		return g.text()
	case 6:
		a := make([]any, g.Intn(3), 4)
		for i := range a {
			a[i] = g.anyVal(depth - 1)
		}
		return a
	}
	m := map[string]any{}
	for i := g.Intn(3); i > 0; i-- {
		m[g.text()] = g.anyVal(depth - 1)
	}
	return m
}

// fill sets v, a settable zero value.
func (g *Prior) fill(v reflect.Value, depth int) {
	t := v.Type()
	switch classOf(t) {
	case "num":
		if g.p(.8) {
			v.SetString(g.pick("1", "-2.5", "1e3", "0"))
		}
		return
	case "ju", "tu":
		if t == reflect.TypeOf(JN{}) {
			g.fill(v.Field(0), depth-1)
			return
		}
		switch t.Kind() {
		case reflect.String:
			v.SetString(g.text())
		case reflect.Int, reflect.Int16:
			v.SetInt(int64(g.Intn(100)))
		case reflect.Uint8:
			v.SetUint(uint64(g.Intn(100)))
		case reflect.Float32, reflect.Float64:
			v.SetFloat(float64(g.Intn(100)))
		case reflect.Bool:
			v.SetBool(g.p(.5))
		case reflect.Map:
			if g.p(.7) {
				v.Set(reflect.MakeMap(t))
				v.SetMapIndex(reflect.ValueOf("n"), reflect.ValueOf(g.Intn(100)))
			}
		case reflect.Array:
			for i := 0; i < v.Len() && t.Elem().Kind() == reflect.String; i++ {
				v.Index(i).SetString(g.text())
			}
		case reflect.Slice:
			if g.p(.7) {
				v.Set(reflect.MakeSlice(t, 0, 3))
				for i := g.Intn(3); i > 0; i-- {
					v.Set(reflect.Append(v, reflect.ValueOf(g.text())))
				}
			}
		default:
			if t.NumField() == 0 {
				return
			}
			f := v.Field(0)
			if f.Kind() == reflect.String {
				f.SetString(g.text())
			} else {
				for i := g.Intn(3); i > 0; i-- {
					f.Set(reflect.Append(f, reflect.ValueOf(g.text())))
				}
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.p(.7))
	case reflect.String:
		v.SetString(g.text())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.Uint64()) >> (64 - uint(t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.Uint64() >> (64 - uint(t.Bits())))
	case reflect.Float32, reflect.Float64:
		if g.p(.05) {
			v.SetFloat([]float64{math.Inf(1), math.Copysign(0, -1), math.MaxFloat32}[g.Intn(3)])
		} else {
			v.SetFloat(float64(g.Intn(20000)-10000) / 16)
		}
	case reflect.Interface:
		if x := g.anyVal(2); x != nil && t.NumMethod() == 0 {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Pointer:
		if depth <= 0 || g.p(g.NilP) {
			return
		}
		v.Set(reflect.New(t.Elem()))
		g.fill(v.Elem(), depth-1)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				g.fill(v.Field(i), depth-1)
			}
		}
	case reflect.Map:
		if depth <= 0 || g.p(g.NilP) {
			return
		}
		v.Set(reflect.MakeMap(t))
		for i := g.Intn(4); i > 0; i-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if classOf(t.Key()) == "" && t.Key().Kind() == reflect.String && g.p(.7) {
				k.SetString(g.pick("a", "b", "k1", "k2", "", "é"))
			} else if g.p(.5) && (t.Key().Kind() >= reflect.Int && t.Key().Kind() <= reflect.Int64) {
				k.SetInt(int64(g.Intn(4)))
			} else {
				g.fill(k, 1)
			}
			g.fill(e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Slice:
		if depth <= 0 || g.p(g.NilP) {
			return
		}
		n := g.Intn(4)
		if !g.p(g.Slack) {
			v.Set(reflect.MakeSlice(t, n, n))
			for i := 0; i < n; i++ {
				g.fill(v.Index(i), depth-1)
			}
			return
		}
		// [canary, n elements, spare elements, canary]
		c := n + g.Intn(4)
		full := reflect.MakeSlice(t, c+2, c+2)
		for i := 0; i < c+2; i++ {
			if i > n && g.p(.3) {
				continue // zero spare element
			}
			g.fill(full.Index(i), depth-2)
		}
		if t.Elem().Size() > 0 {
			g.addCanary(full.Index(0))
			g.addCanary(full.Index(c + 1))
		}
		v.Set(full.Slice3(1, 1+n, 1+c))
	}
}

func (g *Prior) addCanary(v reflect.Value) {
	js, _ := newMem().snapshot(v)
	g.canaries = append(g.canaries, canary{v, js})
}

// intact tells whether the memory around the prior slices is unchanged.
func (g *Prior) intact() bool {
	for _, c := range g.canaries {
		if js, _ := newMem().snapshot(c.v); js != c.want {
			return false
		}
	}
	return true
}
