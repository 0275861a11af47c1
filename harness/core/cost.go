package core

import (
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// cost decodes a small document and a large one of the same shape and compares what the
// calls took: processor time of the thread and allocated memory.
func cost(s *Sess) {
	kind := s.kind(s.im)
	// Methods that append to what is there take longer and longer.
	methods := hasHook(s.im.T, map[reflect.Type]bool{})
	for i := 0; i < 4; i++ {
		d := s.decoder(s.im, kind, newToks(s.Gen))
		if d == nil {
			return
		}
		doc := s.doc(s.im.T)
		var all []*Node
		doc.walk(func(n *Node) { all = append(all, n) })
		at := map[*Node]bool{}
		for j := 1 + s.Intn(2); j > 0; j-- {
			n := all[s.Intn(len(all))]
			if n.K == 'n' {
				// What a digit costs depends on how many there are.
				at, j = map[*Node]bool{}, 0
			}
			at[n] = true
		}
		fresh, white, pop := s.p(.5) || methods, 0, s.p(.3) && !methods
		if s.p(.1) {
			white, at = 1, nil
		}
		size := func(k int) string {
			w := strings.Repeat(" ", white*k*8)
			return w + doc.scaled(at, k, fresh).Render(nil) + w
		}
		deep := false
		if s.p(.3) && !methods {
			if nest := s.nesting(doc, all); nest != nil {
				size, at, deep = nest, nil, true
			}
		}
		k1 := 1
		for k1 < 2000 && len(size(k1)) < 3000 {
			k1 *= 2
		}
		factors := []int{16, 64}
		if len(at) > 1 {
			factors = []int{4, 8}
		}
		small, tiny := size(k1), size(1)
		t0, a0, c0 := s.took(d, tiny, pop, 5, jd.DefaultOptions)
		for _, f := range factors {
			large := size(k1 * f)
			if len(large) < 4*len(small) || len(large) > 1<<20 {
				break
			}
			// Disturbances don't last.
			over := true
			for try := 0; over && try < 4; try++ {
				t1, a1, c1 := s.took(d, small, pop, 5, jd.DefaultOptions)
				if a1*int64(len(large)/len(small)) > 300<<10 {
					return // too much memory
				}
				t2, a2, c2 := s.took(d, large, pop, 3, jd.DefaultOptions)
				if over = t2/(t1+20) > 4*int64(len(large)/len(small)); over && try < 3 {
					continue
				}
				s.emit(`{"e":"cost","via":"cost","c1":"%s","c2":"%s","n1":%d,"n2":%d,"t1":%d,"t2":%d,"a1":%d,"a2":%d}`,
					c1, c2, len(small), len(large), t1, t2, a1, a2)
			}
			if over {
				return
			}
		}
		if k := 1; deep && s.p(.5) {
			for len(size(k)) < 4<<20 {
				k *= 2
			}
			s.took(d, size(k), false, 1, jd.DefaultOptions)
		}
		// Large calls don't make later ones expensive.
		t1, a1, c1 := s.took(d, tiny, pop, 5, jd.DefaultOptions)
		for try := 0; try < 4 && t1 > 3*(t0+20); try++ {
			t1, a1, c1 = s.took(d, tiny, pop, 5, jd.DefaultOptions)
		}
		s.emit(`{"e":"cost","via":"later","c1":"%s","c2":"%s","n1":%d,"n2":%d,"t1":%d,"t2":%d,"a1":%d,"a2":%d}`,
			c0, c1, len(tiny), 0, t0, t1, a0, a1)
	}
}

// nesting puts a part of doc into itself any number of times.
func (s *Sess) nesting(doc *Node, all []*Node) func(int) string {
	for try := 0; try < 20; try++ {
		outer := all[s.Intn(len(all))]
		var inner []*Node
		outer.walk(func(n *Node) {
			if n != outer && n.K == outer.K && (n.K == 'a' || n.K == 'o' && len(n.Keys) > 0) {
				inner = append(inner, n)
			}
		})
		if len(inner) == 0 {
			continue
		}
		in := inner[s.Intn(len(inner))]
		core := in.scaled(nil, 0, false).Render(nil)
		cut := func(n, part *Node, l int) (pre, post string) {
			txt := n.Render(nil)
			return txt[:part.Idx], txt[part.Idx+l:]
		}
		pre, post := cut(outer, in, len(core))
		p, q := "", ""
		if outer != doc {
			p, q = cut(doc, outer, len(pre)+len(core)+len(post))
		}
		return func(k int) string {
			return p + strings.Repeat(pre, k) + core + strings.Repeat(post, k) + q
		}
	}
	return nil
}

// took is the least of several measurements in microseconds and kilobytes.
func (s *Sess) took(d *Dec, txt string, populated bool, times int, o *jd.DecodeOptions) (us, kb int64, cls string) {
	for i := 0; i < times; i++ {
		v := s.newVar(s.im, false)
		in := s.newInput(txt)
		var out outcome
		run := func() {
			if d.Kind == 'S' {
				out = d.S(in.str, v.dst, o)
			} else {
				out = d.B(in.in, v.dst, o)
			}
		}
		s.calls++
		if populated {
			run()
		}
		t, a := measure(run)
		if cls = class(out.err); out.panic != "" {
			cls = "panic"
		}
		if i == 0 || t < us {
			us = t
		}
		if i == 0 || a < kb {
			kb = a
		}
	}
	return us, kb, cls
}

func measure(f func()) (us, kb int64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	debug.SetMemoryLimit(1 << 30)
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	t := threadTime()
	f()
	t = threadTime() - t
	runtime.ReadMemStats(&m2)
	return t / 1000, int64(m2.TotalAlloc-m1.TotalAlloc) >> 10
}

func threadTime() int64 {
	var ts syscall.Timespec
	_, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		must(e)
	}
	return ts.Nano()
}

// hasHook tells whether values of type t contain any with methods.
func hasHook(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if c := classOf(t); c == "ju" || c == "tu" {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasHook(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasHook(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func (n *Node) walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// scaled is a copy with the given nodes k times as large.
func (n *Node) scaled(at map[*Node]bool, k int, fresh bool) *Node {
	c := &Node{K: n.K, Raw: n.Raw}
	for i, kid := range n.Kids {
		c.Kids = append(c.Kids, kid.scaled(at, k, fresh))
		if n.K == 'o' {
			c.Keys = append(c.Keys, n.Keys[i])
		}
	}
	if !at[n] {
		return c
	}
	m := len(c.Kids)
	switch n.K {
	case 'a', 'o':
		if m == 0 {
			return c
		}
		for i := 0; i < m*(k-1); i++ {
			c.Kids = append(c.Kids, c.Kids[i%m])
			if n.K == 'o' {
				key := c.Keys[i%m]
				if fresh {
					if _, err := strconv.Atoi(key); err == nil {
						key = strconv.Itoa(i)
					} else {
						key += strconv.Itoa(i)
					}
				}
				c.Keys = append(c.Keys, key)
			}
		}
	case 's':
		if n.Raw == "" {
			c.Raw = "x"
		}
		c.Raw = strings.Repeat(c.Raw, k)
	case 'n':
		c.Raw = "1" + strings.Repeat("0", k)
		if fresh {
			c.Raw = "0." + strings.Repeat("0", k) + "1"
		}
	}
	return c
}
