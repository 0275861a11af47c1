package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	jd "github.com/romshark/jscan-experimental-decoder"
)

// scopeNums are the number literals the enumerations of the specification use.
var scopeNums = strings.Fields("-0 0 1 2 3 7 13 -1 -1.50E2 1.0 -0.0 0.1 1e39 1e400 " +
	"127 128 -128 -129 255 256 32767 32768 -32768 65535 65536 2147483647 2147483648 -2147483648 " +
	"4294967295 4294967296 9223372036854775807 9223372036854775808 -9223372036854775808 " +
	"18446744073709551615 18446744073709551616")

// writeTargets writes the type descriptors along with what the enumerating
// specifications need: the numbers of the types to enumerate for.
func writeTargets(file string, w *Workload, cat []*Impl, hdr *Header) {
	var fl strings.Builder
	for i, l := range scopeNums {
		if i > 0 {
			fl.WriteByte(',')
		}
		t := floatTable(l)
		fl.WriteString(t[1 : len(t)-1])
	}
	var ts, mains []string
	for _, im := range cat {
		if im.Fam == "bad" {
			continue
		}
		ts = append(ts, fmt.Sprint(hdr.Type(im.T)))
		if w.main(im) {
			mains = append(mains, ts[len(ts)-1])
		}
	}
	s := hdr.JSON()
	s = s[:len(s)-1] + fmt.Sprintf(`,"fl":[%s],"targets":[%s],"main":[%s]}`, fl.String(), strings.Join(ts, ","), strings.Join(mains, ","))
	must(os.WriteFile(file, []byte(s), 0o644))
}

// A script is what a specification wants done in a session: documents to be decoded
// into values of a type (d), or one after another into the same variable (h).
type script struct {
	T int     `json:"t"`
	D [][]int `json:"d"`
	H [][]int `json:"h"`
}

func text(b []int) string {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x)
	}
	return string(out)
}

// readScripts returns the sessions that execute the scripts in file.
func readScripts(file string, w *Workload, cat []*Impl, hdr *Header) (out []func(s *Sess)) {
	byType := map[int]*Impl{}
	for _, im := range cat {
		byType[hdr.Type(im.T)] = im
	}
	f, err := os.Open(file)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	w.NilP = .25
	for sc.Scan() {
		var x script
		must(json.Unmarshal(sc.Bytes(), &x))
		im := byType[x.T]
		if im == nil {
			fmt.Fprintln(os.Stderr, "no type", x.T)
			os.Exit(4)
		}
		out = append(out, func(s *Sess) {
			s.im = im
			if x.H != nil {
				s.history(x.H)
				return
			}
			for _, prior := range []bool{false, true} {
				for _, b := range x.D {
					s.texts = append(s.texts, text(b))
				}
				if w.Prop == "C14" {
					s.equivOf(len(x.D), prior)
				} else {
					s.each(len(x.D), prior)
				}
			}
		})
	}
	must(sc.Err())
	return
}

// equivOf decodes the texts of the queue in all ways there are.
func (s *Sess) equivOf(n int, prior bool) {
	for i := 0; i < n; i++ {
		txt := s.text(s.im)
		seed := s.Int63()
		for _, k := range s.im.Kinds {
			for _, via := range []string{"D" + string(k), "U" + string(k)} {
				s.reset()
				s.pr.Gen = &Gen{Rand: rand.New(rand.NewSource(seed)), P: s.P}
				v := s.newVar(s.im, prior)
				var d *Dec
				if via[0] == 'D' {
					if d = s.decoder(s.im, via[1], newToks(s.Gen)); d == nil {
						return
					}
				}
				s.call(0, v, via, d, txt, jd.DefaultOptions)
			}
		}
	}
}

// each decodes the texts of the queue into a variable of their own each.
func (s *Sess) each(n int, prior bool) {
	var d *Dec
	for i := 0; i < n; i++ {
		s.reset()
		via := s.via(s.im)
		o := s.opts()
		if via[0] == 'U' && o != jd.DefaultOptions {
			via = "D" + via[1:]
		}
		if via[0] == 'D' && (d == nil || d.Kind != via[1]) {
			if d = s.decoder(s.im, via[1], newToks(s.Gen)); d == nil {
				return
			}
		}
		v := s.newVar(s.im, prior)
		if s.call(0, v, via, d, s.text(s.im), o) == "panic" {
			d = nil
		}
	}
}

// history decodes texts into one variable, one after another, with one decoder.
func (s *Sess) history(h [][]int) {
	s.reset()
	v := s.newVar(s.im, false)
	val, _ := s.mem.snapshot(v.dst.Elem())
	s.emit(`{"e":"var","v":1,"t":%d,"post":%s}`, s.hdr.Type(s.im.T), val)
	k := s.kind(s.im)
	d := s.decoder(s.im, k, newToks(s.Gen))
	if d == nil {
		return
	}
	for _, b := range h {
		if s.call(1, v, "D"+string(k), d, text(b), jd.DefaultOptions) == "panic" {
			return
		}
	}
	for _, b := range v.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
	val, bad := s.mem.snapshot(v.dst.Elem())
	if !v.intact() || !s.pr.intact() {
		bad = "memory outside of the destination modified"
	}
	s.emit(`{"e":"snap","v":1,"post":%s,"bad":%s}`, val, jq(bad))
}
