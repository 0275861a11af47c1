package core

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

var garbage atomic.Pointer[[]byte]

// churn allocates garbage of all sizes to keep the collector busy.
func churn(stop *atomic.Bool) {
	for i := 0; !stop.Load(); i++ {
		b := make([]byte, 1<<(i%14))
		garbage.Store(&b)
		if i%64 == 0 {
			runtime.Gosched()
		}
	}
}

// Main runs the harness.
func Main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int("from", 0, "first session")
	to := flag.Int("to", 1, "session after the last")
	step := flag.Int("step", 1, "distance of sessions")
	out := flag.String("out", "", "trace file")
	hdrf := flag.String("hdr", "", "header file")
	prog := flag.String("progress", "", "progress file")
	list := flag.Bool("list", false, "list the types")
	scripts := flag.String("scripts", "", "file of scripts to run instead of sessions")
	targets := flag.String("targets", "", "write the types for the enumerations to this file and exit")
	flag.Parse()

	if *list {
		for _, im := range catalogue {
			fmt.Println(im.Fam, im.Name)
		}
		return
	}
	hdr := newHeader()
	var w *Workload
	for _, x := range workloads() {
		if x.Prop == *prop {
			w = x
		}
	}
	if w == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(4)
	}
	cat := w.types()
	for _, im := range cat {
		hdr.Type(im.T)
	}
	if *targets != "" {
		writeTargets(*targets, w, cat, hdr)
		return
	}
	f, err := os.Create(*out)
	must(err)
	bw := bufio.NewWriterSize(f, 1<<20)
	var progress *os.File
	if *prog != "" {
		progress, err = os.Create(*prog)
		must(err)
	}
	var current atomic.Int64
	go watchdog(&current, *prop)

	if w.GC {
		debug.SetGCPercent(10)
		var stop atomic.Bool
		for i := 0; i < 2; i++ {
			go churn(&stop)
		}
	}
	var scripted []func(*Sess)
	if *scripts != "" {
		scripted = readScripts(*scripts, w, cat, hdr)
		if *to > len(scripted) {
			*to = len(scripted)
		}
	}
	calls := 0
	var mu sync.Mutex
	one := func(i int) {
		s := newSess(w, hdr, cat, *seed, i)
		s.gcOn = w.GC
		if scripted != nil {
			scripted[i](s)
		} else {
			w.run(s)
		}
		mu.Lock()
		calls += s.calls
		if len(s.evs) > 0 {
			fmt.Fprintln(bw, s.line())
		}
		mu.Unlock()
	}
	if w.Conc {
		// Groups of sessions run concurrently.
		const group = 16
		for i := *from; i < *to; i += *step * group {
			current.Store(int64(i))
			note(progress, i)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for j := 0; j < group && i+j**step < *to; j++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					<-start
					one(k)
				}(i + j**step)
			}
			close(start)
			wg.Wait()
		}
	} else {
		for i := *from; i < *to; i += *step {
			current.Store(int64(i))
			note(progress, i)
			one(i)
		}
	}
	must(bw.Flush())
	must(f.Close())
	must(os.WriteFile(*hdrf, []byte(hdr.JSON()), 0o644))
	fmt.Printf("calls=%d types=%d\n", calls, len(cat))
}

func note(f *os.File, i int) {
	if f != nil {
		f.WriteAt([]byte(fmt.Sprintf("%012d\n", i)), 0)
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

// watchdog ends the process when a session doesn't end.
func watchdog(current *atomic.Int64, prop string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if c := current.Load(); c != last {
			last, since = c, time.Now()
		} else if time.Since(since) > 60*time.Second {
			fmt.Fprintln(os.Stderr, "HANG in session", c)
			os.Exit(7)
		}
	}
}
