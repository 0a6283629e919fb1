//go:build sched

package main

import (
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifmc/vsched"
)

// scenario is a program over the rewritten library whose schedules are enumerated.
type scenario struct {
	cpus  int
	bound int // preemption bound
	// delays>0 replaces the preemption bound with a delay bound (number of deviations from the default
	// schedule); it picks the largest bound whose size estimate, from the first execution, fits
	delays int
	budget float64 // estimated executions allowed for a delay bound above 1
	max    int     // execution budget of the case
	checkG bool    // library code outside the rewriting starts goroutines that call back
	free   bool    // no enumeration: the scenario consists of a single default schedule
	// body runs as thread 0; the values it returns must be the same in every schedule
	body func() []float64
	want []float64 // nil: the first execution decides
	tol  float64
}

var freeRun = os.Getenv("VSCHED_FREE") != ""

func raceLog() string {
	m, _ := filepath.Glob(os.Getenv("VSCHED_RACELOG") + "." + fmt.Sprint(os.Getpid()))
	if len(m) == 0 {
		return ""
	}
	b, _ := ioutil.ReadFile(m[0])
	return string(b)
}

// explore enumerates the schedules of s up to its preemption bound.
func explore(c *C, s scenario) (execs int) {
	if s.tol == 0 {
		s.tol = 1e-9
	}
	if s.max == 0 {
		s.max = 1 << 30
	}
	var prefix []int
	want := s.want
	delays := 0
	start := time.Now()
	for {
		c.x.touch()
		races := vsched.RaceErrors()
		var got []float64
		var e *vsched.Exec
		if freeRun {
			got = s.body()
			e = &vsched.Exec{}
			time.Sleep(time.Millisecond)
		} else {
			e = vsched.Run(s.cpus, s.checkG, 1000000, prefix, func() { got = s.body() })
		}
		execs++
		c.Steps(e.Steps + 1)
		c.Trace()
		h := fnv.New64a()
		fmt.Fprint(h, c.idx)
		for _, d := range e.Decisions {
			h.Write([]byte{byte(d.Chosen)})
		}
		c.x.seen[h.Sum64()] = struct{}{}
		sched := func() string {
			var b strings.Builder
			fmt.Fprintf(&b, "schedule (%d decisions, thread chosen at each):", len(e.Decisions))
			for i, d := range e.Decisions {
				if i > 200 {
					b.WriteString(" ...")
					break
				}
				fmt.Fprintf(&b, " %d", d.Options[d.Chosen])
			}
			return b.String()
		}
		for _, p := range e.Panics {
			if strings.Contains(p, "stopCase") {
				continue
			}
			c.Must(false, "panic", "a worker panicked: %s\n%s", trimPanic(p), sched())
		}
		c.Must(e.Deadlock == "", "deadlock", "all threads blocked: %s\n%s", e.Deadlock, sched())
		c.Must(e.Leaked == "", "leak", "goroutines blocked forever after the call returned: %s\n%s", e.Leaked, sched())
		if vsched.RaceErrors() > races {
			c.Must(false, "race", "data race\n%s\n%s", head(raceLog(), 2500), sched())
		}
		if e.Misuse != "" || e.Truncated {
			c.x.res.Complete = false // not an answer about the property
			if debugFile != "" {
				dbg("not controlled:", e.Misuse, e.Truncated, c.desc)
			}
			return
		}
		if want == nil {
			want = got
		}
		if !nearSlice(got, want, s.tol) {
			c.Must(false, "schedule-dependent", "result %v, other schedules give %v\n%s", got, want, sched())
		}
		if freeRun {
			c.x.res.Complete = false
			if execs >= 30 || time.Since(start) > 5*time.Second {
				return
			}
			continue
		}
		// next schedule: deepest decision with an untried alternative within the bound
		next := -1
		alt := 0
		var dev []int // deviations before each decision
		if s.delays > 0 {
			n, alts := 0, 0
			dev = make([]int, len(e.Decisions))
			for i, d := range e.Decisions {
				dev[i] = n
				alts += len(d.Options) - 1
				if d.Chosen > 0 {
					n++
				}
			}
			if delays == 0 {
				est := float64(alts)
				for delays = 1; delays < s.delays; delays++ {
					est *= float64(alts) / float64(delays+1)
					if est > s.budget {
						break
					}
				}
			}
		}
	search:
		for i := len(e.Decisions) - 1; i >= 0; i-- {
			d := e.Decisions[i]
			for a := d.Chosen + 1; a < len(d.Options); a++ {
				if dev == nil && d.Cumul+d.Cost[a] <= s.bound || dev != nil && dev[i] < delays {
					next, alt = i, a
					break search
				}
			}
		}
		if next < 0 || s.free {
			return
		}
		if execs >= s.max || time.Now().After(c.x.deadline) {
			if debugFile != "" {
				dbg("budget exhausted:", c.desc, len(e.Decisions))
			}
			c.x.res.Complete = false
			return
		}
		np := make([]int, next+1)
		for i := 0; i < next; i++ {
			np[i] = e.Decisions[i].Chosen
		}
		np[next] = alt
		prefix = np
	}
}

func trimPanic(p string) string {
	lines := strings.Split(p, "\n")
	out := lines[:1]
	for _, l := range lines[1:] {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "sklearn") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var debugFile = os.Getenv("VSCHED_DEBUG")

func dbg(a ...interface{}) {
	f, err := os.OpenFile(debugFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err == nil {
		fmt.Fprintln(f, a...)
		f.Close()
	}
}
