// Command mc decides the properties of /verif/properties.jsonl by bounded-exhaustive exploration.
//
//	mc run ID      enumerate the whole bounded space of property ID (sharded over worker processes)
//	mc replay FILE re-execute one recorded failing case
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Failure is one observed violation of a property.
type Failure struct {
	Sig    string // class of violation (used to group and to match known findings)
	Case   string // the exact case
	Index  int64
	Detail string

	History int64 // >0: needs the preceding cases of its shard, of this many shards
}

// Result is what a worker hands to its parent.
type Result struct {
	States, Transitions, Traces int64
	Cases                       int64
	Groups                      map[string]int64
	Samples                     []string
	Failures                    []Failure
	FailCount                   int64
	Complete                    bool
	LastIndex                   int64
	StateHashes                 int64
}

// X is the exploration context of one worker.
type X struct {
	tier      string
	shard, n  int64
	idx       int64
	only      int64 // >=0: run only this index
	until     int64 // >=0: stop after this index (re-execution of a history of cases)
	skip      map[int64]bool
	res       Result
	deadline  time.Time
	cur       []byte // mmap'd: the case being executed
	seen      map[uint64]struct{}
	failBySig map[string]int
	stop      bool
	caseStart int64
	firstFail time.Time
}

// C is one case being executed.
type C struct {
	x      *X
	desc   string
	idx    int64
	failed bool
}

// Thorough tells whether the deep tier was requested.
func (x *X) Thorough() bool { return x.tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (x *X) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

// Case executes one point of the space. desc must identify it completely.
func (x *X) Case(group string, desc func() string, f func(c *C)) {
	i := x.idx
	x.idx++
	if x.stop {
		return
	}
	if x.only >= 0 {
		if i != x.only {
			return
		}
	} else if i%x.n != x.shard || x.skip[i] {
		return
	}
	if x.until >= 0 && i > x.until {
		x.stop = true
		return
	}
	if now := time.Now(); now.After(x.deadline) || (x.only < 0 && x.until < 0 && !x.firstFail.IsZero() && now.Sub(x.firstFail) > failGrace) {
		x.stop = true
		x.res.Complete = false
		return
	}
	d := group + " " + desc()
	x.setCur(i, d)
	c := &C{x: x, desc: d, idx: i}
	x.res.Cases++
	x.res.Groups[group]++
	h := fnv.New64a()
	h.Write([]byte(d))
	x.seen[h.Sum64()] = struct{}{}
	if len(x.res.Samples) < 3 || (x.res.Groups[group] == 1 && len(x.res.Samples) < 12) {
		x.res.Samples = append(x.res.Samples, d)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				st := string(debug.Stack())
				c.Fail(group+"/panic", "panic: %v\n%s", r, trimStack(st))
			}
		}()
		f(c)
	}()
	x.res.LastIndex = i
}

type stopCase struct{}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/sklearn") || strings.Contains(l, "/repo/") || strings.Contains(l, "gonum") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Fail records a violation in this case; the rest of the case is abandoned.
func (c *C) Fail(sig, format string, a ...interface{}) {
	c.failed = true
	x := c.x
	if x.res.FailCount == 0 {
		x.firstFail = time.Now()
	}
	x.res.FailCount++
	x.failBySig[sig]++
	if x.failBySig[sig] <= 3 {
		x.res.Failures = append(x.res.Failures, Failure{Sig: sig, Case: c.desc, Index: c.idx, Detail: fmt.Sprintf(format, a...)})
	}
}

// Must fails and abandons the case when cond is false.
func (c *C) Must(cond bool, sig, format string, a ...interface{}) {
	if !cond {
		c.Fail(sig, format, a...)
		panic(stopCase{})
	}
}

// Steps counts transitions (operations of the code under test performed in this case).
func (c *C) Steps(n int) { c.x.res.Transitions += int64(n) }

// Trace counts one complete model trace replayed against the implementation.
func (c *C) Trace() { c.x.res.Traces++ }

// touch tells the watchdog that the case makes progress.
func (x *X) touch() { atomic.StoreInt64(&x.caseStart, time.Now().UnixNano()) }

func (x *X) setCur(i int64, d string) {
	if x.cur == nil {
		return
	}
	n := copy(x.cur[24:], d)
	s := fmt.Sprintf("%011d %011d", i, n)
	copy(x.cur, s)
	x.touch()
}

// Check is a registered property check.
type Check struct {
	ID          string
	Run         func(x *X)
	Assumptions []string
	Rule        string
}

var checks = map[string]*Check{}

func register(id string, rule string, run func(x *X), assumptions ...string) {
	checks[id] = &Check{ID: id, Run: run, Rule: rule, Assumptions: assumptions}
}

const (
	caseLimit = 90 * time.Second // one case normally takes milliseconds
	failGrace = 90 * time.Second // a worker that has found a violation does not go on much longer
)

func worker() {
	// mc worker ID tier shard n deadlineUnix only resultFile curFile skip,skip
	a := os.Args[2:]
	ck := checks[a[0]]
	x := &X{tier: a[1], failBySig: map[string]int{}, seen: map[uint64]struct{}{}, skip: map[int64]bool{}}
	x.res.Groups = map[string]int64{}
	x.shard, _ = strconv.ParseInt(a[2], 10, 64)
	x.n, _ = strconv.ParseInt(a[3], 10, 64)
	dl, _ := strconv.ParseInt(a[4], 10, 64)
	x.deadline = time.Unix(dl, 0)
	x.only, _ = strconv.ParseInt(a[5], 10, 64)
	x.until = int64(envInt("MC_UNTIL", -1))
	if len(a) > 8 && a[8] != "" {
		for _, s := range strings.Split(a[8], ",") {
			v, _ := strconv.ParseInt(s, 10, 64)
			x.skip[v] = true
		}
	}
	f, err := os.OpenFile(a[7], os.O_RDWR|os.O_CREATE, 0644)
	if err == nil {
		f.Truncate(1 << 16)
		x.cur, err = syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			x.cur = nil
		}
	}
	x.touch()
	log.SetOutput(ioutil.Discard)
	debug.SetGCPercent(400)
	go func() { // watchdog: a case that does not terminate
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, atomic.LoadInt64(&x.caseStart))) > caseLimit {
				fmt.Fprintln(os.Stderr, "HANG: case did not terminate")
				os.Exit(97)
			}
		}
	}()
	x.res.Complete = true
	ck.Run(x)
	x.res.States = int64(len(x.seen))
	b, _ := json.Marshal(&x.res)
	tmp := a[6] + ".tmp"
	ioutil.WriteFile(tmp, b, 0644)
	os.Rename(tmp, a[6])
	os.Exit(0)
}

func readCur(p string) (int64, string) {
	b, err := ioutil.ReadFile(p)
	if err != nil || len(b) < 24 {
		return -1, ""
	}
	var i, n int64
	if _, err := fmt.Sscanf(string(b[:23]), "%d %d", &i, &n); err != nil || n < 0 || 24+n > int64(len(b)) {
		return -1, ""
	}
	return i, string(b[24 : 24+n])
}

type known struct {
	Property string
	Sig      string
	Case     string
	What     string
}

// known findings: lines "property=ID sig=S case=<exact case or prefix*> :: what"; lines starting with
// "fixed:" or '#' suppress nothing.
func loadKnown(path, id string) (out []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		what := ""
		if k := strings.Index(l, " :: "); k >= 0 {
			what = l[k+4:]
			l = l[:k]
		}
		var kn known
		kn.What = what
		if k := strings.Index(l, " case="); k >= 0 {
			kn.Case = l[k+6:]
			l = l[:k]
		}
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				kn.Property = w[9:]
			}
			if strings.HasPrefix(w, "sig=") {
				kn.Sig = w[4:]
			}
		}
		if kn.Property == id {
			out = append(out, kn)
		}
	}
	return
}

func (k known) match(f Failure) bool {
	if k.Sig != "" && k.Sig != f.Sig {
		return false
	}
	if strings.HasSuffix(k.Case, "*") {
		return strings.HasPrefix(f.Case, strings.TrimSuffix(k.Case, "*"))
	}
	return k.Case == f.Case
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// workerEnv is the environment of every execution of a case, first run, confirmation and replay alike: code that
// splits its work over GOMAXPROCS chunks must be split the same way each time.
func workerEnv() []string { return append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single") }

func runOne(self, id, tier string, only int64, dir string) *Result {
	rf := filepath.Join(dir, fmt.Sprintf("only%d.json", only))
	os.Remove(rf)
	cmd := exec.Command(self, "worker", id, tier, "0", "1", fmt.Sprint(time.Now().Add(time.Hour).Unix()), fmt.Sprint(only), rf, filepath.Join(dir, "onlycur"), "")
	cmd.Env = workerEnv()
	return runCmd(cmd, rf, caseLimit+20*time.Second)
}

// runHistory executes, in one process, the cases of index's shard up to and including it: a violation may need what
// earlier cases left behind in the process (package-level state of the code under test).
func runHistory(self, id, tier string, index, n int64, dir string) *Result {
	rf := filepath.Join(dir, fmt.Sprintf("hist%d.json", index))
	os.Remove(rf)
	cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(index%n), fmt.Sprint(n), fmt.Sprint(time.Now().Add(time.Hour).Unix()), "-1", rf, filepath.Join(dir, "histcur"), "")
	cmd.Env = append(workerEnv(), fmt.Sprint("MC_UNTIL=", index))
	return runCmd(cmd, rf, 150*time.Second)
}

func runCmd(cmd *exec.Cmd, rf string, limit time.Duration) *Result {
	done := make(chan error, 1)
	if cmd.Start() != nil {
		return nil
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
	}
	b, err := ioutil.ReadFile(rf)
	if err != nil {
		return nil
	}
	var r Result
	if json.Unmarshal(b, &r) != nil {
		return nil
	}
	return &r
}

func parent(id, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	self, _ := os.Executable()
	dir, err := ioutil.TempDir("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	budget := envInt("MC_BUDGET", 0)
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 3 * 3600
		}
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	n := envInt("MC_SHARDS", runtime.NumCPU())
	type out struct {
		res   *Result
		fails []Failure
	}
	outs := make(chan out, n)
	for s := 0; s < n; s++ {
		go func(s int) {
			var o out
			var skip []string
			for attempt := 0; attempt < 4; attempt++ {
				rf := filepath.Join(dir, fmt.Sprintf("r%d.json", s))
				cf := filepath.Join(dir, fmt.Sprintf("c%d", s))
				ef := filepath.Join(dir, fmt.Sprintf("e%d", s))
				os.Remove(rf)
				os.Remove(cf)
				cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(s), fmt.Sprint(n), fmt.Sprint(deadline.Unix()), "-1", rf, cf, strings.Join(skip, ","))
				e, _ := os.Create(ef)
				cmd.Stderr = e
				cmd.Env = workerEnv()
				err := cmd.Run()
				e.Close()
				if b, rerr := ioutil.ReadFile(rf); rerr == nil {
					var r Result
					if json.Unmarshal(b, &r) == nil {
						o.res = &r
						break
					}
				}
				idx, desc := readCur(cf)
				if idx < 0 {
					fmt.Fprintf(os.Stderr, "worker %d of %s ended without a case: %v\n", s, id, err)
					continue
				}
				eb, _ := ioutil.ReadFile(ef)
				sig := "crash"
				if strings.Contains(string(eb), "HANG:") {
					sig = "hang"
					attempt += 2
				}
				o.fails = append(o.fails, Failure{Sig: sig, Case: desc, Index: idx, Detail: fmt.Sprintf("the process ended (%v) in this case\n%s", err, head(string(eb), 3000))})
				skip = append(skip, fmt.Sprint(idx))
			}
			outs <- o
		}(s)
	}
	tot := Result{Groups: map[string]int64{}, Complete: true}
	missing := 0
	for s := 0; s < n; s++ {
		o := <-outs
		tot.Failures = append(tot.Failures, o.fails...)
		tot.FailCount += int64(len(o.fails))
		if o.res == nil {
			missing++
			tot.Complete = false
			continue
		}
		r := o.res
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Cases += r.Cases
		tot.FailCount += r.FailCount
		tot.Complete = tot.Complete && r.Complete
		for k, v := range r.Groups {
			tot.Groups[k] += v
		}
		tot.Failures = append(tot.Failures, r.Failures...)
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
	}
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	sort.SliceStable(tot.Failures, func(i, j int) bool { return tot.Failures[i].Index < tot.Failures[j].Index })
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	printedKnown := map[string]bool{}
	var viol []Failure
	bySig := map[string]int{}
	for _, f := range tot.Failures {
		matched := false
		for _, k := range kn {
			if k.match(f) {
				matched = true
				key := k.What + k.Case
				if !printedKnown[key] {
					printedKnown[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
				}
				break
			}
		}
		if matched {
			continue
		}
		bySig[f.Sig]++
		if bySig[f.Sig] > 2 {
			continue
		}
		viol = append(viol, f)
	}
	// confirm by re-execution
	var confirmed []Failure
	histories := 0
	confirming := time.Now()
	for _, f := range viol {
		if len(confirmed) >= 6 || (len(confirmed) > 0 && time.Since(confirming) > 60*time.Second) || time.Since(confirming) > 250*time.Second {
			break
		}
		ok := false
		confirmStart := time.Now()
		for try := 0; try < 40 && !ok && (try < 1 || time.Since(confirmStart) < 20*time.Second); try++ {
			r := runOne(self, id, tier, f.Index, dir)
			if r == nil {
				ok = f.Sig == "crash" || f.Sig == "hang"
				continue
			}
			if len(r.Failures) > 0 {
				ok = true
			}
		}
		if !ok && f.Sig != "crash" && f.Sig != "hang" && histories < 4 {
			histories++
			if r := runHistory(self, id, tier, f.Index, int64(n), dir); r != nil {
				for _, g := range r.Failures {
					ok = ok || g.Index == f.Index
				}
				if ok {
					f.History = int64(n)
				}
			}
		}
		if ok {
			confirmed = append(confirmed, f)
		} else {
			fmt.Printf("note: not reproduced, discarded: %s %s\n%s\n", f.Sig, f.Case, f.Detail)
		}
	}
	code := 0
	if len(confirmed) > 0 {
		rd := filepath.Join(evdir, "replay")
		os.MkdirAll(rd, 0755)
		for k, f := range confirmed {
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", id, k))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "index": f.Index, "case": f.Case, "sig": f.Sig, "detail": f.Detail, "history": f.History,
				"how": "cd /verif && ./check " + id + " " + tier + " replay " + p}, "", " ")
			ioutil.WriteFile(p, b, 0644)
			fmt.Printf("  [%s] %s\n    %s\n", f.Sig, f.Case, strings.Replace(f.Detail, "\n", "\n    ", -1))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		code = 1
	}
	if missing > 0 && code == 0 {
		fmt.Fprintf(os.Stderr, "%d worker(s) gave no result\n", missing)
	}
	wall := time.Since(start).Seconds()
	level := "model_checking"
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": level,
		"coverage": map[string]interface{}{
			"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
			"samples": tot.Samples, "exhaustive": tot.Complete, "rule": ck.Rule, "cases_by_group": tot.Groups,
		},
		"wall_s": wall, "violations": len(confirmed), "known_findings": len(printedKnown),
		"assumptions": ck.Assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	ioutil.WriteFile(filepath.Join(evdir, id+".json"), b, 0644)
	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d traces, complete=%v, %d violation(s), %.1fs\n", id, tier, tot.Cases, tot.States, tot.Transitions, tot.Traces, tot.Complete, len(confirmed), wall)
	return code
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID | mc replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker()
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(parent(os.Args[2], tier))
	case "replay":
		b, err := ioutil.ReadFile(os.Args[2])
		if err != nil {
			log.Fatal(err)
		}
		var r struct {
			Property, Tier string
			Index, History int64
		}
		json.Unmarshal(b, &r)
		self, _ := os.Executable()
		dir, _ := ioutil.TempDir("", "mc")
		defer os.RemoveAll(dir)
		var res *Result
		if r.History > 0 {
			res = runHistory(self, r.Property, r.Tier, r.Index, r.History, dir)
		} else {
			res = runOne(self, r.Property, r.Tier, r.Index, dir)
		}
		if res == nil {
			fmt.Println("the case crashes the process")
			os.Exit(1)
		}
		for _, f := range res.Failures {
			fmt.Printf("[%s] %s\n%s\n", f.Sig, f.Case, f.Detail)
		}
		if len(res.Failures) > 0 {
			os.Exit(1)
		}
		fmt.Println("the case passes")
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}
