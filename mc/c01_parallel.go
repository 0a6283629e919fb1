//go:build sched && (C01 || C02)

package main

import (
	"fmt"

	"github.com/pa-m/sklearn/base"
	"golang.org/x/exp/rand"
	"verifmc/vsched"
)

// ---- C01: Parallelize -------------------------------------------------------------------------

func c01(x *X) {
	maxN, maxTh, bound := x.Pick(9, 12), x.Pick(6, 8), 2
	for cpus := 1; cpus <= x.Pick(4, 5); cpus++ {
		for th := -1; th <= maxTh; th++ {
			for n := 0; n <= maxN; n++ {
				for _, b := range []int{0, 1, bound, 3} {
					cpus, th, n, b := cpus, th, n, b
					eff := th
					if th <= 0 {
						eff = cpus
					}
					if th > 0 && cpus > 1 && b > 0 {
						continue // the number of CPUs only matters when no thread count is given
					}
					if eff > n && n > 0 {
						eff = n
					}
					if b == 3 && eff > 3 || b == 2 && eff > x.Pick(4, 5) || b == 1 && eff > x.Pick(5, 6) || b == 0 && eff > 6 {
						continue
					}
					x.Case("parallelize", func() string { return fmt.Sprintf("threads=%d items=%d cpus=%d preemptions<=%d", th, n, cpus, b) }, func(c *C) {
						type call struct{ th, start, end int }
						explore(c, scenario{cpus: cpus, bound: b, max: x.Pick(60000, 2000000), body: func() []float64 {
							calls := make([]call, 0, 64)
							var mu vsched.Mutex
							cover := make([]int, n)
							done := make([]bool, 64) // written by the workers without a lock: read after the join
							Parallelize(th, n, func(t, start, end int) {
								mu.Lock()
								k := len(calls)
								calls = append(calls, call{t, start, end})
								mu.Unlock()
								for i := start; i < end; i++ {
									if i >= 0 && i < n {
										cover[i]++ // no lock: two workers with the same item would be a data race
									}
								}
								vsched.Point()
								if k < len(done) {
									done[k] = true
								}
							})
							out := []float64{}
							for i, v := range cover {
								if v != 1 {
									panic(fmt.Sprintf("item %d was handed out %d times", i, v))
								}
								out = append(out, float64(v))
							}
							seen := map[int]bool{}
							for k, cl := range calls {
								if !done[k] {
									panic("returned before a worker finished")
								}
								if cl.start < 0 || cl.end > n || cl.start > cl.end {
									panic(fmt.Sprintf("worker %d got the block [%d,%d) of %d items", cl.th, cl.start, cl.end, n))
								}
								if seen[cl.th] {
									panic(fmt.Sprintf("two invocations share worker number %d", cl.th))
								}
								seen[cl.th] = true
							}
							return out
						}})
					})
				}
			}
		}
	}
	// The partition itself, for every item count of a larger range: one schedule each.
	blocks := func(th, n, cpus int) {
		x.Case("partition", func() string { return fmt.Sprintf("threads=%d items=%d cpus=%d one schedule", th, n, cpus) }, func(c *C) {
			eff := th
			if eff <= 0 {
				eff = cpus
			}
			explore(c, scenario{cpus: cpus, free: true, body: func() []float64 {
				var mu vsched.Mutex
				cover := make([]int, n)
				ths := map[int]bool{}
				started, finished := 0, 0
				Parallelize(th, n, func(t, start, end int) {
					mu.Lock()
					started++
					if start < 0 || end > n || start > end {
						panic(fmt.Sprintf("worker %d got the block [%d,%d) of %d items", t, start, end, n))
					}
					if ths[t] || t < 0 || t >= eff {
						panic(fmt.Sprintf("worker number %d of %d threads is shared or out of range", t, eff))
					}
					ths[t] = true
					mu.Unlock()
					for i := start; i < end; i++ {
						cover[i]++
					}
					vsched.Point()
					mu.Lock()
					finished++
					mu.Unlock()
				})
				if started != finished {
					panic("returned before a worker finished")
				}
				for i, v := range cover {
					if v != 1 {
						panic(fmt.Sprintf("item %d was handed out %d times", i, v))
					}
				}
				return []float64{}
			}})
		})
	}
	for n := 0; n <= x.Pick(140, 600); n++ {
		for cpus := 1; cpus <= x.Pick(9, 17); cpus++ {
			blocks(-1, n, cpus)
		}
		for _, th := range []int{2, 3, 5, 7, 8, 12, 16, 31, 64} {
			blocks(th, n, 2)
		}
	}
	for _, n := range []int{255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 10007} {
		for _, th := range []int{0, 1, 2, 3, 7, 8, 16, 33, 100, 257, 1000, 1024, 1025} {
			blocks(th, n, 4)
		}
	}
	for _, n := range []int{32769, 65535, 65536, 65537, 131073, 262147} {
		for _, th := range []int{0, 1, 2, 3, 8} {
			blocks(th, n, 5)
		}
	}
}

// Parallelize is the function under test.
var Parallelize = base.Parallelize

// ---- C02: LockedSource ------------------------------------------------------------------------

type srcOp int

const (
	opDraw srcOp = iota
	opSeed
	opWithLock
	opClone
	nSrcOps
)

func (o srcOp) String() string { return [...]string{"draw", "seed", "withlock", "clone"}[o] }

type srcModel struct{ seed, drawn uint64 }

// refSeq returns the first k values of a seed, from an independent plain source.
func refSeq(seed uint64, k int) []uint64 {
	s := base.NewSource(seed)
	out := make([]uint64, k)
	for i := range out {
		out[i] = s.Uint64()
	}
	return out
}

func c02(x *X) {
	const seed0 = 42
	ref := map[uint64][]uint64{}
	for _, s := range []uint64{seed0, 100, 101, 102, 103, 104, 105, 106, 107, 108} {
		ref[s] = refSeq(s, 64)
	}
	run := func(group string, progs [][]srcOp, bound int) {
		x.Case(group, func() string { return fmt.Sprintf("threads=%v preemptions<=%d", progs, bound) }, func(c *C) {
			var results [][][]uint64
			explore(c, scenario{cpus: 2, bound: bound, max: x.Pick(200000, 2000000), body: func() []float64 {
				src := base.NewLockedSource(seed0)
				res := make([][][]uint64, len(progs))
				var wg vsched.WaitGroup
				for ti := range progs {
					ti := ti
					res[ti] = make([][]uint64, len(progs[ti]))
					wg.Add(1)
					vsched.Go(func() {
						defer wg.Done()
						for k, op := range progs[ti] {
							switch op {
							case opDraw:
								res[ti][k] = []uint64{src.Uint64()}
							case opSeed:
								src.Seed(uint64(100 + ti*3 + k))
							case opWithLock:
								var v []uint64
								src.WithLock(func(s base.Source) {
									v = append(v, s.Uint64())
									vsched.Point()
									v = append(v, s.Uint64())
								})
								res[ti][k] = v
							case opClone:
								cl := src.SourceClone()
								r := rand.New(cl)
								v := []uint64{cl.Uint64()}
								vsched.Point()
								v = append(v, r.Uint64())
								cl.Seed(103)
								v = append(v, cl.Uint64())
								res[ti][k] = v
							}
						}
					})
				}
				wg.Wait()
				results = res
				final := []uint64{src.Uint64(), src.Uint64()}
				// some serial order must explain what was observed
				pos := make([]int, len(progs))
				var try func(m srcModel) bool
				at := func(m srcModel, i uint64) uint64 { return ref[m.seed][m.drawn+i] }
				try = func(m srcModel) bool {
					left := false
					for t := range progs {
						if pos[t] == len(progs[t]) {
							continue
						}
						left = true
						k := pos[t]
						n := m
						ok := true
						switch v := res[t][k]; progs[t][k] {
						case opDraw:
							ok = v[0] == at(m, 0)
							n.drawn++
						case opSeed:
							n = srcModel{uint64(100 + t*3 + k), 0}
						case opWithLock:
							ok = v[0] == at(m, 0) && v[1] == at(m, 1)
							n.drawn += 2
						case opClone:
							ok = v[0] == at(m, 0) && v[1] == at(m, 1) && v[2] == ref[103][0]
						}
						if ok {
							pos[t]++
							if try(n) {
								return true
							}
							pos[t]--
						}
					}
					return !left && final[0] == at(m, 0) && final[1] == at(m, 1)
				}
				if !try(srcModel{seed0, 0}) {
					panic(fmt.Sprintf("no serial order explains the observed values %v, then %v", res, final))
				}
				return []float64{1}
			}})
			_ = results
		})
	}
	var programs func(n int, f func(p []srcOp))
	programs = func(n int, f func(p []srcOp)) {
		p := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				q := make([]srcOp, n)
				for k := range p {
					q[k] = srcOp(p[k])
				}
				f(q)
				return
			}
			for v := 0; v < int(nSrcOps); v++ {
				p[i] = v
				rec(i + 1)
			}
		}
		rec(0)
	}
	const all = 1 << 20
	// sequential programs of length up to 6: one thread
	for n := 1; n <= x.Pick(5, 7); n++ {
		programs(n, func(p []srcOp) { run("one thread", [][]srcOp{p}, 0) })
	}
	programs(2, func(p []srcOp) { run("1+1, all schedules", [][]srcOp{p[:1], p[1:]}, all) })
	programs(3, func(p []srcOp) { run("2+1, all schedules", [][]srcOp{p[:2], p[2:]}, x.Pick(3, all)) })
	programs(4, func(p []srcOp) { run("2+2", [][]srcOp{p[:2], p[2:]}, x.Pick(2, 4)) })
	programs(3, func(p []srcOp) { run("1+1+1", [][]srcOp{p[:1], p[1:2], p[2:]}, x.Pick(2, 4)) })
	if x.Thorough() {
		programs(6, func(p []srcOp) { run("3+3", [][]srcOp{p[:3], p[3:]}, 2) })
		programs(5, func(p []srcOp) { run("2+2+1", [][]srcOp{p[:2], p[2:4], p[4:]}, 2) })
	}
	// seeds: the sequence is a function of the seed, for a fresh, a re-seeded and a cloned source
	for s := uint64(0); s < uint64(x.Pick(300, 5000)); s++ {
		s := s
		x.Case("seed", func() string { return fmt.Sprint("seed=", s) }, func(c *C) {
			want := refSeq(s, 8)
			a, b := base.NewLockedSource(s), base.NewLockedSource(s+1)
			b.Uint64()
			b.Seed(s)
			d := b.SourceClone()
			for i := range want {
				p, q, r := a.Uint64(), b.Uint64(), d.Uint64()
				c.Must(p == want[i] && q == p && r == p, "sequence", "draw %d of seed %d: %d, re-seeded %d, cloned %d, want %d", i, s, p, q, r, want[i])
				c.Steps(3)
			}
			c.Trace()
		})
	}
}

func init() {
	register("C01", "stateless exhaustive exploration of the real base.Parallelize under a controlled scheduler: every schedule up to the preemption bound (0 to 3) for every thread count, item count and CPU count within bounds, with happens-before race detection on each", c01,
		"schedules differ at synchronisation operations only; between them execution is atomic, which is complete for race-free executions, and each execution is race-checked")
	register("C02", "stateless exhaustive exploration of the real base.LockedSource: every program of draw/seed/locked section/clone within bounds on 1 to 3 threads, every schedule up to the stated preemption bound, each history checked against all serial orders", c02)
}
