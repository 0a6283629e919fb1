//go:build all || C05 || C06 || C07

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"sync"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func collect(ch chan ms.Split) (out []ms.Split) {
	for s := range ch {
		out = append(out, s)
	}
	return
}

func seq(n int) M {
	m := make(M, n)
	for i := range m {
		m[i] = []float64{float64(i + 1), float64((i*i + 3) % 7), -float64(i)}
	}
	return m
}

func sources(kind int, seed uint64) base.RandomState {
	switch kind {
	case 0:
		return nil
	case 1:
		return base.NewSource(seed)
	case 2:
		return base.NewLockedSource(seed)
	default:
		return rand.New(base.NewLockedSource(seed))
	}
}

func c05(x *X) {
	maxN := x.Pick(14, 20)
	sizes := []int{31, 32, 33, 64, 65, 66, 100, 101, 130, 257}
	for n := 1; n <= maxN; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		for k := 0; k <= n+1; k++ {
			if n > maxN && !(k <= 7 || k == 10 || k == 16 || k == 33 || k >= n-1) {
				continue
			}
			for sh := 0; sh < 2; sh++ {
				for src := 0; src < 4; src++ {
					for seed := uint64(0); seed < uint64(x.Pick(24, 64)); seed++ {
						if src == 0 && seed > 2 || n > maxN && seed > 3 {
							continue
						}
						x.Case("kfold", func() string { return fmt.Sprintf("n=%d splits=%d shuffle=%d source=%d seed=%d", n, k, sh, src, seed) }, func(c *C) {
							X := seq(n).dense()
							before := toM(X)
							kf := &ms.KFold{NSplits: k, Shuffle: sh == 1, RandomState: sources(src, seed)}
							want := k
							if k <= 0 {
								want = 3
							}
							c.Must(kf.GetNSplits(X, nil) == want, "nsplits", "GetNSplits=%d, want %d", kf.GetNSplits(X, nil), want)
							clone := kf.SplitterClone()
							sp := collect(kf.Split(X, nil))
							c.Must(len(sp) == want, "count", "%d splits", len(sp))
							for i, s := range sp {
								nt := n / want
								if i < n%want {
									nt++
								}
								c.Must(len(s.TestIndex) == nt && len(s.TrainIndex) == n-nt, "size", "split %d: %d test, %d train of %d", i, len(s.TestIndex), len(s.TrainIndex), n)
								seen := make([]int, n)
								for _, q := range append(append([]int(nil), s.TrainIndex...), s.TestIndex...) {
									c.Must(q >= 0 && q < n, "range", "index %d", q)
									seen[q]++
								}
								for q, v := range seen {
									c.Must(v == 1, "partition", "split %d uses row %d %d times: %v", i, q, v, s)
								}
								c.Steps(1)
							}
							if src == 1 || src == 2 {
								c.Must(reflect.DeepEqual(collect(clone.Split(X, nil)), sp), "clone", "the clone's splits differ")
								kf2 := &ms.KFold{NSplits: k, Shuffle: sh == 1, RandomState: sources(src, seed)}
								c.Must(reflect.DeepEqual(collect(kf2.Split(X, nil)), sp), "seed", "the same seed gives other splits")
							}
							c.Must(nearM(toM(X), before, 0), "input", "the data changed")
							c.Trace()
						})
					}
				}
			}
		}
	}
	// histories on a splitter and its clone: split / clone in any order; the clone continues where the original was
	intTuples(4, 3, func(ops []int) {
		ops = append([]int(nil), ops...)
		for src := 1; src <= 2; src++ {
			for sh := 0; sh < 2; sh++ {
				x.Case("clone-history", func() string { return fmt.Sprintf("ops=%v source=%d shuffle=%d", ops, src, sh) }, func(c *C) {
					X := seq(5).dense()
					mk := func() *ms.KFold { return &ms.KFold{NSplits: 2, Shuffle: sh == 1, RandomState: sources(src, 7)} }
					// reference: the k-th call of Split on a fresh splitter
					ref := mk()
					var refs [][]ms.Split
					for i := 0; i < 5; i++ {
						refs = append(refs, collect(ref.Split(X, nil)))
					}
					var a, b ms.Splitter = mk(), nil
					na, nb := 0, 0
					for _, op := range ops {
						switch {
						case op == 0:
							c.Must(reflect.DeepEqual(collect(a.Split(X, nil)), refs[na]), "original", "call %d of the original", na)
							na++
						case op == 1:
							b, nb = a.SplitterClone(), na
						case op == 2 && b != nil:
							c.Must(reflect.DeepEqual(collect(b.Split(X, nil)), refs[nb]), "clone", "call %d of the clone", nb)
							nb++
						}
						c.Steps(1)
					}
					c.Trace()
				})
			}
		}
	})
	// the size of the test set for many row counts and shares
	for n := 2; n <= x.Pick(400, 2000); n++ {
		x.Case("testsize", func() string { return fmt.Sprintf("%d rows, every share", n) }, func(c *C) {
			X := mat.NewDense(n, 1, nil)
			for _, sz := range []float64{.1, .2, .25, .3, 1. / 3, .4, .5, .6, 2. / 3, .75, .9, 1 / float64(n), 1.5 / float64(n), float64(n-1) / float64(n), (float64(n/2) + 1e-6) / float64(n), (float64(n/2) - 1e-6) / float64(n), 2, float64(n - 1)} {
				tl := int(math.Ceil(float64(n) * sz))
				if sz > 1 {
					tl = int(sz)
				}
				if tl <= 0 || tl >= n {
					continue
				}
				xtr, xte, ytr, yte := ms.TrainTestSplit(X, X, sz, 1)
				c.Must(xte.RawMatrix().Rows == tl && yte.RawMatrix().Rows == tl && xtr.RawMatrix().Rows == n-tl && ytr.RawMatrix().Rows == n-tl, "size", "testsize %g: test %d/%d train %d/%d, want test %d", sz, xte.RawMatrix().Rows, yte.RawMatrix().Rows, xtr.RawMatrix().Rows, ytr.RawMatrix().Rows, tl)
				c.Steps(1)
			}
		})
	}
	for _, n := range sizes {
		if n < 2 {
			continue
		}
		for ts := 1; ts < 4*n; ts++ {
			if n > maxN && ts%17 > 1 {
				continue
			}
			size := float64(ts) / float64(4*n)
			for mode := 0; mode < 2; mode++ {
				if mode == 1 {
					if ts%4 != 0 || ts/4 < 2 || ts/4 >= n {
						continue
					}
					size = float64(ts / 4) // an absolute count
				}
				tl := int(math.Ceil(float64(n) * size))
				if mode == 1 {
					tl = ts / 4
				}
				if tl <= 0 || tl >= n {
					continue
				}
				for seed := uint64(0); seed < uint64(x.Pick(32, 128)); seed++ {
					if n > maxN && seed > 1 {
						break
					}
					for lay := 0; lay < 3; lay++ {
						sz := size
						x.Case("traintest", func() string { return fmt.Sprintf("n=%d testsize=%g seed=%d layout=%d", n, sz, seed, lay) }, func(c *C) {
							XM := seq(n)
							YM := make(M, n)
							for i := range YM {
								YM[i] = []float64{float64(100 + i), float64(200 + i), float64(300 + i)}[:1+(n+ts)%3]
							}
							mk := func(m M) mat.Matrix {
								switch lay {
								case 0:
									return m.dense()
								case 1:
									v, _ := viewOf(m)
									return v
								}
								return roMat{m}
							}
							X, Y := mk(XM), mk(YM)
							xtr, xte, ytr, yte := ms.TrainTestSplit(X, Y, sz, seed)
							r, _ := xte.Dims()
							r2, _ := yte.Dims()
							r3, _ := xtr.Dims()
							r4, _ := ytr.Dims()
							c.Must(r == tl && r2 == tl && r3 == n-tl && r4 == n-tl, "size", "test %d/%d train %d/%d want test %d of %d", r, r2, r3, r4, tl, n)
							seen := make([]int, n)
							chk := func(a, b *mat.Dense) {
								ra, _ := a.Dims()
								for i := 0; i < ra; i++ {
									k := int(a.At(i, 0)) - 1
									c.Must(k >= 0 && k < n && nearSlice(toM(a)[i], XM[k], 0), "row", "row %v is not a row of X", toM(a)[i])
									c.Must(nearSlice(toM(b)[i], YM[k], 0), "aligned", "row %d of X goes with Y %v", k, toM(b)[i])
									seen[k]++
								}
							}
							chk(xtr, ytr)
							chk(xte, yte)
							for k, v := range seen {
								c.Must(v == 1, "partition", "row %d appears %d times", k, v)
							}
							a, b, d, e := ms.TrainTestSplit(X, Y, sz, seed)
							c.Must(nearMat(a, xtr, 0) && nearMat(b, xte, 0) && nearMat(d, ytr, 0) && nearMat(e, yte, 0), "seed", "the same seed gives another split")
							c.Must(nearM(toM(X), XM, 0) && nearM(toM(Y), YM, 0), "input", "the data changed")
							c.Steps(2)
							c.Trace()
						})
					}
				}
			}
		}
	}
}

// ---- C06 --------------------------------------------------------------------------------------

// fixedSplit is a user's own splitter: any sequence of index sets.
type fixedSplit struct{ s []ms.Split }

func (f fixedSplit) Split(X, Y *mat.Dense) chan ms.Split {
	ch := make(chan ms.Split)
	go func() {
		for _, s := range f.s {
			ch <- s
		}
		close(ch)
	}()
	return ch
}
func (f fixedSplit) GetNSplits(X, Y *mat.Dense) int { return len(f.s) }
func (f fixedSplit) SplitterClone() ms.Splitter     { return f }

func checkCV(c *C, XM, YM M, cv ms.Splitter, splits []ms.Split, jobs int, lay int) {
	mk := func(m M) *mat.Dense {
		switch lay {
		case 1:
			v, _ := viewOf(m)
			return v
		case 2:
			return tightView(m)
		}
		return m.dense()
	}
	X, Y := mk(XM), mk(YM)
	est := newProbe(1.5, 3, "s")
	var mu sync.Mutex
	type call struct{ t, p M }
	var calls []call
	scorer := func(Yt, Yp mat.Matrix) float64 {
		a, b := toM(Yt), toM(Yp)
		mu.Lock()
		calls = append(calls, call{a, b})
		mu.Unlock()
		s := 0.
		for i := range a {
			for j := range a[i] {
				s += (a[i][j]*3 + b[i][j]) * float64(i+1)
			}
		}
		return s
	}
	res := ms.CrossValidate(est, X, Y, nil, scorer, cv, jobs)
	c.Must(len(res.TestScore) == len(splits) && len(res.Estimator) == len(splits) && len(res.FitTime) == len(splits) && len(res.ScoreTime) == len(splits), "lengths", "%d scores, %d estimators for %d splits", len(res.TestScore), len(res.Estimator), len(splits))
	c.Must(len(calls) == len(splits), "scored-once", "%d scorer calls for %d splits", len(calls), len(splits))
	ids := map[int64]bool{}
	for k, s := range splits {
		xt, yt, xe, ye := XM.rows(s.TrainIndex...), YM.rows(s.TrainIndex...), XM.rows(s.TestIndex...), YM.rows(s.TestIndex...)
		p := res.Estimator[k].(*probe)
		c.Must(p != est && !ids[p.id], "own-copy", "split %d shares its estimator", k)
		ids[p.id] = true
		c.Must(p.A == 1.5 && p.B == 3 && p.S == "s", "params", "split %d: %v", k, p)
		c.Must(len(p.fits) == 1 && p.fits[0] == xt.String()+"|"+yt.String(), "fit-rows", "split %d was fitted on %v, want %s|%s", k, p.fits, xt, yt)
		pred := zerosM(len(xe), len(YM[0]), 0)
		want := 0.
		for i := range xe {
			for o := range pred[i] {
				pred[i][o] = probeValue(1.5, 3, xt, yt, xe[i], o)
				want += (ye[i][o]*3 + pred[i][o]) * float64(i+1)
			}
		}
		c.Must(near(res.TestScore[k], want, 1e-9), "score", "split %d score %g want %g", k, res.TestScore[k], want)
		// the returned estimator still is the one fitted on this split
		c.Must(nearM(toM(p.keepX), xt, 0) && nearM(toM(p.keepY), yt, 0), "estimator-kept", "the data split %d's estimator was fitted on changed under it: %v want %v", k, toM(p.keepX), xt)
		c.Must(nearM(toM(p.Predict(xe.dense(), nil)), pred, 1e-9), "estimator-predict", "split %d", k)
		c.Steps(3)
	}
	c.Must(len(est.fits) == 0 && est.A == 1.5 && est.keepX == nil, "estimator-unchanged", "the estimator passed in was used")
	c.Must(nearM(toM(X), XM, 0) && nearM(toM(Y), YM, 0), "input", "the data changed")
	c.Trace()
}

func c06(x *X) {
	maxN := x.Pick(9, 12)
	sizes := []int{33, 65, 130, 257}
	for n := 2; n <= maxN; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		for k := 2; k <= n; k++ {
			if n > maxN && k != 2 && k != 3 && k != 5 && k != 10 && k != 33 {
				continue
			}
			for sh := 0; sh < 2; sh++ {
				for seed := uint64(1); seed <= uint64(x.Pick(8, 16)); seed++ {
					for _, jobs := range []int{-1, 1, 2, 3, 8} {
						for no := 1; no <= 2; no++ {
							for lay := 0; lay < 3; lay++ {
								if n > maxN && (seed > 2 || k > 20 && seed > 1) {
									continue
								}
								x.Case("kfold", func() string {
									return fmt.Sprintf("n=%d splits=%d shuffle=%d seed=%d jobs=%d outputs=%d layout=%d", n, k, sh, seed, jobs, no, lay)
								}, func(c *C) {
									XM, YM := seq(n), zerosM(n, no, 0)
									for i := range YM {
										for j := range YM[i] {
											YM[i][j] = float64((i+1)*(j+5)%11) / 2
										}
									}
									kf := &ms.KFold{NSplits: k, Shuffle: sh == 1, RandomState: base.NewLockedSource(seed)}
									splits := collect(kf.SplitterClone().Split(XM.dense(), nil))
									checkCV(c, XM, YM, kf, splits, jobs, lay)
								})
							}
						}
					}
				}
			}
		}
	}
	// any user-defined splitter: every pair of non-empty disjoint train/test sets of 4 rows
	var pool []ms.Split
	intTuples(4, 3, func(v []int) {
		var s ms.Split
		for i, w := range v {
			if w == 0 {
				s.TrainIndex = append(s.TrainIndex, i)
			} else if w == 1 {
				s.TestIndex = append(s.TestIndex, i)
			}
		}
		if len(s.TrainIndex) > 0 && len(s.TestIndex) > 0 {
			pool = append(pool, s)
		}
	})
	for a := range pool {
		for b := range pool {
			if false {
				continue
			}
			for _, jobs := range []int{1, 2} {
				x.Case("custom", func() string { return fmt.Sprintf("splits=%v jobs=%d", []ms.Split{pool[a], pool[b]}, jobs) }, func(c *C) {
					YM := M{{1}, {0.5}, {-2}, {4}}
					checkCV(c, seq(4), YM, fixedSplit{[]ms.Split{pool[a], pool[b], pool[a]}}, []ms.Split{pool[a], pool[b], pool[a]}, jobs, 0)
				})
			}
		}
	}
	// the default splitter
	for _, jobs := range []int{-1, 1, 3} {
		for n := 3; n <= 6; n++ {
			x.Case("default-splitter", func() string { return fmt.Sprintf("n=%d jobs=%d", n, jobs) }, func(c *C) {
				XM := seq(n)
				YM := zerosM(n, 1, 1)
				for i := range YM {
					YM[i][0] = float64(i)
				}
				res := ms.CrossValidate(newProbe(1, 1, ""), XM.dense(), YM.dense(), nil, func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, nil, jobs)
				c.Must(len(res.TestScore) == 3, "default", "%d splits", len(res.TestScore))
				res = ms.CrossValidate(newProbe(1, 1, ""), XM.dense(), YM.dense(), nil, func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, &ms.KFold{}, jobs)
				c.Must(len(res.TestScore) == 3, "default-kfold", "%d splits", len(res.TestScore))
				for _, e := range res.Estimator {
					c.Must(e != nil, "default-estimator", "missing estimator")
				}
				c.Steps(2)
			})
		}
	}
	// sorting the result keeps the columns together and orders by score, best first
	permutations(4, func(p []int) {
		x.Case("sort", func() string { return fmt.Sprint(p) }, func(c *C) {
			var r ms.CrossValidateResult
			for _, v := range p {
				r.TestScore = append(r.TestScore, float64(v))
				r.FitTime = append(r.FitTime, 100)
				r.ScoreTime = append(r.ScoreTime, 100)
				r.Estimator = append(r.Estimator, newProbe(float64(v), 0, ""))
			}
			sort.Sort(r)
			for i := range p {
				c.Must(r.TestScore[i] == float64(3-i) && r.Estimator[i].(*probe).A == float64(3-i), "sorted", "%v", r.TestScore)
			}
			c.Steps(1)
		})
	})
}

// ---- C07 --------------------------------------------------------------------------------------

func c07(x *X) {
	// the grid itself
	type dim struct {
		name string
		n    int
	}
	for na := 0; na <= 3; na++ {
		for nb := 0; nb <= 3; nb++ {
			for ns := 0; ns <= 3; ns++ {
				for used := 1; used < 8; used++ {
					x.Case("grid", func() string { return fmt.Sprintf("a=%d b=%d s=%d used=%d", na, nb, ns, used) }, func(c *C) {
						for rep := 0; rep < 4; rep++ { // the map's iteration order varies
							g := map[string][]interface{}{}
							total := 1
							add := func(bit int, name string, n int, f func(i int) interface{}) {
								if used&bit == 0 {
									return
								}
								vals := []interface{}{}
								for i := 0; i < n; i++ {
									vals = append(vals, f(i))
								}
								g[name] = vals
								total *= n
							}
							add(1, "A", na, func(i int) interface{} { return float64(i) / 2 })
							add(2, "B", nb, func(i int) interface{} { return i * 10 })
							add(4, "S", ns, func(i int) interface{} { return string(rune('p' + i)) })
							out := ms.ParameterGrid(g)
							c.Must(len(out) == total, "size", "%d combinations, want %d: %v", len(out), total, out)
							seen := map[string]bool{}
							for _, m := range out {
								c.Must(len(m) == len(g), "keys", "%v", m)
								for k, v := range m {
									ok := false
									for _, w := range g[k] {
										ok = ok || w == v
									}
									c.Must(ok, "value", "%s=%v", k, v)
								}
								key := fmt.Sprint(m["A"], "/", m["B"], "/", m["S"])
								c.Must(!seen[key], "duplicate", "%s", key)
								seen[key] = true
							}
							c.Steps(1)
						}
						c.Trace()
					})
				}
			}
		}
	}
	// every assignment of scores to candidates
	type gridSpec struct{ na, nb int }
	for _, gs := range []gridSpec{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}, {1, 7}} {
		nc := gs.na * gs.nb
		levels := 3
		intTuples(nc, levels, func(lv []int) {
			lv = append([]int(nil), lv...)
			for lower := 0; lower < 2; lower++ {
				for _, jobs := range []int{1, 2, -1} {
					x.Case("search", func() string {
						return fmt.Sprintf("grid=%dx%d scores=%v lower=%d jobs=%d", gs.na, gs.nb, lv, lower, jobs)
					}, func(c *C) {
						runSearch(c, gs.na, gs.nb, lv, lower == 1, jobs, true, false)
					})
					if jobs < 0 {
						continue
					}
					x.Case("search again", func() string {
						return fmt.Sprintf("second fit grid=%dx%d scores=%v lower=%d jobs=%d", gs.na, gs.nb, lv, lower, jobs)
					}, func(c *C) {
						runSearch(c, gs.na, gs.nb, lv, lower == 1, jobs, true, true)
					})
				}
			}
		})
	}
	// every kind of parameter: text, any value, switches, numbers given as another numeric type
	sv, ov, av, fv := []interface{}{"x", "yy", ""}, []interface{}{1, "z", 2.5, true}, []interface{}{float32(.5), 300, 2.25, -70001}, []interface{}{true, false}
	for used := 1; used < 16; used++ {
		for rot := 0; rot < 4; rot++ {
			for _, jobs := range []int{1, 2} {
				used, rot, jobs := used, rot, jobs
				x.Case("parameter kinds", func() string { return fmt.Sprintf("kinds=%04b first=%d jobs=%d", used, rot, jobs) }, func(c *C) {
					grid := map[string][]interface{}{}
					total := 1
					add := func(bit int, k string, v []interface{}) {
						if used&bit != 0 {
							for i := range v {
								grid[k] = append(grid[k], v[(i+rot)%len(v)])
							}
							total *= len(v)
						}
					}
					add(1, "s", sv)
					add(2, "OPT", ov)
					add(4, "a", av)
					add(8, "Flag", fv)
					est := &kindProbe{probe: *newProbe(7, 3, "keep")}
					est.Opt = "opt"
					code := func(s string, o interface{}, a float64, f bool) float64 {
						t := a * 1000
						for i, ch := range fmt.Sprintf("%s|%T%v|%v", s, o, o, f) {
							t += float64(int(ch) * (i + 1))
						}
						return t
					}
					var mu sync.Mutex
					got := map[float64]int{}
					gs := &ms.GridSearchCV{Estimator: est, ParamGrid: grid, NJobs: jobs, CV: &ms.KFold{NSplits: 2}, Scorer: func(Yt, Yp mat.Matrix) float64 {
						mu.Lock()
						got[Yp.At(0, 0)]++
						mu.Unlock()
						return Yp.At(0, 0)
					}}
					gs.Fit(seq(4).dense(), seq(4).dense())
					c.Steps(total)
					c.Trace()
					rows := len(gs.CVResults["score"])
					c.Must(rows == total, "rows", "%d rows of %d combinations", rows, total)
					best := math.Inf(-1)
					for i := 0; i < rows; i++ {
						s, o, a, f := "keep", interface{}("opt"), 7., false
						if v, ok := gs.CVResults["s"]; ok {
							s = v[i].(string)
						}
						if v, ok := gs.CVResults["OPT"]; ok {
							o = v[i]
						}
						if v, ok := gs.CVResults["a"]; ok {
							switch w := v[i].(type) {
							case float32:
								a = float64(w)
							case int:
								a = float64(w)
							case float64:
								a = w
							}
						}
						if v, ok := gs.CVResults["Flag"]; ok {
							f = v[i].(bool)
						}
						w := code(s, o, a, f)
						best = math.Max(best, w)
						c.Must(got[w] >= 2 && near(gs.CVResults["score"][i].(float64), w, 1e-12), "row-score", "row %d (%q %v %g %v): score %v", i, s, o, a, f, gs.CVResults["score"][i])
					}
					be := gs.BestEstimator.(*kindProbe)
					c.Must(near(gs.BestScore, best, 1e-12) && near(code(be.S, be.Opt, be.A, be.Flag), best, 1e-12) && be.B == 3, "best-estimator", "best %g, the best estimator has %q %v %g %v", best, be.S, be.Opt, be.A, be.Flag)
					c.Must(est.S == "keep" && est.A == 7 && est.Opt == interface{}("opt") && !est.Flag, "estimator-unchanged", "%v", est)
				})
			}
		}
	}
	// defaults: no splitter, no random state, every order of fit calls
	for _, jobs := range []int{1, 3, -1} {
		for lower := 0; lower < 2; lower++ {
			x.Case("default-cv", func() string { return fmt.Sprintf("jobs=%d lower=%d", jobs, lower) }, func(c *C) {
				runSearch(c, 2, 2, []int{1, 3, 0, 2}, lower == 1, jobs, false, false)
			})
		}
	}
}

func runSearch(c *C, na, nb int, lv []int, lower bool, jobs int, ownCV, again bool) {
	n := 6
	XM, YM := seq(n), zerosM(n, 1+(na+lv[0])%3, 0)
	for i := range YM {
		YM[i][0] = float64(i)
	}
	est := newProbe(-7, -7, "keep")
	as, bs := []interface{}{}, []interface{}{}
	for i := 0; i < na; i++ {
		if i%2 == 1 {
			as = append(as, i) // an int for a float field
		} else {
			as = append(as, float64(i))
		}
	}
	for i := 0; i < nb; i++ {
		bs = append(bs, i)
	}
	scoreOf := func(a, b int) float64 { return float64(lv[a*nb+b]) }
	// the score depends on the candidate (through the probe's parameters) and on the fold (through Ytrue)
	type key struct{ a, b int }
	evals := map[key][]string{}
	var mu sync.Mutex
	scorer := func(Yt, Yp mat.Matrix) float64 {
		a, b := int(Yp.At(0, 0)), int(Yp.At(0, 1))
		fold := 0.
		r, _ := Yt.Dims()
		s := ""
		for i := 0; i < r; i++ {
			fold += Yt.At(i, 0)
			s += fmt.Sprint(Yt.At(i, 0), ",")
		}
		mu.Lock()
		evals[key{a, b}] = append(evals[key{a, b}], s)
		mu.Unlock()
		return scoreOf(a, b)*64 + fold
	}
	gs := &ms.GridSearchCV{Estimator: &gridProbe{probe: *est}, ParamGrid: map[string][]interface{}{"A": as, "b": bs}, Scorer: scorer, LowerScoreIsBetter: lower, NJobs: jobs}
	if again { // an earlier search over another grid, with better scores than any to come
		gs.ParamGrid = map[string][]interface{}{"A": {8., 9.}, "b": {8, 9, 10, 11}}
		gs.Scorer = func(Yt, Yp mat.Matrix) float64 {
			if lower {
				return -1e6 * Yp.At(0, 1)
			}
			return 1e6 * Yp.At(0, 1)
		}
		gs.CV = &ms.KFold{NSplits: 3, RandomState: base.NewLockedSource(3)}
		gs.Fit(seq(7).dense(), seq(7).dense())
		gs.ParamGrid, gs.Scorer = map[string][]interface{}{"A": as, "b": bs}, scorer
	}
	var splits []ms.Split
	if ownCV {
		kf := &ms.KFold{NSplits: 2, Shuffle: true, RandomState: base.NewLockedSource(3)}
		splits = collect(kf.SplitterClone().Split(XM.dense(), nil))
		gs.CV = kf
	} else {
		kf := &ms.KFold{NSplits: 3, Shuffle: true, RandomState: base.NewSource(0)}
		splits = collect(kf.Split(XM.dense(), nil))
	}
	X, Y := XM.dense(), YM.dense()
	c.Must(gs.Fit(X, Y) == base.Fiter(gs), "fit-result", "Fit returned another object")
	total := na * nb
	mean := func(a, b int) float64 {
		s := 0.
		for _, sp := range splits {
			f := 0.
			for _, q := range sp.TestIndex {
				f += YM[q][0]
			}
			s += scoreOf(a, b)*64 + f
		}
		return s / float64(len(splits))
	}
	c.Must(len(gs.CVResults["score"]) == total && len(gs.CVResults["A"]) == total && len(gs.CVResults["b"]) == total, "rows", "%d rows", len(gs.CVResults["score"]))
	toi := func(v interface{}) int {
		switch w := v.(type) {
		case int:
			return w
		case float64:
			return int(w)
		}
		return -99
	}
	seen := map[key]bool{}
	best := math.Inf(-1)
	if lower {
		best = math.Inf(1)
	}
	for i := 0; i < total; i++ {
		k := key{toi(gs.CVResults["A"][i]), toi(gs.CVResults["b"][i])}
		c.Must(k.a >= 0 && k.a < na && k.b >= 0 && k.b < nb && !seen[k], "row-params", "row %d: %v", i, k)
		seen[k] = true
		s := gs.CVResults["score"][i].(float64)
		c.Must(near(s, mean(k.a, k.b), 1e-12), "row-score", "row %d (%v): score %g want %g", i, k, s, mean(k.a, k.b))
		if (lower && s < best) || (!lower && s > best) {
			best = s
		}
		c.Must(len(evals[k]) == len(splits), "evaluated-once", "%v was scored %d times for %d splits", k, len(evals[k]), len(splits))
	}
	c.Must(gs.BestScore == best, "best-score", "%g want %g", gs.BestScore, best)
	c.Must(gs.BestIndex >= 0 && gs.BestIndex < total && gs.CVResults["score"][gs.BestIndex].(float64) == best, "best-index", "%d", gs.BestIndex)
	for i := 0; i < gs.BestIndex; i++ {
		c.Must(gs.CVResults["score"][i].(float64) != best, "best-first", "row %d comes before row %d and is as good", i, gs.BestIndex)
	}
	bk := key{toi(gs.CVResults["A"][gs.BestIndex]), toi(gs.CVResults["b"][gs.BestIndex])}
	c.Must(len(gs.BestParams) == 2 && toi(gs.BestParams["A"]) == bk.a && toi(gs.BestParams["b"]) == bk.b, "best-params", "%v at %v", gs.BestParams, bk)
	be := gs.BestEstimator.(*gridProbe)
	c.Must(be.A == float64(bk.a) && be.B == bk.b && be.S == "keep", "best-estimator", "%v, want %v", be, bk)
	// it was fitted once, on the training rows of the split with its best score
	bf := -1
	fs := func(sp ms.Split) float64 {
		f := 0.
		for _, q := range sp.TestIndex {
			f += YM[q][0]
		}
		return f
	}
	for i, sp := range splits {
		if bf < 0 || (lower && fs(sp) < fs(splits[bf])) || (!lower && fs(sp) > fs(splits[bf])) {
			bf = i
		}
	}
	c.Must(len(be.fits) == 1, "best-fitted", "%d fits", len(be.fits))
	ok := false
	for _, sp := range splits[bf : bf+1] {
		if be.fits[0] == XM.rows(sp.TrainIndex...).String()+"|"+YM.rows(sp.TrainIndex...).String() {
			ok = true
		}
	}
	c.Must(ok, "best-fold", "the best estimator was fitted on %s", be.fits[0])
	// delegation
	c.Must(nearMat(gs.Predict(X, nil), be.Predict(X, nil), 0), "predict", "prediction differs from the best estimator's")
	out := mat.NewDense(n, 2, nil)
	gs.Predict(X, out)
	c.Must(nearMat(out, be.Predict(X, nil), 0), "predict-into", "prediction differs from the best estimator's")
	c.Must(gs.Score(X, Y) == be.Score(X, Y), "score", "score differs from the best estimator's")
	c.Must(gs.GetNOutputs() == len(YM[0]), "noutputs", "%d", gs.GetNOutputs())
	c.Must(!gs.IsClassifier(), "classifier", "a regressor's search claims to be a classifier")
	oe := gs.Estimator.(*gridProbe)
	c.Must(oe.A == -7 && oe.B == -7 && len(oe.fits) == 0, "estimator-unchanged", "%v", oe)
	c.Must(nearM(toM(X), XM, 0) && nearM(toM(Y), YM, 0), "input", "the data changed")
	c.Steps(total)
	c.Trace()
}

// gridProbe predicts its own parameters, so that a scorer can tell the candidates apart.
type gridProbe struct{ probe }

func (p *gridProbe) Fit(X, Y mat.Matrix) base.Fiter { p.probe.Fit(X, Y); return p }
func (p *gridProbe) GetNOutputs() int               { return 2 }
func (p *gridProbe) PredicterClone() base.Predicter {
	return &gridProbe{probe: *(p.probe.PredicterClone().(*probe))}
}
func (p *gridProbe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	r, _ := X.Dims()
	d := mat.NewDense(r, 2, nil)
	for i := 0; i < r; i++ {
		d.Set(i, 0, p.A)
		d.Set(i, 1, float64(p.B))
	}
	return base.FromDense(Y, d)
}

// kindProbe predicts a code of all its parameters.
type kindProbe struct {
	probe
	Flag bool
}

func (p *kindProbe) Fit(X, Y mat.Matrix) base.Fiter { p.probe.Fit(X, Y); return p }
func (p *kindProbe) PredicterClone() base.Predicter {
	return &kindProbe{probe: *(p.probe.PredicterClone().(*probe)), Flag: p.Flag}
}
func (p *kindProbe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	r, _ := X.Dims()
	d := mat.NewDense(r, 1, nil)
	t := p.A * 1000
	for i, ch := range fmt.Sprintf("%s|%T%v|%v", p.S, p.Opt, p.Opt, p.Flag) {
		t += float64(int(ch) * (i + 1))
	}
	for i := 0; i < r; i++ {
		d.Set(i, 0, t)
	}
	return base.FromDense(Y, d)
}

func init() {
	register("C05", "every row count, split count, shuffle switch, source kind and seed up to the bound; every test size in quarter-row steps; every history of split/clone calls of length 4", c05,
		"row counts and seeds up to the bound")
	register("C06", "every row count, split count, shuffle, seed, job count, output count and layout up to the bound with a recording estimator; every pair of train/test sets of 4 rows through a custom splitter", c06,
		"the estimator is a recording probe; schedules are C04's subject")
	register("C07", "every grid shape up to 3x3x3 and every assignment of score levels to the candidates of grids up to 3x2, both directions, three job counts, also as the second search of one object; every combination of parameter kinds", c07,
		"the estimator is a recording probe that predicts its own parameters")
}
