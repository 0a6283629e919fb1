//go:build sched && C04

package main

import (
	"fmt"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verifmc/vsched"
)

// sprobe is an estimator whose every step is a scheduling point and whose fields are not synchronised: two
// workers sharing one is a data race, and an interleaving inside it shows in its predictions.
type sprobe struct {
	A        float64
	B        int
	root     *sprobe
	ev       *vsched.Counters
	clones   int
	fits     int
	sum      float64
	rows     []float64
	predicts int
}

func (p *sprobe) PredicterClone() base.Predicter {
	c := *p
	c.root = p
	c.fits, c.predicts = 0, 0
	c.rows = append([]float64(nil), p.rows...)
	p.ev.Count("clone")
	return &c
}
func (p *sprobe) IsClassifier() bool { return false }
func (p *sprobe) GetNOutputs() int   { return 1 }
func (p *sprobe) Fit(X, Y mat.Matrix) base.Fiter {
	p.fits++
	r, _ := X.Dims()
	p.rows = p.rows[:0]
	p.sum = 0
	for i := 0; i < r; i++ {
		p.rows = append(p.rows, X.At(i, 0))
		p.sum = p.sum*1.5 + X.At(i, 0)*float64(i+1) + 3*Y.At(i, 0)
	}
	vsched.Point()
	p.ev.Count(fmt.Sprintf("fit A=%g B=%d %v", p.A, p.B, p.rows))
	return p
}
func (p *sprobe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	r, _ := X.Dims()
	d := mat.NewDense(r, 1, nil)
	vsched.Point()
	p.predicts++
	for i := 0; i < r; i++ {
		d.Set(i, 0, (p.A-2)*(p.A-2)+float64(p.B)+p.sum/100+X.At(i, 0)/10)
	}
	return base.FromDense(Y, d)
}
func (p *sprobe) Score(X, Y mat.Matrix) float64 { return p.sum }

func mse(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }

type cvCase struct {
	name string
	mk   func(ev *vsched.Counters) base.Predicter
	grid map[string][]interface{}
	g    bool // gonum's optimizer runs its own goroutines
	lib  bool // explored for what its clones share: few splits, all first deviations
	clf  bool // the targets are labels
	tol  float64
}

func c04estimators() []cvCase {
	mk := func(f func() base.Predicter) func(*vsched.Counters) base.Predicter {
		return func(*vsched.Counters) base.Predicter { return f() }
	}
	probe := func(ev *vsched.Counters) base.Predicter { return &sprobe{A: 1, B: 2, ev: ev} }
	out := []cvCase{
		{name: "probe", mk: probe, grid: map[string][]interface{}{"A": {1., 2., 3.}, "B": {0, 1}}},
		{name: "probe one candidate", mk: probe, grid: map[string][]interface{}{"A": {5.}}},
		{name: "probe two candidates", mk: probe, grid: map[string][]interface{}{"A": {5., 2.}}},
		{name: "KNeighborsRegressor", mk: mk(func() base.Predicter { return neighbors.NewKNeighborsRegressor(1, "uniform") }), grid: map[string][]interface{}{"K": {1, 2}}},
		{name: "LinearRegression", mk: mk(func() base.Predicter { return linearmodel.NewLinearRegression() }), grid: map[string][]interface{}{"FitIntercept": {true, false}}},
		{name: "ElasticNet", mk: mk(func() base.Predicter { return linearmodel.NewElasticNet() }), grid: map[string][]interface{}{"Alpha": {.1, 1.}}},
		{name: "pipeline", mk: func(ev *vsched.Counters) base.Predicter {
			return pipeline.MakePipeline(preprocessing.NewStandardScaler(), &sprobe{A: 1, B: 2, ev: ev})
		}},
	}
	lib := func(c cvCase, f func() base.Predicter) {
		c.mk, c.lib = mk(f), true
		out = append(out, c)
	}
	lib(cvCase{name: "SGDRegressor", g: true, tol: 1e-3, grid: map[string][]interface{}{"Alpha": {.1, 1.}}}, func() base.Predicter { return linearmodel.NewSGDRegressor() })
	lib(cvCase{name: "SGDRegressor BFGS", g: true, tol: 1e-3}, func() base.Predicter {
		m := linearmodel.NewSGDRegressor()
		m.Method = &optimize.BFGS{Linesearcher: &optimize.Bisection{}}
		return m
	})
	lib(cvCase{name: "Ridge", g: true, tol: 1e-3, grid: map[string][]interface{}{"Alpha": {.1, 1.}}}, func() base.Predicter { return linearmodel.NewRidge() })
	lib(cvCase{name: "BayesianRidge"}, func() base.Predicter { return linearmodel.NewBayesianRidge() })
	lib(cvCase{name: "Lasso"}, func() base.Predicter { return linearmodel.NewLasso() })
	lib(cvCase{name: "LogisticRegression", g: true, clf: true, tol: 1e-3, grid: map[string][]interface{}{"Alpha": {.1, 1.}}}, func() base.Predicter {
		m := linearmodel.NewLogisticRegression()
		m.RandomState = base.NewLockedSource(3)
		m.MaxIter = 5
		return m
	})
	lib(cvCase{name: "KNeighborsClassifier", clf: true}, func() base.Predicter { return neighbors.NewKNeighborsClassifier(1, "distance") })
	lib(cvCase{name: "NearestCentroid", clf: true}, func() base.Predicter { return neighbors.NewNearestCentroid("euclidean", 0) })
	lib(cvCase{name: "GaussianNB", clf: true}, func() base.Predicter { return nb.NewGaussianNB(nil, 1e-2) })
	lib(cvCase{name: "KMeans", grid: map[string][]interface{}{"NClusters": {1, 2}}}, func() base.Predicter { return &cluster.KMeans{NClusters: 2, NJobs: 1} })
	lib(cvCase{name: "SVC", clf: true}, func() base.Predicter {
		m := svm.NewSVC()
		m.MaxIter, m.RandomState = 2, base.NewLockedSource(7)
		return m
	})
	lib(cvCase{name: "SVR"}, func() base.Predicter {
		m := svm.NewSVR()
		m.MaxIter, m.RandomState = 2, base.NewLockedSource(7)
		return m
	})
	lib(cvCase{name: "MLP adam", tol: 1e-6}, func() base.Predicter {
		m := nn.NewMLPRegressor([]int{2}, "tanh", "adam", 1e-2)
		m.RandomState, m.MaxIter = base.NewLockedSource(3), 2
		return m
	})
	lib(cvCase{name: "MLP classifier", clf: true, tol: 1e-6}, func() base.Predicter {
		m := nn.NewMLPClassifier([]int{2}, "relu", "sgd", 1e-2)
		m.RandomState, m.MaxIter = base.NewLockedSource(3), 2
		return m
	})
	lib(cvCase{name: "MLP lbfgs", g: true, tol: 1e-3}, func() base.Predicter {
		m := nn.NewMLPRegressor([]int{2}, "tanh", "lbfgs", 1e-2)
		m.RandomState, m.MaxIter = base.NewLockedSource(3), 3
		return m
	})
	lib(cvCase{name: "GaussianProcess", g: true, tol: 1e-3}, func() base.Predicter {
		m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1.5}, LengthScaleBounds: [][2]float64{{.1, 10}}})
		m.Alpha = []float64{1e-2}
		return m
	})
	for _, t := range []func() preprocessing.Transformer{
		func() preprocessing.Transformer { return preprocessing.NewMinMaxScaler([]float64{0, 1}) },
		func() preprocessing.Transformer { return preprocessing.NewDefaultRobustScaler() },
		func() preprocessing.Transformer { return preprocessing.NewQuantileTransformer(3, "uniform", nil) },
		func() preprocessing.Transformer { return preprocessing.NewPowerTransformer() },
		func() preprocessing.Transformer { return preprocessing.NewPCA() },
		func() preprocessing.Transformer { return preprocessing.NewPolynomialFeatures(2) },
		func() preprocessing.Transformer { return preprocessing.NewKBinsDiscretizer(2) },
		func() preprocessing.Transformer { return preprocessing.NewImputer() },
		func() preprocessing.Transformer { return preprocessing.NewNormalizer() },
		func() preprocessing.Transformer { return preprocessing.NewMaxAbsScaler() },
	} {
		t := t
		_, g := t().(*preprocessing.PowerTransformer)
		lib(cvCase{name: fmt.Sprintf("Pipeline %T", t()), g: g, tol: 1e-4}, func() base.Predicter {
			return pipeline.MakePipeline(t(), neighbors.NewKNeighborsRegressor(1, "uniform"))
		})
	}
	return out
}

func countsOf(ev *vsched.Counters) []string {
	var out []string
	for k, n := range ev.Get() {
		out = append(out, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(out)
	return out
}

// c04many runs one default schedule, race-checked, of searches with many rows, splits and candidates.
func c04many(x *X) {
	ests := []cvCase{
		{name: "probe", mk: func(ev *vsched.Counters) base.Predicter { return &sprobe{A: 1, B: 2, ev: ev} }, grid: map[string][]interface{}{"A": {1., 2., 3., 4., .5, 7.}, "B": {0, 1, 2, 3}}},
		{name: "KNeighborsRegressor", mk: func(*vsched.Counters) base.Predicter { return neighbors.NewKNeighborsRegressor(1, "uniform") }, grid: map[string][]interface{}{"K": {1, 2, 3, 4, 5, 6, 7, 8, 9}}},
		{name: "ElasticNet", mk: func(*vsched.Counters) base.Predicter { return linearmodel.NewElasticNet() }, grid: map[string][]interface{}{"Alpha": {.1, 1., .01, .5, .05, .2, 2., 3., .3}}},
	}
	for ei, e := range ests {
		for _, n := range []int{26, 110} {
			for _, k := range []int{5, 10, 17} {
				for _, cpus := range []int{2, 4} {
					for _, nj := range []int{-1, 2, 5, 16, 40} {
						ei, e, n, k, cpus, nj := ei, e, n, k, cpus, nj
						if n > 100 && (k == 10 || cpus == 2 || nj == 2 || nj == 5) {
							continue
						}
						XM, YM := schedX(n, 2), schedT(n, 1)
						split := func() ms.Splitter {
							return &ms.KFold{NSplits: k, Shuffle: true, RandomState: base.NewLockedSource(5)}
						}
						x.Case("cross-validation, many splits", func() string {
							return fmt.Sprintf("%s rows=%d splits=%d cpus=%d jobs=%d", e.name, n, k, cpus, nj)
						}, func(c *C) {
							c04one(c, cpus, nj, func(jobs int) []float64 {
								ev := &vsched.Counters{}
								est := ests[ei].mk(ev)
								res := ms.CrossValidate(est, mat.DenseCopyOf(XM), mat.DenseCopyOf(YM), nil, mse, split(), jobs)
								out := append([]float64(nil), res.TestScore...)
								for i, m := range res.Estimator {
									if m == base.Predicter(nil) || m == est {
										panic(fmt.Sprintf("split %d has no estimator of its own", i))
									}
									out = append(out, flat(m.Predict(XM, nil))...)
								}
								return out
							})
						})
						x.Case("grid-search, many candidates", func() string {
							return fmt.Sprintf("%s rows=%d splits=%d cpus=%d jobs=%d", e.name, n, k, cpus, nj)
						}, func(c *C) {
							c04one(c, cpus, nj, func(jobs int) []float64 {
								ev := &vsched.Counters{}
								gs := &ms.GridSearchCV{Estimator: ests[ei].mk(ev), ParamGrid: e.grid, Scorer: mse, LowerScoreIsBetter: true, CV: split(), NJobs: jobs, RandomState: base.NewLockedSource(5)}
								gs.Fit(mat.DenseCopyOf(XM), mat.DenseCopyOf(YM))
								out := []float64{float64(gs.BestIndex), gs.BestScore}
								var names []string
								for name := range e.grid {
									names = append(names, name)
								}
								sort.Strings(names)
								for _, name := range append(names, "score") {
									for _, v := range gs.CVResults[name] {
										switch w := v.(type) {
										case float64:
											out = append(out, w)
										case int:
											out = append(out, float64(w))
										default:
											panic(fmt.Sprintf("value %v (%T) among the candidates", v, v))
										}
									}
								}
								return append(out, flat(gs.BestEstimator.Predict(XM, nil))...)
							})
						})
					}
				}
			}
		}
	}
}

func c04one(c *C, cpus, nj int, run func(jobs int) []float64) {
	var want []float64
	if freeRun {
		want = run(1)
	} else {
		e := vsched.Run(1, false, 10000000, nil, func() { want = run(1) })
		for _, p := range e.Panics {
			c.Must(false, "panic", "on one CPU with one job: %s", trimPanic(p))
		}
		c.Must(e.Deadlock == "", "deadlock", "on one CPU with one job: %s", e.Deadlock)
	}
	c.Must(len(want) > 0, "no-result", "the reference run gave no result")
	explore(c, scenario{cpus: cpus, delays: 1, free: true, tol: 1e-9, want: want, body: func() []float64 { return run(nj) }})
}

func c04(x *X) {
	c04many(x)
	const n = 6
	XM := mat.NewDense(n, 1, []float64{1, 2.5, 4, 5.25, 7, 9.5})
	YM := mat.NewDense(n, 1, []float64{1, 3, 3.5, 6, 6.5, 10})
	LM := mat.NewDense(n, 1, []float64{1, -1, 1, -1, -1, 1})
	splitter := func(k, sh int) ms.Splitter {
		return &ms.KFold{NSplits: k, Shuffle: sh == 1, RandomState: base.NewLockedSource(5)}
	}
	for ei, e := range c04estimators() {
		ei, e := ei, e
		for k := 2; k <= x.Pick(3, 4); k++ {
			for sh := 0; sh < 2; sh++ {
				for cpus := 1; cpus <= 3; cpus++ {
					for _, nj := range []int{-1, 1, 2, 3, 4} {
						if nj > 0 && cpus > 1 && ei < 3 {
							continue // the number of CPUs does not matter to the probe
						}
						if e.lib && (k > 2 || sh == 1 || nj == 3 || nj == 4) && !x.Thorough() || e.lib && nj == 1 {
							continue
						}
						k, sh, cpus, nj := k, sh, cpus, nj
						YM := YM
						if e.clf {
							YM = LM
						}
						// cross-validation
						crossval := func(jobs int) []float64 {
							ev := &vsched.Counters{}
							est := c04estimators()[ei].mk(ev)
							res := ms.CrossValidate(est, mat.DenseCopyOf(XM), mat.DenseCopyOf(YM), nil, mse, splitter(k, sh), jobs)
							if len(res.TestScore) != k || len(res.Estimator) != k || len(res.FitTime) != k || len(res.ScoreTime) != k {
								panic(fmt.Sprintf("%d scores and %d estimators for %d splits", len(res.TestScore), len(res.Estimator), k))
							}
							out := append([]float64(nil), res.TestScore...)
							for i, m := range res.Estimator {
								if m == base.Predicter(nil) || m == est {
									panic(fmt.Sprintf("split %d has no estimator of its own", i))
								}
								for _, m2 := range res.Estimator[:i] {
									if m == m2 {
										panic("two splits share an estimator")
									}
								}
								out = append(out, flat(m.Predict(XM, nil))...)
								if p, ok := m.(*sprobe); ok {
									if p.fits != 1 {
										panic(fmt.Sprintf("the estimator of split %d was fitted %d times", i, p.fits))
									}
									out = append(out, p.rows...)
								}
							}
							if p, ok := est.(*sprobe); ok && (p.fits != 0 || p.rows != nil || p.A != 1 || p.predicts != 0) {
								panic("the given estimator was modified")
							}
							if !freeRun && e.name[0] == 'p' {
								for _, s := range ev.Get() {
									out = append(out, float64(s))
								}
								total := 0
								for key, v := range ev.Get() {
									if key != "clone" {
										total += v
									}
								}
								if total != k {
									panic(fmt.Sprintf("%d fits for %d splits: %v", total, k, countsOf(ev)))
								}
								sort.Float64s(out[len(out)-len(ev.Get()):])
							}
							return out
						}
						x.Case("cross-validation", func() string {
							return fmt.Sprintf("%s splits=%d shuffle=%d cpus=%d jobs=%d", e.name, k, sh, cpus, nj)
						}, func(c *C) { c04explore(c, x, e, cpus, crossval, nj) })
						if e.grid == nil {
							continue
						}
						for lower := 0; lower < 2; lower++ {
							if lower == 1 && ei > 0 {
								continue
							}
							lower := lower
							search := func(jobs int) []float64 {
								ev := &vsched.Counters{}
								est := c04estimators()[ei].mk(ev)
								gs := &ms.GridSearchCV{Estimator: est, ParamGrid: e.grid, Scorer: mse, LowerScoreIsBetter: lower == 1, CV: splitter(k, sh), NJobs: jobs, RandomState: base.NewLockedSource(5)}
								gs.Fit(mat.DenseCopyOf(XM), mat.DenseCopyOf(YM))
								nc := 1
								var names []string
								for name, v := range e.grid {
									nc *= len(v)
									names = append(names, name)
								}
								sort.Strings(names)
								out := []float64{float64(gs.BestIndex), gs.BestScore}
								val := func(v interface{}) float64 {
									switch w := v.(type) {
									case float64:
										return w
									case int:
										return float64(w)
									case bool:
										if w {
											return 1
										}
										return 0
									}
									panic(fmt.Sprintf("value %v (%T) among the candidates", v, v))
								}
								for _, name := range append(names, "score") {
									col := gs.CVResults[name]
									if len(col) != nc {
										panic(fmt.Sprintf("%d values of %s for %d candidates", len(col), name, nc))
									}
									for _, v := range col {
										out = append(out, val(v))
									}
								}
								for _, name := range names {
									out = append(out, val(gs.BestParams[name]))
								}
								out = append(out, flat(gs.BestEstimator.Predict(XM, nil))...)
								if p, ok := est.(*sprobe); ok {
									if p.fits != 0 || p.rows != nil || p.A != 1 || p.B != 2 || p.predicts != 0 {
										panic("the given estimator was modified")
									}
									if b := gs.BestEstimator.(*sprobe); b == p || b.fits != 1 {
										panic(fmt.Sprintf("the best estimator was fitted %d times", b.fits))
									}
									if !freeRun {
										total := 0
										for key, v := range ev.Get() {
											if key != "clone" {
												total += v
												if v != 1 && sh == 0 {
													panic(fmt.Sprintf("a fold of a candidate was evaluated %d times: %v", v, countsOf(ev)))
												}
											}
										}
										if total != nc*k {
											panic(fmt.Sprintf("%d fits for %d candidates and %d splits: %v", total, nc, k, countsOf(ev)))
										}
									}
								}
								return out
							}
							x.Case("grid-search", func() string {
								return fmt.Sprintf("%s splits=%d shuffle=%d cpus=%d jobs=%d lower=%d", e.name, k, sh, cpus, nj, lower)
							}, func(c *C) { c04explore(c, x, e, cpus, search, nj) })
						}
					}
				}
			}
		}
	}
}

func c04explore(c *C, x *X, e cvCase, cpus int, run func(jobs int) []float64, nj int) {
	var want []float64
	if freeRun {
		want = run(1)
	} else {
		e := vsched.Run(1, e.g, 1000000, nil, func() { want = run(1) })
		for _, p := range e.Panics {
			c.Must(false, "panic", "on one CPU with one job: %s", trimPanic(p))
		}
		c.Must(e.Deadlock == "", "deadlock", "on one CPU with one job: %s", e.Deadlock)
	}
	c.Must(len(want) > 0, "no-result", "the reference run gave no result")
	budget, delays := float64(x.Pick(2500, 150000)), 3
	if e.lib {
		budget, delays = float64(x.Pick(200, 20000)), x.Pick(1, 2)
	}
	explore(c, scenario{cpus: cpus, delays: delays, budget: budget, checkG: e.g, tol: e.tol, want: want, body: func() []float64 { return run(nj) }})
}

func init() {
	register("C04", "stateless exhaustive exploration, under a controlled scheduler, of the real CrossValidate and GridSearchCV.Fit with probe and library estimators: every job count, 1 to 3 CPUs, 2 to 4 splits, 1 to 6 candidates, every schedule within a delay bound of 1 to 3 (the largest whose size fits the tier), each execution race-checked and compared with the one-job, one-CPU run; fits are counted per fold and candidate; and one race-checked schedule of each search with up to 110 rows, 17 splits, 24 candidates and 40 jobs", c04)
}
