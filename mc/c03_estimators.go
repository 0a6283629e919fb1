//go:build sched && (C03 || C04)

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/datasets"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"verifmc/vsched"
)

// flat appends every value of its arguments.
func flat(args ...interface{}) (out []float64) {
	for _, a := range args {
		switch v := a.(type) {
		case nil:
		case *mat.Dense:
			if v == nil || v.IsEmpty() {
				continue
			}
			r, c := v.Dims()
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					out = append(out, v.At(i, j))
				}
			}
		case []float64:
			out = append(out, v...)
		case []int:
			for _, w := range v {
				out = append(out, float64(w))
			}
		case [][]float64:
			for _, w := range v {
				out = append(append(out, float64(len(w))), w...)
			}
		case [][]int:
			for _, w := range v {
				out = append(out, float64(len(w)))
				for _, z := range w {
					out = append(out, float64(z))
				}
			}
		case float64:
			out = append(out, v)
		case int:
			out = append(out, float64(v))
		case []*mat.Dense:
			for _, w := range v {
				out = append(out, flat(w)...)
			}
		default:
			panic(fmt.Sprintf("flat: %T", a))
		}
	}
	return
}

// tie-free data
func schedX(n, m int) *mat.Dense {
	d := make([]float64, n*m)
	for i := range d {
		d[i] = math.Mod(float64(i*i*7+3*i)*0.37+float64(i%m)*1.9, 10)
		if n > 9 { // no ties
			d[i] += .004 * math.Sin(float64(i))
		}
	}
	return mat.NewDense(n, m, d)
}
func schedY(n, k, classes int) *mat.Dense {
	Y := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			Y.Set(i, j, float64((i+j*(i/2))%classes))
		}
	}
	return Y
}
func schedT(n, k int) *mat.Dense {
	X := schedX(n, 2)
	Y := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			Y.Set(i, j, X.At(i, 0)*float64(j+1)-0.5*X.At(i, 1)+0.1*math.Sin(float64(3*i+j)))
		}
	}
	return Y
}

type job struct {
	name string
	g    bool    // gonum's optimizer runs its own goroutines
	jobs bool    // has a number of jobs
	tol  float64 // comparison tolerance
	run  func(jobs int) []float64
}

func c03jobs(n int) []job {
	nq, ncl := 3, 2
	X, Q := func() *mat.Dense { return schedX(n, 2) }, func() *mat.Dense { return mat.NewDense(3, 2, []float64{1.1, 7.3, 4.2, 0.4, 9.6, 5.05}) }
	if n > 9 { // many rows, clusters and classes
		nq, ncl = n-3, 2+n/16
		Q = func() *mat.Dense {
			d := schedX(nq, 2)
			d.Apply(func(i, j int, v float64) float64 { return v*.9 + .01*math.Cos(float64(3*i+j)) }, d)
			return d
		}
	}
	var js []job
	add := func(name string, g, jobs bool, run func(jobs int) []float64) {
		js = append(js, job{name: name, g: g, jobs: jobs, run: run})
	}
	for _, algo := range []string{"brute", "kd_tree"} {
		algo := algo
		mk := func(jobs int) *neighbors.NearestNeighbors {
			m := neighbors.NewNearestNeighbors()
			m.Algorithm, m.LeafSize, m.NJobs = algo, 2, jobs
			m.Fit(X(), nil)
			return m
		}
		add("NearestNeighbors.KNeighbors "+algo, false, true, func(jobs int) []float64 {
			d, i := mk(jobs).KNeighbors(Q(), 2)
			return flat(d, i)
		})
		add("NearestNeighbors.RadiusNeighbors "+algo, false, true, func(jobs int) []float64 {
			d, i := mk(jobs).RadiusNeighbors(Q(), 5)
			return flat(d, i)
		})
		add("NearestNeighbors.KNeighborsGraph "+algo, false, true, func(jobs int) []float64 {
			return flat(mk(jobs).KNeighborsGraph(X(), 2, "distance", true))
		})
	}
	add("KDTree.Query", false, false, func(int) []float64 {
		d, i := neighbors.NewKDTree(schedX(n, 3), 1).Query(schedX(nq, 3), 2, 0, 2, math.Inf(1))
		return flat(d, i)
	})
	for _, w := range []string{"uniform", "distance"} {
		w := w
		add("KNeighborsClassifier "+w, false, false, func(int) []float64 {
			m := neighbors.NewKNeighborsClassifier(3, w)
			m.Fit(X(), schedY(n, 2, ncl))
			P := m.Predict(Q(), nil)
			score := m.Score(X(), schedY(n, 2, ncl))
			m.Fit(X(), schedY(n, 1, ncl))
			PP := mat.NewDense(nq, ncl, nil)
			m.PredictProba(Q(), PP)
			return flat(P, PP, score)
		})
		add("KNeighborsRegressor "+w, false, false, func(int) []float64 {
			m := neighbors.NewKNeighborsRegressor(3, w)
			m.Fit(X(), schedT(n, 2))
			return flat(m.Predict(Q(), nil))
		})
	}
	for _, metric := range []string{"euclidean", "manhattan"} {
		metric := metric
		add("NearestCentroid "+metric, false, false, func(int) []float64 {
			m := neighbors.NewNearestCentroid(metric, 0)
			m.Fit(X(), schedY(n, 1, ncl))
			return flat(m.Predict(Q(), nil), m.Centroids)
		})
	}
	add("KMeans", false, true, func(jobs int) []float64 {
		m := &cluster.KMeans{NClusters: ncl, NJobs: jobs}
		m.Fit(X(), nil)
		return flat(m.Centroids, m.Predict(Q(), nil), m.Predict(X(), nil))
	})
	add("DBSCAN", false, true, func(jobs int) []float64 {
		m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 4, MinSamples: 2, Metric: "euclidean", P: 2, LeafSize: 2, NJobs: jobs})
		m.Fit(X(), nil)
		return flat(m.Labels, m.CoreSampleIndices)
	})
	add("GaussianNB", false, false, func(int) []float64 {
		m := nb.NewGaussianNB(nil, 1e-9)
		m.Fit(X(), schedY(n, 1, ncl))
		P := m.Predict(Q(), nil)
		return flat(P, m.Theta, m.Sigma, m.PredictProbas(Q(), nil))
	})
	tr := func(name string, mk func() base.Transformer, inverse bool) {
		add(name, false, false, func(int) []float64 {
			m := mk()
			A := schedX(n, 3)
			m.Fit(A, schedY(n, 1, ncl))
			Z, _ := m.Transform(A, nil)
			out := flat(Z)
			if inv, ok := m.(interface {
				InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
			}); ok && inverse {
				W, _ := inv.InverseTransform(mat.DenseCopyOf(Z), nil)
				out = append(out, flat(W)...)
			} else if inv, ok := m.(interface {
				InverseTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense)
			}); ok && inverse {
				W, _ := inv.InverseTransform(mat.DenseCopyOf(Z), nil)
				out = append(out, flat(W)...)
			} else if inv, ok := m.(interface {
				InverseTransform(X mat.Matrix, Y mat.Mutable) (Xout, Yout *mat.Dense)
			}); ok && inverse {
				W, _ := inv.InverseTransform(mat.DenseCopyOf(Z), nil)
				out = append(out, flat(W)...)
			} else if inverse {
				panic("no inverse transform")
			}
			return out
		})
	}
	tr("MinMaxScaler", func() base.Transformer { return preprocessing.NewMinMaxScaler([]float64{-1, 2}) }, true)
	tr("StandardScaler", func() base.Transformer { return preprocessing.NewStandardScaler() }, true)
	tr("RobustScaler", func() base.Transformer { return preprocessing.NewDefaultRobustScaler() }, true)
	tr("MaxAbsScaler", func() base.Transformer { return preprocessing.NewMaxAbsScaler() }, true)
	tr("Normalizer", func() base.Transformer { return preprocessing.NewNormalizer() }, true)
	tr("Binarizer", func() base.Transformer { return preprocessing.NewBinarizer() }, false)
	tr("QuantileTransformer", func() base.Transformer { return preprocessing.NewQuantileTransformer(4, "uniform", nil) }, false)
	tr("PowerTransformer", func() base.Transformer { return preprocessing.NewPowerTransformer() }, true)
	tr("PowerTransformer box-cox", func() base.Transformer {
		p := preprocessing.NewPowerTransformer()
		p.Method, p.Standardize = "box-cox", false
		return shifted{p}
	}, true)
	tr("QuantileTransformer normal", func() base.Transformer { return preprocessing.NewQuantileTransformer(4, "normal", nil) }, false)
	tr("PCA", func() base.Transformer { return preprocessing.NewPCA() }, true)
	tr("PolynomialFeatures", func() base.Transformer { return preprocessing.NewPolynomialFeatures(2) }, false)
	tr("PolynomialFeatures interactions", func() base.Transformer {
		p := preprocessing.NewPolynomialFeatures(3)
		p.InteractionOnly = true
		return p
	}, false)
	for _, s := range []string{"quantile", "uniform"} {
		for _, e := range []string{"onehot-dense", "ordinal"} {
			s, e := s, e
			tr("KBinsDiscretizer "+s+" "+e, func() base.Transformer {
				k := preprocessing.NewKBinsDiscretizer(3)
				k.Strategy, k.Encode = s, e
				return k
			}, e == "ordinal")
		}
	}
	for _, s := range []string{"mean", "median", "most_frequent"} {
		s := s
		add("Imputer "+s, false, false, func(int) []float64 {
			m := preprocessing.NewImputer()
			m.Strategy = s
			A := schedX(n, 3)
			if s == "most_frequent" { // a unique mode per column: the choice among ties is free
				A.SetRow(3, A.RawRowView(2))
			}
			A.Set(1, 0, math.NaN())
			A.Set(0, 2, math.NaN())
			m.Fit(A, nil)
			Z, _ := m.Transform(A, nil)
			return flat(Z, m.MissingValues)
		})
	}
	add("KernelCenterer", false, false, func(int) []float64 {
		A := schedX(n, 2)
		K := &mat.Dense{}
		K.Mul(A, A.T())
		m := preprocessing.NewKernelCenterer()
		m.Fit(K, nil)
		Z, _ := m.Transform(K, nil)
		return flat(Z)
	})
	add("NumpyLike statistics", false, false, func(int) []float64 {
		A := schedX(n, 3)
		return flat(preprocessing.DenseMean(nil, A), mat.NewDense(1, 1, nil))
	})
	add("column statistics", false, false, func(int) []float64 {
		A := schedX(n, 3)
		m, s := preprocessing.MeanStdDev(A)
		return flat(m, s, preprocessing.Mean(A))
	})
	add("NumpyLike Var Std", false, false, func(int) []float64 {
		A := schedX(n, 3)
		return flat(preprocessing.NumpyLike{}.Var(A), preprocessing.NumpyLike{}.Std(A))
	})
	add("PreprocessData", false, false, func(int) []float64 {
		a, b, c, d, e := linearmodel.PreprocessData(schedX(n, 3), schedT(n, 3), true, true, nil)
		return flat(a, b, c, d, e)
	})
	add("LinearRegression", false, false, func(int) []float64 {
		m := linearmodel.NewLinearRegression()
		m.Normalize = true
		m.Fit(X(), schedT(n, 2))
		return flat(m.Predict(Q(), nil), m.Coef, m.Intercept)
	})
	add("ElasticNet", false, false, func(int) []float64 {
		m := linearmodel.NewElasticNet()
		m.Alpha = .1
		m.Normalize = true
		m.Fit(X(), schedT(n, 2))
		return flat(m.Predict(Q(), nil), m.Coef)
	})
	add("EnetPath", false, false, func(int) []float64 {
		al := []float64{1, .5, .1}
		a, co, g, it := linearmodel.EnetPath(X(), schedT(n, 1), .5, 1e-6, 3, &al, false, false)
		return flat(a, co, g, it)
	})
	add("LassoPath", false, false, func(int) []float64 {
		a, co, _, it := linearmodel.LassoPath(X(), schedT(n, 2), 1e-3, 2, nil, false, true)
		return flat(a, co, it)
	})
	js = append(js, job{name: "Ridge", g: true, tol: 1e-4, run: func(int) []float64 {
		m := linearmodel.NewRidge()
		m.Fit(X(), schedT(n, 3))
		return flat(m.Predict(Q(), nil))
	}})
	js = append(js, job{name: "LogisticRegression", g: true, tol: 1e-3, run: func(int) []float64 {
		m := linearmodel.NewLogisticRegression()
		m.RandomState = base.NewLockedSource(3)
		m.Fit(X(), schedY(n, 1, ncl))
		return flat(m.Predict(Q(), nil))
	}})
	js = append(js, job{name: "SGDRegressor", g: true, jobs: true, tol: 1e-3, run: func(jobs int) []float64 {
		m := linearmodel.NewSGDRegressor()
		m.NJobs = jobs
		m.Fit(X(), schedT(n, 2))
		return flat(m.Predict(Q(), nil))
	}})
	js = append(js, job{name: "MLP lbfgs", g: true, tol: 1e-3, run: func(int) []float64 {
		m := nn.NewMLPRegressor([]int{2}, "tanh", "lbfgs", 1e-2)
		m.RandomState = base.NewLockedSource(3)
		m.MaxIter = 5
		m.Fit(X(), schedT(n, 2))
		return flat(m.Predict(Q(), nil))
	}})
	for _, k := range []string{"rbf", "linear", "custom"} {
		k := k
		set := func(b *svm.BaseLibSVM) {
			b.Kernel = k
			if k == "custom" {
				b.Kernel = func(a, c []float64) float64 { return a[0]*c[0] + 2*a[1]*c[1] + 1 }
			}
			b.MaxIter = 3
			b.RandomState = base.NewLockedSource(7)
		}
		add("SVC "+k, false, false, func(int) []float64 {
			m := svm.NewSVC()
			set(&m.BaseLibSVM)
			Y := schedY(n, 3, 2)
			Y.Apply(func(i, j int, v float64) float64 { return 2*v - 1 }, Y)
			m.Fit(X(), Y)
			out := flat(m.Predict(Q(), nil), m.Support)
			for _, mo := range m.Model {
				out = append(out, flat(mo.B, mo.Alphas)...)
			}
			return out
		})
		add("SVR "+k, false, false, func(int) []float64 {
			m := svm.NewSVR()
			set(&m.BaseLibSVM)
			m.Fit(X(), schedT(n, 2))
			return flat(m.Predict(Q(), nil), m.Support)
		})
	}
	add("MakeBlobs", false, false, func(int) []float64 {
		A, B := datasets.MakeBlobs(&datasets.MakeBlobsConfig{NSamples: n, Centers: 2, RandomState: base.NewLockedSource(3)})
		return flat(A, B)
	})
	add("metrics", false, false, func(int) []float64 {
		return flat(metrics.R2Score(schedT(n, 2), schedX(n, 2), nil, "").At(0, 0), metrics.AccuracyScore(schedY(n, 1, ncl), schedY(n, 1, 3), true, nil))
	})
	return js
}

// shifted feeds strictly positive data to a box-cox transform.
type shifted struct {
	*preprocessing.PowerTransformer
}

func (s shifted) up(X mat.Matrix) *mat.Dense {
	d := mat.DenseCopyOf(X)
	d.Apply(func(i, j int, v float64) float64 { return v + 1 }, d)
	return d
}
func (s shifted) Fit(X, Y mat.Matrix) base.Fiter { return s.PowerTransformer.Fit(s.up(X), Y) }
func (s shifted) Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	return s.PowerTransformer.Transform(s.up(X), Y)
}

func c03(x *X) {
	// many rows, clusters and classes: the default schedule of 2 and 4 CPUs, race-checked
	for _, n := range []int{40, 150} {
		for ji, j := range c03jobs(n) {
			n, ji, j := n, ji, j
			if strings.HasPrefix(j.name, "SV") || n > 40 && (j.g || strings.HasPrefix(j.name, "MLP")) {
				continue // too slow with so many rows
			}
			for _, cpus := range []int{2, 4} {
				cpus := cpus
				if n > 40 && cpus == 4 && !x.Thorough() {
					continue
				}
				x.Case("estimator, many rows", func() string { return fmt.Sprintf("%s rows=%d cpus=%d", j.name, n, cpus) }, func(c *C) {
					tol := math.Max(j.tol, 1e-7)
					var want []float64
					if freeRun {
						want = c03jobs(n)[ji].run(1)
					} else {
						e := vsched.Run(1, j.g, 10000000, nil, func() { want = c03jobs(n)[ji].run(1) })
						for _, p := range e.Panics {
							c.Must(false, "panic", "on one CPU with one job: %s", trimPanic(p))
						}
					}
					explore(c, scenario{cpus: cpus, delays: 1, free: true, checkG: j.g, tol: tol, want: want, body: func() []float64 {
						return c03jobs(n)[ji].run(-1)
					}})
				})
			}
		}
	}
	for _, n := range []int{5, 6} {
		if n == 6 && !x.Thorough() {
			continue
		}
		for ji, j := range c03jobs(n) {
			ji, j := ji, j
			maxC := 4
			for cpus := 1; cpus <= maxC; cpus++ {
				jobs := []int{-1}
				if j.jobs {
					jobs = []int{-1, 1, 2, 3}
				}
				for _, nj := range jobs {
					{
						cpus, nj := cpus, nj
						x.Case("estimator", func() string {
							return fmt.Sprintf("%s rows=%d cpus=%d jobs=%d", j.name, n, cpus, nj)
						}, func(c *C) {
							tol := j.tol
							if tol == 0 {
								tol = 1e-9
							}
							// the reference: one CPU, one job
							var want []float64
							if freeRun {
								want = c03jobs(n)[ji].run(1)
							} else {
								e := vsched.Run(1, j.g, 1000000, nil, func() { want = c03jobs(n)[ji].run(1) })
								for _, p := range e.Panics {
									c.Must(false, "panic", "on one CPU with one job: %s", trimPanic(p))
								}
								c.Must(e.Deadlock == "", "deadlock", "on one CPU with one job: %s", e.Deadlock)
							}
							c.Must(len(want) > 0, "no-result", "the reference run gave no result")
							explore(c, scenario{cpus: cpus, delays: 3, budget: float64(x.Pick(8000, 150000)), checkG: j.g, tol: tol, want: want, body: func() []float64 {
								return c03jobs(n)[ji].run(nj)
							}})
						})
					}
				}
			}
		}
	}
}

func init() {
	register("C03", "stateless exhaustive exploration, under a controlled scheduler, of every estimator that works in parallel on small tie-free data: for 1 to 4 CPUs and every job count, every schedule within a delay bound of 1 to 3 (the largest whose size fits the tier; a delay is a deviation from the default schedule), each execution race-checked, compared with the single-CPU result; and one race-checked schedule of each with 40 and 150 rows", c03,
		"gonum's own optimizer goroutines are not controlled (their effects are race-checked only)")
}
