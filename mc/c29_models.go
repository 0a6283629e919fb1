//go:build all || C29 || C30

package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
)

// ================================================================================================
// C29: GaussianNB against the definition of the weighted moments and Bayes' rule

type nbRef struct {
	classes, count, prior []float64
	mu, va                M
	eps                   float64
}

// nbMoments returns weighted mean and variance of a column over the rows kept; ok is false when
// their weight is zero.
func nbMoments(X M, w []float64, keep func(i int) bool, j int) (mean, va, sw float64) {
	for i := range X {
		if keep(i) {
			mean += w[i] * X[i][j]
			sw += w[i]
		}
	}
	mean /= sw
	for i := range X {
		if keep(i) {
			va += w[i] * (X[i][j] - mean) * (X[i][j] - mean)
		}
	}
	return mean, va / sw, sw
}

// nbFit is nil when the model is not defined (a class of weight zero, or no variance at all).
func nbFit(X M, y, w, priors []float64, smoothing float64) *nbRef {
	_, p := X.dims()
	if w == nil {
		w = onesVec29(len(X))
	}
	r := &nbRef{classes: distinct(y)}
	maxv := 0.
	for j := 0; j < p; j++ {
		_, v, sw := nbMoments(X, w, func(int) bool { return true }, j)
		if sw == 0 {
			return nil
		}
		maxv = math.Max(maxv, v)
	}
	if maxv == 0 {
		return nil
	}
	r.eps = smoothing * maxv
	total := 0.
	for _, k := range r.classes {
		mu, va := make([]float64, p), make([]float64, p)
		var sw float64
		for j := 0; j < p; j++ {
			mu[j], va[j], sw = nbMoments(X, w, func(i int) bool { return y[i] == k }, j)
			va[j] += r.eps
		}
		if sw == 0 {
			return nil
		}
		total += sw
		r.count = append(r.count, sw)
		r.mu, r.va = append(r.mu, mu), append(r.va, va)
	}
	for k := range r.classes {
		if priors != nil {
			r.prior = append(r.prior, priors[k])
		} else {
			r.prior = append(r.prior, r.count[k]/total)
		}
	}
	return r
}

func (r *nbRef) logPost(q []float64) (post []float64, size float64) {
	o := make([]float64, len(r.classes))
	for k := range o {
		o[k] = math.Log(r.prior[k])
		for j, v := range q {
			d := v - r.mu[k][j]
			o[k] -= .5 * (math.Log(2*math.Pi*r.va[k][j]) + d*d/r.va[k][j])
		}
	}
	top := math.Inf(-1)
	for _, v := range o {
		top = math.Max(top, v)
		size = math.Max(size, math.Abs(v))
	}
	s := 0.
	for _, v := range o {
		s += math.Exp(v - top)
	}
	for k := range o {
		o[k] -= top + math.Log(s)
	}
	return o, size
}

func onesVec29(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = 1
	}
	return o
}

func forms29(m M) []mat.Matrix {
	v, _ := viewOf(m)
	return []mat.Matrix{m.dense(), v, tightView(m), roMat{m}}
}

// labelings29 yields every labelling of n rows with at least two of the classes given, up to max.
func labelings29(n int, values []float64, f func(y []float64)) {
	intTuples(n, len(values), func(t []int) {
		y := make([]float64, n)
		for i, k := range t {
			y[i] = values[k]
		}
		if len(distinct(y)) >= 2 {
			f(y)
		}
	})
}

func init() {
	register("C29", "exhaustive enumeration of integer designs (up to row order), labelings with two or three classes, weightings, priors and smoothings on the real GaussianNB: class counts, priors, weighted moments, posteriors and predictions compared with the definition", func(x *X) {
		check := func(X M, y, w, priors []float64, sm float64, form int) {
			ref := nbFit(X, y, w, priors, sm)
			if ref == nil {
				return
			}
			x.Case("GaussianNB", func() string {
				return fmt.Sprintf("X=%v y=%v w=%v priors=%v smoothing=%g form=%d", X, y, w, priors, sm, form)
			}, func(c *C) {
				fx, fy := forms29(X), forms29(colVec(y))
				c.Steps(1)
				m := naivebayes.NewGaussianNB(priors, sm)
				if w != nil {
					m.SampleWeight = append([]float64(nil), w...)
				}
				m.Fit(fx[form%4], fy[(form/2)%4])
				c.Must(nearSlice(m.Classes, ref.classes, 0), "classes", "classes %v want %v", m.Classes, ref.classes)
				c.Must(nearSlice(m.ClassCount, ref.count, 1e-9), "class-counts", "class counts %v want %v", m.ClassCount, ref.count)
				c.Must(nearSlice(m.ClassPrior, ref.prior, 1e-9), "priors", "priors %v want %v", m.ClassPrior, ref.prior)
				c.Must(nearM(toM(m.Theta), ref.mu, 1e-9), "means", "means %v want %v", toM(m.Theta), ref.mu)
				c.Must(nearM(toM(m.Sigma), ref.va, 1e-9), "variances", "variances %v want %v", toM(m.Sigma), ref.va)
				c.Must(near(m.Epsilon, ref.eps, 1e-9*ref.eps), "epsilon", "epsilon %g want %g", m.Epsilon, ref.eps)
				c.Must(w == nil || nearSlice(m.SampleWeight, w, 0), "sample-weights-changed", "sample weights changed")
				// queries: the rows and points between and far away
				_, p := X.dims()
				Q := X.copy()
				for _, v := range []float64{-3, 0.4, 1, 7} {
					q := make([]float64, p)
					for j := range q {
						q[j] = v + .3*float64(j)
					}
					Q = append(Q, q)
				}
				lp := M{}
				pr := M{}
				tol := 1e-8 // and the rounding of large log-likelihoods, in the worst row
				for _, q := range Q {
					l, size := ref.logPost(q)
					tol = math.Max(tol, size*1e-14)
					e := make([]float64, len(l))
					for k := range l {
						e[k] = math.Exp(l[k])
					}
					lp, pr = append(lp, l), append(pr, e)
				}
				fq := forms29(Q)
				gl := m.PredictLogProbas(fq[(form+1)%4], nil)
				// log posteriors of hugely unlikely classes are large: compare relatively
				c.Must(nearM(toM(gl), lp, tol), "log-posteriors", "log posteriors %v want %v", toM(gl), lp)
				into := mat.NewDense(len(Q), len(ref.classes), nil)
				gp := m.PredictProbas(fq[form%4], into)
				c.Must(nearM(toM(gp), pr, tol), "posteriors", "posteriors %v want %v", toM(gp), pr)
				c.Must(nearM(toM(into), pr, tol), "posteriors-written", "posteriors written %v want %v", toM(into), pr)
				c.Must(nearM(toM(m.PredictProbas(fq[(form+2)%4], nil)), pr, tol), "posteriors-differ-without", "posteriors differ without a destination")
				for i := range Q {
					s := 0.
					for k := range ref.classes {
						s += gp.At(i, k)
					}
					c.Must(near(s, 1, tol), "posteriors-of-sum", "posteriors of row %d sum to %g", i, s)
				}
				got := m.Predict(fq[form%4], nil)
				got2 := mat.NewDense(len(Q), 1, nil)
				m.Predict(fq[(form+3)%4], got2)
				c.Must(nearMat(got, got2, 0), "predictions-differ-with", "predictions differ with a destination")
				right, ties := 0, false
				for i := range Q {
					best, second := math.Inf(-1), math.Inf(-1)
					bk := 0
					for k, v := range lp[i] {
						if v > best {
							best, second, bk = v, best, k
						} else if v > second {
							second = v
						}
					}
					if best-second < 10*tol*(1+math.Abs(best)) {
						if i < len(X) {
							ties = true
						}
						ok := false
						for k, v := range lp[i] {
							ok = ok || (best-v < 10*tol*(1+math.Abs(best)) && got.At(i, 0) == ref.classes[k])
						}
						c.Must(ok, "predicted-which-is", "row %v: predicted %g, which is not a most probable class", Q[i], got.At(i, 0))
						continue
					}
					c.Must(got.At(i, 0) == ref.classes[bk], "predicted-most-probable", "row %v: predicted %g, most probable class is %g", Q[i], got.At(i, 0), ref.classes[bk])
					if i < len(X) && y[i] == ref.classes[bk] {
						right++
					}
				}
				if !ties {
					s := m.Score(fx[(form+1)%4], fy[form%4])
					c.Must(near(s, float64(right)/float64(len(X)), 1e-12), "score-of-right", "score %g, %d of %d right", s, right, len(X))
				}
			})
		}
		form := 0
		type shape struct {
			r, c int
			v    []float64
		}
		shapes := []shape{{3, 1, []float64{-1, 0, 2}}, {3, 2, []float64{-1, 2}}, {4, 1, []float64{-1, 0, 2}}, {4, 2, []float64{-1, 2}}}
		shapes = append(shapes, shape{4, 2, []float64{-1, 0, 2}}, shape{5, 1, []float64{-1, 0, 2}}, shape{5, 2, []float64{-1, 2}}, shape{3, 3, []float64{-1, 2}})
		if x.Thorough() {
			shapes = append(shapes, shape{6, 1, []float64{-1, 0, 2, 5}}, shape{5, 2, []float64{-1, 0, 2}}, shape{4, 3, []float64{-1, 0, 2}})
		}
		values := []float64{3, -1, .5}
		for _, s := range shapes {
			canonMatrices(s.r, s.c, s.v, func(X M) {
				X = X.copy()
				labelings29(s.r, values, func(y []float64) {
					y = append([]float64(nil), y...)
					k := len(distinct(y))
					priors := [][]float64{nil, {.25, .75}, {0.5, 0.5}}
					if k == 3 {
						priors = [][]float64{nil, {.25, .5, .25}, {.7, .2, .1}}
					}
					form++
					check(X, y, nil, nil, 1e-9, form)
					check(X, y, nil, priors[1+form%2], .1, form)
					w := make([]float64, s.r)
					for i := range w {
						w[i] = []float64{.5, 1, 2}[(form/7+i*(1+form%2))%3]
					}
					check(X, y, w, priors[form%3], []float64{1e-9, .01, 1}[form%3], form/3)
					w = append([]float64(nil), w...)
					w[form%s.r] = 0
					check(X, y, w, nil, .05, form/5)
				})
			})
		}
		// every weighting of a fixed design
		for salt, X := range []M{{{0, 1}, {1, 3}, {4, 1}, {2, 2}, {5, 0}}, {{-1}, {0}, {3}, {3}, {1}}} {
			n := len(X)
			if !x.Thorough() {
				n = 4
			}
			tuples(n, []float64{0, .5, 1, 3}, func(w []float64) {
				check(X[:n], []float64{1, 0, 1, 0, 1}[:n], append([]float64(nil), w...), nil, .1, salt)
				check(X[:n], []float64{2, 2, 1, 1, 1}[:n], append([]float64(nil), w...), []float64{.3, .7}, 1e-3, salt)
			})
		}
		// far from zero, and many features of small or large variance
		for salt := 1; salt <= 12; salt++ {
			for _, sh := range [][3]float64{{1 << 21, 1, 2}, {-1 << 18, 1, 3}, {0, 1. / 1024, 150}, {0, 1024, 130}, {5, 1. / 64, 260}} {
				X := lattice(8+salt, int(sh[2]), salt)
				for i := range X {
					for j := range X[i] {
						X[i][j] = X[i][j]*sh[1] + sh[0]
					}
				}
				y, w := make([]float64, len(X)), make([]float64, len(X))
				for i := range y {
					y[i], w[i] = float64((i*salt+i/2)%(2+salt%2)), 1+float64((i*i+salt)%3)
				}
				if len(distinct(y)) < 2 {
					continue
				}
				check(X, y, nil, nil, 1e-3, salt)
				check(X, y, w, nil, 1e-2, salt+1)
			}
		}
		// larger designs
		for salt := 1; salt <= 24; salt++ {
			X := lattice(7+salt%4, 1+salt%3, salt)
			most := 4
			if salt > 12 {
				X = lattice([]int{33, 65, 101, 130, 257, 300}[salt%6], 1+salt%5, salt)
				most = 12
			}
			for kk := 2; kk <= most; kk++ {
				y, w := make([]float64, len(X)), make([]float64, len(X))
				for i := range y {
					y[i] = float64((i*salt+i/2)%kk) * 2
					w[i] = 1 + float64((i*i+salt)%3)
				}
				if len(distinct(y)) < 2 {
					continue
				}
				check(X, y, nil, nil, 1e-9, salt)
				check(X, y, w, nil, 1e-2, salt+1)
				// other units: the posteriors stay
				for _, e := range []int{-40, 30} {
					e := e
					x.Case("units", func() string { return fmt.Sprintf("2^%d salt=%d classes=%d", e, salt, kk) }, func(c *C) {
						fit := func(X M) (M, M) {
							m := naivebayes.NewGaussianNB(nil, 1e-9)
							m.SampleWeight = append([]float64(nil), w...)
							m.Fit(X.dense(), colVec(y).dense())
							return toM(m.PredictProbas(X.dense(), nil)), toM(m.Predict(X.dense(), nil))
						}
						Xs := X.copy()
						for i := range Xs {
							for j := range Xs[i] {
								Xs[i][j] = math.Ldexp(Xs[i][j], e)
							}
						}
						pa, _ := fit(X)
						pb, lb := fit(Xs)
						c.Steps(4)
						c.Must(nearM(pa, pb, 1e-6), "units/posteriors", "posteriors %v, in other units %v", pa, pb)
						cl := distinct(y)
						for i := range lb {
							best := 0.
							for _, v := range pb[i] {
								best = math.Max(best, v)
							}
							c.Must(pb[i][indexOf(cl, lb[i][0])] >= best-1e-9, "units/class", "row %d predicted %g with posteriors %v", i, lb[i][0], pb[i])
						}
						c.Trace()
					})
				}
			}
		}
	})

	register("C30", "exhaustive enumeration of integer data sets, labelings, kernels and penalties, and of every sequence of random partner choices of the trainer up to a depth (the random source is the explorer's), on the real SVC and SVR: box, balance, support rows, optimality of the multipliers, kernel expansion at every query, cache independence", c30)
}

// ================================================================================================
// C30

// picker is a random source whose first draws are chosen by the explorer and whose later draws
// follow a fixed scrambled sequence. It has the Intn method the trainer uses; Uint64 serves
// trainers that draw through rand.New instead.
type picker struct {
	first []int
	n     int
	used  int
}

func (p *picker) next() int {
	p.n++
	if p.n <= len(p.first) {
		p.used = p.n
		return p.first[p.n-1]
	}
	// a fixed scrambled sequence: every partner keeps coming up, at every row, whatever the
	// number of draws per pass
	h := uint64(p.n-len(p.first)) * 0x9e3779b97f4a7c15
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return int(h & 0x3fffffff)
}
func (p *picker) Intn(n int) int           { return p.next() % n }
func (p *picker) Uint64() uint64           { return uint64(p.next()) << 32 }
func (p *picker) Seed(uint64)              {}
func (p *picker) SourceClone() base.Source { c := *p; return &c }

type kern30 struct {
	name              string
	arg               interface{}
	gamma, coef0, deg float64
	pd                bool // strictly positive definite on distinct rows, pairwise
	f                 func(gamma float64, a, b []float64) float64
}

type ifaceKernel struct{}

func (ifaceKernel) Func(a, b []float64) float64 { return 2*dot30(a, b) + 1 }

func dot30(a, b []float64) float64 {
	s := 0.
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func kernels30() []kern30 {
	sq := func(a, b []float64) float64 {
		s := 0.
		for i := range a {
			s += (a[i] - b[i]) * (a[i] - b[i])
		}
		return s
	}
	custom := func(a, b []float64) float64 { return math.Exp(-math.Sqrt(sq(a, b))) }
	rbf := func(g float64, a, b []float64) float64 { return math.Exp(-g * sq(a, b)) }
	return []kern30{
		{"linear", "linear", 0, 0, 3, true, func(g float64, a, b []float64) float64 { return dot30(a, b) }},
		{"rbf", "rbf", .5, 0, 3, true, rbf},
		{"rbf-default-gamma", "rbf", 0, 0, 3, true, rbf},
		{"poly", "poly", .5, 1, 2, true, func(g float64, a, b []float64) float64 { return math.Pow(g*dot30(a, b)+1, 2) }},
		{"polynomial", "polynomial", 0, 1, 3, true, func(g float64, a, b []float64) float64 { return math.Pow(g*dot30(a, b)+1, 3) }},
		{"func", custom, 0, 0, 3, true, func(g float64, a, b []float64) float64 { return custom(a, b) }},
		{"interface", ifaceKernel{}, 0, 0, 3, true, func(g float64, a, b []float64) float64 { return 2*dot30(a, b) + 1 }},
		{"sigmoid", "sigmoid", .5, -.5, 3, false, func(g float64, a, b []float64) float64 { return math.Tanh(g*dot30(a, b) - .5) }},
	}
}

type svmCase struct {
	X       M
	Y       M // one column per output
	k       kern30
	C, eps  float64
	tol     float64
	iter    int
	cache   uint
	first   []int
	form    int
	seed    int64 // when >=0 a seeded source instead of the explorer's choices
	reg     bool
	noState bool
}

func (s svmCase) String() string {
	kind := "SVC"
	if s.reg {
		kind = "SVR"
	}
	return fmt.Sprintf("%s X=%v Y=%v kernel=%s C=%g eps=%g tol=%g maxiter=%d cache=%d picks=%v seed=%d form=%d", kind, s.X, s.Y, s.k.name, s.C, s.eps, s.tol, s.iter, s.cache, s.first, s.seed, s.form)
}

// svmRun fits the case and checks everything about the model; it returns the predictions.
func svmRun(c *C, s svmCase) (models []*svm.Model) {
	fx, fy := forms29(s.X), forms29(s.Y)
	_, outs := s.Y.dims()
	n := len(s.X)
	_, p := s.X.dims()
	var rs base.Source = &picker{first: s.first}
	if s.seed >= 0 {
		rs = base.NewSource(uint64(s.seed))
	}
	set := func(b *svm.BaseLibSVM) {
		b.C, b.Epsilon, b.Kernel, b.Gamma, b.Coef0, b.Degree, b.Tol, b.MaxIter, b.CacheSize, b.RandomState =
			s.C, s.eps, s.k.arg, s.k.gamma, s.k.coef0, s.k.deg, s.tol, s.iter, s.cache, rs
	}
	var m base.Predicter
	var b *svm.BaseLibSVM
	if s.reg {
		e := svm.NewSVR()
		set(&e.BaseLibSVM)
		m, b = e, &e.BaseLibSVM
	} else {
		e := svm.NewSVC()
		set(&e.BaseLibSVM)
		m, b = e, &e.BaseLibSVM
	}
	c.Steps(1)
	m.Fit(fx[s.form%4], fy[(s.form/4)%4])
	c.Must(m.GetNOutputs() == outs && len(b.Model) == outs && len(b.Support) == outs && len(b.SupportVectors) == outs, "outputs-fitted", "%d outputs fitted", len(b.Model))
	gamma := s.k.gamma
	if gamma <= 0 {
		gamma = 1 / float64(p)
	}
	K := func(a, d []float64) float64 { return s.k.f(gamma, a, d) }
	Q := s.X.copy()
	for _, v := range []float64{-2.3, .7, 3.1} {
		q := make([]float64, p)
		for j := range q {
			q[j] = v * float64(1+j%2)
		}
		Q = append(Q, q)
	}
	fq := forms29(Q)
	pred := m.Predict(fq[s.form%4], nil)
	into := mat.NewDense(len(Q), outs, nil)
	m.Predict(fq[(s.form+1)%4], into)
	c.Must(nearMat(pred, into, 0), "predictions-differ-with", "predictions differ with a destination")
	for o := 0; o < outs; o++ {
		y := s.Y.col(o)
		mo := b.Model[o]
		c.Must(len(mo.Alphas) == len(mo.Support) && len(b.Support[o]) == len(mo.Support) && len(b.SupportVectors[o]) == len(mo.Support), "multipliers-support-rows", "output %d: %d multipliers, %d support rows", o, len(mo.Alphas), len(mo.Support))
		alpha := make([]float64, n) // multiplier times sign for SVC, multiplier for SVR
		sum := 0.
		last := -1
		for a, i := range mo.Support {
			c.Must(i > last && i < n, "support-rows", "output %d: support rows %v", o, mo.Support)
			last = i
			c.Must(b.Support[o][a] == i, "Support-and-model", "output %d: Support %v and model support %v", o, b.Support[o], mo.Support)
			c.Must(nearSlice(b.SupportVectors[o][a], s.X[i], 0) && nearSlice(mo.X.RawRowView(a), s.X[i], 0), "support-vector-is", "output %d: support vector %d is not row %d", o, a, i)
			v := mo.Alphas[a]
			if s.reg {
				c.Must(math.Abs(v) > s.tol && math.Abs(v) <= s.C*(1+1e-12), "multiplier-of-outside", "output %d: multiplier %g of row %d outside the box", o, v, i)
				alpha[i] = v
			} else {
				c.Must(v > s.tol && v <= s.C*(1+1e-12), "multiplier-of-outside", "output %d: multiplier %g of row %d outside the box", o, v, i)
				c.Must(mo.Y[a] == y[i], "label-of-support", "output %d: label %g of support row %d", o, mo.Y[a], i)
				alpha[i] = v * y[i]
			}
			sum += alpha[i]
		}
		c.Must(math.Abs(sum) <= float64(n)*s.tol+1e-9*s.C, "multipliers-do-not", "output %d: multipliers do not balance: %g", o, sum)
		dec := func(q []float64) float64 {
			d := mo.B
			for i, a := range alpha {
				if a != 0 {
					d += a * K(q, s.X[i])
				}
			}
			return d
		}
		for i, q := range Q {
			d := dec(q)
			if s.reg {
				c.Must(near(pred.At(i, o), d, 1e-9), "prediction-at-expansion", "output %d: prediction %g at %v, expansion gives %g", o, pred.At(i, o), q, d)
			} else if math.Abs(d) > 1e-9 {
				want := 0.
				if d > 0 {
					want = 1
				}
				c.Must(pred.At(i, o) == want, "class-at-decision", "output %d: class %g at %v, decision value is %g", o, pred.At(i, o), q, d)
			} else {
				c.Must(pred.At(i, o) == 0 || pred.At(i, o) == 1, "class", "output %d: class %g", o, pred.At(i, o))
			}
		}
		if s.reg || !s.k.pd || s.iter < 50 {
			continue
		}
		// optimality of the dual: no pair of multipliers can be moved
		up, low := math.Inf(-1), math.Inf(1)
		kmax, atBox := 0., false
		for i := range s.X {
			g := y[i] - (dec(s.X[i]) - mo.B) // bias this row asks for
			kmax = math.Max(kmax, K(s.X[i], s.X[i]))
			a := alpha[i] * y[i]
			atC, at0 := a >= s.C-2*s.tol, a <= 2*s.tol
			atBox = atBox || atC
			if (y[i] > 0 && !atC) || (y[i] < 0 && !at0) {
				up = math.Max(up, g)
			}
			if (y[i] > 0 && !at0) || (y[i] < 0 && !atC) {
				low = math.Min(low, g)
			}
		}
		slack := 1e-6 + float64(20*n)*s.tol*(1+kmax)
		c.Must(up-low <= 2*s.eps+slack, "the-multipliers-of", "output %d: the multipliers %v of rows %v (bias %g) are not optimal: violation %g", o, mo.Alphas, mo.Support, mo.B, up-low)
		if up > low {
			up, low = low, up
		}
		// a multiplier held by the box can leave the simplified trainer with a bias that is
		// off; without one the rows are separated and every row is on its own side
		if atBox {
			continue
		}
		for i := range s.X {
			c.Must(dec(s.X[i])*y[i] > 0, "separable", "output %d: row %d (label %g) of separable rows has decision value %g", o, i, y[i], dec(s.X[i]))
		}
	}
	return b.Model
}

// units30: the model of b is the one of a with the multipliers scaled by 2^da and the bias by 2^db.
func units30(x *X, a, b svmCase, da, db int) {
	fit := func(s svmCase) *svm.Model {
		set := func(m *svm.BaseLibSVM) {
			m.C, m.Epsilon, m.Kernel, m.Gamma, m.Coef0, m.Degree, m.Tol, m.MaxIter, m.CacheSize, m.RandomState =
				s.C, s.eps, s.k.arg, s.k.gamma, s.k.coef0, s.k.deg, s.tol, s.iter, s.cache, base.NewSource(uint64(s.seed))
		}
		if s.reg {
			e := svm.NewSVR()
			set(&e.BaseLibSVM)
			e.Fit(s.X.dense(), s.Y.dense())
			return e.Model[0]
		}
		e := svm.NewSVC()
		set(&e.BaseLibSVM)
		e.Fit(s.X.dense(), s.Y.dense())
		return e.Model[0]
	}
	x.Case("units "+a.k.name, func() string { return fmt.Sprintf("%v and the same as %v", a, b) }, func(c *C) {
		ma, mb := fit(a), fit(b)
		c.Steps(2)
		c.Must(fmt.Sprint(ma.Support) == fmt.Sprint(mb.Support), "units", "support rows %v, in other units %v", ma.Support, mb.Support)
		for i := range ma.Alphas {
			c.Must(near(math.Ldexp(mb.Alphas[i], -da), ma.Alphas[i], 1e-7), "units", "multipliers %v, in other units %v", ma.Alphas, mb.Alphas)
		}
		c.Must(near(math.Ldexp(mb.B, -db), ma.B, 1e-7), "units", "bias %g, in other units %g", ma.B, mb.B)
		c.Trace()
	})
}

func c30(x *X) {
	rowsDistinct := func(X M) bool {
		for i := range X {
			for j := 0; j < i; j++ {
				if nearSlice(X[i], X[j], 0) {
					return false
				}
			}
		}
		return true
	}
	run := func(s svmCase) {
		g := "SVC "
		if s.reg {
			g = "SVR "
		}
		x.Case(g+s.k.name, s.String, func(c *C) { svmRun(c, s) })
	}
	sgn := []float64{-1, 1}
	ks := kernels30()
	form := 0
	// every sequence of partner choices to a depth, then all partners in turn
	type shape struct {
		r, c, depth int
		vals        []float64
		step        int // share of the settings that get every sequence
	}
	shapes := []shape{{2, 1, 1, []float64{-1, 0, 2}, 1}, {3, 1, 6, []float64{-1, 0, 2}, 1}, {3, 2, 5, []float64{-1, 0, 2}, 4}, {4, 1, 4, []float64{-1, 0, 1, 3}, 1}, {4, 2, 4, []float64{0, 2}, 1}}
	if x.Thorough() {
		shapes = []shape{{2, 1, 2, []float64{-1, 0, 2}, 1}, {3, 1, 10, []float64{-1, 0, 2}, 1}, {3, 2, 7, []float64{-1, 0, 2}, 1}, {4, 1, 6, []float64{-1, 0, 1, 3}, 1}, {4, 2, 5, []float64{0, 2}, 1}, {4, 2, 3, []float64{-1, 0, 2}, 16}, {5, 1, 3, []float64{-2, -1, 0, 1, 3}, 1}}
	}
	for _, s := range shapes {
		canonMatrices(s.r, s.c, s.vals, func(X M) {
			dup := !rowsDistinct(X)
			X = X.copy()
			tuples(s.r, sgn, func(y []float64) {
				y = append([]float64(nil), y...)
				// regression targets: the labels spread out
				yr := make([]float64, s.r)
				for i := range yr {
					yr[i] = y[i]*float64(1+(i+form)%3)/2 + float64(form%2)
				}
				for ki, k := range ks {
					if dup {
						k.pd = false // equal rows are never paired: optimality is not claimed
					}
					for _, C := range []float64{.4, 20} {
						form++
						full := form%s.step == 0 && !dup && len(distinct(y)) == 2
						nseq := 0
						intTuples(s.depth, s.r-1, func(t []int) {
							nseq++
							if !full && nseq > 3 {
								return
							}
							sc := svmCase{X: X, Y: colVec(y), k: k, C: C, eps: .01, tol: 1e-6, iter: 60, cache: 200, first: append([]int(nil), t...), form: form + ki, seed: -1}
							if len(distinct(y)) < 2 {
								sc.k.pd = false // one class only: nothing to balance against
							}
							run(sc)
							if nseq%4 == 1 {
								sc.eps, sc.tol, sc.reg, sc.Y = .1, 1e-4, true, colVec(yr)
								sc.iter = 3
								run(sc)
							}
						})
					}
				}
			})
		})
	}
	// larger sets, several outputs, seeds, cache sizes
	N := x.Pick(16, 48)
	for salt := 1; salt <= N; salt++ {
		X := lattice(5+salt%5, 1+salt%3, salt)
		if !rowsDistinct(X) {
			continue
		}
		for _, k := range ks {
			for outs := 1; outs <= 3; outs++ {
				Y, Yr := zerosM(len(X), outs, 0), zerosM(len(X), outs, 0)
				for i := range Y {
					for o := range Y[i] {
						Y[i][o] = sgn[((i*(o+2)+salt*o)/2+i%(o+2))%2]
						Yr[i][o] = float64((i*i*(o+1)+salt)%5) - 1.5
					}
				}
				kk := k
				for o := 0; o < outs; o++ {
					if len(distinct(Y.col(o))) < 2 {
						kk.pd = false
					}
				}
				for seed := int64(0); seed < 3; seed++ {
					for ci, pen := range []float64{.5, 5} {
						cache := []uint{0, 1, 200}[(int(seed)+salt)%3]
						base := svmCase{X: X, Y: Y, k: kk, C: pen, eps: .02, tol: 1e-5, iter: 60, cache: cache, form: salt + outs + ci, seed: seed}
						x.Case("SVC cache "+k.name, base.String, func(c *C) {
							a := svmRun(c, base)
							o := base
							o.cache = 200
							b := svmRun(c, o)
							for i := range a {
								c.Must(nearSlice(a[i].Alphas, b[i].Alphas, 0) && a[i].B == b[i].B, "cache", "output %d: the model depends on the cache size: %v %v", i, a[i].Alphas, b[i].Alphas)
							}
						})
						r := base
						r.reg, r.Y, r.eps, r.iter, r.tol = true, Yr, .2, 4, 1e-3
						run(r)
						r.eps = 10 // every target is inside the tube
						x.Case("SVR tube "+k.name, r.String, func(c *C) {
							for _, mo := range svmRun(c, r) {
								c.Must(len(mo.Support) == 0, "tube", "targets inside the tube have support rows %v", mo.Support)
							}
						})
					}
				}
			}
		}
	}
	// other units: powers of two leave every rounding as it is
	for salt := 1; salt <= N/2; salt++ {
		X := lattice(4+salt%5, 1+salt%3, salt+60)
		if !rowsDistinct(X) {
			continue
		}
		Y, Yr := zerosM(len(X), 1, 0), zerosM(len(X), 1, 0)
		for i := range Y {
			Y[i][0], Yr[i][0] = sgn[(i/2+i*salt)%2], float64((i*i+salt)%5)-1.5
		}
		for _, e := range []int{-24, -6, 9, 30} {
			for _, k := range ks {
				for _, reg := range []bool{false, true} {
					// feature units: the linear kernel grows, the penalty shrinks; a distance is measured in another unit
					if k.name == "linear" || k.name == "rbf" {
						base := svmCase{X: X, Y: Y, k: k, C: 2, eps: .05, tol: 1e-4, iter: 8, cache: 200, seed: int64(salt), reg: reg}
						if reg {
							base.Y = Yr
						}
						o := base
						o.X = X.copy()
						for i := range o.X {
							for j := range o.X[i] {
								o.X[i][j] = math.Ldexp(X[i][j], e)
							}
						}
						da := 0
						if k.name == "rbf" {
							o.k.gamma = math.Ldexp(k.gamma, -2*e)
						} else {
							da = -2 * e
							o.C, o.tol = math.Ldexp(base.C, da), math.Ldexp(base.tol, da)
						}
						units30(x, base, o, da, 0)
					}
					// target units of a regression
					if reg {
						base := svmCase{X: X, Y: Yr, k: k, C: 2, eps: .05, tol: 1e-4, iter: 8, cache: 200, seed: int64(salt), reg: true}
						o := base
						o.Y = Yr.copy()
						for i := range o.Y {
							o.Y[i][0] = math.Ldexp(Yr[i][0], e)
						}
						o.C, o.tol, o.eps = math.Ldexp(base.C, e), math.Ldexp(base.tol, e), math.Ldexp(base.eps, e)
						units30(x, base, o, e, e)
					}
				}
			}
		}
	}
	// more pairs of rows than the smallest cache holds: entries are evicted and recomputed
	for k := 0; k < x.Pick(2, 4); k++ {
		k := k
		x.Case("evict", func() string {
			return fmt.Sprintf("363 structured rows, a cache of 65536 pairs, reg=%v eps=%g", k%2 == 1, []float64{.1, .5, .5, .3}[k])
		}, func(c *C) {
			n := 363
			X, Y := make(M, n), make(M, n)
			for i := range X {
				s := 1.
				if i%2 == 1 {
					s = -1
				}
				X[i] = []float64{s * (1 + float64(i%7)/4), float64((i*5)%11) / 8}
				Y[i] = []float64{s}
			}
			var ref *svm.Model
			for _, cache := range []uint{200, 1} {
				kern := func(a, b []float64) float64 { return a[0]*b[0] + a[1]*b[1] + 1 }
				set := func(b *svm.BaseLibSVM) {
					b.Kernel, b.CacheSize, b.RandomState, b.MaxIter, b.Epsilon = kern, cache, base.NewSource(3), 1, []float64{.1, .5, .5, .3}[k]
				}
				var mo *svm.Model
				if k%2 == 1 {
					e := svm.NewSVR()
					set(&e.BaseLibSVM)
					e.Fit(X.dense(), Y.dense())
					mo = e.Model[0]
				} else {
					e := svm.NewSVC()
					set(&e.BaseLibSVM)
					e.Fit(X.dense(), Y.dense())
					mo = e.Model[0]
				}
				c.Steps(1)
				if ref != nil {
					c.Must(nearSlice(mo.Alphas, ref.Alphas, 0) && mo.B == ref.B && fmt.Sprint(mo.Support) == fmt.Sprint(ref.Support), "cache", "the model depends on the cache size: %v %v, bias %g %g", mo.Support, ref.Support, mo.B, ref.B)
				}
				ref = mo
			}
			c.Must(len(ref.Support) > 0, "harness", "no support rows")
			c.Trace()
		})
	}
	// the kernel values themselves, on a grid, through one-support expansions: covered by the
	// expansion checks above, at every query, for every kernel
}
