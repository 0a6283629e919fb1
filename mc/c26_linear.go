//go:build all || C26 || C27 || C28

package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
)

// ---- reference algebra -----------------------------------------------------------------------

// centred returns the columns minus their means (when on), and the means.
func centred(m M, on bool) (M, []float64) {
	r, c := m.dims()
	mean := make([]float64, c)
	o := m.copy()
	if on {
		for j := range mean {
			for i := range m {
				mean[j] += m[i][j]
			}
			mean[j] /= float64(r)
			for i := range o {
				o[i][j] -= mean[j]
			}
		}
	}
	return o, mean
}

func colNorms(m M) []float64 {
	_, c := m.dims()
	o := make([]float64, c)
	for j := range o {
		for i := range m {
			o[j] += m[i][j] * m[i][j]
		}
		o[j] = math.Sqrt(o[j])
	}
	return o
}

// ridgeRef solves (X'X+pen I)w = X'y, with the columns scaled by 1/scale; nil when singular.
func ridgeRef(X M, y []float64, pen float64, scale []float64) []float64 {
	_, p := X.dims()
	A := zerosM(p, p+1, 0)
	for a := 0; a < p; a++ {
		for b := 0; b < p; b++ {
			for i := range X {
				A[a][b] += X[i][a] * X[i][b] / scale[a] / scale[b]
			}
		}
		A[a][a] += pen
		for i := range X {
			A[a][p] += X[i][a] / scale[a] * y[i]
		}
	}
	w := gauss(A)
	if w == nil {
		return nil
	}
	for a := range w {
		w[a] /= scale[a]
	}
	return w
}

func onesVec(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = 1
	}
	return o
}

// linForms gives the storages of an argument.
func linForms(m M) []mat.Matrix {
	v, _ := viewOf(m)
	return []mat.Matrix{m.dense(), v, tightView(m), roMat{m}}
}

// linBasis is the targets used for a design of n rows: every unit vector and two combinations.
func linBasis(n int) M {
	Y := zerosM(n, n+2, 0)
	for i := range Y {
		Y[i][i] = 1
		Y[i][n] = float64((i*i*3+2*i)%7) - 2.5
		Y[i][n+1] = float64(i) * 4
	}
	return Y
}

func linDesigns(x *X, wide bool, f func(X M)) {
	vals := []float64{-1, 0, 2}
	for _, s := range []struct{ r, c int }{{2, 1}, {3, 1}, {3, 2}, {4, 2}} {
		canonMatrices(s.r, s.c, vals, f)
	}
	if wide {
		canonMatrices(4, 1, []float64{-2, -1, 0, 1, 3}, f)
	}
	if wide {
		canonMatrices(4, 3, []float64{-1, 0, 2}, f)
		canonMatrices(5, 2, []float64{-1, 0, 2}, f)
	}
	if x.Thorough() {
		canonMatrices(5, 2, []float64{-1, 0, 1, 2}, f)
		if wide {
			canonMatrices(5, 3, []float64{-1, 0, 2}, f)
			canonMatrices(6, 2, []float64{-1, 0, 2}, f)
		}
	}
	for salt := 1; salt <= x.Pick(24, 120); salt++ {
		f(lattice(6+salt%3, 1+salt%4, salt))
		if wide {
			f(lattice(17+salt%23, 1+salt%6, salt+100))
		}
	}
	for k, sh := range [][2]int{{65, 2}, {101, 3}, {130, 1}} {
		f(lattice(sh[0], sh[1], k+40))
	}
	if wide {
		for k, sh := range [][2]int{{65, 4}, {130, 7}, {300, 3}, {33, 17}, {70, 34}} {
			f(lattice(sh[0], sh[1], k+60))
		}
	}
}

type linPred interface {
	base.Predicter
}

// ---- C26 --------------------------------------------------------------------------------------

// checkLinear compares a fitted model with the reference coefficients of every target.
func checkLinear(c *C, what string, m base.Predicter, coef, intercept *mat.Dense, X, Y, W M, icept []float64, tol float64) {
	p, q := W.dims()
	cm := toM(coef)
	r, k := cm.dims()
	c.Must(r == p && k == q, what+"/shape", "coefficients are %dx%d, want %dx%d", r, k, p, q)
	c.Must(nearM(cm, W, tol), what+"/coef", "coefficients %v want %v", cm, W)
	c.Must(nearSlice(toM(intercept)[0], icept, tol), what+"/intercept", "intercept %v want %v", toM(intercept)[0], icept)
	q2 := append(X.copy(), lattice(2, p, 7)...)
	want := zerosM(len(q2), q, 0)
	for i := range q2 {
		for o := 0; o < q; o++ {
			want[i][o] = intercept.At(0, o)
			for j := 0; j < p; j++ {
				want[i][o] += q2[i][j] * cm[j][o]
			}
		}
	}
	for f, a := range linForms(q2) {
		got := toM(m.Predict(a, nil))
		c.Must(nearM(got, want, 1e-9), what+"/predict", "form %d: predicts %v want %v", f, got, want)
		c.Steps(1)
	}
	out := mat.NewDense(len(q2), q, nil)
	m.Predict(q2.dense(), out)
	c.Must(nearM(toM(out), want, 1e-9), what+"/predict-into", "writes %v want %v", toM(out), want)
	rw := rwMat{zerosM(len(q2), q, canary)}
	m.Predict(q2.dense(), rw)
	c.Must(nearM(rw.m, want, 1e-9), what+"/predict-mutable", "writes %v want %v", rw.m, want)
	c.Must(m.GetNOutputs() == q, what+"/outputs", "%d outputs", m.GetNOutputs())
	_ = Y
	c.Steps(3)
}

func c26(x *X) {
	log.SetOutput(ioutil.Discard)
	refs := func(X, Y M, ic, norm bool, pen float64) (W M, icept []float64, ok bool) {
		Xc, mx := centred(X, ic)
		Yc, my := centred(Y, ic)
		_, p := X.dims()
		_, q := Y.dims()
		scale := onesVec(p)
		if norm && ic {
			scale = colNorms(Xc)
			for j := range scale {
				if scale[j] == 0 {
					scale[j] = 1
				}
			}
		}
		W = zerosM(p, q, 0)
		icept = make([]float64, q)
		for o := 0; o < q; o++ {
			w := ridgeRef(Xc, Yc.col(o), pen, scale)
			if w == nil {
				return nil, nil, false
			}
			s := my[o]
			for j := range w {
				W[j][o] = w[j]
				s -= mx[j] * w[j]
			}
			if ic {
				icept[o] = s
			}
		}
		return W, icept, true
	}
	bools := []bool{false, true}
	linDesigns(x, true, func(X M) {
		n, _ := X.dims()
		Y := linBasis(n)
		if n > 45 {
			for i, r := range Y {
				Y[i] = []float64{r[0], r[n/2], r[n-1], r[n], r[n+1]}
			}
		}
		for _, ic := range bools {
			for _, norm := range bools {
				ic, norm := ic, norm
				W, icept, ok := refs(X, Y, ic, norm, 0)
				if !ok {
					continue // not of full column rank
				}
				x.Case("LinearRegression", func() string { return fmt.Sprintf("intercept=%v normalize=%v X=%v", ic, norm, X) }, func(c *C) {
					for fi, xa := range linForms(X) {
						m := linearmodel.NewLinearRegression()
						m.FitIntercept, m.Normalize = ic, norm
						m.Fit(xa, linForms(Y)[(fi+1)%4])
						checkLinear(c, "LinearRegression", m, m.Coef, m.Intercept, X, Y, W, icept, 1e-7)
						// residuals are orthogonal to the columns
						pr := toM(m.Predict(X.dense(), nil))
						for o := range Y[0] {
							for j := range X[0] {
								dot := 0.
								for i := range X {
									dot += X[i][j] * (Y[i][o] - pr[i][o])
								}
								c.Must(math.Abs(dot) < 1e-6, "LinearRegression/orthogonal", "residual of target %d has product %g with column %d", o, dot, j)
							}
						}
						sc := m.Score(X.dense(), Y.dense())
						c.Must(near(sc, metrics.R2Score(Y.dense(), m.Predict(X.dense(), nil), nil, "").At(0, 0), 1e-9), "LinearRegression/score", "score %g", sc)
						c.Trace()
					}
					for o := range Y[0] { // each target as if alone
						m := linearmodel.NewLinearRegression()
						m.FitIntercept, m.Normalize = ic, norm
						yo := colVec(Y.col(o))
						m.Fit(X.dense(), yo.dense())
						wo := colVec(W.col(o))
						c.Must(nearM(toM(m.Coef), wo, 1e-7) && near(m.Intercept.At(0, 0), icept[o], 1e-7), "LinearRegression/alone", "target %d alone: %v + %g want %v + %g", o, toM(m.Coef), m.Intercept.At(0, 0), wo, icept[o])
						c.Steps(1)
					}
				})
			}
		}
	})
	// other units of the features: the predictions stay (with normalisation also under a penalty)
	linDesigns(x, false, func(X M) {
		n, p := X.dims()
		full := linBasis(n)
		Y := make(M, n)
		for i := range Y {
			Y[i] = []float64{full[i][n], full[i][n+1]}
		}
		Q := append(X.copy(), lattice(2, p, 7)...)
		for _, ic := range bools {
			for _, norm := range bools {
				if _, _, ok := refs(X, full, ic, norm, 0); !ok {
					continue
				}
				for _, e := range [][2]int{{-30, 0}, {25, 0}, {-12, 12}} {
					ic, norm, e := ic, norm, e
					x.Case("units", func() string { return fmt.Sprintf("2^%v intercept=%v normalize=%v X=%v", e, ic, norm, X) }, func(c *C) {
						scale := func(m M) M {
							o := m.copy()
							for i := range o {
								for j := range o[i] {
									o[i][j] = math.Ldexp(o[i][j], e[0]+e[1]*(j%2))
								}
							}
							return o
						}
						Xs, Qs := scale(X), scale(Q)
						fit := func(X, Q M, ey int) M {
							m := linearmodel.NewLinearRegression()
							m.FitIntercept, m.Normalize = ic, norm
							Ys := Y.copy()
							for _, r := range Ys {
								for o := range r {
									r[o] = math.Ldexp(r[o], ey)
								}
							}
							m.Fit(X.dense(), Ys.dense())
							c.Steps(1)
							p := toM(m.Predict(Q.dense(), nil))
							for _, r := range p {
								for o := range r {
									r[o] = math.Ldexp(r[o], -ey)
								}
							}
							return p
						}
						a, b := fit(X, Q, 0), fit(Xs, Qs, 0)
						for _, ey := range []int{-30, 30} {
							y := fit(X, Q, ey)
							c.Must(nearM(a, y, 1e-9), "LinearRegression/target-units", "predicts %v, with the targets in units of 2^%d %v", a, -ey, y)
						}
						c.Must(nearM(a, b, 1e-5), "LinearRegression/units", "predicts %v, in other units %v", a, b)
						if norm && ic { // normalisation is part of centring
							ridge := func(X, Q M) M {
								m := linearmodel.NewRidge()
								m.FitIntercept, m.Normalize, m.Alpha = ic, norm, .5
								m.Fit(X.dense(), Y.dense())
								c.Steps(1)
								return toM(m.Predict(Q.dense(), nil))
							}
							a, b := ridge(X, Q), ridge(Xs, Qs)
							c.Must(nearM(a, b, 5e-3), "Ridge/units", "predicts %v, in other units %v", a, b)
						}
						c.Trace()
					})
				}
			}
		}
	})
	linDesigns(x, false, func(X M) {
		n, p := X.dims()
		full := linBasis(n)
		for _, ic := range bools {
			for _, norm := range bools {
				if _, _, ok := refs(X, full, ic, norm, 0); !ok {
					continue
				}
				for _, alpha := range []float64{0, .5, 3} {
					for _, ys := range [][]int{{n}, {0, n + 1}, {n, 1, n + 1}} {
						ic, norm, alpha := ic, norm, alpha
						Y := make(M, n)
						for i := range Y {
							for _, o := range ys {
								Y[i] = append(Y[i], full[i][o])
							}
						}
						W, icept, _ := refs(X, Y, ic, norm, alpha)
						x.Case("Ridge", func() string {
							return fmt.Sprintf("alpha=%g intercept=%v normalize=%v X=%v Y=%v", alpha, ic, norm, X, Y)
						}, func(c *C) {
							m := linearmodel.NewRidge()
							m.FitIntercept, m.Normalize, m.Alpha = ic, norm, alpha
							m.Fit(linForms(X)[(n+p)%4], linForms(Y)[p%4])
							checkLinear(c, "Ridge", m, m.Coef, m.Intercept, X, Y, W, icept, 2e-3)
							c.Trace()
						})
						x.Case("SGDRegressor", func() string {
							return fmt.Sprintf("alpha=%g intercept=%v normalize=%v X=%v Y=%v", alpha, ic, norm, X, Y)
						}, func(c *C) {
							m := linearmodel.NewSGDRegressor()
							m.FitIntercept, m.Normalize, m.Alpha, m.L1Ratio = ic, norm, alpha, 0
							m.Fit(linForms(X)[(n+p)%4], linForms(Y)[p%4])
							checkLinear(c, "SGDRegressor", m, m.Coef, m.Intercept, X, Y, W, icept, 2e-3)
							c.Trace()
						})
						if alpha == 0 && n > p {
							x.Case("BayesianRidge", func() string { return fmt.Sprintf("intercept=%v normalize=%v X=%v Y=%v", ic, norm, X, Y) }, func(c *C) { bayes(c, X, Y, ic, norm) })
						}
					}
				}
			}
		}
	})
	lossCases(x)
}

// bayes: a converged Bayesian ridge is the ridge solution of its own precisions, which satisfy the evidence
// equations (single target).
func bayes(c *C, X, Y M, ic, norm bool) {
	n, p := X.dims()
	m := linearmodel.NewBayesianRidge()
	m.FitIntercept, m.Normalize = ic, norm
	m.Tol, m.NIter = 1e-11, 5000
	// hyperpriors that keep the precisions finite for exact fits
	m.Alpha1, m.Alpha2, m.Lambda1, m.Lambda2 = .5, .25, .75, .5
	m.ComputeScore = true
	m.Fit(X.dense(), Y.dense())
	Xc, mx := centred(X, ic)
	Yc, my := centred(Y, ic)
	scale := onesVec(p)
	if ic && norm {
		scale = colNorms(Xc)
		for j := range scale {
			if scale[j] == 0 {
				scale[j] = 1
			}
		}
	}
	W := zerosM(p, len(Y[0]), 0)
	icept := make([]float64, len(Y[0]))
	for o := range icept {
		w := ridgeRef(Xc, Yc.col(o), m.Lambda/m.Alpha, scale)
		for j := range w {
			W[j][o] = w[j]
			icept[o] -= mx[j] * w[j]
		}
		icept[o] += my[o]
		if !ic {
			icept[o] = 0
		}
	}
	checkLinear(c, "BayesianRidge", m, m.Coef, m.Intercept, X, Y, W, icept, 1e-5)
	zero := true // all coefficients vanish: they converge before the precisions do
	for j := range W {
		zero = zero && math.Abs(W[j][0]) < 1e-9
	}
	if len(Y[0]) > 1 || zero {
		return
	}
	Z := Xc.copy()
	for i := range Z {
		for j := range Z[i] {
			Z[i][j] /= scale[j]
		}
	}
	// gamma = trace of alpha Z'Z (lambda I + alpha Z'Z)^-1 = p - lambda trace(S), S = (lambda I + alpha Z'Z)^-1
	S := zerosM(p, p, 0)
	for b := 0; b < p; b++ {
		A := zerosM(p, p+1, 0)
		for a := 0; a < p; a++ {
			for k := 0; k < p; k++ {
				for i := range Z {
					A[a][k] += m.Alpha * Z[i][a] * Z[i][k]
				}
			}
			A[a][a] += m.Lambda
		}
		A[b][p] = 1
		col := gauss(A)
		for a := range col {
			S[a][b] = col[a]
		}
	}
	gamma := float64(p)
	w2, r2 := 0., 0.
	for j := 0; j < p; j++ {
		gamma -= m.Lambda * S[j][j]
		w2 += W[j][0] * scale[j] * W[j][0] * scale[j]
	}
	for i := range Xc {
		e := Yc[i][0]
		for j := range Xc[i] {
			e -= Xc[i][j] * W[j][0]
		}
		r2 += e * e
	}
	lam := (gamma + 2*m.Lambda1) / (w2 + 2*m.Lambda2)
	alp := (float64(n) - gamma + 2*m.Alpha1) / (r2 + 2*m.Alpha2)
	c.Must(near(lam, m.Lambda, 1e-4), "BayesianRidge/lambda", "weight precision %g, the evidence equation gives %g", m.Lambda, lam)
	c.Must(near(alp, m.Alpha, 1e-4), "BayesianRidge/alpha", "noise precision %g, the evidence equation gives %g", m.Alpha, alp)
	c.Must(nearM(toM(m.Sigma), S, 1e-4), "BayesianRidge/sigma", "covariance %v want %v", toM(m.Sigma), S)
	// the last score is the log evidence at the precisions: log det (lambda I + alpha Z'Z) from S by elimination
	ld := -logDet(S)
	ev := m.Lambda1*math.Log(m.Lambda) - m.Lambda2*m.Lambda + m.Alpha1*math.Log(m.Alpha) - m.Alpha2*m.Alpha +
		.5*(float64(p)*math.Log(m.Lambda)+float64(n)*math.Log(m.Alpha)-m.Alpha*r2-m.Lambda*w2-ld-float64(n)*math.Log(2*math.Pi))
	c.Must(len(m.Scores) > 0 && len(m.Scores) <= m.NIter, "BayesianRidge/scores", "%d scores", len(m.Scores))
	c.Must(near(m.Scores[len(m.Scores)-1], ev, 1e-4), "BayesianRidge/score", "last score %g, the log evidence is %g", m.Scores[len(m.Scores)-1], ev)
	Q := append(X.copy(), lattice(2, p, 3)...)
	yp, sd := mat.NewDense(len(Q), 1, nil), &mat.Dense{}
	m.Predict2(Q.dense(), yp, sd)
	for i := range Q {
		v := 1 / m.Alpha
		q := append([]float64(nil), Q[i]...)
		if norm {
			for j := range q {
				q[j] = (q[j] - mx[j]) / scale[j]
			}
		}
		for a := range q {
			for b := range q {
				v += q[a] * S[a][b] * q[b]
			}
		}
		c.Must(near(sd.At(i, 0), math.Sqrt(v), 1e-4), "BayesianRidge/std", "standard deviation %g want %g at %v", sd.At(i, 0), math.Sqrt(v), Q[i])
	}
	c.Trace()
}

// logDet of a symmetric positive definite matrix, by elimination.
func logDet(a M) float64 {
	a = a.copy()
	s := 0.
	for k := range a {
		s += math.Log(a[k][k])
		for i := k + 1; i < len(a); i++ {
			f := a[i][k] / a[k][k]
			for j := k; j < len(a); j++ {
				a[i][j] -= f * a[k][j]
			}
		}
	}
	return s
}

// lossCases: the gradient of each loss is the derivative of its value, and the value is its formula.
func lossCases(x *X) {
	acts := []struct {
		name string
		a    linearmodel.Activation
	}{{"identity", base.Identity{}}, {"logistic", base.Logistic{}}, {"tanh", base.Tanh{}}}
	for lname, loss := range linearmodel.LossFunctions {
		for _, act := range acts {
			if lname != "square" && act.name != "logistic" {
				continue
			}
			for _, q := range []int{1, 2} {
				tuples(2*q, []float64{-.7, 4e-4, 1.1}, func(tv []float64) {
					th := append([]float64(nil), tv...)
					for _, alpha := range []float64{0, .8} {
						for _, l1 := range []float64{0, .3, 1} {
							if alpha == 0 && l1 > 0 {
								continue
							}
							for _, dis := range []bool{false, true} {
								lname, loss, act, q, alpha, l1, dis := lname, loss, act, q, alpha, l1, dis
								x.Case("loss", func() string {
									return fmt.Sprintf("%s/%s theta=%v outputs=%d alpha=%g l1=%g free-first=%v", lname, act.name, th, q, alpha, l1, dis)
								}, func(c *C) {
									X := M{{1, .5}, {1, -2}, {1, 1.5}}
									Y := zerosM(3, q, 0)
									for i := range Y {
										for o := range Y[i] {
											Y[i][o] = float64((i + o) % 2)
										}
									}
									eval := func(t []float64, al float64, grad *mat.Dense) float64 {
										return loss(Y.dense(), X.dense(), mat.NewDense(2, q, append([]float64(nil), t...)), mat.NewDense(3, q, nil), mat.NewDense(3, q, nil), grad, al, l1, 3, act.a, dis)
									}
									g := mat.NewDense(2, q, nil)
									J := eval(th, alpha, g)
									c.Must(near(J, eval(th, alpha, nil), 1e-12), "loss/value", "value %g with, %g without gradient", J, eval(th, alpha, nil))
									g0 := mat.NewDense(2, q, nil)
									J0 := eval(th, 0, g0)
									want := 0.
									for i := range X {
										for o := 0; o < q; o++ {
											h := act.a.F(X[i][0]*th[o] + X[i][1]*th[q+o])
											y := Y[i][o]
											switch lname {
											case "square":
												want += (h - y) * (h - y) / 2
											case "log":
												want -= y * math.Log(h)
											default:
												want -= y*math.Log(h) + (1-y)*math.Log(1-h)
											}
										}
									}
									c.Must(near(J0, want/3, 1e-9), "loss/value", "unpenalised value %g want %g", J0, want/3)
									c.Must(alpha == 0 || J > J0, "loss/penalty", "penalised value %g, unpenalised %g", J, J0)
									for k := range th {
										const h = 2e-7
										a, b := append([]float64(nil), th...), append([]float64(nil), th...)
										a[k] += h
										b[k] -= h
										d := (eval(a, alpha, nil) - eval(b, alpha, nil)) / (2 * h)
										got := g.At(k/q, k%q)
										c.Must(near(got, d, 1e-6), "loss/gradient", "gradient %d is %g, the derivative is %g", k, got, d)
										if dis && k < q {
											c.Must(near(got, g0.At(k/q, k%q), 1e-12), "loss/first", "the first feature is penalised: %g vs %g", got, g0.At(k/q, k%q))
										}
										c.Steps(2)
									}
									c.Trace()
								})
							}
						}
					}
				})
			}
		}
	}
}

// ---- C27 --------------------------------------------------------------------------------------

// enetRef minimises .5|y-Xw|²+l1|w|₁+.5 l2|w|² by trying every support and sign pattern.
func enetRef(X M, y []float64, l1, l2 float64, pos bool) (best []float64, obj float64) {
	_, p := X.dims()
	obj = math.Inf(1)
	intTuples(p, 3, func(v []int) {
		var S []int
		for j, s := range v {
			if s == 2 && pos {
				return
			}
			if s > 0 {
				S = append(S, j)
			}
		}
		w := make([]float64, p)
		if len(S) > 0 {
			k := len(S)
			A := zerosM(k, k+1, 0)
			for a, ja := range S {
				for b, jb := range S {
					for i := range X {
						A[a][b] += X[i][ja] * X[i][jb]
					}
				}
				A[a][a] += l2
				for i := range X {
					A[a][k] += X[i][ja] * y[i]
				}
				if v[ja] == 1 {
					A[a][k] -= l1
				} else {
					A[a][k] += l1
				}
			}
			s := gauss(A)
			if s == nil {
				return
			}
			for a, ja := range S {
				if (v[ja] == 1) != (s[a] >= 0) {
					return
				}
				w[ja] = s[a]
			}
		}
		if o := enetObj(X, colVec(y), colVec(w), l1, l2); o < obj {
			obj, best = o, w
		}
	})
	return
}

// enetObj: the objective, with the row norms as l1 part (for one target: absolute values).
func enetObj(X, Y, W M, l1, l2 float64) float64 {
	s := 0.
	for i := range X {
		for o := range Y[i] {
			e := Y[i][o]
			for j := range X[i] {
				e -= X[i][j] * W[j][o]
			}
			s += e * e / 2
		}
	}
	for j := range W {
		r := 0.
		for _, w := range W[j] {
			r += w * w
		}
		s += l1*math.Sqrt(r) + l2*r/2
	}
	return s
}

func c27(x *X) {
	bools := []bool{false, true}
	prep := func(X, Y M, ic, norm bool) (Xs, Yc M, mx, my, scale []float64) {
		Xs, mx = centred(X, ic)
		Yc, my = centred(Y, ic)
		_, p := X.dims()
		scale = onesVec(p)
		if ic && norm {
			scale = colNorms(Xs)
			for j := range scale {
				if scale[j] == 0 {
					scale[j] = 1
				}
			}
		}
		for i := range Xs {
			for j := range Xs[i] {
				Xs[i][j] /= scale[j]
			}
		}
		return
	}
	designs := func(f func(X M)) {
		canonMatrices(3, 1, []float64{-1, 0, 2}, f)
		canonMatrices(3, 2, []float64{-1, 0, 2}, f)
		if x.Thorough() {
			canonMatrices(4, 2, []float64{-1, 0, 2}, f)
		}
		for salt := 1; salt <= x.Pick(6, 20); salt++ {
			f(lattice(6+salt%3, 2+salt%2, salt))
		}
		for k, sh := range [][2]int{{20, 6}, {33, 4}, {65, 3}, {130, 2}} {
			f(lattice(sh[0], sh[1], k+30))
		}
	}
	type hyp struct{ alpha, l1 float64 }
	hyps := []hyp{{.1, 0}, {.1, .5}, {.1, 1}, {.6, .2}, {.6, 1}, {2, .5}}
	designs(func(X M) {
		n, p := X.dims()
		full := linBasis(n)
		for _, ic := range bools {
			for _, norm := range bools {
				if norm && !ic {
					continue
				}
				for _, h := range hyps {
					for yi := n - 1; yi < n+2; yi++ {
						for _, pos := range bools {
							for _, sel := range []string{"cyclic", "random"} {
								ic, norm, h, pos, sel := ic, norm, h, pos, sel
								Y := colVec(full.col(yi))
								x.Case("one target", func() string {
									return fmt.Sprintf("alpha=%g l1=%g intercept=%v normalize=%v positive=%v %s X=%v Y=%v", h.alpha, h.l1, ic, norm, pos, sel, X, Y)
								}, func(c *C) {
									Xs, Yc, mx, my, scale := prep(X, Y, ic, norm)
									l1, l2 := h.alpha*h.l1*float64(n), h.alpha*(1-h.l1)*float64(n)
									ref, obj := enetRef(Xs, Yc.col(0), l1, l2, pos)
									m := linearmodel.NewElasticNet()
									if h.l1 == 1 {
										m = linearmodel.NewLasso()
									}
									m.L1Ratio, m.Alpha, m.FitIntercept, m.Normalize, m.Positive, m.Selection = h.l1, h.alpha, ic, norm, pos, sel
									m.Tol, m.MaxIter = 1e-10, 3000
									m.Fit(linForms(X)[yi%4], linForms(Y)[p%4])
									w := make(M, p)
									for j := range w {
										w[j] = []float64{m.Coef.At(j, 0) * scale[j]}
										c.Must(!pos || w[j][0] >= 0, "enet/positive", "coefficient %d is %g", j, w[j][0])
									}
									got := enetObj(Xs, Yc, w, l1, l2)
									c.Must(got <= obj+1e-7*(1+obj), "enet/optimal", "objective %g of coefficients %v, the minimum is %g at %v (preprocessed scale)", got, w, obj, ref)
									c.Must(got >= obj-1e-7*(1+obj), "enet/reference", "objective %g below the minimum %g", got, obj)
									if h.l1 > 0 {
										c.Must(m.CDResult.Gap >= got-obj-1e-7, "enet/gap", "reported duality gap %g, distance to the optimum %g", m.CDResult.Gap, got-obj)
									}
									want := 0.
									if ic {
										want = my[0]
										for j := range mx {
											want -= mx[j] * m.Coef.At(j, 0)
										}
									}
									c.Must(near(m.Intercept.At(0, 0), want, 1e-9), "enet/intercept", "intercept %g want %g", m.Intercept.At(0, 0), want)
									pr := m.Predict(X.dense(), nil)
									for i := range X {
										v := m.Intercept.At(0, 0)
										for j := range X[i] {
											v += X[i][j] * m.Coef.At(j, 0)
										}
										c.Must(near(pr.At(i, 0), v, 1e-9), "enet/predict", "row %d: %g want %g", i, pr.At(i, 0), v)
									}
									// warm start: from the solution and from a foreign start, the same optimum
									if sel == "cyclic" {
										m.WarmStart = true
										m.Fit(X.dense(), Y.dense())
										for j := range w {
											w[j][0] = m.Coef.At(j, 0) * scale[j]
										}
										g2 := enetObj(Xs, Yc, w, l1, l2)
										c.Must(g2 <= obj+1e-7*(1+obj), "enet/warm", "after a warm start the objective is %g, the minimum %g", g2, obj)
									}
									c.Steps(4)
									c.Trace()
								})
							}
						}
					}
				}
			}
		}
	})
	// other units of the target or the features: the same problem
	for salt := 1; salt <= x.Pick(10, 30); salt++ {
		X := lattice(4+salt%5, 1+salt%3, salt)
		n, p := X.dims()
		y := linBasis(n).col(n + salt%2)
		for _, h := range hyps {
			for _, e := range []int{-45, -20, 20, 60} {
				for _, feat := range bools {
					for _, multi := range bools {
						for _, ic := range bools {
							h, e, feat, multi, ic := h, e, feat, multi, ic
							if h.l1 != 0 && h.l1 != 1 && (e < -20 || e > 20) {
								continue // the mixing itself cannot be written down
							}
							x.Case("units", func() string {
								return fmt.Sprintf("alpha=%g l1=%g 2^%d of the features=%v tasks=%v intercept=%v X=%v y=%v", h.alpha, h.l1, e, feat, multi, ic, X, y)
							}, func(c *C) {
								fit := func(X, Y M, a1, a2 float64) M {
									alpha, r := a1+a2, a1/(a1+a2)
									if multi {
										m := linearmodel.NewMultiTaskElasticNet()
										m.L1Ratio, m.Alpha, m.FitIntercept, m.Tol, m.MaxIter = r, alpha, ic, 1e-10, 2000
										m.Fit(X.dense(), Y.dense())
										return toM(m.Coef)
									}
									m := linearmodel.NewElasticNet()
									m.L1Ratio, m.Alpha, m.FitIntercept, m.Tol, m.MaxIter = r, alpha, ic, 1e-10, 2000
									m.Fit(X.dense(), Y.dense())
									return toM(m.Coef)
								}
								Y := zerosM(n, 1, 0)
								for i := range Y {
									Y[i][0] = y[i]
									if multi {
										Y[i] = append(Y[i], y[(i+1)%n]/2)
									}
								}
								a1, a2 := h.alpha*h.l1, h.alpha*(1-h.l1)
								Xs, Ys := X.copy(), Y.copy()
								back := 0
								if feat {
									for i := range Xs {
										for j := range Xs[i] {
											Xs[i][j] = math.Ldexp(Xs[i][j], e)
										}
									}
									back = e
								} else {
									for i := range Ys {
										for j := range Ys[i] {
											Ys[i][j] = math.Ldexp(Ys[i][j], e)
										}
									}
									back = -e
								}
								wa := fit(X, Y, a1, a2)
								b1, b2 := math.Ldexp(a1, e), a2
								if feat {
									b2 = math.Ldexp(a2, 2*e)
								}
								wb := fit(Xs, Ys, b1, b2)
								c.Steps(2)
								for j := 0; j < p; j++ {
									for o := range wa[j] {
										c.Must(math.Abs(math.Ldexp(wb[j][o], back)-wa[j][o]) <= 1e-4, "units", "coefficients %v, in other units %v", wa, wb)
									}
								}
								c.Trace()
							})
						}
					}
				}
			}
		}
	}
	// several targets
	designs(func(X M) {
		n, p := X.dims()
		full := linBasis(n)
		for _, ic := range bools {
			for _, norm := range bools {
				if norm && !ic {
					continue
				}
				for _, h := range hyps {
					for _, sel := range []string{"cyclic", "random"} {
						ic, norm, h, sel := ic, norm, h, sel
						Y := make(M, n)
						for i := range Y {
							Y[i] = []float64{full[i][n], full[i][n+1], full[i][0]}
						}
						x.Case("several targets", func() string {
							return fmt.Sprintf("alpha=%g l1=%g intercept=%v normalize=%v %s X=%v Y=%v", h.alpha, h.l1, ic, norm, sel, X, Y)
						}, func(c *C) {
							Xs, Yc, mx, my, scale := prep(X, Y, ic, norm)
							l1, l2 := h.alpha*h.l1*float64(n), h.alpha*(1-h.l1)*float64(n)
							m := linearmodel.NewMultiTaskElasticNet()
							m.L1Ratio, m.Alpha, m.FitIntercept, m.Normalize, m.Selection = h.l1, h.alpha, ic, norm, sel
							m.Tol, m.MaxIter = 1e-12, 3000
							m.Fit(linForms(X)[n%4], linForms(Y)[p%4])
							W := toM(m.Coef)
							for j := range W {
								for o := range W[j] {
									W[j][o] *= scale[j]
								}
							}
							tol := 1e-4 * (1 + l1 + l2)
							for j := 0; j < p; j++ {
								g := make([]float64, 3)
								nw, ng, nx := 0., 0., 0.
								for o := range g {
									for i := range Xs {
										e := Yc[i][o]
										for k := range Xs[i] {
											e -= Xs[i][k] * W[k][o]
										}
										g[o] += Xs[i][j] * e
										nx += Xs[i][j] * Xs[i][j]
									}
									g[o] -= l2 * W[j][o]
									nw += W[j][o] * W[j][o]
									ng += g[o] * g[o]
								}
								nw, ng = math.Sqrt(nw), math.Sqrt(ng)
								if nx == 0 {
									c.Must(nw == 0, "multitask/constant", "a constant feature has coefficients %v", W[j])
									continue
								}
								c.Must(ng <= l1+tol, "multitask/bound", "feature %d: gradient norm %g exceeds %g at %v", j, ng, l1, W)
								if nw > 1e-4 {
									for o := range g {
										c.Must(math.Abs(g[o]-l1*W[j][o]/nw) <= 10*tol, "multitask/stationary", "feature %d target %d: gradient %g want %g at %v", j, o, g[o], l1*W[j][o]/nw, W)
									}
								}
							}
							for o := 0; o < 3; o++ {
								want := 0.
								if ic {
									want = my[o]
									for j := range mx {
										want -= mx[j] * m.Coef.At(j, o)
									}
								}
								c.Must(near(m.Intercept.At(0, o), want, 1e-9), "multitask/intercept", "intercept %g want %g", m.Intercept.At(0, o), want)
							}
							c.Steps(2)
							c.Trace()
						})
					}
				}
			}
		}
	})
	// paths: every order of three penalties
	designs(func(X M) {
		n, _ := X.dims()
		full := linBasis(n)
		permutations(3, func(perm []int) {
			for _, l1r := range []float64{.4, 1} {
				for _, pos := range bools {
					perm, l1r, pos := perm, l1r, pos
					x.Case("path", func() string { return fmt.Sprintf("l1=%g positive=%v order=%v X=%v", l1r, pos, perm, X) }, func(c *C) {
						base3 := []float64{1.5, .4, .05}
						al := []float64{base3[perm[0]], base3[perm[1]], base3[perm[2]]}
						given := append([]float64(nil), al...)
						y := full.col(n)
						var as []float64
						var co []*mat.Dense
						if l1r == 1 {
							as, co, _, _ = linearmodel.LassoPath(X.dense(), colVec(y).dense(), 1e-10, 3, &al, false, pos)
						} else {
							as, co, _, _ = linearmodel.EnetPath(X.dense(), colVec(y).dense(), l1r, 1e-10, 3, &al, false, pos)
						}
						c.Must(nearSlice(as, given, 0) && nearSlice(al, given, 0) && len(co) == 3, "path/order", "penalties %v, given %v, %d solutions", as, given, len(co))
						for k, a := range given {
							l1, l2 := a*l1r*float64(n), a*(1-l1r)*float64(n)
							ref, obj := enetRef(X, y, l1, l2, pos)
							got := enetObj(X, colVec(y), toM(co[k]), l1, l2)
							if pos {
								for _, r := range toM(co[k]) {
									for _, v := range r {
										c.Must(v >= 0, "path/positive", "penalty %g: coefficients %v", a, toM(co[k]))
									}
								}
							}
							c.Must(got <= obj+1e-6*(1+obj), "path/optimal", "penalty %g: objective %g at %v, the minimum is %g at %v", a, got, toM(co[k]), obj, ref)
						}
						c.Steps(3)
						c.Trace()
					})
				}
			}
		})
	})
}

// ---- C28 --------------------------------------------------------------------------------------

func c28(x *X) {
	log.SetOutput(ioutil.Discard)
	valueSets := [][]float64{{0, 1}, {1, 2}, {-3, 5.5}, {2, 0}, {7, -1, 3}, {0, 1, 2}, {4, 3, 2}, {.25, 1}}
	designs := func(f func(X M)) {
		canonMatrices(4, 1, []float64{-1, 0, 2}, f)
		canonMatrices(3, 2, []float64{-1, 0, 2}, f)
		canonMatrices(4, 2, []float64{-1, 0, 2}, f)
		if x.Thorough() {
			canonMatrices(5, 1, []float64{-1, 0, 2}, f)
			canonMatrices(5, 2, []float64{-1, 0, 2}, f)
		}
		for salt := 1; salt <= x.Pick(8, 20); salt++ {
			f(lattice(4, 2, salt))
		}
	}
	check := func(c *C, m *linearmodel.LogisticRegression, X M, T M, alpha float64, onehot bool) {
		// T: indicator of each class (or the single 0/1 column)
		n, p := X.dims()
		k := len(T[0])
		c.Must(m.Coef.Rows == p && m.Coef.Cols == k && len(m.Intercept) == k, "shape", "coefficients %dx%d, intercept %d", m.Coef.Rows, m.Coef.Cols, len(m.Intercept))
		Q := append(X.copy(), M{}...)
		for s := 0; s < 3; s++ {
			Q = append(Q, lattice(1, p, s+11)[0])
		}
		far := make([]float64, p)
		for j := range far {
			far[j] = 900 * float64(1-2*(j%2))
		}
		Q = append(Q, far)
		for s := 0; s < 4; s++ {
			far := make([]float64, p)
			for j := range far {
				far[j] = 2e4 * float64(1-2*((s+j*(s/2))%2))
			}
			Q = append(Q, far)
		}
		P := zerosM(len(Q), k, 0)
		for i := range Q {
			z := make([]float64, k)
			zm := math.Inf(-1)
			for o := range z {
				z[o] = m.Intercept[o]
				for j := range Q[i] {
					z[o] += Q[i][j] * m.Coef.Data[j*m.Coef.Stride+o]
				}
				zm = math.Max(zm, z[o])
			}
			if k == 1 {
				P[i][0] = 1 / (1 + math.Exp(-z[0]))
				continue
			}
			s := 0.
			for o := range z {
				P[i][o] = math.Exp(z[o] - zm)
				s += P[i][o]
			}
			for o := range z {
				P[i][o] /= s
			}
		}
		for f, a := range linForms(Q) {
			pr := toM(m.PredictProbas(a, nil))
			c.Must(nearM(pr, P, 1e-9), "proba", "form %d: probabilities %v want %v", f, pr, P)
		}
		into := mat.NewDense(len(Q), k, nil)
		m.PredictProbas(Q.dense(), into)
		c.Must(nearM(toM(into), P, 1e-9), "proba-into", "probabilities %v want %v", toM(into), P)
		for i := range P {
			s := 0.
			for _, v := range P[i] {
				c.Must(v >= 0 && v <= 1, "proba-range", "probability %g", v)
				s += v
			}
			c.Must(k == 1 || near(s, 1, 1e-9), "proba-sum", "probabilities %v", P[i])
		}
		// the losses it reports are the penalised mean log-losses along the way, the fitted one at the bottom
		obj := 0.
		for _, v := range m.Coef.Data {
			obj += .5 * alpha * v * v / float64(n)
		}
		for i := 0; i < n; i++ {
			for o := range T[i] {
				if T[i][o] == 1 {
					obj -= math.Log(P[i][o]) / float64(n)
				} else if k == 1 {
					obj -= math.Log1p(-P[i][o]) / float64(n)
				}
			}
		}
		c.Must(len(m.LossCurve) > 0, "curve", "no losses")
		best := math.Inf(1)
		for _, l := range m.LossCurve {
			best = math.Min(best, l)
		}
		c.Must(best == m.BestLoss && near(best, obj, 1e-7), "curve", "loss %g at the coefficients, best reported %g, best of the curve %g", obj, m.BestLoss, best)
		c.Must(m.Loss == m.LossCurve[len(m.LossCurve)-1], "curve", "loss %g, the curve ends with %g", m.Loss, m.LossCurve[len(m.LossCurve)-1])
		// stationarity of the penalised mean log-loss
		for o := 0; o < k; o++ {
			gi := 0.
			for i := 0; i < n; i++ {
				gi += (P[i][o] - T[i][o]) / float64(n)
			}
			c.Must(math.Abs(gi) < 1e-4, "stationary", "derivative %g in intercept %d", gi, o)
			for j := 0; j < p; j++ {
				g := alpha / float64(n) * m.Coef.Data[j*m.Coef.Stride+o]
				for i := 0; i < n; i++ {
					g += X[i][j] * (P[i][o] - T[i][o]) / float64(n)
				}
				c.Must(math.Abs(g) < 1e-4, "stationary", "derivative %g in coefficient %d of class %d", g, j, o)
			}
		}
		c.Steps(6)
		_ = onehot
	}
	labels := func(X M, vals []float64, lab []int, alpha float64, vi int) {
		n := len(X)
		x.Case("labels", func() string {
			return fmt.Sprintf("alpha=%g values=%v labels=%v X=%v", alpha, vals, lab, X)
		}, func(c *C) {
			Y := zerosM(n, 1, 0)
			for i := range Y {
				Y[i][0] = vals[lab[i]]
			}
			cls := distinct(Y.col(0))
			binary := len(cls) == 2 && cls[0] == 0 && cls[1] == 1
			var T M
			if binary {
				T = Y.copy()
			} else {
				T = zerosM(n, len(cls), 0)
				for i := range Y {
					T[i][indexOf(cls, Y[i][0])] = 1
				}
			}
			m := linearmodel.NewLogisticRegression()
			m.Alpha, m.Tol, m.MaxIter, m.NIterNoChange = alpha, 1e-13, 5000, 20
			m.RandomState = base.NewLockedSource(uint64(1 + vi))
			m.Fit(linForms(X)[vi%4], linForms(Y)[(vi+1)%4])
			check(c, m, X, T, alpha, false)
			// stopped early: never worse than the start, and the coefficients are those of one of the losses
			for _, it := range []int{2, 3, 4, 6} {
				if n > 4 && it > 2 {
					continue
				}
				e := linearmodel.NewLogisticRegression()
				e.Alpha, e.MaxIter = alpha, it
				e.RandomState = base.NewLockedSource(uint64(1 + vi))
				e.Fit(X.dense(), Y.dense())
				pe := toM(e.PredictProbas(X.dense(), nil))
				obj := 0.
				for _, v := range e.Coef.Data {
					obj += .5 * alpha * v * v / float64(n)
				}
				for i := range T {
					for o := range T[i] {
						if T[i][o] == 1 {
							obj -= math.Log(pe[i][o]) / float64(n)
						} else if binary {
							obj -= math.Log1p(-pe[i][o]) / float64(n)
						}
					}
				}
				found := false
				for _, l := range e.LossCurve {
					found = found || near(l, obj, 1e-9)
				}
				c.Must(found && obj <= e.LossCurve[0]+1e-9, "early", "after at most %d evaluations the loss is %g, of the curve %v", it, obj, e.LossCurve)
				c.Steps(1)
			}
			Q := append(X.copy(), lattice(3, len(X[0]), 11)...)
			pb := toM(m.PredictProbas(Q.dense(), nil))
			pr := toM(m.Predict(Q.dense(), nil))
			r, k := pr.dims()
			c.Must(r == len(Q) && k == 1, "predict-shape", "%dx%d predictions", r, k)
			for i := range pr {
				want, margin := 0., 0.
				if binary {
					margin = math.Abs(pb[i][0] - .5)
					if pb[i][0] > .5 {
						want = 1
					}
				} else {
					b := 0
					for o := range pb[i] {
						if pb[i][o] > pb[i][b] {
							b = o
						}
					}
					margin = 1
					for o := range pb[i] {
						if o != b {
							margin = math.Min(margin, pb[i][b]-pb[i][o])
						}
					}
					want = cls[b]
				}
				c.Must(margin < 1e-9 || pr[i][0] == want, "class", "row %v: class %g, the probabilities %v say %g", Q[i], pr[i][0], pb[i], want)
			}
			hit := 0.
			px := toM(m.Predict(X.dense(), nil))
			for i := range Y {
				if px[i][0] == Y[i][0] {
					hit++
				}
			}
			c.Must(near(m.Score(X.dense(), Y.dense()), hit/float64(n), 1e-12), "score", "score %g want %g", m.Score(X.dense(), Y.dense()), hit/float64(n))
			c.Must(m.GetNOutputs() == 1, "outputs", "%d outputs", m.GetNOutputs())
			c.Steps(2)
			c.Trace()
		})
	}
	for k, sh := range [][2]int{{17, 3}, {33, 2}, {65, 1}, {65, 4}, {130, 3}, {202, 2}, {250, 5}} {
		X := lattice(sh[0], sh[1], k+70)
		for i := range X {
			for j := range X[i] {
				X[i][j] /= 4
			}
		}
		for _, vals := range [][]float64{{0, 1}, {-1, 1}, {3, 1, 2}, {5, 0, 1, 2, 3, 4, -7, 11, 2.5, 6, 12}} {
			lab := make([]int, len(X))
			for i := range lab {
				if i < len(vals) {
					lab[i] = i
				} else {
					lab[i] = int(math.Abs(X[i][0]*3+float64(i%5))) % len(vals)
				}
			}
			for ai, alpha := range []float64{1, 4} {
				labels(X, vals, lab, alpha, k+ai)
			}
		}
	}
	// rows of large values: the losses of the first evaluations, some of them of probabilities next to 0
	canonMatrices(3, 2, []float64{-1, 0, 2}, func(X M) {
		X = X.copy()
		for i := range X {
			for j := range X[i] {
				X[i][j] *= 9
			}
		}
		for _, vals := range [][]float64{{1, 2}, {7, -1, 3}} {
			intTuples(3, len(vals), func(lab []int) {
				cls := map[int]bool{}
				for _, l := range lab {
					cls[l] = true
				}
				if len(cls) < len(vals) {
					return
				}
				lab = append([]int(nil), lab...)
				x.Case("large values", func() string { return fmt.Sprintf("values=%v labels=%v X=%v", vals, lab, X) }, func(c *C) {
					Y := zerosM(3, 1, 0)
					for i := range Y {
						Y[i][0] = vals[lab[i]]
					}
					cls := distinct(Y.col(0))
					for _, it := range []int{1, 2, 3} {
						for seed := 1; seed <= 3; seed++ {
							e := linearmodel.NewLogisticRegression()
							e.Alpha, e.MaxIter = 1e-3, it
							e.RandomState = base.NewLockedSource(uint64(seed))
							e.Fit(X.dense(), Y.dense())
							obj := 0.
							for _, v := range e.Coef.Data {
								obj += .5 * e.Alpha * v * v / 3
							}
							for i, pr := range toM(e.PredictProbas(X.dense(), nil)) {
								obj -= math.Log(math.Max(pr[indexOf(cls, Y[i][0])], 5e-324)) / 3
							}
							found := false
							for _, l := range e.LossCurve {
								found = found || near(l, obj, 1e-9)
							}
							c.Must(found && obj <= e.LossCurve[0]+1e-9, "early", "after at most %d evaluations the loss is %g, of the curve %v", it, obj, e.LossCurve)
							c.Steps(1)
						}
					}
					c.Trace()
				})
			})
		}
	})
	designs(func(X M) {
		n, _ := X.dims()
		for vi, vals := range valueSets {
			intTuples(n, len(vals), func(lab []int) {
				seen := map[int]bool{}
				for _, l := range lab {
					seen[l] = true
				}
				if len(seen) < len(vals) {
					return // a missing class is another value set
				}
				lab = append([]int(nil), lab...)
				for _, alpha := range []float64{.3, 1, 5} {
					if vi > 1 && alpha != 1 {
						continue
					}
					labels(X, vals, lab, alpha, vi)
				}
			})
		}
		// indicator targets
		for k := 2; k <= 3; k++ {
			intTuples(n, k, func(lab []int) {
				seen := map[int]bool{}
				for _, l := range lab {
					seen[l] = true
				}
				if len(seen) < k {
					return
				}
				T := zerosM(n, k, 0)
				for i, l := range lab {
					T[i][l] = 1
				}
				x.Case("indicator", func() string { return fmt.Sprintf("T=%v X=%v", T, X) }, func(c *C) {
					m := linearmodel.NewLogisticRegression()
					m.Tol, m.MaxIter, m.NIterNoChange = 1e-13, 5000, 20
					m.RandomState = base.NewLockedSource(9)
					m.Fit(X.dense(), T.dense())
					check(c, m, X, T, 1, true)
					pr, pb := toM(m.Predict(X.dense(), nil)), toM(m.PredictProbas(X.dense(), nil))
					for i := range pr {
						ones := 0
						for o := range pr[i] {
							if pr[i][o] == 1 {
								ones++
								for o2 := range pb[i] {
									c.Must(pb[i][o]+1e-9 >= pb[i][o2], "class", "row %d: %v for probabilities %v", i, pr[i], pb[i])
								}
							} else {
								c.Must(pr[i][o] == 0, "class", "indicator %v", pr[i])
							}
						}
						c.Must(ones == 1, "class", "indicator %v", pr[i])
					}
					c.Must(m.GetNOutputs() == k, "outputs", "%d outputs", m.GetNOutputs())
					c.Trace()
				})
			})
		}
	})
}

func init() {
	register("C26", "exhaustive enumeration of integer designs of full column rank with every unit target and combinations, storage forms and switches, on the real LinearRegression, Ridge, SGDRegressor and BayesianRidge against an independent elimination solver; every loss gradient against its derivative on a parameter grid", c26)
	register("C27", "exhaustive enumeration of integer designs, targets, penalties, mixings, positivity and selection on the real coordinate descent, against the exact minimum found by trying every support and sign pattern (one target) or the optimality conditions (several)", c27)
	register("C28", "exhaustive enumeration of integer designs, labelings and label values on the real LogisticRegression: probabilities recomputed from the stored parameters, stationarity of the penalised log-loss, classes by ascending label", c28)
}
