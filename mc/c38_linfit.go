//go:build all || C38

package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// ---- C38: gradient-based linear fits ----------------------------------------------------------

// lfCall is one call of the loss by the fitter, as the spy saw it.
type lfCall struct {
	X, Y, Theta M
	J           float64
}

func lfLoss(name string, act linearmodel.Activation, X, Y, th M, alpha, l1 float64, n int, dis bool) (J float64, g M) {
	q := len(Y[0])
	G := mat.NewDense(len(th), q, nil)
	J = linearmodel.LossFunctions[name](Y.dense(), X.dense(), th.dense(), mat.NewDense(len(X), q, nil), mat.NewDense(len(X), q, nil), G, alpha, l1, n, act, dis)
	return J, toM(G)
}

// lfData is a design of n rows with distinct (x,y) pairs as far as the targets allow.
func lfData(n, p, q, salt int, binary bool) (X, Y M) {
	X, Y = zerosM(n, p, 0), zerosM(n, q, 0)
	for i := range X {
		for j := range X[i] {
			X[i][j] = float64((i*(3+2*j)+salt*(j+1))%11)/4 - 1.25 + float64(i)/64
		}
		for o := range Y[i] {
			if binary {
				Y[i][o] = float64((i*(o+2) + i/2 + salt) % 2)
			} else {
				Y[i][o] = float64((i*(5+o)+salt)%7)/2 - 1
			}
		}
	}
	return
}

func c38(x *X) {
	acts := map[string]linearmodel.Activation{"identity": base.Identity{}, "logistic": base.Logistic{}, "tanh": base.Tanh{}}
	lossActs := [][2]string{{"square", "identity"}, {"square", "logistic"}, {"square", "tanh"}, {"cross-entropy", "logistic"}, {"log", "logistic"}}
	solvers := []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}

	// 1. stochastic solvers, watched through the loss they call
	salt := 0
	for _, n := range []int{1, 2, 3, 4, 5, 7, 10, 26, 120} {
		for b := 0; b <= n+1; b++ {
			if n > 5 && b > 3 && b != n/2 && b < n-1 {
				continue
			}
			for _, la := range lossActs {
				for _, solver := range solvers {
					for p := 1; p <= 3; p++ {
						for q := 1; q <= 2; q++ {
							for _, epochs := range []int{1, 2, 5} {
								if n > 20 && epochs > 2 {
									continue
								}
								for pen := 0; pen < 3; pen++ {
									salt++
									if x.Pick(salt%3, 0) != 0 {
										continue
									}
									n, b, la, solver, p, q, epochs := n, b, la, solver, p, q, epochs
									alpha, l1 := []float64{0, .5, .25}[pen], []float64{0, 0, .5}[pen]
									dis := salt%2 == 0
									tol := []float64{1e-9, .9, 1.1}[salt%3]
									sa := salt % 7
									viaModel := 0
									if la[0] == "square" && la[1] == "identity" && !dis {
										viaModel = salt / 2 % 3
									}
									x.Case("stochastic "+solver, func() string {
										return fmt.Sprintf("%s rows=%d batch=%d %s/%s p=%d q=%d epochs=%d alpha=%g l1=%g free-first=%v tol=%g salt=%d model=%d", solver, n, b, la[0], la[1], p, q, epochs, alpha, l1, dis, tol, sa, viaModel)
									}, func(c *C) {
										XM, YM := lfData(n, p, q, sa, la[0] != "square")
										var calls []lfCall
										loss := linearmodel.LossFunctions[la[0]]
										spy := func(Yt, Xt mat.Matrix, Theta, Yp, Yd, grad *mat.Dense, al, l1r float64, ns int, a linearmodel.Activation, d bool) float64 {
											cl := lfCall{X: toM(Xt), Y: toM(Yt), Theta: toM(Theta)}
											cl.J = loss(Yt, Xt, Theta, Yp, Yd, grad, al, l1r, ns, a, d)
											c.Must(al == alpha && l1r == l1 && ns == n && a == acts[la[1]] && d == dis, "linfit/options", "the loss was called with alpha=%g l1=%g n=%d free-first=%v", al, l1r, ns, d)
											calls = append(calls, cl)
											return cl.J
										}
										var init M
										conf := func(o base.Optimizer) {
											s := o.(*base.SGDOptimizer)
											if solver == "sgd" {
												s.StepSize, s.Momentum = .125, .5
											} else if solver == "adam" {
												s.StepSize = .0625
											}
										}
										opts := &linearmodel.LinFitOptions{Epochs: epochs, MiniBatchSize: b, Tol: tol, Solver: solver, SolverConfigure: conf, Alpha: alpha, L1Ratio: l1, Loss: spy, Activation: acts[la[1]], DisableRegularizationOfFirstFeature: dis,
											ThetaInitializer: func(t *mat.Dense) {
												r, k := t.Dims()
												for i := 0; i < r; i++ {
													for j := 0; j < k; j++ {
														t.Set(i, j, float64((i*3+j*5+sa)%9)/8-.5)
													}
												}
												init = toM(t)
											}}
										XF, YF := XM, YM // what the fitter works on
										var theta M
										var res *linearmodel.LinFitResult
										X, Y := XM.dense(), YM.dense()
										var ridge *linearmodel.RegularizedRegression
										if viaModel > 0 {
											ridge = linearmodel.NewRidge()
											ridge.FitIntercept = viaModel == 2
											ridge.Solver, ridge.SolverConfigure, ridge.LossFunction, ridge.ActivationFunction = solver, conf, spy, acts[la[1]]
											ridge.Alpha, ridge.L1Ratio, ridge.Tol = alpha, l1, tol
											ridge.Options = linearmodel.LinFitOptions{Epochs: epochs, MiniBatchSize: b, ThetaInitializer: opts.ThetaInitializer}
											ridge.Fit(X, Y)
											theta = toM(ridge.Coef)
											if viaModel == 2 {
												XF, YF = XM.copy(), YM.copy()
												for _, m := range []M{XF, YF} {
													for j := range m[0] {
														s := 0.
														for i := range m {
															s += m[i][j] / float64(n)
														}
														for i := range m {
															m[i][j] -= s
														}
													}
												}
											}
										} else {
											res = linearmodel.LinFit(X, Y, opts)
											theta = toM(res.Theta)
										}
										c.Must(nearM(toM(X), XM, 0) && nearM(toM(Y), YM, 0), "linfit/data", "the data changed")
										bs := b
										if bs <= 0 {
											bs = int(math.Max(1, math.Min(100, math.Sqrt(float64(n)))))
										}
										if bs > n {
											bs = n
										}
										per := (n+bs-1)/bs + 1
										c.Must(len(calls) > 0 && len(calls)%per == 0, "linfit/epochs", "%d loss evaluations, an epoch has %d", len(calls), per)
										th := init.dense()
										s := base.NewSolver(solver)()
										conf(s)
										s.SetTheta(th)
										best, bestJ := M(nil), math.Inf(1)
										done := false
										var rmse float64
										e := 0
										for ; e*per < len(calls); e++ {
											c.Must(!done && e < epochs, "linfit/stop", "epoch %d was run (tolerance met: %v, %d epochs asked)", e+1, done, epochs)
											used := make([]bool, n)
											for k := 0; k < per-1; k++ {
												cl := calls[e*per+k]
												want := bs
												if k == per-2 {
													want = n - bs*(per-2)
												}
												c.Must(len(cl.X) == want && len(cl.Y) == want, "linfit/batch", "batch %d has %d rows, want %d", k, len(cl.X), want)
												c.Must(nearM(cl.Theta, toM(th), 1e-8), "linfit/theta", "epoch %d batch %d starts from %v, the update rule gives %v", e, k, cl.Theta, toM(th))
												for r := range cl.X {
													hit := -1
													for i := range XF {
														if !used[i] && nearSlice(XF[i], cl.X[r], 1e-12) && nearSlice(YF[i], cl.Y[r], 1e-12) {
															hit = i
															break
														}
													}
													c.Must(hit >= 0, "linfit/rows", "epoch %d batch %d has the row %v -> %v, not one of those left", e, k, cl.X[r], cl.Y[r])
													used[hit] = true
												}
												_, g := lfLoss(la[0], acts[la[1]], cl.X, cl.Y, cl.Theta, alpha, l1, n, dis)
												s.UpdateParams(g.dense())
												c.Steps(1)
											}
											cl := calls[e*per+per-1]
											c.Must(nearM(cl.X, XF, 1e-12) && nearM(cl.Y, YF, 1e-12), "linfit/full", "the loss of epoch %d is not taken over all the rows", e)
											c.Must(nearM(cl.Theta, toM(th), 1e-8), "linfit/theta", "epoch %d ends at %v, the update rule gives %v", e, cl.Theta, toM(th))
											J, _ := lfLoss(la[0], acts[la[1]], XF, YF, toM(th), alpha, l1, n, dis)
											if J < bestJ {
												best, bestJ = toM(th), J
											}
											rmse = 0
											for i := range XF {
												for o := range YF[i] {
													z := 0.
													for j := range XF[i] {
														z += XF[i][j] * th.At(j, o)
													}
													d := acts[la[1]].F(z) - YF[i][o]
													rmse += d * d / float64(n*q)
												}
											}
											rmse = math.Sqrt(rmse)
											if math.Abs(math.Sqrt(rmse)-tol) < 1e-9 {
												return
											}
											done = math.Sqrt(rmse) < tol
										}
										c.Must(done || e == epochs, "linfit/stop", "stopped after %d of %d epochs, the error is %g", e, epochs, rmse)
										c.Must(nearM(theta, best, 1e-8), "linfit/best", "returned %v, the lowest loss %g was at %v", theta, bestJ, best)
										if res != nil {
											c.Must(near(res.J, bestJ, 1e-8), "linfit/J", "reported loss %g, the parameters have %g", res.J, bestJ)
											c.Must(res.Converged == done, "linfit/converged", "converged %v after error %g with tolerance %g", res.Converged, rmse, tol)
											c.Must(near(res.RMSE, rmse, 1e-8), "linfit/rmse", "reported error %g, the last parameters have %g", res.RMSE, rmse)
										} else {
											pr := ridge.Predict(XM.dense(), nil)
											for i := range XM {
												for o := range YM[i] {
													z := YM[i][o] - YF[i][o]
													for j := range XM[i] {
														z += XF[i][j] * best[j][o]
													}
													c.Must(near(pr.At(i, o), z, 1e-7), "linfit/predict", "prediction %g of row %d, the parameters give %g", pr.At(i, o), i, z)
												}
											}
										}
										c.Trace()
									})
								}
							}
						}
					}
				}
			}
		}
	}

	// 2. a batch's gradient: the gradients of the parts add up to the gradient of the whole
	for _, la := range lossActs {
		for n := 2; n <= x.Pick(5, 7); n++ {
			for p := 1; p <= 2; p++ {
				for q := 1; q <= 2; q++ {
					for sa := 0; sa < 7; sa++ {
						la, n, p, q, sa := la, n, p, q, sa
						x.Case("additive", func() string { return fmt.Sprintf("%s/%s rows=%d p=%d q=%d salt=%d", la[0], la[1], n, p, q, sa) }, func(c *C) {
							X, Y := lfData(n, p, q, sa, la[0] != "square")
							th := lattice(p, q, sa)
							J, g := lfLoss(la[0], acts[la[1]], X, Y, th, 0, 0, n, false)
							compositions(n, func(parts []int) {
								at, Js := 0, 0.
								G := zerosM(p, q, 0)
								for _, k := range parts {
									Jk, gk := lfLoss(la[0], acts[la[1]], X[at:at+k], Y[at:at+k], th, 0, 0, n, false)
									at += k
									Js += Jk
									for j := range gk {
										for o := range gk[j] {
											G[j][o] += gk[j][o]
										}
									}
								}
								c.Steps(1)
								c.Must(near(Js, J, 1e-9) && nearM(G, g, 1e-9), "loss/additive", "batches %v give loss %g gradient %v, all rows %g %v", parts, Js, G, J, g)
							})
							c.Trace()
						})
					}
				}
			}
		}
	}

	// value and gradient of every loss with every activation, wherever the loss is defined
	for _, loss := range []string{"square", "cross-entropy", "log"} {
		for _, an := range []string{"identity", "logistic", "tanh", "relu"} {
			for _, n := range []int{1, 2, 3, 5, 9, 33, 70} {
				for p := 1; p <= 3; p++ {
					for q := 1; q <= 3; q++ {
						for sa := 0; sa < x.Pick(6, 30); sa++ {
							loss, an, n, p, q, sa := loss, an, n, p, q, sa
							x.Case("formula", func() string { return fmt.Sprintf("%s/%s rows=%d p=%d q=%d salt=%d", loss, an, n, p, q, sa) }, func(c *C) {
								act := base.Activations[an]
								X, Y := lfData(n, p, q, sa, loss != "square")
								if loss != "square" && sa%3 == 2 { // targets strictly between the classes
									for i := range Y {
										for o := range Y[i] {
											Y[i][o] = .25 + Y[i][o]/4
										}
									}
								}
								th := lattice(p, q, sa+3)
								for j := range th {
									for o := range th[j] {
										th[j][o] /= 8
									}
								}
								if loss != "square" && an != "logistic" { // keep the predictions between 0 and 1
									for i := range X {
										for j := range X[i] {
											X[i][j] = .05 + math.Abs(X[i][j])/8
										}
									}
									for j := range th {
										for o := range th[j] {
											th[j][o] = .1 + math.Abs(th[j][o])/4
										}
									}
								}
								want, J := zerosM(p, q, 0), 0.
								for i := range X {
									for o := 0; o < q; o++ {
										z := 0.
										for j := range th {
											z += X[i][j] * th[j][o]
										}
										h, dh := act.F(z), 0.
										switch an {
										case "identity":
											dh = 1
										case "logistic":
											dh = h * (1 - h)
										case "tanh":
											dh = 1 - h*h
										default:
											if z > 0 {
												dh = 1
											}
										}
										y, dj := Y[i][o], 0.
										if loss != "square" && !(h > 0 && h < 1) {
											return
										}
										switch loss {
										case "square":
											J += (h - y) * (h - y) / 2
											dj = h - y
										case "log":
											J -= y * math.Log(h)
											dj = -y / h
										default:
											J -= y*math.Log(h) + (1-y)*math.Log(1-h)
											dj = -y/h + (1-y)/(1-h)
										}
										for j := range th {
											want[j][o] += dj * dh * X[i][j]
										}
									}
								}
								for _, div := range []int{n, 2*n + 1} {
									w := want.copy()
									for j := range w {
										for o := range w[j] {
											w[j][o] /= float64(div)
										}
									}
									got, g := lfLoss(loss, act, X, Y, th, 0, 0, div, false)
									c.Must(near(got, J/float64(div), 1e-9), "loss/value", "divisor %d: loss %g want %g", div, got, J/float64(div))
									c.Must(nearM(g, w, 1e-9), "loss/gradient", "divisor %d: gradient %v want %v", div, g, w)
									c.Steps(1)
								}
								c.Trace()
							})
						}
					}
				}
			}
		}
	}

	// units that are off or saturated contribute nothing to the gradient
	for n := 1; n <= 4; n++ {
		tuples(n, []float64{-2, -.5, .25, .75}, func(tv []float64) {
			xs := append([]float64(nil), tv...)
			intTuples(n, 2, func(yv []int) {
				ys := append([]int(nil), yv...)
				for _, an := range []string{"relu", "tanh"} {
					an := an
					x.Case("flat", func() string { return fmt.Sprintf("cross-entropy/%s x=%v y=%v", an, xs, ys) }, func(c *C) {
						X, Y, w := zerosM(n, 1, 0), zerosM(n, 1, 0), 0.
						th := M{{1}}
						for i := range X {
							X[i][0], Y[i][0] = xs[i], float64(ys[i])
							z := xs[i]
							if an == "tanh" {
								if z <= 0 { // full saturation
									X[i][0] = 50
									continue
								}
								h := math.Tanh(z)
								w += (-Y[i][0]/h + (1-Y[i][0])/(1-h)) * (1 - h*h) * z
							} else if z > 0 {
								w += (-Y[i][0]/z + (1-Y[i][0])/(1-z)) * z
							}
						}
						J, g := lfLoss("cross-entropy", base.Activations[an], X, Y, th, 0, 0, n, false)
						c.Steps(1)
						c.Must(!isBad(J), "loss/finite", "loss %g", J)
						c.Must(near(g[0][0], w/float64(n), 1e-8), "loss/gradient", "gradient %g want %g", g[0][0], w/float64(n))
						c.Trace()
					})
				}
			})
		})
	}

	// saturated predictions: the loss stays finite and the gradient is the analytic one
	for _, la := range lossActs[3:] {
		for n := 1; n <= 4; n++ {
			tuples(2, []float64{-900, -40, -1, 0, 2, 36, 38, 750, 1e5}, func(tv []float64) {
				th := colVec(append([]float64(nil), tv...))
				for sa := 0; sa < 4; sa++ {
					la, n, sa := la, n, sa
					x.Case("saturated", func() string { return fmt.Sprintf("%s/%s rows=%d theta=%v salt=%d", la[0], la[1], n, th, sa) }, func(c *C) {
						X, Y := lfData(n, 2, 1, sa, true)
						J, g := lfLoss(la[0], acts[la[1]], X, Y, th, 0, 0, n, false)
						c.Must(!isBad(J) && J >= 0, "loss/finite", "loss %g", J)
						want := zerosM(2, 1, 0)
						for i := range X {
							h := 1 / (1 + math.Exp(-X[i][0]*th[0][0]-X[i][1]*th[1][0]))
							for j := range want {
								if la[0] == "log" {
									want[j][0] -= Y[i][0] * X[i][j] * (1 - h) / float64(n)
								} else {
									want[j][0] += X[i][j] * (h - Y[i][0]) / float64(n)
								}
							}
						}
						c.Must(nearM(g, want, 1e-8), "loss/gradient", "gradient %v want %v", g, want)
						c.Steps(1)
						c.Trace()
					})
				}
			})
		}
	}

	// 3. gonum methods: a stationary point of the loss, jointly or output by output
	methods := map[string]func() optimize.Method{"default": nil, "bfgs": func() optimize.Method { return &optimize.BFGS{} }, "cg": func() optimize.Method { return &optimize.CG{} }, "lbfgs": func() optimize.Method { return &optimize.LBFGS{} }}
	for _, mname := range []string{"default", "bfgs", "cg", "lbfgs"} {
		for _, la := range lossActs {
			for _, n := range []int{2, 3, 4, 6, 9, 40} {
				for p := 1; p <= 3; p++ {
					for q := 1; q <= 3; q++ {
						for sa := 0; sa < x.Pick(3, 10); sa++ {
							for joint := 0; joint < 2; joint++ {
								if joint == 1 && mname == "default" {
									continue
								}
								mname, la, n, p, q, sa, joint := mname, la, n, p, q, sa, joint
								alpha := []float64{.5, 2, 1}[sa%3]
								dis := sa%2 == 1 && la[0] != "log"
								x.Case("gonum "+mname, func() string {
									return fmt.Sprintf("%s rows=%d %s/%s p=%d q=%d alpha=%g free-first=%v joint=%d salt=%d", mname, n, la[0], la[1], p, q, alpha, dis, joint, sa)
								}, func(c *C) {
									XM, YM := lfData(n, p, q, sa, la[0] != "square")
									opts := &linearmodel.LinFitOptions{Alpha: alpha, Loss: linearmodel.LossFunctions[la[0]], Activation: acts[la[1]], DisableRegularizationOfFirstFeature: dis, GOMethodCreator: methods[mname], Epochs: 20000}
									X, Y := XM.dense(), YM.dense()
									var res *linearmodel.LinFitResult
									if joint == 1 {
										res = linearmodel.LinFitGOM(X, Y, opts)
									} else {
										res = linearmodel.LinFit(X, Y, opts)
									}
									c.Steps(1)
									c.Must(nearM(toM(X), XM, 0) && nearM(toM(Y), YM, 0), "linfit/data", "the data changed")
									th := toM(res.Theta)
									c.Must(len(th) == p && len(th[0]) == q && finiteM(th), "linfit/shape", "parameters %v", th)
									for _, r := range th {
										for _, v := range r {
											if math.Abs(v) > 12 {
												return // separated classes: no finite optimum for the free feature
											}
										}
									}
									J, g := lfLoss(la[0], acts[la[1]], XM, YM, th, alpha, 0, n, dis)
									for j := range g {
										for o := range g[j] {
											c.Must(math.Abs(g[j][o]) < 2e-4, "linfit/stationary", "the gradient of the loss (%g) at the result is %v", J, g)
										}
									}
									c.Trace()
								})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	register("C38", "every row count up to 10 (and two larger) with every batch size, loss, activation, solver, penalty and number of epochs, on the real fitter with a loss function that records every call: rows of each batch, parameters before each batch against the update rule, best epoch, stopping; every way of cutting up to 5 rows in batches; stationarity of the gonum fits", c38,
		"update rules of the solvers themselves are C33's subject", "data sets are structured families")
}
