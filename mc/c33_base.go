//go:build all || C33 || C35

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// ---- C33: optimizers --------------------------------------------------------------------------

// refOpt is the reference optimizer: scalar state per parameter, written from the stated rules.
type refOpt struct {
	kind                                      string
	step, mom, clip, gamma, eps, beta1, beta2 float64
	t                                         int
	g, u, m, v, prev                          M
}

func (o *refOpt) update(grad M) M {
	r, c := grad.dims()
	if o.t == 0 {
		o.g, o.u, o.m, o.v, o.prev = zerosM(r, c, o.eps), zerosM(r, c, 1), zerosM(r, c, 0), zerosM(r, c, 0), zerosM(r, c, 0)
	}
	o.t++
	t := float64(o.t)
	out := zerosM(r, c, 0)
	for j := 0; j < c; j++ {
		n := 0.
		for i := 0; i < r; i++ {
			n += grad[i][j] * grad[i][j]
		}
		n = math.Sqrt(n)
		k := 1.
		if o.clip > 0 && n > o.clip {
			k = o.clip / n
		}
		for i := 0; i < r; i++ {
			g := grad[i][j] * k
			var d float64
			switch o.kind {
			case "sgd":
				d = -o.step * 100 / (100 + t) * g / math.Sqrt(t)
			case "adagrad":
				d = -o.step * g
				if o.t > 1 {
					d /= math.Sqrt(o.g[i][j]) + o.eps
				}
				o.g[i][j] += g * g
			case "rmsprop":
				d = -o.step * g
				if o.t > 1 && o.g[i][j] > 1 {
					d /= math.Sqrt(o.g[i][j] + o.eps)
				}
				o.g[i][j] = o.gamma*o.g[i][j] + (1-o.gamma)*g*g
			case "adadelta":
				o.g[i][j] = o.gamma*o.g[i][j] + (1-o.gamma)*g*g
				if o.t > 1 {
					d = -math.Sqrt(o.u[i][j]) / math.Sqrt(o.g[i][j]+o.eps) * g
				} else {
					d = -o.step * 100 / (100 + t) * g
				}
				o.u[i][j] = o.gamma*o.u[i][j] + (1-o.gamma)*d*d
			case "adam":
				o.m[i][j] = o.beta1*o.m[i][j] + (1-o.beta1)*g
				o.v[i][j] = o.beta2*o.v[i][j] + (1-o.beta2)*g*g
				d = -o.step * (o.m[i][j] / (1 - math.Pow(o.beta1, t))) / (math.Sqrt(o.v[i][j]/(1-math.Pow(o.beta2, t))) + o.eps)
			}
			if o.mom > 0 {
				d += o.mom * o.prev[i][j]
			}
			out[i][j] = d
			o.prev[i][j] = d
		}
	}
	return out
}

// relTheta compares relative to the largest entry.
func relTheta(a, b M) bool {
	size := 0.
	for i := range b {
		for _, v := range b[i] {
			size = math.Max(size, math.Abs(v))
		}
	}
	for i := range b {
		for j := range b[i] {
			if !(math.Abs(a[i][j]-b[i][j]) <= 1e-9*size) {
				return false
			}
		}
	}
	return true
}

func c33(x *X) {
	alphabet := []M{
		{{0, 0}, {0, 0}},
		{{1, -2}, {0.5, 0}},
		{{-40, 3}, {30, -0.25}},
		{{0, 12}, {-0.125, -5}},
		{{1e-9, -3}, {-8, 100}},
	}
	type cfg struct {
		step, mom, clip, gamma, eps, b1, b2 float64
		def                                 bool
	}
	cfgs := []cfg{{def: true}, {step: 0.25, mom: 0.5, clip: 4, gamma: 0.75, eps: 1e-3, b1: 0.5, b2: 0.75}, {step: 1, mom: 0, clip: 0, gamma: 0.5, eps: 1e-8, b1: 0.9, b2: 0.99}}
	defs := map[string]refOpt{
		"sgd":      {step: 1e-4, mom: .9, gamma: .9, eps: 1e-8},
		"adagrad":  {step: .5, mom: 0, gamma: .9, eps: 1e-8, clip: 10},
		"rmsprop":  {step: .05, mom: 0, gamma: .9, eps: 1e-8},
		"adadelta": {step: 1e-4, mom: 0, gamma: .9, eps: 1e-8},
		"adam":     {step: .5, eps: 1e-8, beta1: .9, beta2: .999},
	}
	history := func(c *C, kind, via string, cf cfg, theta0 M, grads []M) {
		var o base.Optimizer
		if via == "NewSolver" {
			o = base.NewSolver(kind)()
		} else {
			o = base.NewOptimizer(kind)
		}
		ref := defs[kind]
		if !cf.def {
			s := o.(*base.SGDOptimizer)
			s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon, s.Beta1, s.Beta2 = cf.step, cf.mom, cf.clip, cf.gamma, cf.eps, cf.b1, cf.b2
			ref = refOpt{step: cf.step, mom: cf.mom, clip: cf.clip, gamma: cf.gamma, eps: cf.eps, beta1: cf.b1, beta2: cf.b2}
		}
		ref.kind = kind
		theta := theta0.dense()
		o.SetTheta(theta)
		want := theta0.copy()
		small := true // starting from zero every digit of the moves shows
		for i := range want {
			for j := range want[i] {
				small = small && want[i][j] == 0
			}
		}
		for k, gm := range grads {
			before := gm.copy()
			gd := gm.dense()
			if k%2 == 1 { // a plain matrix and a view are gradients too
				v, _ := viewOf(gm)
				o.UpdateParams(v)
				gd = v
			} else {
				o.UpdateParams(gd)
			}
			c.Must(nearM(toM(gd), before, 0), "gradient-modified", "step %d", k)
			up := ref.update(gm)
			for i := range want {
				for j := range want[i] {
					want[i][j] += up[i][j]
				}
			}
			c.Must(o.GetTimeStep() == uint64(k+1), "timestep", "after %d updates the counter is %d", k+1, o.GetTimeStep())
			c.Must(nearM(toM(theta), want, 1e-9) && (!small || relTheta(toM(theta), want)), "theta", "after step %d theta=%v want %v", k, toM(theta), want)
			c.Must(o.GetTheta() == theta, "theta-pointer", "GetTheta is another matrix")
			c.Steps(1)
		}
		c.Trace()
	}
	depth := x.Pick(7, 9)
	for _, kind := range []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"} {
		for ci, cf := range cfgs {
			for _, via := range []string{"NewSolver", "NewOptimizer"} {
				if via == "NewOptimizer" && !cf.def {
					continue
				}
				dp := depth
				if via == "NewOptimizer" {
					dp = 3
				}
				intTuples(dp, len(alphabet), func(seq []int) {
					x.Case("history", func() string { return fmt.Sprintf("%s cfg=%d via=%s grads=%v", kind, ci, via, seq) }, func(c *C) {
						var grads []M
						for _, g := range seq {
							grads = append(grads, alphabet[g])
						}
						history(c, kind, via, cf, M{{1, 2}, {-3, 4}}, grads)
					})
				})
				// longer histories and other shapes
				for k, sh := range [][3]int{{1, 1, 70}, {1, 1, 300}, {3, 5, 40}, {9, 2, 70}, {2, 17, 20}, {1, 3, 130}, {40, 3, 12}, {65, 1, 9}, {5, 1, 1100}} {
					k, sh := k, sh
					x.Case("long history", func() string {
						return fmt.Sprintf("%s cfg=%d via=%s %d steps %dx%d", kind, ci, via, sh[2], sh[0], sh[1])
					}, func(c *C) {
						var grads []M
						for t := 0; t < sh[2]; t++ {
							grads = append(grads, lattice(sh[0], sh[1], 13*t+k))
						}
						history(c, kind, via, cf, lattice(sh[0], sh[1], k+3), grads)
					})
					if sh[2] > 70 {
						continue
					}
					for _, e := range []int{-30, -12, 20} { // very small and very large gradients
						e := e
						x.Case("long history", func() string {
							return fmt.Sprintf("%s cfg=%d via=%s %d steps %dx%d gradients times 2^%d", kind, ci, via, sh[2], sh[0], sh[1], e)
						}, func(c *C) {
							var grads []M
							for t := 0; t < sh[2]; t++ {
								g := lattice(sh[0], sh[1], 13*t+k)
								for i := range g {
									for j := range g[i] {
										g[i][j] = math.Ldexp(g[i][j], e)
									}
								}
								grads = append(grads, g)
							}
							theta := lattice(sh[0], sh[1], k+3)
							if e < 0 { // small enough for the moves to show
								for i := range theta {
									for j := range theta[i] {
										theta[i][j] = 0
									}
								}
							}
							history(c, kind, via, cf, theta, grads)
						})
					}
				}
			}
		}
	}
	// GetUpdate alone never touches theta, and gives the same updates
	for _, kind := range []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"} {
		intTuples(3, len(alphabet), func(seq []int) {
			x.Case("getupdate", func() string { return fmt.Sprintf("%s grads=%v", kind, seq) }, func(c *C) {
				o := base.NewOptimizer(kind)
				ref := defs[kind]
				ref.kind = kind
				theta := M{{1, 2}, {-3, 4}}.dense()
				o.SetTheta(theta)
				for k, g := range seq {
					u := mat.NewDense(2, 2, nil)
					o.GetUpdate(u, alphabet[g].dense())
					c.Must(nearM(toM(u), ref.update(alphabet[g]), 1e-9), "update", "step %d got %v", k, toM(u))
					c.Must(nearM(toM(theta), M{{1, 2}, {-3, 4}}, 0), "theta-touched", "step %d", k)
					c.Steps(1)
				}
				c.Trace()
			})
		})
	}
	// as optimize.Method: the minimum of convex quadratics
	var names []string
	for _, n := range []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam", "bfgs", "cg", "gradientdescent", "lbfgs", "neldermead"} {
		names = append(names, n)
	}
	for _, n := range names {
		tuples(2, []float64{-1.5, 0, 2}, func(cen []float64) {
			cen = append([]float64(nil), cen...)
			x.Case("method", func() string { return fmt.Sprintf("%s minimum=%s", n, fstr(cen)) }, func(c *C) {
				mk, ok := base.GOMethodCreators[n]
				c.Must(ok, "method-missing", "no creator %s", n)
				w := []float64{1, 3}
				p := optimize.Problem{
					Func: func(v []float64) float64 {
						return w[0]*(v[0]-cen[0])*(v[0]-cen[0]) + w[1]*(v[1]-cen[1])*(v[1]-cen[1])
					},
					Grad: func(g, v []float64) {
						g[0], g[1] = 2*w[0]*(v[0]-cen[0]), 2*w[1]*(v[1]-cen[1])
					},
				}
				res, err := optimize.Minimize(p, []float64{0.5, 0.25}, nil, mk())
				c.Must(err == nil, "method-error", "%v", err)
				c.Must(nearSlice(res.X, cen, 1e-3), "method-minimum", "got %v", res.X)
				c.Steps(1)
			})
		})
	}
	// activations: F and the derivative expressed in the output
	acts := map[string]func(float64) float64{
		"identity": func(v float64) float64 { return v },
		"logistic": func(v float64) float64 { return 1 / (1 + math.Exp(-v)) },
		"tanh":     math.Tanh,
		"relu":     func(v float64) float64 { return math.Max(0, v) },
	}
	for _, n := range []string{"identity", "logistic", "tanh", "relu"} {
		for k := -32; k <= 32; k++ {
			v := float64(k) / 4
			x.Case("activation", func() string { return fmt.Sprintf("%s at %g", n, v) }, func(c *C) {
				a := base.Activations[n]
				y := a.F(v)
				c.Must(near(y, acts[n](v), 1e-14), "activation-value", "%s(%g)=%g", n, v, y)
				if n == "relu" && v == 0 {
					return
				}
				h := 1e-5
				d := (acts[n](v+h) - acts[n](v-h)) / (2 * h)
				c.Must(math.Abs(a.Fprime(y)-d) < 1e-6, "activation-derivative", "%s'(%g)=%g want %g", n, v, a.Fprime(y), d)
				c.Steps(2)
			})
		}
	}
}

// ---- C35: matrix views ------------------------------------------------------------------------

// backing builds a blas General of r x c in a larger array with the given stride, offset and tail slack.
func backing(r, c, stride, off, slack int) (blas64.General, []float64) {
	data := make([]float64, off+(r-1)*stride+c+slack)
	for i := range data {
		data[i] = canary - float64(i)
	}
	g := blas64.General{Rows: r, Cols: c, Stride: stride, Data: data[off : off+(r-1)*stride+c : len(data)]}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			g.Data[i*stride+j] = float64(1000*i + j + 1)
		}
	}
	return g, data
}

type rawOnly struct{ g blas64.General }

func (r rawOnly) RawMatrix() blas64.General { return r.g }
func (r rawOnly) Dims() (int, int)          { return r.g.Rows, r.g.Cols }
func (r rawOnly) At(i, j int) float64       { return r.g.Data[i*r.g.Stride+j] }
func (r rawOnly) Set(i, j int, v float64)   { r.g.Data[i*r.g.Stride+j] = v }
func (r rawOnly) T() mat.Matrix             { return mat.Transpose{Matrix: r} }

func c35(x *X) {
	max := x.Pick(6, 8)
	checkView := func(c *C, d *mat.Dense, all []float64, off, stride, i0, j0, r, cc int) {
		gr, gc := d.Dims()
		c.Must(gr == r && gc == cc, "view-dims", "dims %d,%d want %d,%d", gr, gc, r, cc)
		for i := 0; i < r; i++ {
			for j := 0; j < cc; j++ {
				c.Must(d.At(i, j) == float64(1000*(i+i0)+j+j0+1), "view-read", "At(%d,%d)=%g", i, j, d.At(i, j))
			}
		}
		snap := append([]float64(nil), all...)
		for i := 0; i < r; i++ {
			for j := 0; j < cc; j++ {
				d.Set(i, j, -float64(1000+i*1000+j))
				p := off + (i+i0)*stride + j + j0
				snap[p] = -float64(1000 + i*1000 + j)
				for q := range all {
					c.Must(all[q] == snap[q], "view-write", "Set(%d,%d) changed cell %d", i, j, q)
				}
			}
		}
		c.Steps(2 * r * cc)
	}
	shapes := [][2]int{{65, 2}, {2, 65}, {33, 33}, {130, 1}, {1, 130}, {17, 4}}
	for r := 1; r <= max; r++ {
		for cc := 1; cc <= max; cc++ {
			shapes = append(shapes, [2]int{r, cc})
		}
	}
	// edge: bounds of slices of a large matrix are taken near its ends and middle
	edge := func(i, n int) bool { return n <= max || i <= 1 || i >= n-1 || i == n/2 }
	for _, sh := range shapes {
		r, cc := sh[0], sh[1]
		{
			for stride := cc; stride <= cc+2; stride++ {
				for _, slack := range []int{0, 3} {
					for i := 0; i < r; i++ {
						for k := i + 1; k <= r; k++ {
							if !edge(i, r) || !edge(k, r) {
								continue
							}
							x.Case("rowslice", func() string { return fmt.Sprintf("%dx%d stride=%d slack=%d rows %d:%d", r, cc, stride, slack, i, k) }, func(c *C) {
								g, all := backing(r, cc, stride, 1, slack)
								checkView(c, base.MatDenseRowSlice(rawOnly{g}, i, k), all, 1, stride, i, 0, k-i, cc)
								g, _ = backing(r, cc, stride, 1, slack)
								v := base.MatGeneralRowSlice(g, i, k)
								for a := 0; a < v.Rows; a++ {
									for b := 0; b < v.Cols; b++ {
										c.Must(v.Data[a*v.Stride+b] == float64(1000*(a+i)+b+1), "general-row", "cell %d,%d", a, b)
									}
								}
								c.Must(v.Rows == k-i && v.Cols == cc, "general-row-dims", "%d %d", v.Rows, v.Cols)
								c.Trace()
							})
							for j := 0; j < cc; j++ {
								for l := j + 1; l <= cc; l++ {
									if !edge(j, cc) || !edge(l, cc) {
										continue
									}
									x.Case("slice", func() string {
										return fmt.Sprintf("%dx%d stride=%d slack=%d %d:%d,%d:%d", r, cc, stride, slack, i, k, j, l)
									}, func(c *C) {
										g, all := backing(r, cc, stride, 1, slack)
										checkView(c, base.MatDenseSlice(rawOnly{g}, i, k, j, l), all, 1, stride, i, j, k-i, l-j)
										c.Trace()
									})
								}
							}
						}
					}
					for j := 0; j < cc; j++ {
						for l := j + 1; l <= cc; l++ {
							if !edge(j, cc) || !edge(l, cc) {
								continue
							}
							x.Case("colslice", func() string { return fmt.Sprintf("%dx%d stride=%d slack=%d cols %d:%d", r, cc, stride, slack, j, l) }, func(c *C) {
								g, all := backing(r, cc, stride, 1, slack)
								checkView(c, base.MatDenseColSlice(rawOnly{g}, j, l), all, 1, stride, 0, j, r, l-j)
								c.Trace()
							})
						}
					}
					// dense conversion
					x.Case("todense", func() string { return fmt.Sprintf("%dx%d stride=%d slack=%d", r, cc, stride, slack) }, func(c *C) {
						g, all := backing(r, cc, stride, 1, slack)
						snap := append([]float64(nil), all...)
						for _, m := range []mat.Matrix{rawOnly{g}, mat.NewDense(1, 1, nil), roMat{nil}} {
							if _, ok := m.(*mat.Dense); ok {
								d := &mat.Dense{}
								d.SetRawMatrix(g)
								m = d
							} else if _, ok := m.(roMat); ok {
								mm := make(M, r)
								for i := range mm {
									mm[i] = append([]float64(nil), g.Data[i*stride:i*stride+cc]...)
								}
								m = roMat{mm}
							}
							d := base.ToDense(m)
							dr, dc := d.Dims()
							c.Must(dr == r && dc == cc, "todense-dims", "%T", m)
							for i := 0; i < r; i++ {
								for j := 0; j < cc; j++ {
									c.Must(d.At(i, j) == float64(1000*i+j+1), "todense-cell", "%T %d,%d", m, i, j)
								}
							}
							dt := base.ToDense(m.T())
							for i := 0; i < r; i++ {
								for j := 0; j < cc; j++ {
									c.Must(dt.At(j, i) == float64(1000*i+j+1), "todense-transpose", "%T %d,%d", m, i, j)
								}
							}
							c.Steps(2)
						}
						for q := range all {
							c.Must(all[q] == snap[q], "todense-write", "cell %d", q)
						}
						c.Trace()
					})
					for stride2 := cc; stride2 <= cc+1; stride2++ {
						x.Case("fromdense", func() string {
							return fmt.Sprintf("%dx%d stride=%d slack=%d src stride=%d", r, cc, stride, slack, stride2)
						}, func(c *C) {
							for kind := 0; kind < 3; kind++ {
								gs, _ := backing(r, cc, stride2, 0, 0)
								src := &mat.Dense{}
								src.SetRawMatrix(gs)
								var all []float64
								var dst mat.Mutable
								var g blas64.General
								switch kind {
								case 0:
									g, all = backing(r, cc, stride, 1, slack)
									dst = rawOnly{g}
								case 1:
									g, all = backing(r, cc, stride, 1, slack)
									d := &mat.Dense{}
									d.SetRawMatrix(g)
									dst = d
								case 2:
									dst = rwMat{zerosM(r, cc, 0)}
								}
								if all != nil {
									for i := 0; i < r; i++ {
										for j := 0; j < cc; j++ {
											dst.Set(i, j, 0)
										}
									}
								}
								snap := append([]float64(nil), all...)
								ret := base.FromDense(dst, src)
								for i := 0; i < r; i++ {
									for j := 0; j < cc; j++ {
										w := float64(1000*i + j + 1)
										c.Must(dst.At(i, j) == w && ret.At(i, j) == w && src.At(i, j) == w, "fromdense-cell", "kind %d cell %d,%d dst=%g ret=%g", kind, i, j, dst.At(i, j), ret.At(i, j))
										if all != nil {
											snap[1+i*stride+j] = w
										}
									}
								}
								for q := range all {
									c.Must(all[q] == snap[q], "fromdense-outside", "kind %d wrote cell %d", kind, q)
								}
								c.Steps(1)
							}
							gs, _ := backing(r, cc, stride2, 0, 0)
							src := &mat.Dense{}
							src.SetRawMatrix(gs)
							c.Must(base.FromDense(nil, src) == src, "fromdense-nil", "nil destination")
							c.Trace()
						})
					}
				}
			}
		}
	}
	// compositions of lazy views up to depth 3: transpose, every row slice
	type vop struct {
		t    bool
		a, b int
	}
	depth := x.Pick(4, 5)
	for _, sh := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {4, 3}} {
		var rec func(ops []vop, r, cc int)
		rec = func(ops []vop, r, cc int) {
			opsC := append([]vop(nil), ops...)
			x.Case("compose", func() string { return fmt.Sprintf("%v ops=%v", sh, opsC) }, func(c *C) {
				for kind := 0; kind < 2; kind++ {
					under := zerosM(sh[0], sh[1], 0)
					idx := make([][][2]int, sh[0]) // model: cell -> underlying cell
					for i := range under {
						idx[i] = make([][2]int, sh[1])
						for j := range under[i] {
							under[i][j] = float64(1000*i + j + 1)
							idx[i][j] = [2]int{i, j}
						}
					}
					var m mat.Matrix = under.dense()
					if kind == 1 {
						m = rwMat{under}
					}
					root := m
					for _, o := range opsC {
						if o.t {
							switch mm := m.(type) {
							case base.MatRowSlice:
								m = mm.T()
							default:
								m = base.MatTranspose{Matrix: m}
							}
							if len(idx) > 0 {
								t := make([][][2]int, len(idx[0]))
								for j := range t {
									t[j] = make([][2]int, len(idx))
									for i := range idx {
										t[j][i] = idx[i][j]
									}
								}
								idx = t
							}
						} else {
							m = base.MatRowSlice{Matrix: m, Start: o.a, End: o.b}
							idx = idx[o.a:o.b]
						}
						c.Steps(1)
					}
					gr, gc := m.Dims()
					c.Must(gr == len(idx) && gc == len(idx[0]), "compose-dims", "%d %d", gr, gc)
					for i := range idx {
						for j := range idx[i] {
							c.Must(m.At(i, j) == root.At(idx[i][j][0], idx[i][j][1]), "compose-read", "At(%d,%d)=%g", i, j, m.At(i, j))
						}
					}
					if mu, ok := m.(mat.Mutable); ok {
						want := toM(root)
						for i := range idx {
							for j := range idx[i] {
								v := float64(500 + 10*i + j)
								mu.Set(i, j, v)
								want[idx[i][j][0]][idx[i][j][1]] = v
								c.Must(nearM(toM(root), want, 0), "compose-write", "Set(%d,%d)", i, j)
								c.Steps(1)
							}
						}
					}
					if _, ok := m.(base.MatRowSlice); ok {
						before := toM(root)
						for _, bad := range []int{-1, len(idx)} {
							c.Must(catch(func() { m.At(bad, 0) }) != nil, "range-read", "At(%d,0) of a %d-row slice was accepted", bad, len(idx))
							c.Must(catch(func() { m.(mat.Mutable).Set(bad, 0, 77) }) != nil, "range-write", "Set(%d,0) of a %d-row slice was accepted", bad, len(idx))
						}
						c.Must(nearM(toM(root), before, 0), "range-effect", "a rejected write had an effect")
					}
					d := base.ToDense(m)
					for i := range idx {
						for j := range idx[i] {
							c.Must(d.At(i, j) == m.At(i, j), "compose-dense", "cell %d,%d", i, j)
						}
					}
				}
				c.Trace()
			})
			if len(ops) == depth {
				return
			}
			rec(append(ops, vop{t: true}), cc, r)
			for a := 0; a < r; a++ {
				for b := a + 1; b <= r; b++ {
					rec(append(ops, vop{a: a, b: b}), b-a, cc)
				}
			}
		}
		rec(nil, sh[0], sh[1])
	}
	// constant matrices, text form and dimension checks
	for r := 1; r <= 4; r++ {
		for cc := 1; cc <= 4; cc++ {
			x.Case("const", func() string { return fmt.Sprintf("%dx%d", r, cc) }, func(c *C) {
				k := base.MatConst{Rows: r, Columns: cc, Value: 2.5}
				c.Must(nearM(toM(k), zerosM(r, cc, 2.5), 0), "const", "%v", toM(k))
				c.Must(nearM(toM(k.T()), zerosM(cc, r, 2.5), 0), "const-t", "%v", toM(k.T()))
				A, B := lattice(r, cc, 1), lattice(r, 2, 2)
				var want []string
				for i := 0; i < r; i++ {
					var f []string
					for _, v := range append(append([]float64(nil), A[i]...), B[i]...) {
						f = append(f, fmt.Sprintf("%g", v))
					}
					want = append(want, strings.Join(f, "\t")+"\n")
				}
				c.Must(base.MatStr(A.dense(), roMat{B}) == strings.Join(want, ""), "matstr", "%q", base.MatStr(A.dense(), roMat{B}))
				c.Steps(3)
				c.Trace()
			})
		}
	}
	intTuples(6, 2, func(v []int) {
		v = append([]int(nil), v...)
		for _, op := range []string{"+", "-", "*", "/", "."} {
			x.Case("dimscheck", func() string { return fmt.Sprintf("%s %v", op, v) }, func(c *C) {
				R, A, B := base.MatConst{Rows: v[0] + 1, Columns: v[1] + 1}, base.MatConst{Rows: v[2] + 1, Columns: v[3] + 1}, base.MatConst{Rows: v[4] + 1, Columns: v[5] + 1}
				ok := v[0] == v[2] && v[0] == v[4] && v[1] == v[3] && v[1] == v[5]
				if op == "." {
					ok = v[3] == v[4] && v[0] == v[2] && v[1] == v[5]
				}
				got := catch(func() { base.MatDimsCheck(op, R, A, B) }) == nil
				c.Must(got == ok, "dimscheck", "accepted=%v want %v", got, ok)
				c.Steps(1)
			})
		}
	})
}

func init() {
	register("C33", "every gradient history up to the depth over 5 gradient matrices x 5 optimizers x 3 settings, on the real optimizer and a scalar reference rule; every state after every update compared", c33,
		"gradient alphabet, 2x2 parameters, depth bound")
	register("C35", "every shape, stride, slack and slice bound up to the size bound, and every composition of lazy views up to the depth; each view read and written cell by cell against the full backing array", c35,
		"sizes up to the bound")
}
