//go:build all || C23 || C24 || C25

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

func storages(m M, f func(name string, a mat.Matrix)) {
	f("dense", m.dense())
	v, _ := viewOf(m)
	f("view", v)
	f("tight", tightView(m))
	f("matrix", roMat{m})
}

// combos lists the index combinations of length d of 0..n-1 in lexicographic order.
func combos(n, d int, repl bool, f func(c []int)) {
	c := make([]int, d)
	var rec func(k, from int)
	rec = func(k, from int) {
		if k == d {
			f(c)
			return
		}
		for i := from; i < n; i++ {
			c[k] = i
			if repl {
				rec(k+1, i)
			} else {
				rec(k+1, i+1)
			}
		}
	}
	rec(0, 0)
}

func c23(x *X) {
	maxN, maxD := x.Pick(7, 8), x.Pick(6, 8)
	for n := 1; n <= 40; n++ {
		for d := 0; d <= 12; d++ {
			if (n > maxN || d > maxD) && !(d == 2 && n%8 == 1 || n <= 2 || n == 3 && d <= 10 || d == 3 && n == 12 || d <= 1) {
				continue
			}
			for _, inter := range []bool{false, true} {
				for _, bias := range []bool{false, true} {
					n, d, inter, bias := n, d, inter, bias
					var want [][]int
					for k := 0; k <= d; k++ {
						if k == 0 && !bias {
							continue
						}
						combos(n, k, !inter, func(cc []int) {
							p := make([]int, n)
							for _, i := range cc {
								p[i]++
							}
							want = append(want, p)
						})
					}
					if len(want) == 0 {
						continue
					}
					datas := []M{lattice(1, n, 3), lattice(4, n, 5), zerosM(2, n, 0), zerosM(3, n, -1)}
					if len(want) < 100 {
						datas = append(datas, lattice(70, n, 6))
					}
					if n <= 6 && n*d <= 6 {
						matrices(1, n, []float64{-2, 0, 1.5}, func(m M) { datas = append(datas, m) })
					}
					for di, m := range datas {
						m := m
						x.Case("PolynomialFeatures", func() string {
							return fmt.Sprintf("n=%d degree=%d interaction=%v bias=%v data%d=%v", n, d, inter, bias, di, m)
						}, func(c *C) {
							var exp M
							for i := range m {
								row := make([]float64, len(want))
								for k, p := range want {
									row[k] = 1
									for j, e := range p {
										for t := 0; t < e; t++ {
											row[k] *= m[i][j]
										}
									}
								}
								exp = append(exp, row)
							}
							yin := colVec(m.col(0))
							storages(m, func(form string, xa mat.Matrix) {
								p := preprocessing.NewPolynomialFeatures(d)
								p.InteractionOnly, p.IncludeBias = inter, bias
								p.Fit(xa, nil)
								c.Must(fmt.Sprint(p.Powers) == fmt.Sprint(want), "Poly/powers", "%s: powers %v want %v", form, p.Powers, want)
								xo, yo := p.Transform(xa, yin.dense())
								c.Must(nearM(toM(xo), exp, 1e-10), "Poly/value", "%s: %v want %v", form, toM(xo), exp)
								c.Must(nearM(toM(yo), yin, 0), "Poly/Y", "%s: Y changed", form)
								if d >= 1 {
									back, yb := p.InverseTransform(xo, yo)
									c.Must(nearM(toM(back), m, 1e-10), "Poly/inverse", "%s: %v want %v", form, toM(back), m)
									c.Must(nearM(toM(yb), yin, 0), "Poly/Y", "%s: Y changed by the inverse", form)
								}
								p2 := preprocessing.NewPolynomialFeatures(d)
								p2.InteractionOnly, p2.IncludeBias = inter, bias
								xo, _ = p2.FitTransform(xa, nil)
								c.Must(nearM(toM(xo), exp, 1e-10), "Poly/FitTransform", "%s: %v want %v", form, toM(xo), exp)
								c.Steps(4)
							})
							c.Trace()
						})
					}
				}
			}
		}
	}
}

func vnorm(v []float64, kind string) float64 {
	s := 0.
	for _, a := range v {
		switch kind {
		case "l1":
			s += math.Abs(a)
		case "max":
			s = math.Max(s, math.Abs(a))
		default:
			s += a * a
		}
	}
	if kind == "l1" || kind == "max" {
		return s
	}
	return math.Sqrt(s)
}

func yeoJohnson(v, l float64) float64 {
	switch {
	case v >= 0 && l == 0:
		return math.Log(v + 1)
	case v >= 0:
		return (math.Pow(v+1, l) - 1) / l
	case l == 2:
		return -math.Log(1 - v)
	}
	return -(math.Pow(1-v, 2-l) - 1) / (2 - l)
}

func boxCox(v, l float64) float64 {
	if l == 0 {
		return math.Log(v)
	}
	return (math.Pow(v, l) - 1) / l
}

func profileLL(col []float64, l float64, method string) float64 {
	n := float64(len(col))
	t := make([]float64, len(col))
	mean, jac := 0., 0.
	for i, v := range col {
		if method == "box-cox" {
			t[i] = boxCox(v, l)
			jac += math.Log(v)
		} else {
			t[i] = yeoJohnson(v, l)
			if v >= 0 {
				jac += math.Log(v + 1)
			} else {
				jac -= math.Log(1 - v)
			}
		}
		mean += t[i] / n
	}
	va := 0.
	for _, v := range t {
		va += (v - mean) * (v - mean) / n
	}
	return -n/2*math.Log(va) + (l-1)*jac
}

func c24(x *X) {
	vals := []float64{-3, 0, 1, 2.5}
	type shape struct{ r, c int }
	shapes := []shape{{1, 1}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {4, 1}, {5, 1}, {3, 3}, {20, 1}, {41, 1}, {17, 2}, {33, 3}, {5, 7}, {130, 2}, {2, 130}, {70, 3}, {257, 1}}
	if x.Thorough() {
		shapes = append(shapes, shape{6, 1}, shape{7, 1}, shape{4, 2}, shape{5, 2})
	}
	for _, s := range shapes {
		s := s
		v := vals
		if s.r*s.c > 6 {
			v = vals[:3]
		}
		family(s.r, s.c, v, func(m M) {
			for _, norm := range []string{"", "l1", "l2", "max"} {
				for _, axis := range []int{0, 1} {
					norm, axis := norm, axis
					x.Case("Normalizer", func() string { return fmt.Sprintf("norm=%s axis=%d x=%v", norm, axis, m) }, func(c *C) {
						want := m.copy()
						for i := range m {
							for j := range m[i] {
								n := 0.
								if axis == 0 {
									n = vnorm(m.col(j), norm)
								} else {
									n = vnorm(m[i], norm)
								}
								if n != 0 {
									want[i][j] = m[i][j] / n
								}
							}
						}
						yin := colVec(m.col(0))
						storages(m, func(form string, xa mat.Matrix) {
							p := preprocessing.NewNormalizer()
							p.Norm, p.Axis = norm, axis
							xo, yo := p.FitTransform(xa, yin.dense())
							c.Must(nearM(toM(xo), want, 1e-12), "Normalizer/value", "%s: %v want %v", form, toM(xo), want)
							c.Must(nearM(toM(yo), yin, 0), "Normalizer/Y", "%s: Y changed", form)
							back, _ := p.InverseTransform(xo, nil)
							c.Must(nearM(toM(back), m, 1e-12), "Normalizer/inverse", "%s: %v", form, toM(back))
							c.Steps(3)
						})
						c.Trace()
					})
				}
			}
		})
	}
	// other units; a norm in range although the squares overflow is not promised, 2^-40..2^70 is
	for k := 0; k < x.Pick(40, 200); k++ {
		m := lattice(1+k%5, 1+k%3, k+70)
		for _, e := range []int{-40, -70, 70} {
			for _, norm := range []string{"l1", "l2", "max"} {
				for _, axis := range []int{0, 1} {
					norm, axis, e := norm, axis, e
					x.Case("Normalizer", func() string { return fmt.Sprintf("units 2^%d norm=%s axis=%d x=%v", e, norm, axis, m) }, func(c *C) {
						ms := m.copy()
						for i := range ms {
							for j := range ms[i] {
								ms[i][j] = math.Ldexp(ms[i][j], e)
							}
						}
						fit := func(m M) (M, M) {
							p := preprocessing.NewNormalizer()
							p.Norm, p.Axis = norm, axis
							xo, _ := p.FitTransform(m.dense(), nil)
							back, _ := p.InverseTransform(mat.DenseCopyOf(xo), nil)
							return toM(xo), toM(back)
						}
						a, _ := fit(m)
						b, back := fit(ms)
						for i := range back {
							for j := range back[i] {
								back[i][j] = math.Ldexp(back[i][j], -e)
							}
						}
						c.Must(nearM(a, b, 1e-12), "Normalizer/units", "%v, in other units %v", a, b)
						c.Must(nearM(back, m, 1e-12), "Normalizer/inverse", "inverse %v (divided by 2^%d)", back, e)
						c.Steps(4)
						c.Trace()
					})
				}
			}
		}
	}
	// quantile transformer: every column (in every row order) x quantile counts, probed on a grid
	qvals := []float64{-3, 0, 1, 2.5}
	probes := []float64{-50, -3.5, -3, -2, -1, 0, .25, .5, 1, 1.5, 2, 2.5, 3, 50}
	quant := func(col []float64, Qs []int) {
		n := len(col)
		col = append([]float64(nil), col...)
		for _, Q := range Qs {
			Q := Q
			x.Case("QuantileTransformer", func() string { return fmt.Sprintf("Q=%d x=%v", Q, col) }, func(c *C) {
				// a second column exercises the per-feature handling
				m := zerosM(n, 2, 0)
				for i := range m {
					m[i][0], m[i][1] = col[i], -2*col[(i+1)%n]
				}
				xa := mat.Matrix(m.dense())
				if Q%2 == 0 {
					xa = tightView(m)
				}
				t := preprocessing.NewQuantileTransformer(Q, "uniform", nil)
				t.Fit(xa, nil)
				for j := 0; j < 2; j++ {
					sc := append([]float64(nil), m.col(j)...)
					sort.Float64s(sc)
					qs := make([]float64, Q)
					for k := range qs {
						pos := float64(k) * float64(n-1) / float64(Q-1)
						lo := int(pos + 1e-9)
						fr := pos - float64(lo)
						qs[k] = sc[lo]
						if lo+1 < n && fr > 1e-9 {
							qs[k] = sc[lo]*(1-fr) + sc[lo+1]*fr
						}
						c.Must(near(t.Quantiles.At(k, j), qs[k], 1e-9), "Quantile/quantiles", "column %d quantile %d = %g want %g", j, k, t.Quantiles.At(k, j), qs[k])
					}
					pm := zerosM(len(probes), 2, 0)
					for i, p := range probes {
						pm[i][j] = p
						if j == 1 {
							pm[i][j] = 2 * p
						}
						pm[i][1-j] = p
					}
					xo, _ := t.Transform(pm.dense(), nil)
					const eps = 1e-7
					prev := -1.
					idx := make([]int, len(probes))
					for i := range idx {
						idx[i] = i
					}
					for _, i := range idx {
						v, p := xo.At(i, j), pm[i][j]
						c.Must(v >= eps*(1-1e-6) && v <= 1-eps*(1-1e-6), "Quantile/range", "value %g of column %d maps to %g", p, j, v)
						c.Must(v >= prev-1e-9, "Quantile/monotone", "value %g of column %d maps to %g, below %g", p, j, v, prev)
						prev = v
						if p <= sc[0] {
							c.Must(near(v, eps, 1e-9), "Quantile/low", "value %g at or below the minimum of %v maps to %g", p, sc, v)
						}
						if p >= sc[n-1] && qs[Q-2] < qs[Q-1]-1e-6 {
							c.Must(near(v, 1-eps, 1e-9), "Quantile/high", "value %g at or above the maximum of %v maps to %g", p, sc, v)
						}
						// strictly inside one interval: the linear interpolation of the levels
						for k := 0; k+1 < Q; k++ {
							if p > qs[k]+1e-6 && p < qs[k+1]-1e-6 {
								w := (float64(k) + (p-qs[k])/(qs[k+1]-qs[k])) / float64(Q-1)
								w = math.Max(eps, math.Min(1-eps, w))
								c.Must(near(v, w, 1e-6), "Quantile/level", "value %g between quantiles %g and %g maps to %g want %g", p, qs[k], qs[k+1], v, w)
							}
						}
					}
					c.Steps(len(probes))
				}
				c.Trace()
			})
		}
	}
	for n := 1; n <= x.Pick(7, 8); n++ {
		tuples(n, qvals, func(col []float64) { quant(col, []int{2, 3, 4, 5, 8}) })
	}
	for k, n := range []int{17, 33, 64, 65, 100, 130, 301} {
		for salt := 0; salt < 4; salt++ {
			col := lattice(n, 1, salt+7*k).col(0)
			if salt > 1 {
				for i := range col {
					col[i] = math.Floor(col[i] / 3)
				}
			}
			quant(col, []int{2, 5, 10, 33, 64, 65, 100, 129, 302})
		}
	}
	// power transformer with given exponents
	lams := []float64{-2, -1, -.5, -1e-5, 0, 1e-5, 2e-3, .5, 1, 1.5, 2 - 1e-3, 2 - 1e-5, 2, 2 + 1e-5, 3}
	grid := []float64{-4, -2.5, -1, -.5, -1e-3, 0, 1e-3, .5, 1, 2.5, 4}
	pgrid := []float64{.05, .5, .9, 1, 1.1, 2, 3.5, 10}
	for _, method := range []string{"yeo-johnson", "box-cox"} {
		for _, l1 := range lams {
			for _, l2 := range lams {
				method, l1, l2 := method, l1, l2
				x.Case("PowerTransformer/given", func() string { return fmt.Sprintf("%s lambdas=%g,%g", method, l1, l2) }, func(c *C) {
					g := grid
					f := yeoJohnson
					if method == "box-cox" {
						g, f = pgrid, boxCox
						if l1 >= .5 && l2 >= .5 { // zero has a finite image
							g = append([]float64{0}, pgrid...)
						}
					}
					m := zerosM(len(g), 2, 0)
					want := m.copy()
					for i := range m {
						m[i][0], m[i][1] = g[i], g[len(g)-1-i]
						want[i][0], want[i][1] = f(m[i][0], l1), f(m[i][1], l2)
					}
					storages(m, func(form string, xa mat.Matrix) {
						p := preprocessing.NewPowerTransformer()
						p.Method, p.Standardize = method, false
						p.Lambdas = []float64{l1, l2}
						xo, _ := p.Transform(xa, nil)
						c.Must(nearM(toM(xo), want, 1e-9), "Power/value", "%s: %v want %v", form, toM(xo), want)
						for i := 1; i < len(g); i++ {
							c.Must(xo.At(i, 0) > xo.At(i-1, 0) && xo.At(i, 1) < xo.At(i-1, 1), "Power/monotone", "%s: %v", form, toM(xo))
						}
						back, _ := p.InverseTransform(xo, nil)
						c.Must(nearM(toM(back), m, 1e-7), "Power/inverse", "%s: %v want %v", form, toM(back), m)
						c.Steps(2)
					})
					c.Trace()
				})
			}
		}
	}
	// fitted power transformer
	fit := func(method string, col []float64) {
		col = append([]float64(nil), col...)
		if len(distinct(col)) < 3 {
			return
		}
		for _, std := range []bool{false, true} {
			std := std
			x.Case("PowerTransformer/fit", func() string { return fmt.Sprintf("%s standardize=%v x=%v", method, std, col) }, func(c *C) {
				m := zerosM(len(col), 2, 0)
				for i := range m {
					m[i][0] = col[i]
					m[i][1] = col[(i+1)%len(col)]*2 + .5
				}
				p := preprocessing.NewPowerTransformer()
				p.Method, p.Standardize = method, std
				xo, yo := p.FitTransform(m.dense(), colVec(col).dense())
				c.Must(nearM(toM(yo), colVec(col), 0), "Power/Y", "Y changed")
				q := preprocessing.NewPowerTransformer()
				q.Method, q.Standardize = method, std
				q.Fit(tightView(m), nil)
				xo2, _ := q.Transform(m.dense(), nil)
				c.Must(nearM(toM(xo), toM(xo2), 1e-9), "Power/FitTransform", "FitTransform %v, Fit then Transform %v", toM(xo), toM(xo2))
				c.Steps(4)
				c.Trace()
				for j := 0; j < 2; j++ {
					l := p.Lambdas[j]
					if math.IsNaN(l) || math.Abs(l) > 6 {
						continue // no interior maximum of the likelihood within reach
					}
					cj := m.col(j)
					ll := profileLL(cj, l, method)
					for _, d := range []float64{-.02, .02} {
						c.Must(profileLL(cj, l+d, method) <= ll+1e-7, "Power/mle", "column %d: lambda %g has likelihood %.10g, lambda %g has %.10g", j, l, ll, l+d, profileLL(cj, l+d, method))
					}
					f := yeoJohnson
					if method == "box-cox" {
						f = boxCox
					}
					t := make([]float64, len(cj))
					mean, va := 0., 0.
					for i, v := range cj {
						t[i] = f(v, l)
						mean += t[i] / float64(len(cj))
					}
					for _, v := range t {
						va += (v - mean) * (v - mean) / float64(len(cj))
					}
					if std && va < 1e-6 {
						continue
					}
					for i := range t {
						w := t[i]
						if std {
							w = (t[i] - mean) / math.Sqrt(va)
						}
						c.Must(near(xo.At(i, j), w, 1e-6), "Power/fitvalue", "column %d row %d: %g want %g (lambda %g)", j, i, xo.At(i, j), w, l)
					}
					back, _ := p.InverseTransform(xo, nil)
					c.Must(nearSlice(toM(back).col(j), cj, 1e-5), "Power/fitinverse", "column %d: %v want %v", j, toM(back).col(j), cj)
				}
			})
		}
	}
	for n := 3; n <= x.Pick(6, 7); n++ {
		tuples(n, []float64{-2, -.5, 0, 1, 3}, func(col []float64) { fit("yeo-johnson", col) })
		tuples(n, []float64{.25, 1, 1.5, 4}, func(col []float64) { fit("box-cox", col) })
	}
	for k, n := range []int{17, 33, 65, 101, 130, 257} {
		for salt := 0; salt < x.Pick(6, 40); salt++ {
			col := lattice(n, 1, salt+11*k).col(0)
			skew, pos := append([]float64(nil), col...), append([]float64(nil), col...)
			for i, v := range col {
				skew[i] = math.Exp(v/5) - 1.5
				pos[i] = math.Exp(v / 6)
			}
			fit("yeo-johnson", col)
			fit("yeo-johnson", skew)
			fit("box-cox", pos)
		}
	}
}

func matmul(a, b M) M {
	r, k := a.dims()
	_, c := b.dims()
	o := zerosM(r, c, 0)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			for t := 0; t < k; t++ {
				o[i][j] += a[i][t] * b[t][j]
			}
		}
	}
	return o
}

func transposeM(a M) M {
	r, c := a.dims()
	o := zerosM(c, r, 0)
	for i := range a {
		for j := range a[i] {
			o[j][i] = a[i][j]
		}
	}
	return o
}

func sumsq(a M) (s float64) {
	for _, r := range a {
		for _, v := range r {
			s += v * v
		}
	}
	return
}

func c25(x *X) {
	// Shuffler
	sizes := []int{33, 64, 65, 101, 130, 300}
	for n := 1; n <= x.Pick(8, 12); n++ {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		seeds := uint64(x.Pick(600, 3000))
		if n > 30 {
			seeds /= 100
		}
		for seed := uint64(0); seed < seeds; seed++ {
			for _, yc := range []int{0, 1, 2} {
				n, seed, yc := n, seed, yc
				x.Case("Shuffler", func() string { return fmt.Sprintf("n=%d seed=%d ycols=%d", n, seed, yc) }, func(c *C) {
					m := zerosM(n, 2, 0)
					for i := range m {
						m[i][0], m[i][1] = float64(i), float64(100+i)
					}
					var y M
					if yc > 0 {
						y = zerosM(n, yc, 0)
						for i := range y {
							for j := range y[i] {
								y[i][j] = float64(1000*(j+1) + i)
							}
						}
					}
					storages(m, func(form string, xa mat.Matrix) {
						s := preprocessing.NewShuffler()
						s.RandomState = base.NewLockedSource(seed)
						var ya mat.Matrix
						if yc > 0 {
							ya = y.dense()
							if form == "view" {
								ya = tightView(y)
							}
						}
						xo, yo := s.FitTransform(xa, ya)
						seen := make([]bool, n)
						for i := 0; i < n; i++ {
							k := int(xo.At(i, 0))
							c.Must(k >= 0 && k < n && !seen[k] && xo.At(i, 1) == float64(100+k), "Shuffler/rows", "%s: %v is not a permutation of the rows", form, toM(xo))
							seen[k] = true
							for j := 0; j < yc; j++ {
								c.Must(yo.At(i, j) == y[k][j], "Shuffler/aligned", "%s: row %d of X is row %d, its Y is %g", form, i, k, yo.At(i, j))
							}
						}
						// the same permutation again
						xo2, _ := s.Transform(xa, ya)
						c.Must(nearM(toM(xo2), toM(xo), 0), "Shuffler/stable", "%s: transforming again gives %v, first %v", form, toM(xo2), toM(xo))
						s2 := preprocessing.NewShuffler()
						s2.RandomState = base.NewLockedSource(seed)
						xo3, _ := s2.FitTransform(xa, ya)
						c.Must(nearM(toM(xo3), toM(xo), 0), "Shuffler/seed", "%s: same seed gives %v and %v", form, toM(xo3), toM(xo))
						xb, yb := s.InverseTransform(xo, yo)
						c.Must(nearM(toM(xb), m, 0), "Shuffler/inverse", "%s: %v", form, toM(xb))
						if yc > 0 {
							c.Must(nearM(toM(yb), y, 0), "Shuffler/inverse", "%s: Y %v", form, toM(yb))
							_, yb2 := s.InverseTransform(nil, yo)
							c.Must(nearM(toM(yb2), y, 0), "Shuffler/inverse", "%s: Y alone %v", form, toM(yb2))
						}
						c.Steps(4)
					})
					c.Trace()
				})
			}
		}
	}
	// PCA
	pcaCase := func(m M) {
		r, k := m.dims()
		if k > r {
			k = r
		}
		if sumsq(m) == 0 {
			return
		}
		for nc := 0; nc <= k; nc++ {
			for _, ratio := range []float64{0, .25, .5, .75, .9, .999999, 1} {
				if nc > 0 && ratio > 0 {
					continue
				}
				nc, ratio := nc, ratio
				x.Case("PCA", func() string { return fmt.Sprintf("components=%d ratio=%g x=%v", nc, ratio, m) }, func(c *C) {
					storages(m, func(form string, xa mat.Matrix) {
						p := preprocessing.NewPCA()
						p.NComponents, p.MinVarianceRatio = nc, ratio
						xo, yo := p.FitTransform(xa, colVec(m.col(0)).dense())
						c.Must(nearM(toM(yo), colVec(m.col(0)), 0), "PCA/Y", "%s: Y changed", form)
						tot := sumsq(m)
						c.Must(len(p.SingularValues) == k, "PCA/singular", "%s: %d singular values", form, len(p.SingularValues))
						s2 := 0.
						for i, s := range p.SingularValues {
							c.Must(s >= 0 && (i == 0 || s <= p.SingularValues[i-1]+1e-12), "PCA/order", "%s: singular values %v", form, p.SingularValues)
							c.Must(near(p.ExplainedVarianceRatio[i], s*s/tot, 1e-9), "PCA/ratio", "%s: ratios %v of singular values %v", form, p.ExplainedVarianceRatio, p.SingularValues)
							s2 += s * s
						}
						c.Must(near(s2, tot, 1e-9), "PCA/energy", "%s: squared singular values sum to %g want %g", form, s2, tot)
						wantNC := nc
						if nc == 0 && ratio == 0 {
							wantNC = k
						}
						if ratio > 0 {
							// smallest count whose explained ratio reaches the threshold (not decided within rounding of it)
							cum := 0.
							wantNC = -1
							exact := true // ratios that are multiples of 1/64 add up without rounding
							for i, v := range p.ExplainedVarianceRatio {
								cum += v
								exact = exact && v*64 == math.Floor(v*64)
								if math.Abs(cum-ratio) < 1e-9 && !exact {
									_, wantNC = xo.Dims()
									break
								}
								if cum >= ratio {
									wantNC = i + 1
									break
								}
							}
							if wantNC < 0 {
								wantNC = k
							}
						}
						_, oc := xo.Dims()
						c.Must(oc == wantNC, "PCA/components", "%s: %d output columns want %d of ratios %v", form, oc, wantNC, p.ExplainedVarianceRatio)
						// projected columns: orthogonal, with the singular values as norms
						g := matmul(transposeM(toM(xo)), toM(xo))
						for i := range g {
							for j := range g[i] {
								w := 0.
								if i == j {
									w = p.SingularValues[i] * p.SingularValues[i]
								}
								c.Must(math.Abs(g[i][j]-w) <= 1e-9*(1+tot), "PCA/orthogonal", "%s: Gram matrix of the projection %v, singular values %v", form, g, p.SingularValues)
							}
						}
						back, _ := p.InverseTransform(xo, nil)
						d := toM(back)
						c.Must(len(d) == len(m) && len(d[0]) == len(m[0]), "PCA/inverse", "%s: shape of the inverse", form)
						for i := range d {
							for j := range d[i] {
								d[i][j] -= m[i][j]
							}
						}
						drop := 0.
						for i := wantNC; i < k; i++ {
							drop += p.SingularValues[i] * p.SingularValues[i]
						}
						c.Must(math.Abs(sumsq(d)-drop) <= 1e-9*(1+tot), "PCA/inverse", "%s: reconstruction error %g want %g", form, sumsq(d), drop)
						// rows transformed one at a time give the same projection
						for i := range m {
							ro, _ := p.Transform(M{m[i]}.dense(), nil)
							c.Must(nearSlice(toM(ro)[0], toM(xo)[i], 1e-9), "PCA/rowwise", "%s: row %d alone %v, in the batch %v", form, i, toM(ro)[0], toM(xo)[i])
						}
						c.Steps(3 + len(m))
					})
					c.Trace()
				})
			}
		}
	}
	pvals := []float64{-1, 0, 2}
	matrices(2, 2, []float64{-1, 0, 2, 3}, pcaCase)
	matrices(3, 2, pvals, pcaCase)
	matrices(2, 3, pvals, pcaCase)
	matrices(1, 3, pvals, pcaCase)
	matrices(3, 1, pvals, pcaCase)
	matrices(3, 3, pvals, pcaCase)
	matrices(4, 2, pvals, pcaCase)
	matrices(2, 4, pvals, pcaCase)
	if x.Thorough() {
		matrices(5, 2, pvals, pcaCase)
		matrices(2, 5, pvals, pcaCase)
		matrices(3, 3, []float64{-1, 0, 2, 3}, pcaCase)
	}
	for salt := 1; salt <= x.Pick(30, 200); salt++ {
		pcaCase(lattice(5+salt%17, 1+salt%7, salt))
	}
	for k, sh := range [][2]int{{65, 3}, {130, 5}, {3, 65}, {40, 17}, {17, 20}, {300, 2}} {
		pcaCase(lattice(sh[0], sh[1], k+50))
	}
	for salt := 1; salt <= x.Pick(40, 200); salt++ {
		m := lattice(4+salt%9, 1+salt%4, salt+7)
		for _, e := range []int{-40, 40} {
			for _, nc := range []int{0, 1, 2} {
				for _, ratio := range []float64{0, .5, .9} {
					if _, k := m.dims(); nc > k || nc > 0 && ratio > 0 {
						continue
					}
					x.Case("PCA", func() string { return fmt.Sprintf("units 2^%d components=%d ratio=%g x=%v", e, nc, ratio, m) }, func(c *C) {
						scale := func(m M, e int) M {
							o := m.copy()
							for i := range o {
								for j := range o[i] {
									o[i][j] = math.Ldexp(o[i][j], e)
								}
							}
							return o
						}
						fit := func(m M) ([]float64, M, M) {
							p := preprocessing.NewPCA()
							p.NComponents, p.MinVarianceRatio = nc, ratio
							xo, _ := p.FitTransform(m.dense(), nil)
							back, _ := p.InverseTransform(mat.DenseCopyOf(xo), nil)
							return p.ExplainedVarianceRatio, toM(xo), toM(back)
						}
						ra, xa, ba := fit(m)
						rb, xb, bb := fit(scale(m, e))
						c.Steps(4)
						c.Must(nearSlice(ra, rb, 1e-9), "PCA/units", "variance ratios %v, in other units %v", ra, rb)
						c.Must(len(xa[0]) == len(xb[0]), "PCA/units", "%d components, in other units %d", len(xa[0]), len(xb[0]))
						c.Must(nearM(ba, scale(bb, -e), 1e-6), "PCA/units", "reconstruction %v, in other units %v", ba, scale(bb, -e))
						c.Trace()
					})
				}
			}
		}
	}
	// KernelCenterer: features F (fit) and G (later rows); kernels K=FF', L=GF'
	kc := func(F, G M) {
		x.Case("KernelCenterer", func() string { return fmt.Sprintf("fit=%v new=%v", F, G) }, func(c *C) {
			K, L := matmul(F, transposeM(F)), matmul(G, transposeM(F))
			n, d := F.dims()
			mean := make([]float64, d)
			for i := range F {
				for j := range mean {
					mean[j] += F[i][j] / float64(n)
				}
			}
			center := func(a M) M {
				o := a.copy()
				for i := range o {
					for j := range o[i] {
						o[i][j] -= mean[j]
					}
				}
				return o
			}
			wantK := matmul(center(F), transposeM(center(F)))
			wantL := matmul(center(G), transposeM(center(F)))
			storages(K, func(form string, ka mat.Matrix) {
				p := preprocessing.NewKernelCenterer()
				ko, _ := p.FitTransform(ka, nil)
				c.Must(nearM(toM(ko), wantK, 1e-9), "KernelCenterer/fit", "%s: %v want %v", form, toM(ko), wantK)
				storages(L, func(lf string, la mat.Matrix) {
					lo, yo := p.Transform(la, colVec(L.col(0)).dense())
					c.Must(nearM(toM(lo), wantL, 1e-9), "KernelCenterer/new", "%s/%s: %v want %v", form, lf, toM(lo), wantL)
					c.Must(nearM(toM(yo), colVec(L.col(0)), 0), "KernelCenterer/Y", "Y changed")
				})
				c.Steps(5)
			})
			c.Trace()
		})
	}
	for n := 1; n <= x.Pick(4, 5); n++ {
		canonMatrices(n, 2, []float64{-1, 0, 2}, func(F M) {
			F = F.copy()
			kc(F, M{{1, 3}})
			kc(F, M{{1, 3}, {-2, .5}, {0, 0}, {4, 1}, {2, 2}})
		})
	}
	for k, n := range []int{9, 17, 33, 65, 130} {
		kc(lattice(n, 1+k%4, k), lattice(1+k, 1+k%4, k+20))
		kc(lattice(n, 3, k+5), lattice(70, 3, k+25))
	}
}

func init() {
	register("C23", "every feature count and degree up to the bound x interaction x bias x data (all values of a small alphabet for one row, fixed irregular rows otherwise) x storage forms", c23,
		"the producer goroutine of the generators is run under the Go scheduler here; its schedules do not affect an unbuffered rendezvous and are explored separately by C03")
	register("C24", "Normalizer: every small matrix x norm x axis; QuantileTransformer: every small column in every order x quantile counts x probe grid; PowerTransformer: every pair of exponents on a grid of values, and every small column for fitted exponents", c24,
		"fitted power exponents are judged only when the likelihood has an interior maximum with |lambda| <= 6")
	register("C25", "Shuffler: every size and seed in range; PCA: every small integer matrix x component count x variance ratio; KernelCenterer: every small feature matrix; storage forms", c25)
}
