//go:build all || C19 || C20

package main

import (
	"fmt"
	"math"
	"sort"

	nb "github.com/pa-m/sklearn/naive_bayes"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

type colStat struct{ min, max, mean, vr, maxabs float64 }

func colStats(v []float64) colStat {
	s := colStat{min: math.Inf(1), max: math.Inf(-1)}
	for _, x := range v {
		s.min, s.max, s.maxabs = math.Min(s.min, x), math.Max(s.max, x), math.Max(s.maxabs, math.Abs(x))
		s.mean += x
	}
	s.mean /= float64(len(v))
	for _, x := range v {
		s.vr += (x - s.mean) * (x - s.mean)
	}
	s.vr /= float64(len(v))
	return s
}

// empQuantile: the smallest value with at least a share p of the data at or below it.
func empQuantile(p float64, v []float64) float64 {
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	for i, x := range s {
		if float64(i+1) >= p*float64(len(s)) {
			return x
		}
	}
	return s[len(s)-1]
}

func orOne(v float64) float64 {
	if v == 0 {
		return 1
	}
	return v
}

func each(m M, f func(v float64, j int) float64) M {
	o := m.copy()
	for i := range o {
		for j := range o[i] {
			o[i][j] = f(o[i][j], j)
		}
	}
	return o
}

// smallData: every matrix of the bounded space for column-wise transformers.
func smallData(x *X, f func(m M)) {
	vals := []float64{-2, 0, .5, 3}
	for r := 1; r <= x.Pick(6, 7); r++ {
		tuples(r, vals, func(v []float64) { f(colVec(append([]float64(nil), v...))) })
	}
	for r := 1; r <= x.Pick(4, 5); r++ {
		matrices(r, 2, []float64{-1, 0, 4}, f)
	}
	matrices(2, 3, []float64{1, 2.25}, f)
	for k := 0; k < x.Pick(200, 1000); k++ {
		f(lattice(3+k%6, 1+k%4, k))
	}
	for k := 0; k < x.Pick(40, 200); k++ {
		f(lattice(11+k%37, 1+k%6, k+300))
	}
	// many rows, many columns
	for k, sh := range [][2]int{{65, 1}, {100, 2}, {130, 3}, {257, 2}, {300, 1}, {1025, 1}, {3, 70}, {70, 33}, {2, 130}} {
		m := lattice(sh[0], sh[1], k+900)
		f(m)
		f(each(m, func(v float64, j int) float64 { return math.Floor(v/5) + float64(j) }))
	}
	// very small and very large magnitudes, alone and side by side
	for k := 0; k < x.Pick(60, 300); k++ {
		m := lattice(2+k%9, 1+k%3, k+1300)
		for _, e := range []int{-40, -70, 30} {
			f(each(m, func(v float64, j int) float64 { return math.Ldexp(v, e+20*j) }))
		}
	}
	// mixed scale and offset
	f(M{{1e6, 1e-6}, {1e6 + 1, 2e-6}, {1e6 + 4, -1e-6}, {1e6, 0}})
	f(M{{0.1, -7}, {0.1, -7}, {0.1, -7}})
	f(M{{0.7, 1e-3}, {0.7, 1e-3}, {0.7, 1e-3}, {0.7, 1e-3}, {0.7, 1e-3}, {0.7, 1e-3}, {0.7, 1e-3}})
}

// nearScaled compares to the size of the column in either of the data sets.
func nearScaled(a, b, fit M, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for j := range fit[0] {
		size := math.Max(colStats(b.col(j)).maxabs, colStats(fit.col(j)).maxabs)
		for i := range b {
			if d := math.Abs(a[i][j] - b[i][j]); !(d <= tol*size) {
				return false
			}
		}
	}
	return true
}

// scalerCheck fits, transforms other and fitted rows and inverts, against the map given by the definition.
func scalerCheck(c *C, t pp.Transformer, inv func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense), m M, def func(v float64, j int) float64, tol float64) {
	r, cc := m.dims()
	Y := zerosM(r, 2, 7)
	in := m.dense()
	t.Fit(in, Y.dense())
	other := lattice(3, cc, r+cc)
	for _, data := range []M{m, other, m.rows(0)} {
		yd := zerosM(len(data), 1, 5).dense()
		xo, yo := t.Transform(data.dense(), yd)
		c.Steps(1)
		want := each(data, def)
		c.Must(finiteM(toM(xo)), "scaler/finite", "non-finite output %v", toM(xo))
		c.Must(nearM(toM(xo), want, tol), "scaler/transform", "Transform(%v) = %v, definition gives %v", data, toM(xo), want)
		c.Must(yo != nil && nearM(toM(yo), zerosM(len(data), 1, 5), 0), "scaler/y", "Transform changed Y")
		xi, yi := inv(xo, yd)
		c.Steps(1)
		c.Must(nearScaled(toM(xi), data, m, tol*16), "scaler/inverse", "InverseTransform(Transform(%v)) = %v", data, toM(xi))
		c.Must(yi != nil && nearM(toM(yi), zerosM(len(data), 1, 5), 0), "scaler/y", "InverseTransform changed Y")
	}
	xa, _ := t.Transform(m.dense(), nil)
	xb, yb := t.FitTransform(m.dense(), Y.dense())
	c.Must(nearM(toM(xa), toM(xb), 0), "scaler/fit-transform", "FitTransform %v differs from Fit then Transform %v", toM(xb), toM(xa))
	c.Must(nearM(toM(yb), Y, 0), "scaler/y", "FitTransform changed Y")
	xn, yn := inv(nil, Y.dense())
	c.Must(xn == nil && nearM(toM(yn), Y, 0), "scaler/nil", "InverseTransform(nil, Y) does not hand Y back")
	c.Trace()
}

func c19(x *X) {
	smallData(x, func(m M) {
		_, cc := m.dims()
		st := make([]colStat, cc)
		cols := make([][]float64, cc)
		tol := 1e-9
		for j := range st {
			cols[j] = m.col(j)
			st[j] = colStats(cols[j])
		}
		for _, fr := range [][]float64{{0, 1}, {-1, 2}, {5, 5.5}} {
			x.Case("minmax", func() string { return fmt.Sprintf("range=%v X=%v", fr, m) }, func(c *C) {
				s := pp.NewMinMaxScaler(fr)
				scalerCheck(c, s, s.InverseTransform, m, func(v float64, j int) float64 {
					return fr[0] + (v-st[j].min)/orOne(st[j].max-st[j].min)*(fr[1]-fr[0])
				}, tol)
				for j := range st {
					c.Must(s.DataMin.At(0, j) == st[j].min && s.DataMax.At(0, j) == st[j].max, "minmax/stats", "column %d DataMin %g DataMax %g", j, s.DataMin.At(0, j), s.DataMax.At(0, j))
				}
				c.Must(s.NSamplesSeen == len(m), "minmax/seen", "NSamplesSeen %d", s.NSamplesSeen)
			})
		}
		for k := 0; k < 4; k++ {
			wm, ws := k&1 != 0, k&2 != 0
			x.Case("standard", func() string { return fmt.Sprintf("mean=%v std=%v X=%v", wm, ws, m) }, func(c *C) {
				s := pp.NewStandardScaler()
				s.WithMean, s.WithStd = wm, ws
				constant := make([]bool, cc)
				for j := range constant {
					constant[j] = st[j].min == st[j].max
				}
				s.Fit(m.dense(), nil)
				for j := range st {
					c.Must(near(s.Mean.At(0, j), st[j].mean, tol), "standard/mean", "Mean %g, expected %g", s.Mean.At(0, j), st[j].mean)
					if !constant[j] {
						c.Must(near(s.Var.At(0, j), st[j].vr, tol), "standard/var", "Var %g, expected %g", s.Var.At(0, j), st[j].vr)
					} else {
						c.Must(math.Abs(s.Var.At(0, j)) <= 1e-24*(1+st[j].mean*st[j].mean), "standard/var", "Var of constant column %g", s.Var.At(0, j))
						if s.Var.At(0, j) != 0 {
							return // the mean of equal values was rounded: the scale of such a column is rounding noise
						}
					}
				}
				scalerCheck(c, s, s.InverseTransform, m, func(v float64, j int) float64 {
					if wm {
						v -= st[j].mean
					}
					if ws && !constant[j] {
						v /= math.Sqrt(st[j].vr)
					}
					return v
				}, tol)
				c.Must(s.NSamplesSeen == len(m), "standard/seen", "NSamplesSeen %d", s.NSamplesSeen)
				if wm && ws {
					c.Must(nearM(toM(pp.Scale(m.dense())), each(m, func(v float64, j int) float64 {
						v -= st[j].mean
						if !constant[j] {
							v /= math.Sqrt(st[j].vr)
						}
						return v
					}), tol), "standard/scale-func", "Scale differs")
				}
			})
			for qi, q := range []pp.QuantilePair{{Left: .25, Right: .75}, {Left: .1, Right: .9}, {Left: .5, Right: 1}} {
				if qi > 0 && !ws {
					continue
				}
				q := q
				x.Case("robust", func() string { return fmt.Sprintf("center=%v scale=%v q=%v X=%v", wm, ws, q, m) }, func(c *C) {
					s := pp.NewRobustScaler(wm, ws, &q)
					scalerCheck(c, s, s.InverseTransform, m, func(v float64, j int) float64 {
						if wm {
							v -= empQuantile(.5, cols[j])
						}
						if ws {
							v /= orOne(empQuantile(q.Right, cols[j]) - empQuantile(q.Left, cols[j]))
						}
						return v
					}, tol)
				})
			}
		}
		x.Case("maxabs", func() string { return fmt.Sprintf("X=%v", m) }, func(c *C) {
			s := pp.NewMaxAbsScaler()
			scalerCheck(c, s, s.InverseTransform, m, func(v float64, j int) float64 { return v / orOne(st[j].maxabs) }, tol)
			for j := range st {
				c.Must(s.MaxAbs[j] == st[j].maxabs, "maxabs/stats", "MaxAbs %g", s.MaxAbs[j])
			}
			c.Must(s.NSamplesSeen == len(m), "maxabs/seen", "NSamplesSeen %d", s.NSamplesSeen)
		})
		x.Case("moments", func() string { return fmt.Sprintf("X=%v", m) }, func(c *C) {
			mean, std := pp.MeanStdDev(m.dense())
			mn := pp.Mean(m.dense())
			vr, sd := pp.NumpyLike{}.Var(m.dense()), pp.NumpyLike{}.Std(m.dense())
			dm := pp.DenseMean(zerosM(1, cc, 99).dense(), m.dense())
			dm2 := pp.DenseMean(nil, m.dense())
			c.Steps(6)
			for j := range st {
				e := st[j]
				c.Must(near(mean.At(0, j), e.mean, tol) && near(mn.At(0, j), e.mean, tol) && near(dm.At(0, j), e.mean, tol) && near(dm2.At(0, j), e.mean, tol), "moments/mean", "means %g %g %g %g expected %g", mean.At(0, j), mn.At(0, j), dm.At(0, j), dm2.At(0, j), e.mean)
				c.Must(near(vr.At(0, j), e.vr, tol) && near(sd.At(0, j), math.Sqrt(e.vr), 1e-7), "moments/var", "Var %g Std %g expected var %g", vr.At(0, j), sd.At(0, j), e.vr)
				if len(m) > 1 {
					c.Must(near(std.At(0, j), math.Sqrt(e.vr), 1e-7), "moments/std", "MeanStdDev %g expected %g", std.At(0, j), math.Sqrt(e.vr))
				}
			}
			c.Trace()
		})
	})
}

// ---- C20 ----------------------------------------------------------------------------------------

func incData(x *X, f func(m M, y []float64)) {
	// rows of one or two features with labels in 0..2 (labels used by classifiers and label encoders)
	n := x.Pick(5, 6)
	tuples(n, []float64{-1, 0, 2.5}, func(v []float64) {
		y := make([]float64, n)
		for i := range y {
			y[i] = float64((i*i + int(v[i]) + 3) % 3)
		}
		f(colVec(append([]float64(nil), v...)), y)
	})
	for k := 0; k < x.Pick(400, 2000); k++ {
		r := 2 + k%5
		y := make([]float64, r)
		for i := range y {
			y[i] = float64((k>>(uint(i)%5) + i*k) % 3)
		}
		f(lattice(r, 1+k%3, k+77), y)
	}
	for k := 0; k < x.Pick(60, 300); k++ { // very small and very large magnitudes
		r := 2 + k%5
		y := make([]float64, r)
		for i := range y {
			y[i] = float64((k>>(uint(i)%5) + i*k) % 3)
		}
		m := lattice(r, 1+k%3, k+1400)
		for _, e := range []int{-40, 30} {
			f(each(m, func(v float64, j int) float64 { return math.Ldexp(v, e+10*j) }), y)
		}
	}
	for k := 0; k < x.Pick(20, 100); k++ { // longer histories
		r := 8 + k%4
		y := make([]float64, r)
		for i := range y {
			y[i] = float64((k*i + i*i/2) % (2 + k%4))
		}
		f(lattice(r, 1+k%3, k+400), y)
	}
	for k, r := range []int{33, 66, 101, 130, 200, 300} { // much longer
		y := make([]float64, r)
		for i := range y {
			y[i] = float64((k*i + i*i/2 + i/7) % (2 + k))
		}
		f(lattice(r, 1+k%3, k+500), y)
	}
}

// batchings lists the ways rows are handed over: every composition of a short history, and equal or lopsided
// batches of a long one.
func batchings(r int, f func(parts []int)) {
	if r <= 20 {
		compositions(r, f)
		return
	}
	f([]int{r})
	for _, k := range []int{1, 2, 7, 32, 63, 64, 65, 100} {
		if k >= r {
			continue
		}
		var p []int
		for left := r; left > 0; left -= k {
			if left < k {
				p = append(p, left)
				break
			}
			p = append(p, k)
		}
		f(p)
		f([]int{k, r - k})
		f([]int{r - k, k})
		f(append([]int{r - k}, func() (o []int) {
			for i := 0; i < k; i++ {
				o = append(o, 1)
			}
			return
		}()...))
	}
}

func c20(x *X) {
	incData(x, func(m M, y []float64) {
		r, cc := m.dims()
		ym := colVec(y)
		probeRows := lattice(3, cc, 5)
		batchings(r, func(parts []int) {
			batches := func(f func(a, b int)) {
				p := 0
				for _, k := range parts {
					f(p, p+k)
					p += k
				}
			}
			desc := func() string { return fmt.Sprintf("X=%v y=%v batches=%v", m, y, parts) }
			same := func(c *C, what string, a, b pp.Transformer) {
				for _, d := range []M{m, probeRows} {
					ra, _ := a.Transform(d.dense(), nil)
					rb, _ := b.Transform(d.dense(), nil)
					c.Must(nearM(toM(ra), toM(rb), 1e-8), what+"/batches", "batches give %v, one fit gives %v on %v", toM(ra), toM(rb), d)
				}
				c.Trace()
			}
			for start := 0; start < 3; start++ {
				// start 0: PartialFit only; 1: Fit on the first batch; 2: Reset of a scaler used before
				x.Case("minmax", func() string { return fmt.Sprintf("start=%d %s", start, desc()) }, func(c *C) {
					a, b := pp.NewMinMaxScaler([]float64{-1, 1}), pp.NewMinMaxScaler([]float64{-1, 1})
					if start == 2 {
						a.Fit(lattice(4, cc+1, 9).dense(), nil)
						a.Reset()
					}
					batches(func(i, j int) {
						if i == 0 && start == 1 {
							a.Fit(m.slice(i, j).dense(), nil)
						} else {
							a.PartialFit(m.slice(i, j).dense(), nil)
						}
						c.Steps(1)
					})
					b.Fit(m.dense(), nil)
					same(c, "minmax", a, b)
					c.Must(a.NSamplesSeen == r && nearMat(a.DataMin, b.DataMin, 0) && nearMat(a.DataMax, b.DataMax, 0), "minmax/stats", "statistics differ, NSamplesSeen %d", a.NSamplesSeen)
				})
				x.Case("standard", func() string { return fmt.Sprintf("start=%d %s", start, desc()) }, func(c *C) {
					a, b := pp.NewStandardScaler(), pp.NewStandardScaler()
					if start == 2 {
						a.Fit(lattice(4, cc+1, 9).dense(), nil)
						a.Reset()
					}
					batches(func(i, j int) {
						if i == 0 && start == 1 {
							a.Fit(m.slice(i, j).dense(), nil)
						} else {
							a.PartialFit(m.slice(i, j).dense(), nil)
						}
						c.Steps(1)
					})
					b.Fit(m.dense(), nil)
					c.Must(a.NSamplesSeen == r && nearMat(a.Mean, b.Mean, 1e-9) && nearMat(a.Var, b.Var, 1e-9), "standard/stats", "mean %v var %v seen %d; one fit: mean %v var %v", toM(a.Mean), toM(a.Var), a.NSamplesSeen, toM(b.Mean), toM(b.Var))
					for j := 0; j < cc; j++ {
						if (a.Var.At(0, j) == 0) != (b.Var.At(0, j) == 0) {
							return // rounding noise on a constant column
						}
					}
					same(c, "standard", a, b)
				})
				if start < 2 {
					x.Case("maxabs", func() string { return fmt.Sprintf("start=%d %s", start, desc()) }, func(c *C) {
						a, b := pp.NewMaxAbsScaler(), pp.NewMaxAbsScaler()
						batches(func(i, j int) {
							if i == 0 && start == 1 {
								a.Fit(m.slice(i, j).dense(), nil)
							} else {
								a.PartialFit(m.slice(i, j).dense(), nil)
							}
							c.Steps(1)
						})
						b.Fit(m.dense(), nil)
						c.Must(a.NSamplesSeen == r && nearSlice(a.MaxAbs, b.MaxAbs, 0), "maxabs/stats", "MaxAbs %v, one fit %v", a.MaxAbs, b.MaxAbs)
						same(c, "maxabs", a, b)
					})
					x.Case("labelencoder", func() string { return fmt.Sprintf("start=%d %s", start, desc()) }, func(c *C) {
						a, b := pp.NewLabelEncoder(), pp.NewLabelEncoder()
						batches(func(i, j int) {
							if i == 0 && start == 1 {
								a.Fit(nil, ym.slice(i, j).dense())
							} else {
								a.PartialFit(nil, ym.slice(i, j).dense())
							}
							c.Steps(1)
						})
						b.Fit(nil, ym.dense())
						c.Must(nearSlice(a.Classes[0], b.Classes[0], 0) && nearSlice(a.Support[0], b.Support[0], 0), "labelencoder/batches", "classes %v support %v, one fit %v %v", a.Classes, a.Support, b.Classes, b.Support)
						c.Trace()
					})
				}
			}
			x.Case("moments", desc, func(c *C) {
				mean, vr, n := zerosM(1, cc, 0).dense(), zerosM(1, cc, 0).dense(), 0
				batches(func(i, j int) {
					mean, vr, n = pp.IncrementalMeanAndVar(m.slice(i, j).dense(), mean, vr, n)
					c.Steps(1)
				})
				c.Must(n == r, "moments/count", "count %d", n)
				for j := 0; j < cc; j++ {
					s := colStats(m.col(j))
					c.Must(near(mean.At(0, j), s.mean, 1e-9) && near(vr.At(0, j), s.vr, 1e-9), "moments/batches", "column %d mean %g var %g, expected %g %g", j, mean.At(0, j), vr.At(0, j), s.mean, s.vr)
				}
				c.Trace()
			})
			if len(distinct(y)) < 2 {
				return
			}
			for start := 0; start < 4; start++ {
				start := start
				x.Case("gaussiannb", func() string { return fmt.Sprintf("start=%d %s", start, desc()) }, func(c *C) {
					classes := distinct(y)
					if start == 1 { // classes named in another order
						for i, j := 0, len(classes)-1; i < j; i, j = i+1, j-1 {
							classes[i], classes[j] = classes[j], classes[i]
						}
					}
					smooth := []float64{1e-9, 1e-9, .25, .5}[start]
					var priors, w []float64
					if start == 2 {
						w = make([]float64, r)
						for i := range w {
							w[i] = float64(1+(i*i+i)%3) / 2
						}
					}
					if start == 3 {
						priors = make([]float64, len(classes))
						for i := range priors {
							priors[i] = 1 - float64(len(classes)-1)/64
							if i > 0 {
								priors[i] = 1. / 64
							}
						}
					}
					a, b := nb.NewGaussianNB(priors, smooth), nb.NewGaussianNB(priors, smooth)
					fed, eps := 0, 0.
					count := make([]float64, len(classes))
					batches(func(i, j int) {
						named := append([]float64(nil), classes...)
						var wb []float64
						if w != nil {
							wb = w[i:j]
						}
						a.PartialFit(m.slice(i, j).dense(), ym.slice(i, j).dense(), named, false, wb)
						c.Must(nearSlice(named, classes, 0), "gaussiannb/classes", "the class list given as %v is now %v", classes, named)
						c.Steps(1)
						eps = math.Max(eps, a.Epsilon)
						// after every batch: counts and priors of the rows so far
						for ; fed < j; fed++ {
							v := 1.
							if w != nil {
								v = w[fed]
							}
							count[indexOf(classes, y[fed])] += v
						}
						tot := 0.
						for _, v := range count {
							tot += v
						}
						for k := range classes {
							at := indexOf(a.Classes, classes[k])
							want := count[k] / tot
							if priors != nil {
								want = priors[k]
							}
							c.Must(near(a.ClassPrior[at], want, 1e-9) && near(a.ClassCount[at], count[k], 1e-9), "gaussiannb/prior", "after %d rows: class %g has prior %g count %g, want %g %g", fed, classes[k], a.ClassPrior[at], a.ClassCount[at], want, count[k])
						}
					})
					if start == 1 {
						b.PartialFit(m.dense(), ym.dense(), append([]float64(nil), classes...), false, nil)
					} else {
						b.SampleWeight = w
						b.Fit(m.dense(), ym.dense())
					}
					c.Must(nearSlice(a.ClassCount, b.ClassCount, 1e-9) && nearSlice(a.Classes, b.Classes, 0), "gaussiannb/count", "class counts %v, one fit %v", a.ClassCount, b.ClassCount)
					c.Must(nearMat(a.Theta, b.Theta, 1e-8), "gaussiannb/theta", "means %v, one fit %v", toM(a.Theta), toM(b.Theta))
					// the smoothing is that of the last rows given: the variances without it
					sa, sb := toM(a.Sigma), toM(b.Sigma)
					for i := range sa {
						for j := range sa[i] {
							va, vb := sa[i][j]-a.Epsilon, sb[i][j]-b.Epsilon
							c.Must(math.Abs(va-vb) <= 1e-8*(1+math.Abs(vb))+1e-12*math.Max(eps, b.Epsilon), "gaussiannb/sigma", "variance %g of class %d column %d, one fit %g", va, i, j, vb)
						}
					}
					c.Trace()
				})
			}
		})
	})
}

func init() {
	register("C19", "every matrix of the small-value space and of a structured lattice family, with every scaler and switch, transforming fitted rows, one row and foreign rows", c19,
		"values from small alphabets plus a deterministic lattice; rounding tolerance 1e-9")
	register("C20", "every composition of every small data set into batches, for every estimator with incremental fitting, started by PartialFit, Fit or Reset", c20,
		"data sets up to 6 rows, 3 features")
}
