//go:build all || C21 || C22

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// forms of a matrix argument: contiguous, strided window, something that is only a mat.Matrix
func argForms(m M, f func(name string, a mat.Matrix)) {
	f("dense", m.dense())
	v, _ := viewOf(m)
	f("view", v)
	f("tight", tightView(m))
	f("matrix", roMat{m})
}

func labelModel(y M) (classes [][]float64, support [][]float64) {
	_, c := y.dims()
	for j := 0; j < c; j++ {
		cl := distinct(y.col(j))
		sp := make([]float64, len(cl))
		for k := range cl {
			for _, v := range y.col(j) {
				if v == cl[k] {
					sp[k]++
				}
			}
		}
		classes = append(classes, cl)
		support = append(support, sp)
	}
	return
}

func c21(x *X) {
	vals := []float64{-1.5, 0, 2, 7}
	type shape struct{ r, c int }
	shapes := []shape{{1, 1}, {2, 1}, {3, 1}, {4, 1}, {1, 2}, {2, 2}, {3, 2}, {5, 1}, {6, 1}, {2, 3}, {1, 3}, {20, 1}, {41, 1}, {17, 2}, {33, 3}, {5, 7}, {130, 1}, {70, 2}, {2, 70}, {260, 1}}
	if x.Thorough() {
		shapes = append(shapes, shape{7, 1}, shape{8, 1}, shape{4, 2}, shape{1, 5}, shape{3, 3})
	}
	xin := func(n int) M {
		m := zerosM(n, 2, 0)
		for i := range m {
			m[i][0], m[i][1] = float64(i), float64(10*i+3)
		}
		return m
	}
	other := []float64{-1.5, 0, 2, 7, 0.5, 100, -9} // labels of the rows transformed later: seen and unseen
	// labels that differ by little, and labels far apart
	tiny := math.Ldexp(1, -40)
	nshapes := len(shapes)
	for i, s := range shapes[:11] {
		if i != 6 && i != 8 { // the larger spaces
			shapes = append(shapes, s)
		}
	}
	for si, s := range shapes {
		s := s
		if si == nshapes {
			vals = []float64{1, 1 + tiny, -math.Ldexp(1, 50), 3}
			other = []float64{1, 1 + tiny, -math.Ldexp(1, 50), 3, 1 - tiny, 1 + 2*tiny, math.Ldexp(1, 50), 0}
		}
		family(s.r, s.c, vals, func(y M) {
			classes, support := labelModel(y)
			// rows transformed after the fit: every value of the alphabet, seen or not, in every column
			later := make(M, len(other))
			for i := range later {
				later[i] = make([]float64, s.c)
				for j := range later[i] {
					later[i][j] = other[(i+j)%len(other)]
				}
			}
			x.Case("LabelEncoder", func() string { return fmt.Sprintf("y=%v", y) }, func(c *C) {
				argForms(y, func(form string, ya mat.Matrix) {
					e := preprocessing.NewLabelEncoder()
					e.Fit(xin(s.r).dense(), ya)
					for j := range classes {
						c.Must(nearSlice(e.Classes[j], classes[j], 0), "LabelEncoder/classes", "%s column %d: classes %v want %v", form, j, e.Classes[j], classes[j])
						c.Must(nearSlice(e.Support[j], support[j], 0), "LabelEncoder/support", "%s column %d: support %v want %v", form, j, e.Support[j], support[j])
					}
					want := y.copy()
					for i := range want {
						for j := range want[i] {
							want[i][j] = float64(indexOf(classes[j], y[i][j]))
						}
					}
					xo, yo := e.Transform(xin(s.r).dense(), ya)
					c.Must(nearM(toM(yo), want, 0), "LabelEncoder/codes", "%s: codes %v want %v", form, toM(yo), want)
					c.Must(nearM(toM(xo), xin(s.r), 0), "LabelEncoder/X", "%s: X changed to %v", form, toM(xo))
					_, back := e.InverseTransform(nil, yo)
					c.Must(nearM(toM(back), y, 0), "LabelEncoder/roundtrip", "%s: decoded %v", form, toM(back))
					_, lo := e.Transform(nil, later.dense())
					for i := range later {
						for j := range later[i] {
							c.Must(lo.At(i, j) == float64(indexOf(classes[j], later[i][j])), "LabelEncoder/unseen", "%s: label %g in column %d got code %g", form, later[i][j], j, lo.At(i, j))
						}
					}
					for k := -2; k <= 5; k++ { // codes that stand for no class decode to NaN
						for j := range classes {
							codes := zerosM(2, s.c, 0)
							codes[1][j] = float64(k)
							_, back := e.InverseTransform(nil, codes.dense())
							got := back.At(1, j)
							if k < 0 || k >= len(classes[j]) {
								c.Must(math.IsNaN(got), "LabelEncoder/decode-invalid", "%s: code %d in column %d decoded to %g", form, k, j, got)
							} else {
								c.Must(got == classes[j][k], "LabelEncoder/decode", "%s: code %d in column %d decoded to %g", form, k, j, got)
							}
						}
					}
					e2 := preprocessing.NewLabelEncoder()
					_, yo2 := e2.FitTransform(nil, ya)
					c.Must(nearM(toM(yo2), want, 0), "LabelEncoder/FitTransform", "%s: %v want %v", form, toM(yo2), want)
					c.Steps(6)
				})
				c.Trace()
			})
			for _, mk := range [][2]float64{{0, 1}, {-1, 1}, {0, 0}, {-2, 5}, {-3, -1}, {2, 2}, {0, 1e-9}} {
				mk := mk
				x.Case("LabelBinarizer", func() string { return fmt.Sprintf("neg=%g pos=%g y=%v", mk[0], mk[1], y) }, func(c *C) {
					neg, pos := mk[0], mk[1]
					if neg == pos {
						pos++
					}
					enc := func(m M) M {
						var w M
						for i := range m {
							var row []float64
							for j := range m[i] {
								for _, cl := range classes[j] {
									if m[i][j] == cl {
										row = append(row, pos)
									} else {
										row = append(row, neg)
									}
								}
							}
							w = append(w, row)
						}
						return w
					}
					want := enc(y)
					argForms(y, func(form string, ya mat.Matrix) {
						e := preprocessing.NewLabelBinarizer(mk[0], mk[1])
						e.Fit(xin(s.r).dense(), ya)
						for j := range classes {
							c.Must(nearSlice(e.Classes[j], classes[j], 0), "LabelBinarizer/classes", "%s column %d: classes %v want %v", form, j, e.Classes[j], classes[j])
						}
						xo, yo := e.Transform(xin(s.r).dense(), ya)
						c.Must(nearM(toM(yo), want, 0), "LabelBinarizer/code", "%s: %v want %v", form, toM(yo), want)
						c.Must(nearM(toM(xo), xin(s.r), 0), "LabelBinarizer/X", "%s: X changed to %v", form, toM(xo))
						_, back := e.InverseTransform(nil, yo)
						c.Must(nearM(toM(back), y, 0), "LabelBinarizer/roundtrip", "%s: decoded %v", form, toM(back))
						_, back = e.InverseTransform(nil, tightView(toM(yo)))
						c.Must(nearM(toM(back), y, 0), "LabelBinarizer/roundtrip", "%s: decoded from a view %v", form, toM(back))
						_, lo := e.Transform(nil, later.dense())
						c.Must(nearM(toM(lo), enc(later), 0), "LabelBinarizer/unseen", "%s: %v want %v", form, toM(lo), enc(later))
						_, yo2 := preprocessing.NewLabelBinarizer(mk[0], mk[1]).FitTransform(nil, ya)
						c.Must(nearM(toM(yo2), want, 0), "LabelBinarizer/FitTransform", "%s: %v want %v", form, toM(yo2), want)
						c.Steps(6)
					})
					c.Trace()
				})
			}
			x.Case("MultiLabelBinarizer", func() string { return fmt.Sprintf("y=%v", y) }, func(c *C) {
				var all []float64
				for i := range y {
					all = append(all, y[i]...)
				}
				all = distinct(all)
				enc := func(m M) M {
					var w M
					for i := range m {
						var row []float64
						for j := range m[i] {
							for _, cl := range all {
								if m[i][j] == cl {
									row = append(row, 1)
								} else {
									row = append(row, 0)
								}
							}
						}
						w = append(w, row)
					}
					return w
				}
				argForms(y, func(form string, ya mat.Matrix) {
					e := preprocessing.NewMultiLabelBinarizer()
					xo, yo := e.FitTransform(xin(s.r).dense(), ya)
					c.Must(nearM(toM(yo), enc(y), 0), "MultiLabelBinarizer/code", "%s: %v want %v", form, toM(yo), enc(y))
					c.Must(nearM(toM(xo), xin(s.r), 0), "MultiLabelBinarizer/X", "%s: X changed to %v", form, toM(xo))
					c.Must(len(e.Classes) == len(all), "MultiLabelBinarizer/classes", "%v want %v", e.Classes, all)
					for k := range all {
						c.Must(e.Classes[k].(float64) == all[k], "MultiLabelBinarizer/classes", "%v want %v", e.Classes, all)
					}
					_, lo := e.Transform(nil, later.dense())
					c.Must(nearM(toM(lo), enc(later), 0), "MultiLabelBinarizer/unseen", "%s: %v want %v", form, toM(lo), enc(later))
					_, back := e.InverseTransform(nil, yo)
					c.Must(nearM(toM(back.(*mat.Dense)), y, 0), "MultiLabelBinarizer/roundtrip", "%s: decoded %v", form, toM(back.(*mat.Dense)))
					_, back = e.InverseTransform(nil, tightView(toM(yo)))
					c.Must(nearM(toM(back.(*mat.Dense)), y, 0), "MultiLabelBinarizer/roundtrip", "%s: decoded from a view %v", form, toM(back.(*mat.Dense)))
				})
				// the same labels as strings
				name := func(v float64) string { return fmt.Sprintf("%c%g", 'k'+rune(int(v)), v) }
				ys := make([][]string, len(y))
				set := map[string]bool{}
				for i := range y {
					for _, v := range y[i] {
						ys[i] = append(ys[i], name(v))
						set[name(v)] = true
					}
				}
				var names []string
				for n := range set {
					names = append(names, n)
				}
				sort.Strings(names)
				e := preprocessing.NewMultiLabelBinarizer()
				_, yo := e.FitTransform2(nil, ys)
				var want M
				for i := range ys {
					var row []float64
					for _, v := range ys[i] {
						for _, n := range names {
							if n == v {
								row = append(row, 1)
							} else {
								row = append(row, 0)
							}
						}
					}
					want = append(want, row)
				}
				c.Must(nearM(toM(yo), want, 0), "MultiLabelBinarizer/strings", "%v want %v (names %v)", toM(yo), want, names)
				_, back := e.InverseTransform(nil, yo)
				c.Must(fmt.Sprint(back) == fmt.Sprint(ys), "MultiLabelBinarizer/strings", "decoded %v want %v", back, ys)
				c.Steps(8)
				c.Trace()
			})
			x.Case("OneHotEncoder", func() string { return fmt.Sprintf("x=%v", y) }, func(c *C) {
				enc := func(m M) M {
					var w M
					for i := range m {
						var row []float64
						for j := range m[i] {
							for _, cl := range classes[j] {
								if m[i][j] == cl {
									row = append(row, 1)
								} else {
									row = append(row, 0)
								}
							}
						}
						w = append(w, row)
					}
					return w
				}
				argForms(y, func(form string, xa mat.Matrix) {
					e := preprocessing.NewOneHotEncoder()
					xo, yo := e.FitTransform(xa, xin(s.r).dense())
					c.Must(nearM(toM(xo), enc(y), 0), "OneHotEncoder/code", "%s: %v want %v", form, toM(xo), enc(y))
					c.Must(nearM(toM(yo), xin(s.r), 0), "OneHotEncoder/Y", "%s: Y changed to %v", form, toM(yo))
					lo, _ := e.Transform(later.dense(), nil)
					c.Must(nearM(toM(lo), enc(later), 0), "OneHotEncoder/unseen", "%s: %v want %v", form, toM(lo), enc(later))
					back, _ := e.InverseTransform(xo, nil)
					c.Must(nearM(toM(back), y, 0), "OneHotEncoder/roundtrip", "%s: decoded %v", form, toM(back))
					back, _ = e.InverseTransform(tightView(toM(xo)), nil)
					c.Must(nearM(toM(back), y, 0), "OneHotEncoder/roundtrip", "%s: decoded from a view %v", form, toM(back))
					c.Steps(4)
				})
				c.Trace()
			})
		})
	}
}

func empiricalQuantile(p float64, sorted []float64) float64 {
	// smallest value whose empirical distribution function reaches p
	n := len(sorted)
	for i := range sorted {
		if float64(i+1) >= p*float64(n)-1e-9 {
			return sorted[i]
		}
	}
	return sorted[n-1]
}

// unit22 measures in units of the largest entry of m.
func unit22(v []float64, m M) (o []float64) {
	size := 0.
	for i := range m {
		for _, a := range m[i] {
			size = math.Max(size, math.Abs(a))
		}
	}
	for _, a := range v {
		if size > 0 {
			a /= size
		}
		o = append(o, a)
	}
	return
}

func c22(x *X) {
	vals := []float64{-2, 0, 0.5, 3}
	type shape struct{ r, c int }
	shapes := []shape{{1, 1}, {2, 1}, {3, 1}, {4, 1}, {2, 2}, {5, 1}, {6, 1}, {3, 2}, {2, 3}, {20, 1}, {41, 1}, {17, 2}, {33, 3}, {5, 7}, {130, 1}, {70, 2}, {2, 70}, {260, 1}}
	if x.Thorough() {
		shapes = append(shapes, shape{7, 1}, shape{8, 1}, shape{4, 2})
	}
	probes := []float64{-100, -2.5, -2, -1, -0.25, 0, 0.25, 0.5, 1, 1.75, 2.99, 3, 4, 100}
	ths := []float64{-2, 0, .5, 1, 3}
	nan := math.NaN()
	ivals := []float64{nan, -2, 0.5, 3}
	// the same in other units
	nshapes := len(shapes)
	for k := 0; k < 2; k++ {
		shapes = append(shapes, shape{2, 1}, shape{4, 1}, shape{2, 2}, shape{20, 1}, shape{17, 2})
	}
	for si, s := range shapes {
		s := s
		if e := -40; si == nshapes || si == nshapes+5 {
			if si > nshapes {
				e = 70
			}
			scale := func(v []float64) (o []float64) {
				for _, a := range v {
					o = append(o, math.Ldexp(a, e))
				}
				return
			}
			vals, probes, ths, ivals = scale(vals), scale(probes), scale(ths), scale(ivals)
		}
		family(s.r, s.c, vals, func(m M) {
			yin := zerosM(s.r, 1, 0)
			for i := range yin {
				yin[i][0] = float64(i) + .25
			}
			later := make(M, len(probes))
			for i := range later {
				later[i] = make([]float64, s.c)
				for j := range later[i] {
					later[i][j] = probes[(i+3*j)%len(probes)]
				}
			}
			for _, strat := range []string{"quantile", "uniform"} {
				for _, nb := range []int{1, 2, 3, 4, 5, 11, 40, 300} {
					if nb > 11 && s.r < 130 {
						continue
					}
					for _, enc := range []string{"ordinal", "onehot-dense"} {
						strat, nb, enc := strat, nb, enc
						x.Case("KBinsDiscretizer", func() string { return fmt.Sprintf("%s bins=%d %s x=%v", strat, nb, enc, m) }, func(c *C) {
							edges := make(M, s.c)
							for j := range edges {
								col := append([]float64(nil), m.col(j)...)
								sort.Float64s(col)
								for b := 0; b <= nb; b++ {
									if strat == "quantile" {
										edges[j] = append(edges[j], empiricalQuantile(float64(b)/float64(nb), col))
									} else {
										edges[j] = append(edges[j], col[0]+float64(b)*(col[len(col)-1]-col[0])/float64(nb))
									}
								}
							}
							d := preprocessing.NewKBinsDiscretizer(nb)
							d.Strategy, d.Encode = strat, enc
							d.Fit(m.dense(), nil)
							for j := range edges {
								c.Must(nearSlice(unit22(d.BinEdges[j], m), unit22(edges[j], m), 1e-12), "KBins/edges", "column %d: edges %v want %v", j, d.BinEdges[j], edges[j])
							}
							check := func(what string, in M, xo *mat.Dense) {
								got := toM(xo)
								bins := make(M, len(in))
								for i := range in {
									bins[i] = make([]float64, s.c)
									for j := range in[i] {
										k := -1
										if enc == "ordinal" {
											k = int(got[i][j])
											c.Must(float64(k) == got[i][j], "KBins/code", "%s: code %g", what, got[i][j])
										} else {
											c.Must(len(got[i]) == nb*s.c, "KBins/code", "%s: %d columns", what, len(got[i]))
											for b := 0; b < nb; b++ {
												switch got[i][j*nb+b] {
												case 1:
													c.Must(k < 0, "KBins/code", "%s: row %d has two bins: %v", what, i, got[i])
													k = b
												case 0:
												default:
													c.Fail("KBins/code", "%s: row %d: %v", what, i, got[i])
												}
											}
										}
										// the fitted edges themselves decide: rounding of a uniform edge must not matter
										want := 0
										for b := 1; b < nb; b++ {
											if d.BinEdges[j][b] <= in[i][j] {
												want = b
											}
										}
										c.Must(k == want, "KBins/bin", "%s: value %g in column %d is in bin %d, want %d of edges %v", what, in[i][j], j, k, want, edges[j])
										bins[i][j] = .5 * (edges[j][k] + edges[j][k+1])
									}
								}
								back, _ := d.InverseTransform(xo, nil)
								for i := range bins {
									c.Must(nearSlice(unit22(toM(back)[i], m), unit22(bins[i], m), 1e-12), "KBins/inverse", "%s: decoded %v want centres %v", what, toM(back), bins)
								}
								c.Must(len(toM(back)) == len(bins), "KBins/inverse", "%s: decoded %v want centres %v", what, toM(back), bins)
							}
							argForms(m, func(form string, xa mat.Matrix) {
								xo, yo := d.Transform(xa, yin.dense())
								check(form, m, xo)
								c.Must(nearM(toM(yo), yin, 0), "KBins/Y", "Y changed to %v", toM(yo))
							})
							lo, _ := d.Transform(later.dense(), nil)
							check("new rows", later, lo)
							d2 := preprocessing.NewKBinsDiscretizer(nb)
							d2.Strategy, d2.Encode = strat, enc
							xo, _ := d2.FitTransform(m.dense(), nil)
							check("FitTransform", m, xo)
							c.Steps(8)
							c.Trace()
						})
					}
				}
			}
			for _, th := range ths {
				th := th
				x.Case("Binarizer", func() string { return fmt.Sprintf("threshold=%g x=%v", th, m) }, func(c *C) {
					b := preprocessing.NewBinarizer()
					b.Threshold = th
					want := m.copy()
					for i := range want {
						for j := range want[i] {
							if m[i][j] > th {
								want[i][j] = 1
							} else {
								want[i][j] = 0
							}
						}
					}
					argForms(m, func(form string, xa mat.Matrix) {
						xo, yo := b.FitTransform(xa, yin.dense())
						c.Must(nearM(toM(xo), want, 0), "Binarizer/value", "%s: %v want %v", form, toM(xo), want)
						c.Must(nearM(toM(yo), yin, 0), "Binarizer/Y", "Y changed to %v", toM(yo))
					})
					c.Steps(4)
					c.Trace()
				})
			}
			x.Case("AddDummyFeature", func() string { return fmt.Sprintf("x=%v", m) }, func(c *C) {
				for _, d := range []*mat.Dense{m.dense(), tightView(m)} {
					preprocessing.AddDummyFeature(d)
					want := make(M, len(m))
					for i := range m {
						want[i] = append([]float64{1}, m[i]...)
					}
					c.Must(nearM(toM(d), want, 0), "AddDummyFeature/value", "%v want %v", toM(d), want)
				}
				c.Steps(2)
				c.Trace()
			})
		})
		// imputer: entries may be missing; every column has at least one present entry
		family(s.r, s.c, ivals, func(m M) {
			for j := 0; j < s.c; j++ {
				ok := false
				for _, v := range m.col(j) {
					ok = ok || !math.IsNaN(v)
				}
				if !ok {
					return
				}
			}
			for _, strat := range []string{"", "mean", "median", "most_frequent"} {
				strat := strat
				x.Case("Imputer", func() string { return fmt.Sprintf("%s x=%v", strat, m) }, func(c *C) {
					later := M{}
					for _, v := range []float64{nan, 5, -2} {
						row := make([]float64, s.c)
						for j := range row {
							row[j] = v
							if j%2 == 1 {
								row[j] = 1
							}
						}
						later = append(later, row)
					}
					check := func(form string, in, out M) {
						c.Must(len(out) == len(in), "Imputer/shape", "%s: %d rows", form, len(out))
						for j := 0; j < s.c; j++ {
							var col []float64
							for _, v := range m.col(j) {
								if !math.IsNaN(v) {
									col = append(col, v)
								}
							}
							sort.Float64s(col)
							for i := range in {
								if !math.IsNaN(in[i][j]) {
									c.Must(out[i][j] == in[i][j], "Imputer/present", "%s: present entry %g became %g", form, in[i][j], out[i][j])
									continue
								}
								got := out[i][j]
								switch strat {
								case "median":
									c.Must(got == empiricalQuantile(.5, col), "Imputer/median", "%s: missing entry of column %v became %g", form, col, got)
								case "most_frequent":
									cnt := func(v float64) (n int) {
										for _, w := range col {
											if w == v {
												n++
											}
										}
										return
									}
									for _, w := range col {
										c.Must(cnt(got) >= cnt(w), "Imputer/most_frequent", "%s: missing entry of column %v became %g", form, col, got)
									}
								default:
									sum := 0.
									for _, w := range col {
										sum += w
									}
									c.Must(nearSlice(unit22([]float64{got}, M{col}), unit22([]float64{sum / float64(len(col))}, M{col}), 1e-12), "Imputer/mean", "%s: missing entry of column %v became %g", form, col, got)
								}
							}
						}
					}
					argForms(m, func(form string, xa mat.Matrix) {
						p := preprocessing.NewImputer()
						p.Strategy = strat
						xo, yo := p.FitTransform(xa, zerosM(s.r, 1, 4).dense())
						check(form, m, toM(xo))
						c.Must(nearM(toM(yo), zerosM(s.r, 1, 4), 0), "Imputer/Y", "Y changed to %v", toM(yo))
						lo, _ := p.Transform(later.dense(), nil)
						check(form+" new rows", later, toM(lo))
						c.Must(nearM(toM(base.ToDense(xa)), m, 0), "Imputer/input", "%s: input changed", form)
					})
					c.Steps(8)
					c.Trace()
				})
			}
		})
	}
}

func init() {
	register("C21", "every labeling (up to 4 rows x 1 column or 3 x 2 over four class values; thorough: up to 6 x 1, 4 x 2, 2 x 3) x every encoder x marker pairs x storage forms; later rows contain every seen and unseen value", c21,
		"the [][]string form of MultiLabelBinarizer is explored with rows of equal length, as its code requires")
	register("C22", "every matrix up to 5 x 1 or 2 x 2 over four values (with missing entries for the imputer) x strategies x bin counts x encodings x thresholds x storage forms, plus a fixed grid of later rows", c22,
		"bin edges of the quantile strategy and the median are the empirical (lower) quantiles, as the code documents through gonum's stat.Empirical",
		"columns with no present entry are outside the imputer's property")
}
