//go:build all || C34 || C36 || C37

package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	"github.com/pa-m/sklearn/interpolate"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// line is an increasing, unevenly spaced sequence.
func line(n, salt int) []float64 {
	o := make([]float64, n)
	for i, r := range lattice(n, 1, salt) {
		o[i] = math.Abs(r[0])/2 + .25
		if i > 0 {
			o[i] += o[i-1]
		}
	}
	return o
}

// ---- C34: interpolation -----------------------------------------------------------------------

func c34(x *X) {
	knotsets := [][]float64{{0, 1}, {0, 1, 3}, {-2, -1.5, 0, 4}, {-1, 0, 0.5, 2, 3}, {-3, -1, 0, 0.5, 2, 3.25}}
	if x.Thorough() {
		knotsets = append(knotsets, []float64{-3, -1, 0, 0.5, 2, 3.25, 7})
	}
	grid := func(k []float64) []float64 {
		var g []float64
		for i := 0; i+1 < len(k); i++ {
			for s := 0; s < 4; s++ {
				g = append(g, k[i]+(k[i+1]-k[i])*float64(s)/4)
			}
		}
		return append(g, k[len(k)-1])
	}
	for _, ks := range knotsets {
		ks := ks
		n := len(ks)
		vals := []float64{-1, 0, 2}
		if n <= 3 {
			vals = []float64{-3, -1, 0, 0.5, 2}
		}
		permutations(n, func(perm []int) {
			tuples(n, vals, func(v []float64) {
				ys := append([]float64(nil), v...)
				x.Case("linear", func() string { return fmt.Sprintf("knots=%v order=%v values=%v", ks, perm, ys) }, func(c *C) {
					px, py := make([]float64, n), make([]float64, n)
					for i, p := range perm {
						px[i], py[i] = ks[p], ys[p]
					}
					kx, ky := append([]float64(nil), px...), append([]float64(nil), py...)
					f := interpolate.Interp1d(px, py)
					sx, sy := append([]float64(nil), px...), append([]float64(nil), py...)
					g := interpolate.CubicSpline(sx, sy)
					c.Must(nearSlice(px, kx, 0) && nearSlice(py, ky, 0), "inputs-modified", "the knot arrays changed")
					c.Must(nearSlice(sx, kx, 0) && nearSlice(sy, ky, 0), "inputs-modified", "the knot arrays given to the spline changed")
					reused := len(ks)%2 == 0
					if reused { // the arrays are the caller's again
						for i := range px {
							px[i], py[i], sx[i], sy[i] = -9, canary, 5, canary
						}
					}
					for i := range ks {
						c.Must(near(f(ks[i]), ys[i], 1e-12), "linear-knot", "f(%g)=%g want %g", ks[i], f(ks[i]), ys[i])
						c.Must(near(g(ks[i]), ys[i], 1e-9), "cubic-knot", "spline(%g)=%g want %g", ks[i], g(ks[i]), ys[i])
					}
					for _, q := range grid(ks) {
						i := sort.SearchFloat64s(ks, q)
						if i == 0 {
							i = 1
						}
						t := (q - ks[i-1]) / (ks[i] - ks[i-1])
						w := ys[i-1] + t*(ys[i]-ys[i-1])
						c.Must(near(f(q), w, 1e-12), "linear-value", "f(%g)=%g want %g", q, f(q), w)
						c.Steps(1)
					}
					// outside the range the end segments are prolonged
					w := ys[0] - (ys[1]-ys[0])/(ks[1]-ks[0])
					c.Must(near(f(ks[0]-1), w, 1e-12), "linear-left", "f(%g)=%g want %g", ks[0]-1, f(ks[0]-1), w)
					w = ys[n-1] + (ys[n-1]-ys[n-2])/(ks[n-1]-ks[n-2])
					c.Must(near(f(ks[n-1]+1), w, 1e-12), "linear-right", "f(%g)=%g want %g", ks[n-1]+1, f(ks[n-1]+1), w)
					// the spline against the natural cubic spline computed from second derivatives
					ref := refNatural(ks, ys)
					for _, q := range grid(ks) {
						c.Must(near(g(q), ref(q), 1e-8), "cubic-value", "spline(%g)=%g want %g", q, g(q), ref(q))
						c.Steps(1)
					}
					for _, d := range []float64{.25, 1, 3} {
						for _, q := range []float64{ks[0] - d, ks[n-1] + d} {
							c.Must(near(g(q), ref(q), 1e-8), "cubic-outside", "spline(%g)=%g, the end piece prolonged gives %g", q, g(q), ref(q))
							c.Steps(1)
						}
					}
					// an interpolant does not remember its queries: backwards, and in jumps
					gr := grid(ks)
					for k := range gr {
						for _, q := range []float64{gr[len(gr)-1-k], gr[(k*5+2)%len(gr)], gr[(k*7+3)%len(gr)]} {
							i := sort.SearchFloat64s(ks, q)
							if i == 0 {
								i = 1
							}
							t := (q - ks[i-1]) / (ks[i] - ks[i-1])
							c.Must(near(f(q), ys[i-1]+t*(ys[i]-ys[i-1]), 1e-12), "linear-value", "f(%g)=%g want %g", q, f(q), ys[i-1]+t*(ys[i]-ys[i-1]))
							c.Must(near(g(q), ref(q), 1e-8), "cubic-value", "spline(%g)=%g want %g", q, g(q), ref(q))
						}
					}
					// other units of the knots and of the values
					for _, e := range []int{-40, 30} {
						ux, uy := append([]float64(nil), kx...), append([]float64(nil), ky...)
						for i := range ux {
							ux[i], uy[i] = math.Ldexp(ux[i], e), math.Ldexp(uy[i], -e)
						}
						uf, ug := interpolate.Interp1d(ux, uy), interpolate.CubicSpline(ux, uy)
						for _, q := range gr {
							a, b := math.Ldexp(uf(math.Ldexp(q, e)), e), math.Ldexp(ug(math.Ldexp(q, e)), e)
							c.Must(near(a, f(q), 1e-12) && near(b, g(q), 1e-8), "units", "at %g: %g and %g, knots in units 2^%d: %g and %g", q, f(q), g(q), e, a, b)
						}
						c.Steps(1)
					}
					if !reused {
						c.Must(nearSlice(px, kx, 0) && nearSlice(py, ky, 0), "inputs-modified", "the knot arrays changed")
						c.Must(nearSlice(sx, kx, 0) && nearSlice(sy, ky, 0), "inputs-modified", "the knot arrays given to the spline changed")
					}
					c.Trace()
				})
			})
		})
		// affine data are reproduced
		tuples(2, []float64{-2, 0, 0.5, 3}, func(v []float64) {
			a, b := v[0], v[1]
			permutations(n, func(perm []int) {
				x.Case("affine", func() string { return fmt.Sprintf("knots=%v order=%v y=%g*x+%g", ks, perm, a, b) }, func(c *C) {
					px, py := make([]float64, n), make([]float64, n)
					for i, p := range perm {
						px[i], py[i] = ks[p], a*ks[p]+b
					}
					f, g := interpolate.Interp1d(px, py), interpolate.CubicSpline(px, py)
					for _, q := range grid(ks) {
						c.Must(near(f(q), a*q+b, 1e-12), "affine-linear", "f(%g)=%g", q, f(q))
						c.Must(near(g(q), a*q+b, 1e-9), "affine-cubic", "spline(%g)=%g", q, g(q))
						c.Steps(2)
					}
					c.Trace()
				})
			})
		})
	}
	// many knots, unevenly spaced, in several orders, queried at the knots, between them and in any order
	for _, n := range []int{9, 16, 17, 18, 33, 64, 65, 130} {
		for salt := 0; salt < x.Pick(12, 60); salt++ {
			n, salt := n, salt
			x.Case("many", func() string { return fmt.Sprintf("%d knots, salt %d", n, salt) }, func(c *C) {
				m := lattice(n, 2, salt*7+n)
				ks, ys := make([]float64, n), make([]float64, n)
				for i := range ks {
					ks[i], ys[i] = math.Abs(m[i][0])+.25, m[i][1]
					if i > 0 {
						ks[i] += ks[i-1]
					}
				}
				px, py := make([]float64, n), make([]float64, n)
				for i := range px {
					q := i
					switch salt % 3 {
					case 1:
						q = n - 1 - i
					case 2:
						q = (i*7 + salt) % n
						if n%7 == 0 {
							q = (i + salt) % n
						}
					}
					px[i], py[i] = ks[q], ys[q]
				}
				f, g := interpolate.Interp1d(px, py), interpolate.CubicSpline(px, py)
				for i := range px {
					px[i], py[i] = -7, canary // the arrays are the caller's again
				}
				ref := refNatural(ks, ys)
				qs := grid(ks)
				for i := range qs {
					q := qs[(i*(2*salt+1))%len(qs)]
					k := sort.SearchFloat64s(ks, q)
					if k == 0 {
						k = 1
					}
					w := ys[k-1] + (q-ks[k-1])/(ks[k]-ks[k-1])*(ys[k]-ys[k-1])
					c.Must(near(f(q), w, 1e-11), "linear-value", "f(%g)=%g want %g", q, f(q), w)
					c.Must(near(g(q), ref(q), 1e-8), "cubic-value", "spline(%g)=%g want %g", q, g(q), ref(q))
					c.Steps(2)
				}
				c.Trace()
			})
		}
	}
	// unknown values (NaN) between known ones are bridged
	for _, ks := range knotsets {
		ks := ks
		n := len(ks)
		tuples(n, []float64{-1, 2, math.NaN()}, func(v []float64) {
			if math.IsNaN(v[0]) || math.IsNaN(v[n-1]) {
				return
			}
			v = append([]float64(nil), v...)
			for rev := 0; rev < 2; rev++ {
				rev := rev
				x.Case("unknown", func() string { return fmt.Sprintf("knots=%v values=%v reversed=%d", ks, v, rev) }, func(c *C) {
					px, py := append([]float64(nil), ks...), append([]float64(nil), v...)
					var kx, ky []float64
					for i := range ks {
						if !math.IsNaN(v[i]) {
							kx, ky = append(kx, ks[i]), append(ky, v[i])
						}
						if rev == 1 {
							px[i], py[i] = ks[n-1-i], v[n-1-i]
						}
					}
					f := interpolate.Interp1d(px, py)
					for _, q := range grid(ks) {
						k := sort.SearchFloat64s(kx, q)
						if k == 0 {
							k = 1
						}
						w := ky[k-1] + (q-kx[k-1])/(kx[k]-kx[k-1])*(ky[k]-ky[k-1])
						c.Must(near(f(q), w, 1e-11), "linear-value", "f(%g)=%g want %g", q, f(q), w)
						c.Steps(1)
					}
					c.Trace()
				})
			}
		})
	}
	// bilinear: every permutation of small grids
	type g2 struct{ xs, ys []float64 }
	for _, g := range []g2{{[]float64{0, 1}, []float64{-1, 2}}, {[]float64{0, 2, 3}, []float64{0, 1}}, {[]float64{-1, 0.5}, []float64{0, 1, 4}}, {line(4, 1), line(5, 2)}, {line(9, 3), line(8, 4)}, {line(3, 5), line(33, 6)}, {line(40, 7), line(2, 8)}} {
		g := g
		nx, ny := len(g.xs), len(g.ys)
		n := nx * ny
		var qx, qy []float64
		qx, qy = grid(g.xs), grid(g.ys)
		run := func(perm []int, z []float64, group string) {
			x.Case(group, func() string { return fmt.Sprintf("x=%v y=%v z=%v order=%v", g.xs, g.ys, z, perm) }, func(c *C) {
				px, py, pz := make([]float64, n), make([]float64, n), make([]float64, n)
				for i, p := range perm {
					px[i], py[i], pz[i] = g.xs[p/ny], g.ys[p%ny], z[p]
				}
				kx, ky, kz := append([]float64(nil), px...), append([]float64(nil), py...), append([]float64(nil), pz...)
				f := interpolate.Interp2d(px, py, pz)
				c.Must(nearSlice(px, kx, 0) && nearSlice(py, ky, 0) && nearSlice(pz, kz, 0), "inputs-modified", "the knot arrays changed")
				reused := int(z[0])%2 == 0
				if reused {
					for i := range px {
						px[i], py[i], pz[i] = 3, -2, canary
					}
				}
				for _, a := range qx {
					for _, b := range qy {
						i, j := sort.SearchFloat64s(g.xs, a), sort.SearchFloat64s(g.ys, b)
						if i == 0 {
							i = 1
						}
						if j == 0 {
							j = 1
						}
						t, u := (a-g.xs[i-1])/(g.xs[i]-g.xs[i-1]), (b-g.ys[j-1])/(g.ys[j]-g.ys[j-1])
						at := func(i, j int) float64 { return z[i*ny+j] }
						w := (1-t)*(1-u)*at(i-1, j-1) + t*(1-u)*at(i, j-1) + (1-t)*u*at(i-1, j) + t*u*at(i, j)
						c.Must(near(f(a, b), w, 1e-12), "bilinear-value", "f(%g,%g)=%g want %g", a, b, f(a, b), w)
						c.Steps(1)
					}
				}
				for i := len(qx) - 1; i >= 0; i-- { // backwards, against a fresh interpolant
					for j := len(qy) - 1; j >= 0; j-- {
						if i%3 == 0 && j%3 == 0 {
							v := interpolate.Interp2d(append([]float64(nil), kx...), append([]float64(nil), ky...), append([]float64(nil), kz...))(qx[i], qy[j])
							c.Must(near(f(qx[i], qy[j]), v, 1e-12), "bilinear-history", "f(%g,%g)=%g, fresh %g", qx[i], qy[j], f(qx[i], qy[j]), v)
						} else {
							f(qx[i], qy[j])
						}
					}
				}
				c.Must(reused || nearSlice(px, kx, 0) && nearSlice(py, ky, 0) && nearSlice(pz, kz, 0), "inputs-modified", "the knot arrays changed")
				c.Trace()
			})
		}
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		if n > 6 { // a larger grid: three orders of a few surfaces
			for salt := 0; salt < 6; salt++ {
				z := lattice(n, 1, salt+n).col(0)
				run(id, z, "bilinear")
				rev, step := make([]int, n), make([]int, n)
				for i := range id {
					rev[i], step[i] = n-1-i, (i%ny)*nx+i/ny
				}
				run(rev, z, "bilinear-order")
				for i := range step { // by columns
					step[i] = (i%nx)*ny + i/nx
				}
				run(step, z, "bilinear-order")
			}
			continue
		}
		zv := []float64{0, 1, -2}
		tuples(n, zv, func(v []float64) { run(id, append([]float64(nil), v...), "bilinear") })
		permutations(n, func(perm []int) {
			z := make([]float64, n)
			for i := range z {
				z[i] = float64((i*i*7+3*i)%11) - 4
			}
			run(perm, z, "bilinear-order")
		})
	}
	for _, bad := range [][2]int{{0, 0}, {1, 1}, {2, 3}, {3, 2}} {
		x.Case("reject", func() string { return fmt.Sprint(bad) }, func(c *C) {
			c.Must(catch(func() { interpolate.Interp1d(make([]float64, bad[0]), make([]float64, bad[1])) }) != nil, "accepted", "lengths %v", bad)
			c.Steps(1)
		})
	}
}

// refNatural: natural cubic spline through its second derivatives (Gauss elimination, no shared code).
func refNatural(xs, ys []float64) func(float64) float64 {
	n := len(xs)
	m2 := make([]float64, n)
	if n > 2 {
		k := n - 2
		A := zerosM(k, k+1, 0)
		for i := 0; i < k; i++ {
			h0, h1 := xs[i+1]-xs[i], xs[i+2]-xs[i+1]
			if i > 0 {
				A[i][i-1] = h0
			}
			A[i][i] = 2 * (h0 + h1)
			if i+1 < k {
				A[i][i+1] = h1
			}
			A[i][k] = 6 * ((ys[i+2]-ys[i+1])/h1 - (ys[i+1]-ys[i])/h0)
		}
		s := gauss(A)
		copy(m2[1:], s)
	}
	return func(q float64) float64 {
		i := sort.SearchFloat64s(xs, q)
		if i == 0 {
			i = 1
		}
		if i > n-1 {
			i = n - 1
		}
		h := xs[i] - xs[i-1]
		a, b := (xs[i]-q)/h, (q-xs[i-1])/h
		return a*ys[i-1] + b*ys[i] + ((a*a*a-a)*m2[i-1]+(b*b*b-b)*m2[i])*h*h/6
	}
}

// ---- C36: generators --------------------------------------------------------------------------

func c36(x *X) {
	biases := func(k, nt int) (interface{}, func(j int) float64, bool) {
		switch k {
		case 0:
			return nil, func(int) float64 { return 0 }, false
		case 1:
			return 2.5, func(int) float64 { return 2.5 }, true
		case 2:
			b := make([]float64, nt)
			for j := range b {
				b[j] = float64(j) - 1.5
			}
			return b, func(j int) float64 { return b[j] }, true
		default:
			b := mat.NewDense(1, nt, nil)
			for j := 0; j < nt; j++ {
				b.Set(0, j, 3-float64(2*j))
			}
			return b, func(j int) float64 { return 3 - float64(2*j) }, true
		}
	}
	for ns := 1; ns <= x.Pick(9, 14); ns++ {
		for nf := 1; nf <= x.Pick(7, 10); nf++ {
			for ni := 1; ni <= nf+1; ni++ {
				for nt := 1; nt <= 3; nt++ {
					for bk := 0; bk < 4; bk++ {
						for seed := uint64(0); seed < 3; seed++ {
							x.Case("regression", func() string {
								return fmt.Sprintf("n=%d features=%d informative=%d targets=%d bias=%d seed=%d", ns, nf, ni, nt, bk, seed)
							}, func(c *C) {
								b, at, has := biases(bk, nt)
								mk := func() (*mat.Dense, *mat.Dense, *mat.Dense) {
									kw := map[string]interface{}{"n_samples": ns, "n_features": nf, "n_informative": ni, "n_targets": nt}
									if has {
										kw["bias"] = b
									}
									if seed > 0 {
										kw["random_state"] = rand.New(base.NewSource(seed))
									}
									return datasets.MakeRegression(kw)
								}
								X, Y, C := mk()
								r, cc := X.Dims()
								c.Must(r == ns && cc == nf, "shape-x", "%d %d", r, cc)
								r, cc = Y.Dims()
								c.Must(r == ns && cc == nt, "shape-y", "%d %d", r, cc)
								r, cc = C.Dims()
								inf := ni
								if inf > nf {
									inf = nf
								}
								c.Must(r == inf && cc == nt, "shape-coef", "%d %d", r, cc)
								for i := 0; i < ns; i++ {
									for t := 0; t < nt; t++ {
										s := at(t)
										for j := 0; j < inf; j++ {
											s += X.At(i, j) * C.At(j, t)
										}
										c.Must(near(Y.At(i, t), s, 1e-9), "model", "row %d target %d: %g want %g", i, t, Y.At(i, t), s)
									}
								}
								seen := map[float64]bool{}
								for i := 0; i < ns; i++ {
									for j := 0; j < nf; j++ {
										c.Must(!isBad(X.At(i, j)) && !seen[X.At(i, j)], "features", "cell %d,%d=%g repeats", i, j, X.At(i, j))
										seen[X.At(i, j)] = true
									}
								}
								if seed > 0 {
									X2, Y2, C2 := mk()
									c.Must(nearMat(X, X2, 0) && nearMat(Y, Y2, 0) && nearMat(C, C2, 0), "seed", "the same seed gave other data")
								}
								c.Steps(2)
								c.Trace()
							})
						}
					}
				}
			}
		}
	}
	// blobs: a tiny spread makes membership decidable whatever the draws
	for _, ns := range []int{0, 1, 2, 7, 16, 33} {
		for _, nf := range []int{0, 1, 2, 3} {
			for nc := 0; nc <= 4; nc++ {
				for kind := 0; kind < 2; kind++ {
					for rs := 0; rs < 2; rs++ {
						for sh := 0; sh < 2; sh++ {
							if (nc == 0 && kind == 1) || (kind == 1 && nf == 0) {
								continue
							}
							x.Case("blobs", func() string {
								return fmt.Sprintf("n=%d features=%d centers=%d given=%d state=%d shuffle=%d", ns, nf, nc, kind, rs, sh)
							}, func(c *C) {
								cfg := &datasets.MakeBlobsConfig{NSamples: ns, NFeatures: nf, ClusterStd: 1e-9, Shuffle: sh == 1}
								wantN, wantF, wantC := ns, nf, nc
								if ns == 0 {
									wantN = 100
								}
								if nf == 0 {
									wantF = 2
								}
								var cen M
								if nc == 0 {
									wantC = 3
								} else if kind == 0 {
									cfg.Centers = nc
									cfg.CenterBox = []float64{-4, 6}
								} else {
									cen = zerosM(nc, nf, 0)
									for i := range cen {
										for j := range cen[i] {
											cen[i][j] = float64(10*i - 3*j)
										}
									}
									cfg.Centers = cen.dense()
								}
								if rs == 1 {
									cfg.RandomState = base.NewLockedSource(5)
								}
								cfg2 := *cfg
								if rs == 1 {
									cfg2.RandomState = base.NewLockedSource(5)
								}
								X, Y := datasets.MakeBlobs(cfg)
								if rs == 1 {
									X2, Y2 := datasets.MakeBlobs(&cfg2)
									c.Must(nearMat(X, X2, 0) && nearMat(Y, Y2, 0), "blob-seed", "the same seed gave other blobs")
								}
								r, cc := X.Dims()
								c.Must(r == wantN && cc == wantF, "blob-shape", "%d %d want %d %d", r, cc, wantN, wantF)
								r, cc = Y.Dims()
								c.Must(r == wantN && cc == 1, "blob-labels-shape", "%d %d", r, cc)
								first := map[float64][]float64{}
								for i := 0; i < r; i++ {
									l := Y.At(i, 0)
									c.Must(l == math.Floor(l) && l >= 0 && l < float64(wantC), "blob-label", "label %g of %d", l, wantC)
									row := X.RawRowView(i)
									ref := first[l]
									if cen != nil {
										ref = cen[int(l)]
									}
									if ref == nil {
										first[l] = append([]float64(nil), row...)
										lo, hi := -10., 10.
										if cfg.CenterBox != nil {
											lo, hi = cfg.CenterBox[0], cfg.CenterBox[1]
										}
										for _, v := range row {
											c.Must(v > lo-1e-6 && v < hi+1e-6, "blob-box", "centre coordinate %g outside [%g,%g]", v, lo, hi)
										}
										continue
									}
									for j := range row {
										c.Must(math.Abs(row[j]-ref[j]) < 1e-6, "blob-centre", "row %d is not at the centre of its label %g", i, l)
									}
								}
								// distinct labels have distinct centres
								for a, ra := range first {
									for b, rb := range first {
										if a < b {
											c.Must(!nearSlice(ra, rb, 1e-7), "blob-distinct", "labels %g and %g share a centre", a, b)
										}
									}
								}
								c.Steps(1)
								c.Trace()
							})
						}
					}
				}
			}
		}
	}
}

// ---- C37: octave files ------------------------------------------------------------------------

type octVar struct {
	name string
	m    M
}

func octWrite(vars []octVar) (out []byte, bounds []int) {
	var b bytes.Buffer
	b.WriteString("Octave-1-L")
	b.WriteByte(0)
	u32 := func(n int) { binary.Write(&b, binary.LittleEndian, uint32(n)) }
	for _, v := range vars {
		bounds = append(bounds, b.Len())
		u32(len(v.name))
		b.WriteString(v.name)
		u32(0)
		b.WriteByte(0)
		b.WriteByte(0xff)
		u32(6)
		b.WriteString("matrix")
		b.Write([]byte{0xfe, 0xff, 0xff, 0xff})
		r, c := v.m.dims()
		u32(r)
		u32(c)
		b.WriteByte(7)
		for j := 0; j < c; j++ {
			binary.Write(&b, binary.LittleEndian, v.m.col(j))
		}
	}
	bounds = append(bounds, b.Len())
	return b.Bytes(), bounds
}

func c37(x *X) {
	dir, err := ioutil.TempDir("", "oct")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	gz := func(b []byte, level int, chunk int) []byte {
		var o bytes.Buffer
		w, _ := gzip.NewWriterLevel(&o, level)
		for len(b) > 0 {
			n := chunk
			if n > len(b) {
				n = len(b)
			}
			w.Write(b[:n])
			w.Flush() // a block boundary, where the decompressor returns a short read
			b = b[n:]
		}
		w.Close()
		return o.Bytes()
	}
	same := func(c *C, got map[string]*mat.Dense, vars []octVar) {
		c.Must(len(got) == len(vars), "count", "%d matrices, want %d", len(got), len(vars))
		for _, v := range vars {
			d := got[v.name]
			c.Must(d != nil && nearM(toM(d), v.m, 0), "content", "matrix %q differs", v.name)
		}
	}
	// every alignment of the header of the second matrix with the read buffer
	const buf = 65536
	for over := -8; over <= 60; over++ {
		for _, chunk := range []int{0, 1, 7, 4096} {
			if chunk == 1 {
				continue
			}
			x.Case("boundary", func() string { return fmt.Sprintf("the second record starts at 65536%+d, gzip chunk %d", -over, chunk) }, func(c *C) {
				// first record: 11 header + 4+len(name)+4+1+1+4+6+4+4+4+1 + 8*rows*cols bytes
				rows := 8170
				name1 := "a"
				fixed := 11 + 33 + 8*rows
				for fixed+len(name1) < buf-over {
					name1 += "a"
				}
				vars := []octVar{{name1, lattice(rows, 1, 3)}, {"Theta2", lattice(2, 3, 5)}, {"y", lattice(1, 4, 6)}}
				b, bounds := octWrite(vars)
				c.Must(bounds[1] == buf-over, "harness", "the record starts at %d", bounds[1])
				f := filepath.Join(dir, fmt.Sprintf("b%d_%d.bin", over, chunk))
				if chunk > 0 {
					f += ".gz"
					cut := buf - over
					// flush so that a block ends inside the second header
					var o bytes.Buffer
					w, _ := gzip.NewWriterLevel(&o, 1)
					w.Write(b[:cut+chunk%50])
					w.Flush()
					w.Write(b[cut+chunk%50:])
					w.Close()
					b = o.Bytes()
				}
				ioutil.WriteFile(f, b, 0644)
				defer os.Remove(f)
				same(c, datasets.LoadOctaveBin(f), vars)
				c.Steps(1)
				c.Trace()
			})
		}
	}
	// small files: every shape, plain and compressed with every block size
	for r := 1; r <= 3; r++ {
		for cc := 1; cc <= 3; cc++ {
			for nv := 0; nv <= 3; nv++ {
				for _, chunk := range []int{0, 1, 2, 3, 5, 7, 11, 64} {
					x.Case("small", func() string { return fmt.Sprintf("%d matrices %dx%d gzip chunk %d", nv, r, cc, chunk) }, func(c *C) {
						var vars []octVar
						for k := 0; k < nv; k++ {
							vars = append(vars, octVar{string(rune('X' + k)), lattice(r+k%2, cc, k+1)})
						}
						b, _ := octWrite(vars)
						f := filepath.Join(dir, fmt.Sprintf("s%d_%d_%d_%d", r, cc, nv, chunk))
						if chunk > 0 {
							f += ".gz"
							b = gz(b, 6, chunk)
						}
						ioutil.WriteFile(f, b, 0644)
						defer os.Remove(f)
						same(c, datasets.LoadOctaveBin(f), vars)
						c.Steps(1)
						c.Trace()
					})
				}
			}
		}
	}
	// only the ending of the name tells a compressed file; a name may be bound twice
	for _, name := range []string{"plain.gz.bin", ".gzip", "a.gz.old", "d.gz/x.bin", "two.gz.gz", "gz", "UP.GZ"} {
		for nv := 1; nv <= 3; nv++ {
			for dup := 0; dup < 2; dup++ {
				x.Case("names", func() string {
					return fmt.Sprintf("file name %q, %d matrices, last name repeated %d times", name, nv, dup)
				}, func(c *C) {
					var vars []octVar
					for k := 0; k < nv; k++ {
						vars = append(vars, octVar{string(rune('X' + k)), lattice(2, 2, k+1)})
					}
					all := vars
					for k := 0; k < dup; k++ {
						v := octVar{vars[nv-1].name, lattice(3, 1+k, 40+k)}
						all = append(append([]octVar(nil), all...), v)
						vars = append(append([]octVar(nil), vars[:nv-1]...), v)
					}
					b, _ := octWrite(all)
					f := filepath.Join(dir, fmt.Sprintf("n%d_%d", nv, dup), name)
					if strings.HasSuffix(name, ".gz") {
						b = gz(b, 6, 64)
					}
					os.MkdirAll(filepath.Dir(f), 0755)
					ioutil.WriteFile(f, b, 0644)
					defer os.Remove(f)
					same(c, datasets.LoadOctaveBin(f), vars)
					c.Steps(1)
					c.Trace()
				})
			}
		}
	}
	// every truncation point
	vars := []octVar{{"Xy", lattice(2, 2, 1)}, {"b", lattice(1, 3, 2)}}
	b, bounds := octWrite(vars)
	for n := 0; n <= len(b); n++ {
		x.Case("truncated", func() string { return fmt.Sprintf("%d of %d bytes", n, len(b)) }, func(c *C) {
			f := filepath.Join(dir, fmt.Sprintf("t%d", n))
			ioutil.WriteFile(f, b[:n], 0644)
			defer os.Remove(f)
			var got map[string]*mat.Dense
			e := catch(func() { got = datasets.LoadOctaveBin(f) })
			at := -1
			for k, p := range bounds {
				if p == n {
					at = k
				}
			}
			if at >= 0 {
				c.Must(e == nil, "boundary-rejected", "%v", e)
				same(c, got, vars[:at])
			} else {
				c.Must(e != nil, "truncation-accepted", "a file cut after %d bytes was read as %d matrices", n, len(got))
			}
			c.Steps(1)
			c.Trace()
		})
	}
	// bad magic and datatype markers
	for p := 0; p < 10; p++ {
		x.Case("magic", func() string { return fmt.Sprint(p) }, func(c *C) {
			bb := append([]byte(nil), b...)
			bb[p] ^= 1
			f := filepath.Join(dir, fmt.Sprintf("m%d", p))
			ioutil.WriteFile(f, bb, 0644)
			defer os.Remove(f)
			c.Must(catch(func() { datasets.LoadOctaveBin(f) }) != nil, "magic-accepted", "byte %d", p)
			c.Steps(1)
		})
	}
}

func init() {
	register("C34", "every permutation of the knots and every value vector over the alphabet for 4 knot sets (and 2-D grids); evaluated on a quarter-interval grid against closed-form references", c34,
		"knot sets and value alphabet as listed", "evaluation points at quarters of the intervals")
	register("C36", "every combination of sizes, informative/target counts, bias kinds and seeds up to the bound; every generated cell checked against the model", c36,
		"blob rows are checked with a spread of 1e-9 so that membership is decidable")
	register("C37", "every alignment of a record header with the 64 KiB read buffer and with compressed block ends, and every truncation point of a two-matrix file", c37,
		"the writer in this harness follows the Octave-1-L layout that the reader documents")
}
