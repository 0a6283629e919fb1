//go:build all || C12 || C13 || C14 || C15

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

type metricSpec struct {
	name string
	p    float64 // power set in the P field (only meaningful for minkowski)
	eff  float64 // the power that must be used
}

var allMetrics = []metricSpec{
	{"euclidean", 2, 2}, {"manhattan", math.Inf(1), 1}, {"cityblock", 2, 1}, {"l1", 3, 1}, {"l2", 1, 2},
	{"minkowski", 1, 1}, {"minkowski", 2, 2}, {"minkowski", 3, 3}, {"minkowski", math.Inf(1), math.Inf(1)},
}

func lp(a, b []float64, p float64) float64 {
	s := 0.
	for j := range a {
		d := math.Abs(a[j] - b[j])
		switch {
		case math.IsInf(p, 1):
			s = math.Max(s, d)
		case p == 1:
			s += d
		case p == 2:
			s += d * d
		default:
			s += d * d * d
		}
	}
	switch p {
	case 2:
		return math.Sqrt(s)
	case 3:
		return math.Cbrt(s)
	}
	return s
}

func gridQueries(d int, vals []float64) M {
	var q M
	tuples(d, vals, func(v []float64) { q = append(q, append([]float64(nil), v...)) })
	return q
}

// pointSets calls f for every point set of the bounded space, in ascending and in descending row order.
func pointSets(x *X, f func(m M)) {
	both := func(m M) {
		f(m)
		r := make([]int, len(m))
		for i := range r {
			r[i] = len(m) - 1 - i
		}
		rev := m.rows(r...)
		if rev.String() != m.String() {
			f(rev)
		}
	}
	for n := 1; n <= x.Pick(5, 6); n++ {
		canonMatrices(n, 1, []float64{0, 1, 2, 5}, both)
	}
	for n := 1; n <= x.Pick(4, 5); n++ {
		canonMatrices(n, 2, []float64{0, 1, 3}, both)
	}
	for n := 1; n <= x.Pick(2, 3); n++ {
		canonMatrices(n, 3, []float64{0, 1, 3}, both)
	}
	// larger structured sets: lattices, heavy duplicates, a line
	for s := 0; s < x.Pick(3, 12); s++ {
		f(lattice(12+7*s, 2, s))
		f(lattice(9+5*s, 3, s+40))
		d := lattice(20, 2, s+80)
		for i := range d {
			if i%3 != 0 {
				d[i] = append([]float64(nil), d[0]...)
			}
		}
		f(d)
	}
}

// farSets adds point sets whose distances from the queries differ by small fractions, and sets large
// enough for the automatic choice of algorithm to take the tree.
func farSets(x *X, f func(m M)) {
	for n := 2; n <= x.Pick(4, 5); n++ {
		canonMatrices(n, 1, []float64{3000, 3001, 3002, 3005}, f)
	}
	for n := 2; n <= x.Pick(3, 4); n++ {
		canonMatrices(n, 2, []float64{3000, 3001, 3003}, f)
	}
	for s := 0; s < x.Pick(1, 4); s++ {
		f(lattice(510, 2, s+7))
		f(lattice(260, 4, s+9))
	}
}

func c12(x *X) {
	for _, sets := range []func(*X, func(m M)){pointSets, farSets} {
		c12sets(x, sets)
	}
	c12units(x)
	c12crowd(x)
	c12dist(x)
}

// c12crowd: queries with very many neighbours.
func c12crowd(x *X) {
	for _, n := range []int{1100, 2100, 4200} {
		for d := 1; d <= 2; d++ {
			n, d := n, d
			x.Case("crowd", func() string { return fmt.Sprintf("rows=%d columns=%d", n, d) }, func(c *C) {
				m := zerosM(n, d, 0)
				for i := range m {
					for j := range m[i] {
						m[i][j] = float64((i*(7+4*j)+i/(3+j))%61) / 4
					}
				}
				q := M{m[n-1], m[0], zerosM(1, d, 7.5)[0], zerosM(1, d, 40)[0]}
				for _, ms := range []metricSpec{{"euclidean", 2, 2}, {"manhattan", 2, 1}} {
					D, S := zerosM(len(q), n, 0), zerosM(len(q), n, 0)
					for i := range q {
						for j := range m {
							D[i][j] = lp(q[i], m[j], ms.eff)
						}
						copy(S[i], D[i])
						sort.Float64s(S[i])
					}
					for _, alg := range []string{"brute", "kd_tree", "auto"} {
						nn := neighbors.NewNearestNeighbors()
						nn.Algorithm, nn.Metric, nn.P = alg, ms.name, ms.p
						nn.Fit(m.dense(), nil)
						for _, r := range []float64{0, 3, 7.625, 16.1, 100} {
							dist, ind := nn.RadiusNeighbors(q.dense(), r)
							c.Steps(1)
							for i := range q {
								want := 0
								for j := range m {
									if D[i][j] <= r {
										want++
									}
								}
								got := map[int]bool{}
								for t, j := range ind[i] {
									c.Must(j >= 0 && j < n && !got[j] && D[i][j] <= r+1e-9 && near(dist[i][t], D[i][j], 1e-9), "crowd/radius", "%s %s radius %g query %v: entry %d is row %d at %g", alg, ms.name, r, q[i], t, j, dist[i][t])
									got[j] = true
								}
								c.Must(len(got) == want && len(dist[i]) == want, "crowd/radius", "%s %s radius %g query %v: %d rows returned, %d are within it", alg, ms.name, r, q[i], len(got), want)
							}
						}
						for _, k := range []int{1, 65, n/2 + 1, n} {
							dist, ind := nn.KNeighbors(q.dense(), k)
							c.Steps(1)
							for i := range q {
								got := map[int]bool{}
								for t := 0; t < k; t++ {
									j := int(ind.At(i, t))
									c.Must(j >= 0 && j < n && !got[j] && near(dist.At(i, t), S[i][t], 1e-9) && near(D[i][j], S[i][t], 1e-9), "crowd/nearest", "%s %s k=%d query %v: neighbour %d is row %d at %g, the true one is at %g", alg, ms.name, k, q[i], t, j, dist.At(i, t), S[i][t])
									got[j] = true
								}
							}
						}
					}
				}
				c.Trace()
			})
		}
	}
}

func c12sets(x *X, sets func(x *X, f func(m M))) {
	sets(x, func(m M) {
		n, d := m.dims()
		q := gridQueries(d, []float64{-1, 0, .5, 2, 6})
		if d == 3 {
			q = gridQueries(d, []float64{-1, 0.5, 1, 4})
		}
		if n > 200 {
			q = append(q[:9:9], m[:12]...)
		} else if n > 6 {
			q = append(q[:9:9], m...)
		}
		for _, ms := range allMetrics {
			ms := ms
			if n > 3 && (ms.name == "cityblock" || ms.name == "l1" || ms.name == "l2" || ms.name == "minkowski" && ms.p <= 2) {
				continue // same effective power as another entry
			}
			x.Case("neighbours", func() string { return fmt.Sprintf("metric=%s p=%g x=%v", ms.name, ms.p, m) }, func(c *C) {
				D := make(M, len(q))
				S := make(M, len(q))
				for i := range q {
					D[i] = make([]float64, n)
					for j := range m {
						D[i][j] = lp(q[i], m[j], ms.eff)
					}
					S[i] = append([]float64(nil), D[i]...)
					sort.Float64s(S[i])
				}
				exactBoundary := ms.eff != 3
				ks := []int{}
				for k := 1; k <= n; k++ {
					if n <= 6 || k <= 3 || k >= n-1 {
						ks = append(ks, k)
					}
				}
				checkK := func(what string, k int, dist, ind *mat.Dense) {
					r1, c1 := dist.Dims()
					r2, c2 := ind.Dims()
					c.Must(r1 == len(q) && c1 == k && r2 == len(q) && c2 == k, "knn/shape", "%s k=%d: shapes %dx%d %dx%d", what, k, r1, c1, r2, c2)
					for i := range q {
						seen := map[int]bool{}
						for t := 0; t < k; t++ {
							j := int(ind.At(i, t))
							c.Must(float64(j) == ind.At(i, t) && j >= 0 && j < n && !seen[j], "knn/index", "%s k=%d query %v: indices %v", what, k, q[i], mat.Row(nil, i, ind))
							seen[j] = true
							c.Must(near(dist.At(i, t), D[i][j], 1e-9), "knn/distance", "%s k=%d query %v: neighbour %d at distance %g, true distance %g", what, k, q[i], j, dist.At(i, t), D[i][j])
							c.Must(near(dist.At(i, t), S[i][t], 1e-9), "knn/nearest", "%s k=%d query %v: neighbour number %d is at %g, the true one is at %g", what, k, q[i], t, dist.At(i, t), S[i][t])
						}
					}
					c.Steps(len(q))
				}
				radii := []float64{0, .5, 1, 1.25, 2, 3, 7}
				if m[0][0] >= 3000 {
					radii = []float64{2999, 3000, 3001.5, 3003, 4244}
				}
				checkR := func(what string, radius float64, dist [][]float64, ind [][]int) {
					c.Must(len(dist) == len(q) && len(ind) == len(q), "radius/shape", "%s: %d results", what, len(ind))
					for i := range q {
						got := map[int]bool{}
						c.Must(len(dist[i]) == len(ind[i]), "radius/shape", "%s: %d distances for %d indices", what, len(dist[i]), len(ind[i]))
						for t, j := range ind[i] {
							c.Must(j >= 0 && j < n && !got[j], "radius/index", "%s query %v radius %g: indices %v", what, q[i], radius, ind[i])
							got[j] = true
							c.Must(near(dist[i][t], D[i][j], 1e-9), "radius/distance", "%s query %v: point %d at %g, true distance %g", what, q[i], j, dist[i][t], D[i][j])
						}
						for j := range m {
							diff := D[i][j] - radius
							if math.Abs(diff) < 1e-9 && !(exactBoundary && diff == 0) {
								continue
							}
							c.Must(got[j] == (diff <= 0), "radius/set", "%s query %v radius %g: point %d at distance %g, returned=%v", what, q[i], radius, j, D[i][j], got[j])
						}
					}
					c.Steps(len(q))
				}
				qd := q.dense()
				type cfg struct {
					alg  string
					leaf int
				}
				for _, cf := range []cfg{{"brute", 0}, {"auto", 0}, {"kd_tree", 1}, {"kd_tree", 2}, {"kd_tree", 3}, {"ball_tree", 0}} {
					nn := neighbors.NewNearestNeighbors()
					nn.Algorithm, nn.LeafSize, nn.Metric, nn.P = cf.alg, cf.leaf, ms.name, ms.p
					if cf.leaf == 2 {
						nn.NJobs = 1
					}
					var xa mat.Matrix = m.dense()
					switch cf.leaf {
					case 1:
						xa = roMat{m}
					case 3:
						xa = tightView(m)
					}
					nn.Fit(xa, nil)
					what := fmt.Sprintf("%s/leaf%d", cf.alg, cf.leaf)
					for _, k := range ks {
						var qa mat.Matrix = qd
						if k == 2 {
							qa = roMat{q}
						}
						dist, ind := nn.KNeighbors(qa, k)
						checkK(what, k, dist, ind)
						if k <= 2 {
							for _, self := range []bool{false, true} {
								conn := nn.KNeighborsGraph(qd, k, "connectivity", self)
								dg := nn.KNeighborsGraph(qd, k, "distance", self)
								for i := range q {
									for j := 0; j < n; j++ {
										in := false
										for t := 0; t < k; t++ {
											in = in || int(ind.At(i, t)) == j
										}
										in = in && (self || i != j)
										w := 0.
										if in {
											w = 1
										}
										c.Must(conn.At(i, j) == w, "graph/connectivity", "%s k=%d self=%v query %d point %d: %g", what, k, self, i, j, conn.At(i, j))
										c.Must(near(dg.At(i, j), w*D[i][j], 1e-9), "graph/distance", "%s k=%d self=%v query %d point %d: %g want %g", what, k, self, i, j, dg.At(i, j), w*D[i][j])
									}
								}
							}
						}
					}
					for _, r := range radii {
						dist, ind := nn.RadiusNeighbors(qd, r)
						checkR(what, r, dist, ind)
					}
				}
				// the tree itself, with an upper bound and with more neighbours than points
				for _, leaf := range []int{0, 1, 2, 30} {
					tr := neighbors.NewKDTree(m.dense(), leaf)
					for _, ub := range []float64{math.Inf(1), 0, .6, 1, 2.5} {
						for _, k := range []int{1, 2, n + 1} {
							dist, ind := tr.Query(qd, k, 0, ms.eff, ub)
							for i := range q {
								for t := 0; t < k; t++ {
									want := math.Inf(1)
									amb := false
									if t < n {
										if math.Abs(S[i][t]-ub) < 1e-9 {
											amb = true // whether the bound itself is included is left open
										}
										if S[i][t] < ub {
											want = S[i][t]
										}
									}
									if amb {
										continue
									}
									c.Must(near(dist.At(i, t), want, 1e-9), "tree/bound", "leaf=%d k=%d bound=%g query %v: distance %d is %g want %g", leaf, k, ub, q[i], t, dist.At(i, t), want)
									if !math.IsInf(want, 1) {
										j := int(ind.At(i, t))
										c.Must(j >= 0 && j < n && near(D[i][j], want, 1e-9), "tree/index", "leaf=%d k=%d bound=%g query %v: neighbour %d is %d", leaf, k, ub, q[i], t, j)
									}
								}
							}
							c.Steps(len(q))
						}
					}
					// approximate neighbours are within the stated factor of the true ones
					if leaf < 2 {
						for _, k := range []int{1, n} {
							dist, ind := tr.Query(qd, k, .5, ms.eff, math.Inf(1))
							for i := range q {
								for t := 0; t < k; t++ {
									d, j := dist.At(i, t), int(ind.At(i, t))
									c.Must(j >= 0 && j < n && near(D[i][j], d, 1e-9), "tree/approximate-index", "leaf=%d k=%d query %v: neighbour %d is %d at %g", leaf, k, q[i], t, j, d)
									c.Must(d <= 1.5*S[i][k-1]+1e-9, "tree/approximate", "leaf=%d k=%d query %v: distance %d is %g, the true neighbour number %d is at %g", leaf, k, q[i], t, d, k, S[i][k-1])
								}
							}
							c.Steps(len(q))
						}
					}
				}
				c.Trace()
			})
		}
	})
}

// unitsOf multiplies every entry by a power of two, which no rounding can notice.
func unitsOf(m M, e int) M {
	o := m.copy()
	for i := range o {
		for j := range o[i] {
			o[i][j] = math.Ldexp(o[i][j], e)
		}
	}
	return o
}

// unitSets: point sets measured in other units.
func unitSets(x *X, f func(m M, e int)) {
	for _, e := range []int{-40, -20, 30} {
		e := e
		for n := 1; n <= x.Pick(3, 4); n++ {
			canonMatrices(n, 1, []float64{0, 1, 2, 5}, func(m M) { f(m.copy(), e) })
		}
		canonMatrices(3, 2, []float64{0, 1, 3}, func(m M) { f(m.copy(), e) })
		for s := 0; s < x.Pick(6, 30); s++ {
			f(lattice(7+9*(s%5), 1+s%3, s+4000), e)
		}
	}
}

// c12units: neighbours do not depend on the unit of measurement.
func c12units(x *X) {
	unitSets(x, func(m M, e int) {
		n, d := m.dims()
		q := gridQueries(d, []float64{-1, .5, 2, 6})
		if len(q) > 12 {
			q = q[:12]
		}
		q = append(q, m[0], m[n-1])
		for _, ms := range []metricSpec{{"euclidean", 2, 2}, {"manhattan", 2, 1}, {"minkowski", math.Inf(1), math.Inf(1)}} {
			ms := ms
			x.Case("units", func() string { return fmt.Sprintf("metric=%s scale=2^%d x=%v", ms.name, e, m) }, func(c *C) {
				ms1, qs := unitsOf(m, e), unitsOf(q, e)
				rel := func(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Max(a, b) }
				for _, alg := range []string{"brute", "kd_tree", "auto"} {
					nn := neighbors.NewNearestNeighbors()
					nn.Algorithm, nn.LeafSize, nn.Metric, nn.P = alg, 2, ms.name, ms.p
					nn.Fit(ms1.dense(), nil)
					for _, k := range []int{1, 2, n} {
						if k > n {
							continue
						}
						dist, ind := nn.KNeighbors(qs.dense(), k)
						for i := range qs {
							S := make([]float64, n)
							for j := range m {
								S[j] = lp(qs[i], ms1[j], ms.eff)
							}
							D := append([]float64(nil), S...)
							sort.Float64s(S)
							for t := 0; t < k; t++ {
								j := int(ind.At(i, t))
								c.Must(j >= 0 && j < n && rel(dist.At(i, t), D[j]) && rel(dist.At(i, t), S[t]), "units/nearest", "%s k=%d query %v: neighbour %d is row %d at %g, the true one is at %g", alg, k, qs[i], t, j, dist.At(i, t), S[t])
							}
						}
						c.Steps(1)
					}
					for _, r := range []float64{1, 2.5} {
						_, ind := nn.RadiusNeighbors(qs.dense(), math.Ldexp(r, e))
						for i := range qs {
							want := 0
							for j := range m {
								if lp(q[i], m[j], ms.eff) <= r {
									want++
								}
							}
							c.Must(len(ind[i]) == want, "units/radius", "%s query %v radius %g: rows %v, %d are within it", alg, qs[i], math.Ldexp(r, e), ind[i], want)
						}
						c.Steps(1)
					}
				}
				c.Trace()
			})
		}
	})
}

func c12dist(x *X) {
	// distances and rectangles
	for _, d := range []int{1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 33, 64, 65} {
		for salt := 1; salt <= 8; salt++ {
			for _, off := range []float64{0, 1e6 / 3.} {
				d, salt, off := d, salt, off
				x.Case("distance, long or far from zero", func() string { return fmt.Sprintf("columns=%d salt=%d offset=%g", d, salt, off) }, func(c *C) {
					ab := lattice(2, d, salt)
					for i := range ab {
						for j := range ab[i] {
							if (i+j*j+salt)%5 == 0 {
								ab[i][j] = 0
							}
							ab[i][j] += off
						}
					}
					a, b := ab[0], ab[1]
					da := ab.dense()
					dt := mat.DenseCopyOf(da.T())
					for k, f := range [][2]mat.Vector{{da.RowView(0), da.RowView(1)}, {dt.ColView(0), dt.ColView(1)}, {da.RowView(0), dt.ColView(1)}, {dt.ColView(0), da.RowView(1)}} {
						for _, p := range []float64{1, 2, 3, math.Inf(1)} {
							w := lp(a, b, p)
							n, g := neighbors.MinkowskiDistance(p)(f[0], f[1]), cluster.MinkowskiDistance(p)(f[0], f[1])
							c.Must(near(n, w, 1e-9), "distance/neighbors", "p=%g form %d: %g want %g", p, k, n, w)
							c.Must(near(g, w, 1e-9), "distance/cluster", "p=%g form %d: %g want %g", p, k, g, w)
						}
						w := lp(a, b, 2)
						n, g := neighbors.EuclideanDistance(f[0], f[1]), cluster.EuclideanDistance(f[0], f[1])
						c.Must(near(n, w, 1e-9) && near(g, w, 1e-9), "distance/euclidean", "form %d: %g and %g want %g", k, n, g, w)
					}
					c.Steps(10)
					c.Trace()
				})
			}
		}
	}
	vv := []float64{-2, 0, 1.5}
	for d := 1; d <= x.Pick(2, 3); d++ {
		tuples(d, vv, func(a []float64) {
			a = append([]float64(nil), a...)
			tuples(d, vv, func(b []float64) {
				b = append([]float64(nil), b...)
				x.Case("distance", func() string { return fmt.Sprintf("%v %v", a, b) }, func(c *C) {
					da := M{a, b}.dense()
					dt := mat.DenseCopyOf(da.T())
					for _, p := range []float64{1, 2, 3, math.Inf(1)} {
						w := lp(a, b, p)
						forms := [][2]mat.Vector{{da.RowView(0), da.RowView(1)}, {dt.ColView(0), dt.ColView(1)}, {da.RowView(0), dt.ColView(1)}, {dt.ColView(0), da.RowView(1)}}
						for k, f := range forms {
							c.Must(near(neighbors.MinkowskiDistance(p)(f[0], f[1]), w, 1e-9), "distance/neighbors", "p=%g form %d: %g want %g", p, k, neighbors.MinkowskiDistance(p)(f[0], f[1]), w)
							c.Must(near(cluster.MinkowskiDistance(p)(f[0], f[1]), w, 1e-9), "distance/cluster", "p=%g form %d: %g want %g", p, k, cluster.MinkowskiDistance(p)(f[0], f[1]), w)
							if p == 2 {
								c.Must(near(neighbors.EuclideanDistance(f[0], f[1]), w, 1e-9), "distance/euclidean", "form %d", k)
								c.Must(near(cluster.EuclideanDistance(f[0], f[1]), w, 1e-9), "distance/euclidean", "form %d", k)
							}
						}
					}
					c.Steps(20)
					c.Trace()
					// the rectangle spanned by a and b
					mins, maxs := make([]float64, d), make([]float64, d)
					for j := range mins {
						mins[j], maxs[j] = math.Min(a[j], b[j]), math.Max(a[j], b[j])
					}
					r := neighbors.NewRectangle(append([]float64(nil), maxs...), append([]float64(nil), mins...))
					vol := 1.
					for j := range mins {
						vol *= maxs[j] - mins[j]
					}
					c.Must(near(r.Volume(), vol, 1e-12), "rectangle/volume", "%g want %g", r.Volume(), vol)
					tuples(d, []float64{-3, -1, 0, 2}, func(pt []float64) {
						for _, p := range []float64{1, 2, math.Inf(1)} {
							lo, hi := make([]float64, d), make([]float64, d)
							for j := range pt {
								lo[j] = math.Max(0, math.Max(mins[j]-pt[j], pt[j]-maxs[j]))
								hi[j] = math.Max(math.Abs(maxs[j]-pt[j]), math.Abs(pt[j]-mins[j]))
							}
							z := make([]float64, d)
							c.Must(near(r.MinDistancePoint(pt, p), lp(lo, z, p), 1e-9), "rectangle/min", "p=%g point %v", p, pt)
							c.Must(near(r.MaxDistancePoint(pt, p), lp(hi, z, p), 1e-9), "rectangle/max", "p=%g point %v", p, pt)
							for _, w := range []float64{0, 1, 2.5} { // the rectangle from pt to pt+w
								top := make([]float64, d)
								for j := range pt {
									top[j] = pt[j] + w
									lo[j] = math.Max(0, math.Max(mins[j]-top[j], pt[j]-maxs[j]))
									hi[j] = math.Max(math.Abs(maxs[j]-pt[j]), math.Abs(top[j]-mins[j]))
								}
								o := neighbors.NewRectangle(append([]float64(nil), top...), append([]float64(nil), pt...))
								c.Must(near(r.MinDistanceRectangle(o, p), lp(lo, z, p), 1e-9), "rectangle/minr", "p=%g rectangle %v %v", p, pt, top)
								c.Must(near(r.MaxDistanceRectangle(o, p), lp(hi, z, p), 1e-9), "rectangle/maxr", "p=%g rectangle %v %v", p, pt, top)
							}
						}
					})
					for ax := 0; ax < d; ax++ {
						s := (mins[ax] + maxs[ax]) / 2
						l, g := r.Split(ax, s)
						lm, gm := append([]float64(nil), maxs...), append([]float64(nil), mins...)
						lm[ax], gm[ax] = s, s
						c.Must(nearSlice(l.Mins, mins, 0) && nearSlice(l.Maxes, lm, 0) && nearSlice(g.Mins, gm, 0) && nearSlice(g.Maxes, maxs, 0), "rectangle/split", "axis %d at %g: %v %v", ax, s, l, g)
						c.Must(nearSlice(r.Mins, mins, 0) && nearSlice(r.Maxes, maxs, 0), "rectangle/split", "the rectangle itself changed: %v", r)
					}
				})
			})
		})
	}
}

// kSets calls f for every valid set of k nearest rows (ties at the k-th distance give several).
func kSets(d []float64, k int, f func(set []int)) {
	idx := make([]int, len(d))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return d[idx[a]] < d[idx[b]] })
	kth := d[idx[k-1]]
	var sure, tie []int
	for _, i := range idx {
		if d[i] < kth-1e-9 {
			sure = append(sure, i)
		} else if d[i] <= kth+1e-9 {
			tie = append(tie, i)
		}
	}
	need := k - len(sure)
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == need {
			f(append(append([]int(nil), sure...), cur...))
			return
		}
		for i := from; i < len(tie); i++ {
			rec(i+1, append(cur, tie[i]))
		}
	}
	rec(0, nil)
}

func c13(x *X) {
	c13units(x)
	c13wide(x)
	fits := func(f func(m M)) {
		for n := 1; n <= x.Pick(5, 6); n++ {
			canonMatrices(n, 1, []float64{0, 1, 4}, f)
		}
		for n := 2; n <= x.Pick(4, 5); n++ {
			canonMatrices(n, 2, []float64{0, 2}, f)
		}
		for s := 0; s < x.Pick(6, 40); s++ { // larger structured sets
			f(lattice(9+5*(s%6), 1+s%3, s+3))
		}
		for k, n := range []int{65, 130} {
			f(lattice(n, 2-k, k))
		}
	}
	fits(func(m M) {
		m = m.copy()
		n, d := m.dims()
		q := gridQueries(d, []float64{-1, 0, .5, 1, 2.5, 4})
		labelings := func(f func(y M)) {
			if n > 6 {
				for nc := 1; nc <= 7; nc += 2 { // up to seven classes in each column
					y := make(M, n)
					for i := range y {
						y[i] = []float64{float64((i*i+3*i)%nc) - 2, float64((5*i + i/3) % (nc + 1))}
					}
					f(y)
				}
				return
			}
			tuples(n, []float64{-3, 0, 2}, func(v []float64) {
				y := make(M, n)
				for i := range y {
					y[i] = []float64{v[i], v[n-1-i] * 2}
				}
				f(y)
			})
		}
		labelings(func(y M) {
			for k := 1; k <= n; k++ {
				if n > 6 && k != 1 && k != 3 && k != 6 && k != n {
					continue
				}
				for _, w := range []string{"uniform", "distance"} {
					k, w := k, w
					x.Case("knn", func() string { return fmt.Sprintf("k=%d weights=%s x=%v y=%v", k, w, m, y) }, func(c *C) {
						for _, ms := range []metricSpec{{"euclidean", 2, 2}, {"manhattan", 2, 1}} {
							for _, alg := range []string{"brute", "kd_tree"} {
								weight := func(dist float64) float64 {
									if w == "distance" {
										return 1 / (1e-15 + dist)
									}
									return 1
								}
								for _, cols := range []int{1, 2} {
									yy := make(M, n)
									for i := range yy {
										yy[i] = append([]float64(nil), y[i][:cols]...)
									}
									cl := neighbors.NewKNeighborsClassifier(k, w)
									cl.Algorithm, cl.Metric, cl.P, cl.LeafSize = alg, ms.name, ms.p, 1+n/8
									cl.Fit(m.dense(), yy.dense())
									c.Must(cl.GetNOutputs() == cols && cl.IsClassifier(), "knn/interface", "outputs %d", cl.GetNOutputs())
									for o := 0; o < cols; o++ {
										c.Must(nearSlice(cl.Classes[o], distinct(yy.col(o)), 0), "knn/classes", "classes %v", cl.Classes)
									}
									pred := toM(cl.Predict(q.dense(), nil))
									ym := mat.NewDense(len(q), cols, nil)
									cl.Predict(roMat{q}, ym)
									c.Must(nearM(pred, toM(ym), 0), "knn/deterministic", "%v and %v", pred, toM(ym))
									var proba M
									if cols == 1 {
										pr := zerosM(len(q), len(cl.Classes[0]), canary).dense()
										cl.PredictProba(q.dense(), pr)
										proba = toM(pr)
									}
									rg := neighbors.NewKNeighborsRegressor(k, w).(*neighbors.KNeighborsRegressor)
									rg.Algorithm, rg.Metric, rg.P, rg.LeafSize = alg, ms.name, ms.p, 1+n/10
									rg.Fit(tightView(m), yy.dense())
									c.Must(rg.GetNOutputs() == cols && !rg.IsClassifier(), "knnr/interface", "outputs %d", rg.GetNOutputs())
									rp := toM(rg.Predict(q.dense(), nil))
									c.Steps(4)
									for i := range q {
										dist := make([]float64, n)
										for j := range m {
											dist[j] = lp(q[i], m[j], ms.eff)
										}
										okC, okP, okR := false, cols != 1, false
										kSets(dist, k, func(set []int) {
											thisC, thisP, thisR := true, true, true
											for o := 0; o < cols; o++ {
												votes := map[float64]float64{}
												tot, acc := 0., 0.
												for _, j := range set {
													wt := weight(dist[j])
													votes[yy[j][o]] += wt
													tot += wt
													acc += wt * yy[j][o]
												}
												best := 0.
												for _, v := range votes {
													best = math.Max(best, v)
												}
												if v, ok := votes[pred[i][o]]; !ok || v < best*(1-1e-9) {
													thisC = false
												}
												if cols == 1 {
													for ci, cv := range cl.Classes[0] {
														if !near(proba[i][ci], votes[cv]/tot, 1e-9) {
															thisP = false
														}
													}
												}
												if !near(rp[i][o], acc/tot, 1e-6) {
													thisR = false
												}
											}
											okC = okC || thisC
											okP = okP || thisP
											okR = okR || thisR
										})
										c.Must(okC, "knn/class", "%s %s cols=%d query %v predicted %v (distances %v)", ms.name, alg, cols, q[i], pred[i], dist)
										c.Must(okP, "knn/proba", "%s %s query %v probabilities %v of classes %v (distances %v)", ms.name, alg, q[i], proba, cl.Classes, dist)
										c.Must(okR, "knnr/mean", "%s %s cols=%d query %v predicted %v (distances %v)", ms.name, alg, cols, q[i], rp[i], dist)
									}
								}
							}
						}
						c.Trace()
					})
				}
			}
			// a weight function for the regressor
			x.Case("knnr-func", func() string { return fmt.Sprintf("x=%v y=%v", m, y) }, func(c *C) {
				k := n
				fn := func(dst, src []float64) {
					for i := range dst {
						dst[i] = 1 / (1 + src[i])
					}
				}
				rg := neighbors.NewKNeighborsRegressor(k, fn)
				rg.Fit(m.dense(), y.dense())
				rp := toM(rg.Predict(q.dense(), nil))
				for i := range q {
					for o := 0; o < 2; o++ {
						tot, acc := 0., 0.
						for j := range m {
							wt := 1 / (1 + lp(q[i], m[j], 2))
							tot += wt
							acc += wt * y[j][o]
						}
						c.Must(near(rp[i][o], acc/tot, 1e-9), "knnr/func", "query %v predicted %v", q[i], rp[i])
					}
				}
				c.Steps(2)
				c.Trace()
			})
			c13centroid(x, m, y, q)
		})
	})
}

func c13centroid(x *X, m, y, q M) {
	n, d := m.dims()
	x.Case("NearestCentroid", func() string { return fmt.Sprintf("x=%v y=%v", m, y) }, func(c *C) {
		y1 := colVec(y.col(0))
		classes := distinct(y.col(0))
		for _, metric := range []string{"euclidean", "manhattan"} {
			cen := make(M, len(classes))
			for k, cv := range classes {
				cen[k] = make([]float64, d)
				for j := range cen[k] {
					var col []float64
					for i := range m {
						if y1[i][0] == cv {
							col = append(col, m[i][j])
						}
					}
					sort.Float64s(col)
					if metric == "manhattan" {
						cen[k][j] = col[(len(col)-1)/2]
					} else {
						for _, v := range col {
							cen[k][j] += v / float64(len(col))
						}
					}
				}
			}
			nc := neighbors.NewNearestCentroid(metric, 0)
			nc.Fit(m.dense(), y1.dense())
			pred := nc.Predict(q.dense(), nil)
			p := 2.
			if metric == "manhattan" {
				p = 1
			}
			for i := range q {
				best := math.Inf(1)
				for k := range cen {
					best = math.Min(best, lp(q[i], cen[k], p))
				}
				k := indexOf(classes, pred.At(i, 0))
				c.Must(k >= 0 && lp(q[i], cen[k], p) <= best+1e-9, "NearestCentroid/class", "%s query %v predicted %g, centroids %v of classes %v", metric, q[i], pred.At(i, 0), cen, classes)
			}
			hits := 0.
			ps := nc.Predict(m.dense(), mat.NewDense(n, 1, nil))
			for i := range m {
				if ps.At(i, 0) == y1[i][0] {
					hits++
				}
			}
			c.Must(near(nc.Score(m.dense(), y1.dense()), hits/float64(n), 1e-12), "NearestCentroid/score", "%s", metric)
			c.Steps(4)
		}
		c.Trace()
	})
}

// c13wide: many rows, columns, classes and outputs.
func c13wide(x *X) {
	for salt, n := range []int{9, 20, 33, 64, 65, 130, 300} {
		for _, d := range []int{1, 2, 5, 6, 9, 17, 33} {
			for _, k := range []int{2, 3, 7, 12} {
				if k > n {
					continue
				}
				m, q, y := lattice(n, d, salt+d), lattice(6, d, salt+d+50), zerosM(n, 1, 0)
				for i := range y {
					y[i][0] = float64((i*5+i/3)%k) - 1
				}
				c13centroid(x, m, y, q)
				n, d, k := n, d, k
				x.Case("knn, wide", func() string { return fmt.Sprintf("rows=%d columns=%d classes=%d", n, d, k) }, func(c *C) {
					for _, kn := range []int{1, 4, n / 2} {
						for _, w := range []string{"uniform", "distance"} {
							cl, rg := neighbors.NewKNeighborsClassifier(kn, w), neighbors.NewKNeighborsRegressor(kn, w)
							cl.Fit(m.dense(), y.dense())
							rg.Fit(m.dense(), y.dense())
							pc, pr := cl.Predict(q.dense(), nil), rg.Predict(q.dense(), nil)
							for i := range q {
								ds := make([]float64, n)
								idx := make([]int, n)
								for j := range m {
									ds[j], idx[j] = lp(q[i], m[j], 2), j
								}
								sort.SliceStable(idx, func(a, b int) bool { return ds[idx[a]] < ds[idx[b]] })
								if ds[idx[0]] < 1e-6 || kn < n && ds[idx[kn]]-ds[idx[kn-1]] < 1e-9 {
									continue // an exact hit, or more than one set of neighbours
								}
								votes := map[float64]float64{}
								tot, acc := 0., 0.
								for _, j := range idx[:kn] {
									wt := 1.
									if w == "distance" {
										wt = 1 / ds[j]
									}
									votes[y[j][0]] += wt
									tot += wt
									acc += wt * y[j][0]
								}
								best := 0.
								for _, v := range votes {
									best = math.Max(best, v)
								}
								c.Must(votes[pc.At(i, 0)] >= best*(1-1e-6), "knn/class", "k=%d %s query %v: class %g, votes %v", kn, w, q[i], pc.At(i, 0), votes)
								c.Must(near(pr.At(i, 0), acc/tot, 1e-6), "knnr/mean", "k=%d %s query %v: %g want %g", kn, w, q[i], pr.At(i, 0), acc/tot)
								c.Steps(2)
							}
						}
					}
					c.Trace()
				})
			}
		}
	}
}

// c13units: predictions do not depend on the unit of measurement.
func c13units(x *X) {
	unitSets(x, func(m M, e int) {
		n, d := m.dims()
		if e < -20 {
			e = -20 // the small constant added to distances when they are inverted
		}
		q := gridQueries(d, []float64{-1, .5, 2.25, 6})
		if len(q) > 16 {
			q = q[:16]
		}
		q = append(q, m[0])
		y := make(M, n)
		for i := range y {
			y[i] = []float64{float64((i*i+i)%3) - 1}
		}
		x.Case("units", func() string { return fmt.Sprintf("scale=2^%d x=%v", e, m) }, func(c *C) {
			ms, qs := unitsOf(m, e), unitsOf(q, e)
			for _, alg := range []string{"brute", "kd_tree"} {
				for _, w := range []string{"uniform", "distance"} {
					for k := 1; k <= n && k <= 4; k++ {
						fit := func(m, q M) (M, M, M) {
							cl := neighbors.NewKNeighborsClassifier(k, w)
							cl.Algorithm = alg
							cl.Fit(m.dense(), y.dense())
							pr := zerosM(len(q), len(cl.Classes[0]), canary).dense()
							cl.PredictProba(q.dense(), pr)
							rg := neighbors.NewKNeighborsRegressor(k, w).(*neighbors.KNeighborsRegressor)
							rg.Algorithm = alg
							rg.Fit(m.dense(), y.dense())
							return toM(cl.Predict(q.dense(), nil)), toM(pr), toM(rg.Predict(q.dense(), nil))
						}
						_, pa, ra := fit(m, q)
						cb, pb, rb := fit(ms, qs)
						c.Steps(4)
						c.Must(nearM(pa, pb, 1e-6), "units/proba", "%s %s k=%d: probabilities %v, in other units %v", alg, w, k, pa, pb)
						c.Must(nearM(ra, rb, 1e-6), "units/mean", "%s %s k=%d: predicts %v, in other units %v", alg, w, k, ra, rb)
						for i := range cb {
							at := indexOf(distinct(y.col(0)), cb[i][0])
							best := 0.
							for _, p := range pb[i] {
								best = math.Max(best, p)
							}
							c.Must(at >= 0 && pb[i][at] >= best-1e-9, "units/class", "%s %s k=%d: predicts %v, probabilities %v", alg, w, k, cb[i], pb[i])
						}
					}
				}
			}
			for _, metric := range []string{"euclidean", "manhattan"} {
				a, b := neighbors.NewNearestCentroid(metric, 0), neighbors.NewNearestCentroid(metric, 0)
				a.Fit(m.dense(), y.dense())
				b.Fit(ms.dense(), y.dense())
				pa, pb := a.Predict(q.dense(), nil), b.Predict(qs.dense(), nil)
				c.Steps(2)
				c.Must(nearMat(pa, pb, 0), "units/centroid", "%s: predicts %v, in other units %v", metric, toM(pa), toM(pb))
			}
			c.Trace()
		})
	})
}

func c14(x *X) {
	// the documented defaults
	for n := 6; n <= 40; n += 2 {
		n := n
		x.Case("defaults", func() string { return fmt.Sprintf("default configuration, %d rows", n) }, func(c *C) {
			X := lattice(n, 2, n)
			for i := range X {
				X[i][0] /= 4
				X[i][1] /= 8
			}
			a := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: .5, MinSamples: 5, Metric: "euclidean", Algorithm: "auto", LeafSize: 30, P: 2})
			a.Fit(X.dense(), nil)
			for i, cf := range []*cluster.DBSCANConfig{nil, {}, {Eps: .5}, {MinSamples: 5}, {Algorithm: "kd_tree"}, {Algorithm: "brute", NJobs: -1}} {
				b := cluster.NewDBSCAN(cf)
				b.Fit(X.dense(), nil)
				c.Steps(1)
				c.Must(fmt.Sprint(a.Labels, a.CoreSampleIndices) == fmt.Sprint(b.Labels, b.CoreSampleIndices), "defaults", "configuration %d gives %v, the defaults written out %v", i, b.Labels, a.Labels)
			}
			c.Trace()
		})
	}
	run := func(m M) {
		n, _ := m.dims()
		for _, eps := range []float64{.5, 1, 2} {
			for _, ms := range []metricSpec{{"euclidean", 2, 2}, {"manhattan", 2, 1}, {"minkowski", math.Inf(1), math.Inf(1)}, {"minkowski", 1, 1}, {"minkowski", 3, 3}} {
				for wk := 0; wk < 3; wk++ {
					if (ms.p == 1 || ms.p == 3) && wk == 1 {
						continue
					}
					eps, ms, wk := eps, ms, wk
					if ms.p == 3 { // away from rounding of the cube root
						eps += .0625
					}
					x.Case("DBSCAN", func() string {
						return fmt.Sprintf("eps=%g metric=%s p=%g weights=%d x=%v", eps, ms.name, ms.p, wk, m)
					}, func(c *C) {
						var sw []float64
						if wk > 0 {
							for i := 0; i < n; i++ {
								if wk == 1 {
									sw = append(sw, []float64{1, 0, 2.5}[i%3])
								} else {
									sw = append(sw, []float64{.5, 3, -1, 1}[i%4])
								}
							}
						}
						for _, ms2 := range []float64{.5, 1, 2, 3, 4} {
							core := make([]bool, n)
							adj := make([][]bool, n)
							var cores []int
							for i := range m {
								adj[i] = make([]bool, n)
								tot := 0.
								for j := range m {
									if lp(m[i], m[j], ms.eff) <= eps {
										adj[i][j] = true
										if sw == nil {
											tot++
										} else {
											tot += sw[j]
										}
									}
								}
								if tot >= ms2 {
									core[i] = true
									cores = append(cores, i)
								}
							}
							comp := make([]int, n)
							for i := range comp {
								comp[i] = -1
							}
							nc := 0
							for i := range m {
								if !core[i] || comp[i] >= 0 {
									continue
								}
								st := []int{i}
								comp[i] = nc
								for len(st) > 0 {
									a := st[len(st)-1]
									st = st[:len(st)-1]
									for b := range m {
										if core[b] && adj[a][b] && comp[b] < 0 {
											comp[b] = nc
											st = append(st, b)
										}
									}
								}
								nc++
							}
							for _, alg := range []string{"auto", "brute", "kd_tree"} {
								db := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: ms2, Metric: ms.name, P: ms.p, Algorithm: alg, LeafSize: 1 + n%2, NJobs: n % 3})
								db.SampleWeight = sw
								db.Fit(m.dense(), nil)
								c.Steps(1)
								what := fmt.Sprintf("%s minsamples=%g", alg, ms2)
								gotCore := append([]int(nil), db.CoreSampleIndices...)
								sort.Ints(gotCore)
								c.Must(fmt.Sprint(gotCore) == fmt.Sprint(append([]int{}, cores...)) || len(gotCore)+len(cores) == 0, "DBSCAN/core", "%s: core samples %v want %v", what, gotCore, cores)
								c.Must(len(db.Labels) == n, "DBSCAN/labels", "%s: %d labels", what, len(db.Labels))
								used := map[int]bool{}
								for i, l := range db.Labels {
									c.Must(l >= -1 && l < nc, "DBSCAN/range", "%s: label %d of %d clusters", what, l, nc)
									if l >= 0 {
										used[l] = true
									}
									if core[i] {
										c.Must(l >= 0, "DBSCAN/core-noise", "%s: core row %d is noise: %v", what, i, db.Labels)
										for j := range m {
											if core[j] {
												c.Must((comp[i] == comp[j]) == (l == db.Labels[j]), "DBSCAN/component", "%s: rows %d and %d, labels %v, components %v", what, i, j, db.Labels, comp)
											}
										}
									} else {
										reach, okc := false, false
										for j := range m {
											if core[j] && adj[i][j] {
												reach = true
												okc = okc || db.Labels[j] == l
											}
										}
										c.Must(reach == (l >= 0), "DBSCAN/border", "%s: row %d label %d, within the radius of a core row: %v", what, i, l, reach)
										c.Must(!reach || okc, "DBSCAN/border", "%s: row %d label %d is not a neighbouring core row's: %v", what, i, l, db.Labels)
									}
								}
								c.Must(len(used) == nc, "DBSCAN/consecutive", "%s: labels %v for %d clusters", what, db.Labels, nc)
								pr := db.Predict(m.dense(), nil)
								for i, l := range db.Labels {
									c.Must(pr.At(i, 0) == float64(l), "DBSCAN/predict", "%s: %v want %v", what, toM(pr), db.Labels)
								}
							}
						}
						c.Trace()
					})
				}
			}
		}
	}
	for n := 1; n <= x.Pick(7, 8); n++ {
		canonMatrices(n, 1, []float64{0, 1, 2, 3, 5}, run)
	}
	for n := 1; n <= x.Pick(5, 6); n++ {
		canonMatrices(n, 2, []float64{0, 1, 3}, run)
	}
	unitSets(x, func(m M, e int) {
		x.Case("units", func() string { return fmt.Sprintf("scale=2^%d x=%v", e, m) }, func(c *C) {
			for _, alg := range []string{"auto", "brute", "kd_tree"} {
				for _, eps := range []float64{1, 2, 3} {
					for _, min := range []float64{1, 2, 3} {
						fit := func(m M, eps float64) *cluster.DBSCAN {
							db := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: min, Metric: "euclidean", P: 2, Algorithm: alg, LeafSize: 2, NJobs: 1})
							db.Fit(m.dense(), nil)
							c.Steps(1)
							return db
						}
						a, b := fit(m, eps), fit(unitsOf(m, e), math.Ldexp(eps, e))
						c.Must(fmt.Sprint(a.Labels) == fmt.Sprint(b.Labels) && fmt.Sprint(a.CoreSampleIndices) == fmt.Sprint(b.CoreSampleIndices), "units", "%s eps=%g min=%g: labels %v, in other units %v", alg, eps, min, a.Labels, b.Labels)
					}
				}
			}
			c.Trace()
		})
	})
	// other row orders: chains are discovered from any end
	permutations(x.Pick(6, 7), func(p []int) {
		m := make(M, len(p))
		for i, v := range p {
			m[i] = []float64{[]float64{0, 1, 2, 3.5, 4.5, 9, 5.5}[v]}
		}
		run(m)
		m2 := make(M, len(p))
		for i, v := range p {
			m2[i] = [][]float64{{0, 0}, {1, 0}, {1, 1}, {3, 1}, {3, 2}, {9, 9}, {2, 2}}[v]
		}
		run(m2)
	})
	for k, n := range []int{65, 100, 130, 200} {
		run(lattice(n, 1+k%3, k+2000))
	}
	// crowds: two dense blobs of many rows, a long chain, and noise between them, in several row orders
	for _, n := range []int{150, 300, 1100} {
		for ord := 0; ord < 3; ord++ {
			n, ord := n, ord
			x.Case("crowd", func() string { return fmt.Sprintf("rows=%d order=%d", n, ord) }, func(c *C) {
				m, kind := zerosM(n, 2, 0), make([]int, n)
				for i := range m {
					k := i
					if ord == 1 {
						k = n - 1 - i
					} else if ord == 2 {
						k = (i*7 + 3) % n
						if n%7 == 0 {
							k = i
						}
					}
					switch {
					case k < n/2: // blob: all within .5 of each other
						m[i] = []float64{float64(k%17) / 64, float64(k%11) / 64}
					case k < n-n/4: // chain with steps of .75
						m[i] = []float64{100 + .75*float64(k-n/2), 5}
						kind[i] = 1
					case k < n-3: // second blob
						m[i] = []float64{-50 - float64(k%13)/64, float64(k%5) / 64}
						kind[i] = 2
					default: // isolated
						m[i] = []float64{-1000 * float64(k), 0}
						kind[i] = -1
					}
				}
				for _, alg := range []string{"auto", "brute", "kd_tree"} {
					db := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1, MinSamples: 2, Metric: "euclidean", P: 2, Algorithm: alg})
					db.Fit(m.dense(), nil)
					c.Steps(1)
					lab := map[int]int{}
					for i, k := range kind {
						if k < 0 {
							c.Must(db.Labels[i] == -1, "crowd/noise", "%s: isolated row %d has label %d", alg, i, db.Labels[i])
							continue
						}
						if _, ok := lab[k]; !ok {
							lab[k] = db.Labels[i]
						}
						c.Must(db.Labels[i] == lab[k] && db.Labels[i] >= 0, "crowd/component", "%s: row %d of group %d has label %d, others %d", alg, i, k, db.Labels[i], lab[k])
					}
					c.Must(lab[0] != lab[1] && lab[1] != lab[2] && lab[0] != lab[2] && len(db.CoreSampleIndices) == n-3, "crowd/groups", "%s: labels %v, %d core rows", alg, lab, len(db.CoreSampleIndices))
					// MinSamples above the size of the chain's neighbourhoods and the small blob: only the big blob is left
					db = cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1, MinSamples: float64(n / 2), Metric: "euclidean", P: 2, Algorithm: alg})
					db.Fit(m.dense(), nil)
					c.Steps(1)
					for i, k := range kind {
						c.Must((db.Labels[i] == 0) == (k == 0) && (k == 0 || db.Labels[i] == -1), "crowd/dense", "%s: row %d of group %d has label %d", alg, i, k, db.Labels[i])
					}
				}
				c.Trace()
			})
		}
	}
	for s := 0; s < x.Pick(40, 300); s++ { // larger structured sets
		run(lattice(10+s%31, 1+s%3, s))
		m := lattice(12+s%29, 2, s+1000) // with ties and duplicates
		for i := range m {
			for j := range m[i] {
				m[i][j] = math.Floor(m[i][j] / 2)
			}
		}
		run(m)
	}
}

func c15(x *X) {
	run := func(m M) {
		n, d := m.dims()
		q := gridQueries(d, []float64{-1, 0, .5, 2, 5})
		for k := 1; k <= n; k++ {
			if n > 8 && k > 5 {
				break
			}
			for _, jobs := range []int{1, 0, 3} {
				k, jobs := k, jobs
				x.Case("KMeans", func() string { return fmt.Sprintf("k=%d jobs=%d x=%v", k, jobs, m) }, func(c *C) {
					var first M
					argForms15(m, func(form string, xa mat.Matrix) {
						km := &cluster.KMeans{NClusters: k, NJobs: jobs}
						km.Fit(xa, nil)
						cen := toM(km.Centroids)
						c.Must(len(cen) == k && len(cen[0]) == d && finiteM(cen), "KMeans/centroids", "%s: %v", form, cen)
						tie := false
						check := func(what string, in M, pred *mat.Dense) {
							r, cc := pred.Dims()
							c.Must(r == len(in) && cc == 1, "KMeans/shape", "%s %s: %dx%d", form, what, r, cc)
							for i := range in {
								l := int(pred.At(i, 0))
								c.Must(float64(l) == pred.At(i, 0) && l >= 0 && l < k, "KMeans/range", "%s %s: label %g", form, what, pred.At(i, 0))
								dl := lp(in[i], cen[l], 2)
								for o := range cen {
									do := lp(in[i], cen[o], 2)
									c.Must(do >= dl-1e-9, "KMeans/nearest", "%s %s: row %v is in cluster %d at %g, cluster %d is at %g", form, what, in[i], l, dl, o, do)
									if o != l && do-dl < 1e-9 {
										tie = true
									}
								}
							}
						}
						check("new rows", q, km.Predict(q.dense(), nil))
						tie = false
						pred := km.Predict(xa, nil)
						check("fitted rows", m, pred)
						pm := mat.NewDense(n, 1, nil)
						km.Predict(xa, pm)
						c.Must(nearM(toM(pm), toM(pred), 0), "KMeans/preallocated", "%s: %v and %v", form, toM(pm), toM(pred))
						c.Steps(4)
						if tie && jobs != 1 {
							return // sums are taken in any order: a tie may fall either way
						}
						for o := range cen {
							mean := make([]float64, d)
							cnt := 0.
							for i := range m {
								if int(pred.At(i, 0)) == o {
									cnt++
									for j := range mean {
										mean[j] += m[i][j]
									}
								}
							}
							if cnt == 0 {
								continue
							}
							for j := range mean {
								mean[j] /= cnt
							}
							c.Must(nearSlice(cen[o], mean, 1e-9), "KMeans/mean", "%s: centroid %d is %v, the mean of its rows is %v (labels %v)", form, o, cen[o], mean, toM(pred))
						}
						if first == nil {
							first = cen
						}
						c.Must(nearM(first, cen, 1e-9), "KMeans/deterministic", "%s: centroids %v, before %v", form, cen, first)
					})
					c.Trace()
				})
			}
		}
	}
	for n := 1; n <= x.Pick(6, 7); n++ {
		matrices(n, 1, []float64{0, 1, 2.5, 6}, run)
	}
	matrices(7, 1, []float64{0, 1, 2.5}, run)
	for n := 1; n <= x.Pick(4, 5); n++ {
		matrices(n, 2, []float64{0, 1, 4}, run)
	}
	unitSets(x, func(m M, e int) {
		for k := 1; k <= len(m) && k <= 5; k++ {
			k := k
			x.Case("units", func() string { return fmt.Sprintf("k=%d scale=2^%d x=%v", k, e, m) }, func(c *C) {
				fit := func(m M) (M, M) {
					km := &cluster.KMeans{NClusters: k, NJobs: 1}
					km.Fit(m.dense(), nil)
					c.Steps(2)
					return toM(km.Centroids), toM(km.Predict(m.dense(), nil))
				}
				ca, la := fit(m)
				cb, lb := fit(unitsOf(m, e))
				c.Must(nearM(la, lb, 0) && nearM(ca, unitsOf(cb, -e), 1e-9), "units", "centroids %v labels %v, in other units %v labels %v", ca, la, cb, lb)
				c.Trace()
			})
		}
	})
	for s := 0; s < x.Pick(200, 2000); s++ {
		run(lattice(8, 2, s))
	}
	for s := 0; s < x.Pick(60, 400); s++ {
		run(lattice(11+s%30, 1+s%4, s+5000))
	}
	for k, n := range []int{65, 100, 130, 257} {
		run(lattice(n, 1+k%3, k+6000))
	}
}

func argForms15(m M, f func(name string, a mat.Matrix)) {
	f("dense", m.dense())
	f("tight", tightView(m))
	f("matrix", roMat{m})
}

var _ base.Predicter = &cluster.KMeans{}

func init() {
	register("C12", "every multiset of small integer points (1-3 dimensions, ascending and descending row order, plus structured larger sets) x metric x algorithm and leaf size x every k x radii x a query grid", c12,
		"the documented metric name 'cosine' is not implemented by the code and is outside the property",
		"membership of points whose true distance is within 1e-9 of the radius is judged only where it is exactly representable")
	register("C13", "every small training set x every labeling over three classes (two output columns) x k x weighting x metric x algorithm, on a query grid; ties admit every valid neighbour set", c13,
		"the even-count median of the manhattan nearest-centroid is the lower middle value, as coded (stat.Empirical)")
	register("C14", "every multiset of small integer points, and every row order of two chain-shaped sets x radius x threshold x metric x algorithm x sample weights; reference: connected components of the core graph", c14)
	register("C15", "every small integer data set in every row order x every cluster count x job counts x storage forms; the fixed-point conditions are checked on the result", c15,
		"Euclidean distance (with other distances the mean is not the minimiser and the iteration need not converge)",
		"with several jobs the mean condition is not judged where a row is exactly equidistant from two centroids")
}
