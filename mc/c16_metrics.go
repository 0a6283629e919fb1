//go:build all || C16 || C17 || C18

package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
)

func wvec(w []float64, n int) []float64 {
	if w != nil {
		return w
	}
	o := make([]float64, n)
	for i := range o {
		o[i] = 1
	}
	return o
}

type prf struct{ p, r, f, s float64 }

// refPRF: per-class precision, recall, F-beta, unweighted support, weighted support.
func refPRF(yt, yp, w []float64, beta float64) (classes []float64, per []prf, wsup []float64, micro prf, cm M) {
	w = wvec(w, len(yt))
	classes = distinct(append(append([]float64(nil), yt...), yp...))
	k := len(classes)
	cm = make(M, k)
	for i := range cm {
		cm[i] = make([]float64, k)
	}
	for i := range yt {
		cm[indexOf(classes, yt[i])][indexOf(classes, yp[i])] += w[i]
	}
	fb := func(tp, pred, tru float64) prf {
		var q prf
		if pred > 0 {
			q.p = tp / pred
		}
		if tru > 0 {
			q.r = tp / tru
		}
		if d := beta*beta*q.p + q.r; d > 0 {
			q.f = (1 + beta*beta) * q.p * q.r / d
		}
		return q
	}
	var tps, preds, trues float64
	for c := range classes {
		var tp, pred, tru, n float64
		for i := range yt {
			if yt[i] == classes[c] {
				tru += w[i]
				n++
				if yp[i] == classes[c] {
					tp += w[i]
				}
			}
			if yp[i] == classes[c] {
				pred += w[i]
			}
		}
		q := fb(tp, pred, tru)
		q.s = n
		per = append(per, q)
		wsup = append(wsup, tru)
		tps, preds, trues = tps+tp, preds+pred, trues+tru
	}
	micro = fb(tps, preds, trues)
	return
}

func init() {
	register("C16", "every pair of true/predicted label vectors up to the bound over three label values, with every listed weighting, average, beta and class selection, is compared with counting", c16,
		"label values are compared exactly; weights are positive")
	register("C17", "every pair of label and score vectors up to the bound (with ties) and every listed weighting is compared with a direct threshold sweep and pair counting", c17,
		"weights are positive; at least one positive and one negative where the definition needs them")
	register("C18", "every pair of target and prediction matrices up to the bound over small integers, with every listed weighting and aggregation, is compared with the defining sums", c18)
}

func c16one(x *X, group string, yt, yp, w []float64) {
	n := len(yt)
	x.Case(group, func() string { return fmt.Sprintf("yt=%s yp=%s w=%s", fstr(yt), fstr(yp), fstr(w)) }, func(c *C) {
		T, P := colVec(yt).dense(), colVec(yp).dense()
		ww := wvec(w, n)
		var wd *mat.Dense
		if w != nil {
			wd = colVec(w).dense()
		}
		num, den := 0., 0.
		for i := range yt {
			if yt[i] == yp[i] {
				num += ww[i]
			}
			den += ww[i]
		}
		if g := metrics.AccuracyScore(T, P, true, wd); !near(g, num/den, 1e-12) {
			c.Fail("accuracy", "normalized accuracy %v, want %v", g, num/den)
		}
		if g := metrics.AccuracyScore(T, P, false, wd); !near(g, num, 1e-12) {
			c.Fail("accuracy-count", "accuracy count %v, want %v", g, num)
		}
		_, _, _, _, cm := refPRF(yt, yp, w, 1)
		g := toM(metrics.ConfusionMatrix(T, P, w))
		if !nearM(g, cm, 1e-12) {
			c.Fail("confusion", "confusion matrix %v, want %v", g, cm)
		}
		c.Steps(3)
		for _, beta := range []float64{1, .5, 2} {
			cl, per, wsup, micro, _ := refPRF(yt, yp, w, beta)
			for _, avg := range []string{"macro", "micro", "weighted"} {
				var want prf
				switch avg {
				case "micro":
					want = micro
				default:
					tot := 0.
					for i := range cl {
						k := 1.
						if avg == "weighted" {
							k = wsup[i]
						}
						want.p += k * per[i].p
						want.r += k * per[i].r
						want.f += k * per[i].f
						tot += k
					}
					want.p /= tot
					want.r /= tot
					want.f /= tot
				}
				p, r, f, _ := metrics.PrecisionRecallFScoreSupport(T, P, beta, nil, -1, avg, nil, w)
				if !near(p, want.p, 1e-12) || !near(r, want.r, 1e-12) || !near(f, want.f, 1e-12) {
					c.Fail("prf-"+avg, "beta=%g %s p,r,f=%v,%v,%v want %v", beta, avg, p, r, f, want)
				}
				if v := metrics.FBetaScore(T, P, beta, avg, w); !near(v, want.f, 1e-12) {
					c.Fail("fbeta-"+avg, "beta=%g fbeta %v want %v", beta, v, want.f)
				}
				if beta == 1 {
					if v := metrics.PrecisionScore(T, P, avg, w); !near(v, want.p, 1e-12) {
						c.Fail("precision-"+avg, "precision %v want %v", v, want.p)
					}
					if v := metrics.RecallScore(T, P, avg, w); !near(v, want.r, 1e-12) {
						c.Fail("recall-"+avg, "recall %v want %v", v, want.r)
					}
					if v := metrics.F1Score(T, P, avg, w); !near(v, want.f, 1e-12) {
						c.Fail("f1-"+avg, "f1 %v want %v", v, want.f)
					}
				}
				c.Steps(5)
			}
			for k := range cl {
				p, r, f, s := metrics.PrecisionRecallFScoreSupport(T, P, beta, nil, k, "macro", nil, w)
				if !near(p, per[k].p, 1e-12) || !near(r, per[k].r, 1e-12) || !near(f, per[k].f, 1e-12) || !near(s, per[k].s, 1e-12) {
					c.Fail("prf-class", "beta=%g class %d p,r,f,s=%v,%v,%v,%v want %v", beta, k, p, r, f, s, per[k])
				}
				c.Steps(1)
			}
		}
		c.Trace()
	})
}

func c16(x *X) {
	vals := []float64{3, -1, .5}
	maxn := x.Pick(6, 7)
	for n := 1; n <= maxn; n++ {
		ramp := make([]float64, n)
		for i := range ramp {
			ramp[i] = float64(i+1) / 2
		}
		vs := vals
		if n == 6 {
			vs = vals[:2]
		}
		tuples(n, vs, func(a []float64) {
			yt := append([]float64(nil), a...)
			tuples(n, vals, func(b []float64) {
				yp := append([]float64(nil), b...)
				c16one(x, "plain", yt, yp, nil)
				c16one(x, "weighted", yt, yp, ramp)
			})
		})
	}
	// all weightings over {1,3} for short vectors
	for n := 1; n <= x.Pick(4, 5); n++ {
		tuples(n, vals, func(a []float64) {
			yt := append([]float64(nil), a...)
			tuples(n, vals, func(b []float64) {
				yp := append([]float64(nil), b...)
				tuples(n, []float64{1, 3}, func(w []float64) { c16one(x, "allweights", yt, yp, append([]float64(nil), w...)) })
			})
		})
	}
	// labels that differ by little or lie far apart; rows of weight zero
	near1 := []float64{1, 1 + math.Ldexp(1, -40), math.Ldexp(1, 40)}
	for n := 1; n <= x.Pick(4, 5); n++ {
		tuples(n, near1, func(a []float64) {
			yt := append([]float64(nil), a...)
			tuples(n, near1, func(b []float64) {
				yp := append([]float64(nil), b...)
				c16one(x, "labels", yt, yp, nil)
				if n < 4 || x.Thorough() {
					tuples(n, []float64{0, 1e-9, 1e9}, func(w []float64) {
						for _, v := range w {
							if v > 0 {
								c16one(x, "weights", yt, yp, append([]float64(nil), w...))
								break
							}
						}
					})
				}
			})
		})
	}
	// many classes, longer vectors
	for _, k := range []int{2, 3, 4, 5, 6, 7, 11, 17, 33, 70} {
		sizes := []int{128, 130, 257, 300}
		for n := k; n <= x.Pick(80, 200); n += 7 {
			sizes = append(sizes, n)
		}
		for _, n := range sizes {
			yt, yp, w := make([]float64, n), make([]float64, n), make([]float64, n)
			for i := range yt {
				yt[i] = float64((i*5+1)%k) * 1.5
				yp[i] = float64((i*3+i/4)%(k+1)) * 1.5
				w[i] = float64(i%3 + 1)
			}
			c16one(x, "many", yt, yp, w)
			c16one(x, "many", yt, yp, nil)
			c16one(x, "many", yp, yt, w)
		}
	}
	// multi-output accuracy: a row counts only if all its outputs agree; the confusion matrix and
	// precision/recall use the first output column
	for r := 1; r <= 3; r++ {
		matrices(r, 2, []float64{0, 1}, func(a M) {
			matrices(r, 2, []float64{0, 1, 2}, func(b M) {
				x.Case("multi", func() string { return fmt.Sprintf("yt=%v yp=%v", a, b) }, func(c *C) {
					for wi, w := range [][]float64{nil, {2, 1, 3}} {
						var wd *mat.Dense
						if w != nil {
							w = w[:r]
							wd = colVec(w).dense()
						}
						ww := wvec(w, r)
						num, den := 0., 0.
						for i := range a {
							if a[i][0] == b[i][0] && a[i][1] == b[i][1] {
								num += ww[i]
							}
							den += ww[i]
						}
						if g := metrics.AccuracyScore(a.dense(), b.dense(), true, wd); !near(g, num/den, 1e-12) {
							c.Fail("accuracy-multi", "w%d %v want %v", wi, g, num/den)
						}
						if g := metrics.AccuracyScore(a.dense(), b.dense(), false, wd); !near(g, num, 1e-12) {
							c.Fail("accuracy-multi", "w%d %v want %v", wi, g, num)
						}
						_, _, _, _, cm := refPRF(a.col(0), b.col(0), w, 1)
						if g := toM(metrics.ConfusionMatrix(a.dense(), b.dense(), w)); !nearM(g, cm, 1e-12) {
							c.Fail("confusion-multi", "got %v want %v", g, cm)
						}
						c.Steps(3)
					}
					c.Trace()
				})
			})
		})
	}
}

// ---- ranking ----------------------------------------------------------------------------------

func descDistinct(s []float64) []float64 {
	d := distinct(s)
	for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
		d[i], d[j] = d[j], d[i]
	}
	return d
}

func sweep(pos []bool, s, w []float64, th float64) (tp, fp float64) {
	for i := range s {
		if s[i] >= th {
			if pos[i] {
				tp += w[i]
			} else {
				fp += w[i]
			}
		}
	}
	return
}

func refAUC(pos []bool, s, w []float64) float64 {
	num, den := 0., 0.
	for i := range s {
		for j := range s {
			if pos[i] && !pos[j] {
				k := w[i] * w[j]
				den += k
				if s[i] > s[j] {
					num += k
				} else if s[i] == s[j] {
					num += k / 2
				}
			}
		}
	}
	return num / den
}

func refAP(pos []bool, s, w []float64) float64 {
	tot := 0.
	for i := range s {
		if pos[i] {
			tot += w[i]
		}
	}
	ap, prev := 0., 0.
	for _, th := range descDistinct(s) {
		tp, fp := sweep(pos, s, w, th)
		ap += (tp - prev) / tot * tp / (tp + fp)
		prev = tp
	}
	return ap
}

func c17one(x *X, group string, y, s, w []float64, posLabel float64) {
	n := len(y)
	x.Case(group, func() string { return fmt.Sprintf("y=%s s=%s w=%s pos=%g", fstr(y), fstr(s), fstr(w), posLabel) }, func(c *C) {
		ww := wvec(w, n)
		pos := make([]bool, n)
		P, N := 0., 0.
		for i := range y {
			pos[i] = y[i] == posLabel
			if pos[i] {
				P += ww[i]
			} else {
				N += ww[i]
			}
		}
		Y, S := colVec(y).dense(), colVec(s).dense()
		ths := descDistinct(s)
		if P > 0 && N > 0 {
			fpr, tpr, th := metrics.ROCCurve(Y, S, posLabel, w)
			c.Must(len(fpr) == len(tpr) && len(tpr) == len(th), "roc-shape", "lengths %d %d %d", len(fpr), len(tpr), len(th))
			// an optional leading (0,0) point above the largest score, then one point per distinct score
			off := len(th) - len(ths)
			c.Must(off == 0 || off == 1, "roc-shape", "%d points for %d distinct scores: fpr=%v tpr=%v th=%v", len(th), len(ths), fpr, tpr, th)
			if off == 1 {
				c.Must(fpr[0] == 0 && tpr[0] == 0 && th[0] > ths[0], "roc-start", "fpr=%v tpr=%v th=%v", fpr, tpr, th)
			}
			c.Must(fpr[0] == 0, "roc-start", "the curve does not start at false positive rate 0: %v", fpr)
			for i, t := range ths {
				tp, fp := sweep(pos, s, ww, t)
				c.Must(th[i+off] == t && near(fpr[i+off], fp/N, 1e-12) && near(tpr[i+off], tp/P, 1e-12), "roc-point",
					"threshold %g: got (%v,%v,%v) want (%v,%v)", t, fpr[i+off], tpr[i+off], th[i+off], fp/N, tp/P)
			}
			last := len(fpr) - 1
			c.Must(near(fpr[last], 1, 1e-12) && near(tpr[last], 1, 1e-12), "roc-end", "fpr=%v tpr=%v", fpr, tpr)
			want := refAUC(pos, s, ww)
			c.Must(near(metrics.AUC(fpr, tpr), want, 1e-10), "auc", "AUC %v want %v", metrics.AUC(fpr, tpr), want)
			if posLabel == 1 {
				for _, avg := range []string{"", "macro", "micro", "weighted"} {
					g := metrics.ROCAUCScore(Y, S, avg, w)
					c.Must(near(g, want, 1e-10), "rocauc", "ROC AUC (%q) %v want %v", avg, g, want)
				}
			}
			c.Steps(6)
		}
		if P > 0 {
			p, r, th := metrics.PrecisionRecallCurve(Y, S, posLabel, w)
			c.Must(len(p) == len(r) && len(p) == len(th)+1, "pr-shape", "lengths %d %d %d", len(p), len(r), len(th))
			// increasing thresholds, starting at the largest threshold with full recall
			var want []float64
			for _, t := range ths {
				want = append(want, t)
				if tp, _ := sweep(pos, s, ww, t); near(tp, P, 1e-12) {
					break
				}
			}
			c.Must(len(th) == len(want), "pr-thresholds", "thresholds %v want (reversed) %v", th, want)
			for i, t := range want {
				k := len(want) - 1 - i
				tp, fp := sweep(pos, s, ww, t)
				c.Must(th[k] == t && near(p[k], tp/(tp+fp), 1e-12) && near(r[k], tp/P, 1e-12), "pr-point", "threshold %g: got %v,%v want %v,%v", t, p[k], r[k], tp/(tp+fp), tp/P)
			}
			l := len(p) - 1
			c.Must(p[l] == 1 && r[l] == 0, "pr-end", "p=%v r=%v", p, r)
			if posLabel == 1 {
				wantAP := refAP(pos, s, ww)
				for _, avg := range []string{"", "macro", "micro", "weighted"} {
					g := metrics.AveragePrecisionScore(Y, S, avg, w)
					c.Must(near(g, wantAP, 1e-10), "ap", "average precision (%q) %v want %v", avg, g, wantAP)
				}
			}
			c.Steps(5)
		}
		c.Trace()
	})
}

func c17(x *X) {
	sv := []float64{.25, .75, .5}
	for n := 2; n <= x.Pick(6, 7); n++ {
		ramp := make([]float64, n)
		for i := range ramp {
			ramp[i] = float64((i*2)%5+1) / 2
		}
		tuples(n, []float64{0, 1}, func(a []float64) {
			y := append([]float64(nil), a...)
			tuples(n, sv, func(b []float64) {
				s := append([]float64(nil), b...)
				c17one(x, "binary", y, s, nil, 1)
				c17one(x, "weighted", y, s, ramp, 1)
			})
		})
	}
	// other label codings and positive labels; negative and wide scores
	for n := 2; n <= 4; n++ {
		tuples(n, []float64{1, 2, -1}, func(a []float64) {
			y := append([]float64(nil), a...)
			tuples(n, []float64{-3, 0, 1.5}, func(b []float64) {
				s := append([]float64(nil), b...)
				for _, pl := range []float64{2, -1} {
					c17one(x, "coding", y, s, nil, pl)
				}
			})
		})
		tuples(n, []float64{-1, 1}, func(a []float64) {
			y := append([]float64(nil), a...)
			tuples(n, []float64{-3, 0, 1.5}, func(b []float64) { c17one(x, "coding", y, append([]float64(nil), b...), nil, 1) })
		})
	}
	// scores that differ by little, or are all very small
	for n := 2; n <= x.Pick(5, 6); n++ {
		tuples(n, []float64{0, 1}, func(a []float64) {
			y := append([]float64(nil), a...)
			for _, sv := range [][]float64{{.5, .5 + math.Ldexp(1, -45), .5 - math.Ldexp(1, -45)}, {math.Ldexp(1, -60), math.Ldexp(3, -60), 0}} {
				tuples(n, sv, func(b []float64) { c17one(x, "close", y, append([]float64(nil), b...), nil, 1) })
			}
		})
	}
	longs := []int{257, 300}
	for n := 13; n <= x.Pick(140, 400); n += 9 {
		longs = append(longs, n)
	}
	for _, n := range longs {
		for k := 2; k <= 9; k++ {
			y, s, w := make([]float64, n), make([]float64, n), make([]float64, n)
			for i := range y {
				y[i] = float64((i*i + i/3) % 2)
				s[i] = float64((i*7+i*i/5)%k) / 4
				w[i] = float64(i%4 + 1)
			}
			c17one(x, "long", y, s, nil, 1)
			c17one(x, "long", y, s, w, 1)
		}
	}
	// multilabel averages
	for rows := 2; rows <= x.Pick(4, 5); rows++ {
		w := make([]float64, rows)
		for i := range w {
			w[i] = float64(i*i + 1)
		}
		svs := []float64{.25, .5, .75}
		if rows == 4 {
			svs = svs[:2]
		}
		matrices(rows, 2, []float64{0, 1}, func(y M) {
			matrices(rows, 2, svs, func(s M) {
				c17multi(x, y, s, nil)
				c17multi(x, y, s, w)
			})
		})
	}
	for k, sh := range [][2]int{{17, 3}, {65, 2}, {130, 3}, {5, 33}} {
		y, s := lattice(sh[0], sh[1], k), lattice(sh[0], sh[1], k+10)
		w := make([]float64, sh[0])
		for i := range y {
			for j := range y[i] {
				y[i][j] = float64((int(y[i][j]*4) + 64) % 2)
				s[i][j] = math.Floor(s[i][j]) / 4
			}
			w[i] = float64(i%3 + 1)
		}
		c17multi(x, y, s, nil)
		c17multi(x, y, s, w)
	}
	// wide rows for the per-sample average
	for rows := 2; rows <= 4; rows++ {
		for k := 0; k < x.Pick(1000, 5000); k++ {
			y, s := make(M, rows), make(M, rows)
			for i := range y {
				y[i], s[i] = make([]float64, 3), make([]float64, 3)
				for j := range y[i] {
					y[i][j] = float64(((k*(i+3) + j*(k+2) + k/7) % 3) % 2)
					s[i][j] = float64((k*(j+1)+i*5+j)%4) / 4
				}
			}
			w := []float64{2, 1, 5, 3}[:rows]
			c17multi(x, y, s, nil)
			c17multi(x, y, s, w)
		}
	}
}

func c17multi(x *X, y, s M, w []float64) {
	x.Case("multilabel", func() string { return fmt.Sprintf("y=%v s=%v w=%s", y, s, fstr(w)) }, func(c *C) {
		rows, cols := y.dims()
		ww := wvec(w, rows)
		has := func(v []float64) (p, n bool) {
			for _, a := range v {
				if a == 1 {
					p = true
				} else {
					n = true
				}
			}
			return
		}
		bpos := func(v []float64) []bool {
			o := make([]bool, len(v))
			for i := range v {
				o[i] = v[i] == 1
			}
			return o
		}
		colsOK, colsPos := true, true
		for j := 0; j < cols; j++ {
			p, n := has(y.col(j))
			colsOK = colsOK && p && n
			colsPos = colsPos && p
		}
		rowsOK, rowsPos := true, true
		for i := range y {
			p, n := has(y[i])
			rowsOK = rowsOK && p && n
			rowsPos = rowsPos && p
		}
		var fy, fs, fw []float64
		for i := range y {
			for j := range y[i] {
				fy, fs, fw = append(fy, y[i][j]), append(fs, s[i][j]), append(fw, ww[i])
			}
		}
		fp, fn := has(fy)
		ones := wvec(nil, cols)
		type fn3 func(pos []bool, s, w []float64) float64
		check := func(name string, f func(yt, ys *mat.Dense, avg string, w []float64) float64, ref fn3, okCol, okFlat, okRow bool) {
			if okCol {
				macro, weighted, tot := 0., 0., 0.
				for j := 0; j < cols; j++ {
					v := ref(bpos(y.col(j)), s.col(j), ww)
					macro += v / float64(cols)
					k := 0.
					for i := range y {
						if y[i][j] == 1 {
							k += ww[i]
						}
					}
					weighted += k * v
					tot += k
				}
				if g := f(y.dense(), s.dense(), "macro", w); !near(g, macro, 1e-10) {
					c.Fail(name+"-macro", "%v want %v", g, macro)
				}
				if g := f(y.dense(), s.dense(), "weighted", w); !near(g, weighted/tot, 1e-10) {
					c.Fail(name+"-weighted", "%v want %v", g, weighted/tot)
				}
				c.Steps(2)
			}
			if okFlat {
				want := ref(bpos(fy), fs, fw)
				if g := f(y.dense(), s.dense(), "micro", w); !near(g, want, 1e-10) {
					c.Fail(name+"-micro", "%v want %v", g, want)
				}
				c.Steps(1)
			}
			if okRow {
				num, den := 0., 0.
				for i := range y {
					num += ww[i] * ref(bpos(y[i]), s[i], ones)
					den += ww[i]
				}
				if g := f(y.dense(), s.dense(), "samples", w); !near(g, num/den, 1e-10) {
					c.Fail(name+"-samples", "%v want %v", g, num/den)
				}
				c.Steps(1)
			}
		}
		check("rocauc", metrics.ROCAUCScore, refAUC, colsOK, fp && fn, rowsOK)
		check("ap", metrics.AveragePrecisionScore, refAP, colsPos, fp, rowsPos)
		c.Trace()
	})
}

// ---- regression -------------------------------------------------------------------------------

// relM compares relative to the entries.
func relM(a, b M, tol float64) bool {
	if len(a) != len(b) || len(a[0]) != len(b[0]) {
		return false
	}
	for i := range a {
		for j := range a[i] {
			m := math.Max(math.Abs(a[i][j]), math.Abs(b[i][j]))
			if d := math.Abs(a[i][j] - b[i][j]); !(d <= tol*m) {
				return false
			}
		}
	}
	return true
}

func c18one(x *X, group string, t, p M, w []float64) {
	x.Case(group, func() string { return fmt.Sprintf("t=%v p=%v w=%s", t, p, fstr(w)) }, func(c *C) {
		r, k := t.dims()
		ww := wvec(w, r)
		var wd *mat.Dense
		if w != nil {
			wd = colVec(w).dense()
		}
		mse, mae, r2, den := make([]float64, k), make([]float64, k), make([]float64, k), make([]float64, k)
		tot, constant := 0., false
		for j := 0; j < k; j++ {
			sw, m := 0., 0.
			for i := range t {
				sw += ww[i]
				m += ww[i] * t[i][j]
				d := p[i][j] - t[i][j]
				mse[j] += ww[i] * d * d
				mae[j] += ww[i] * math.Abs(d)
			}
			m /= sw
			for i := range t {
				den[j] += ww[i] * (t[i][j] - m) * (t[i][j] - m)
			}
			size := 0.
			for i := range t {
				size = math.Max(size, math.Abs(t[i][j]))
			}
			if den[j] <= 1e-12*size*size {
				constant = true
			}
			r2[j] = 1 - mse[j]/den[j]
			mse[j] /= sw
			mae[j] /= sw
			tot += den[j]
		}
		mean := func(v []float64) float64 {
			s := 0.
			for _, a := range v {
				s += a
			}
			return s / float64(len(v))
		}
		T, P := t.dense(), p.dense()
		eq := relM // sums of terms of one sign
		cmp := func(name string, f func(a, b mat.Matrix, w *mat.Dense, m string) *mat.Dense, want []float64) {
			raw := toM(f(T, P, wd, "raw_values"))
			if !eq(raw, M{want}, 1e-10) {
				c.Fail(name+"-raw", "%v want %v", raw, want)
			}
			for _, a := range []string{"", "uniform_average"} {
				u := toM(f(T, P, wd, a))
				if !eq(u, M{{mean(want)}}, 1e-10) {
					c.Fail(name+"-avg", "%v want %v", u, mean(want))
				}
			}
			c.Steps(3)
		}
		cmp("mse", metrics.MeanSquaredError, mse)
		cmp("mae", metrics.MeanAbsoluteError, mae)
		if !constant {
			eq = nearM
			cmp("r2", metrics.R2Score, r2)
			v := 0.
			for j := range r2 {
				v += den[j] / tot * r2[j]
			}
			g := toM(metrics.R2Score(T, P, wd, "variance_weighted"))
			if !nearM(g, M{{v}}, 1e-10) {
				c.Fail("r2-variance", "%v want %v", g, v)
			}
			c.Steps(1)
		}
		c.Trace()
	})
}

func c18(x *X) {
	vals := []float64{-1, 0, 2.5}
	for n := 1; n <= x.Pick(4, 5); n++ {
		tuples(n, vals, func(a []float64) {
			t := colVec(append([]float64(nil), a...))
			tuples(n, vals, func(b []float64) {
				p := colVec(append([]float64(nil), b...))
				c18one(x, "single", t, p, nil)
				tuples(n, []float64{1, 2.5}, func(w []float64) { c18one(x, "weights", t, p, append([]float64(nil), w...)) })
			})
		})
	}
	for r := 2; r <= 3; r++ {
		v := []float64{-1, 3}
		matrices(r, 2, v, func(t M) {
			matrices(r, 2, []float64{0, 3}, func(p M) {
				c18one(x, "multi", t, p, nil)
				c18one(x, "multi", t, p, []float64{1, 4, 2}[:r])
				c18one(x, "multi", t, p, []float64{3, .5, 2}[:r])
			})
		})
	}
	// other units, rows of weight zero
	for n := 1; n <= x.Pick(3, 4); n++ {
		tuples(n, vals, func(a []float64) {
			tuples(n, vals, func(b []float64) {
				for _, e := range []int{-30, 30} {
					t, p := zerosM(n, 1, 0), zerosM(n, 1, 0)
					for i := range a {
						t[i][0], p[i][0] = math.Ldexp(a[i], e), math.Ldexp(b[i], e)
					}
					c18one(x, "units", t, p, nil)
					// weights of any magnitude
					w := make([]float64, n)
					for i := range w {
						w[i] = math.Ldexp(float64(1+i%3), e)
					}
					c18one(x, "weights", colVec(append([]float64(nil), a...)), colVec(append([]float64(nil), b...)), w)
				}
				t, p := colVec(append([]float64(nil), a...)), colVec(append([]float64(nil), b...))
				tuples(n, []float64{0, 2.5}, func(w []float64) {
					for _, v := range w {
						if v > 0 {
							c18one(x, "weights", t, p, append([]float64(nil), w...))
							break
						}
					}
				})
			})
		})
	}
	longs := []int{64, 65, 100, 128, 130, 257, 300, 1025}
	for r := 2; r <= x.Pick(60, 200); r++ {
		longs = append(longs, r)
	}
	for _, r := range longs {
		for k := 1; k <= 4; k++ {
			t, p := lattice(r, k, r+k), lattice(r, k, 3*r+k)
			w := make([]float64, r)
			for i := range w {
				w[i] = float64(i%4)/2 + .5
			}
			c18one(x, "long", t, p, nil)
			c18one(x, "long", t, p, w)
			// far from zero
			t, p = t.copy(), p.copy()
			for i := range t {
				for j := range t[i] {
					t[i][j] += 1 << 16
					p[i][j] += 1 << 16
				}
			}
			c18one(x, "far from zero", t, p, nil)
			c18one(x, "far from zero", t, p, w)
		}
	}
}
