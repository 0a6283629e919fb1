//go:build all || C08

package main

import (
	"fmt"
	"strings"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

type c08Step struct {
	name  string
	mk    func() base.Fiter
	ystep bool // transforms Y or needs the fitted number of rows
}

func c08Alphabet() []c08Step {
	return []c08Step{
		{"std", func() base.Fiter { return pp.NewStandardScaler() }, false},
		{"minmax", func() base.Fiter { return pp.NewMinMaxScaler([]float64{-1, 3}) }, false},
		{"maxabs", func() base.Fiter { return pp.NewMaxAbsScaler() }, false},
		{"robust", func() base.Fiter { return pp.NewDefaultRobustScaler() }, false},
		{"poly", func() base.Fiter { return pp.NewPolynomialFeatures(2) }, false},
		{"norm", func() base.Fiter { return pp.NewNormalizer() }, false},
		{"bin", func() base.Fiter { b := pp.NewBinarizer(); b.Threshold = .5; return b }, false},
		{"shuf", func() base.Fiter { s := pp.NewShuffler(); s.RandomState = base.NewSource(5); return s }, true},
		{"imp", func() base.Fiter { return pp.NewImputer() }, false},
		{"kbins", func() base.Fiter { k := pp.NewKBinsDiscretizer(3); k.Encode = "ordinal"; return k }, false},
		{"quant", func() base.Fiter { return pp.NewQuantileTransformer(4, "uniform", nil) }, false},
		{"func", func() base.Fiter {
			f := func(k float64) func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				return func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
					sc := func(m *mat.Dense) *mat.Dense {
						if m == nil || m.IsEmpty() {
							return m
						}
						o := &mat.Dense{}
						o.Scale(k, m)
						return o
					}
					return sc(X), sc(Y)
				}
			}
			return pp.NewFunctionTransformer(f(4), f(.25))
		}, true},
		{"probeT", func() base.Fiter { return &probeT{K: 2, L: 8, D: 3, addCol: true} }, true},
		{"probeN", func() base.Fiter { return &probeN{in: probeT{K: 3, L: 1}} }, false},
		{"lenc", func() base.Fiter { return pp.NewLabelEncoder() }, true},
		{"lbin", func() base.Fiter { return pp.NewLabelBinarizer(0, 1) }, true},
	}
}

func c08Final(kind int) (string, base.Predicter) {
	switch kind {
	case 0:
		return "probe", newProbe(2, 3, "x")
	case 1:
		p := newProbe(1, 1, "clf")
		p.classif = true
		return "probeClf", p
	}
	return "linreg", lm.NewLinearRegression()
}

// c08Model: the steps applied by hand.
type c08Model struct {
	steps []base.Fiter
	last  base.Predicter
}

func (h *c08Model) fit(X, Y *mat.Dense) {
	for _, s := range h.steps {
		s.Fit(X, Y)
		X, Y = s.(base.Transformer).Transform(X, Y)
	}
	h.last.Fit(X, Y)
}
func (h *c08Model) forward(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
	for _, s := range h.steps {
		X, Y = s.(base.Transformer).Transform(X, Y)
	}
	return X, Y
}
func (h *c08Model) predict(X, Y *mat.Dense) *mat.Dense {
	Xt, _ := h.forward(X, Y)
	r, _ := Xt.Dims()
	out := mat.NewDense(r, h.last.GetNOutputs(), nil)
	h.last.Predict(Xt, out)
	for k := len(h.steps) - 1; k >= 0; k-- {
		if inv, ok := h.steps[k].(interface {
			InverseTransform(X, Y *mat.Dense) (*mat.Dense, *mat.Dense)
		}); ok {
			_, out = inv.InverseTransform(nil, out)
		}
	}
	return out
}
func (h *c08Model) score(X, Y *mat.Dense) float64 {
	Xt, Yt := h.forward(X, Y)
	return h.last.Score(Xt, Yt)
}

func c08(x *X) {
	alpha := c08Alphabet()
	datas := []struct{ X, Y M }{
		{M{{1, 2}, {3, -1}, {0, 4}, {2, 2}}, M{{1}, {3}, {2}, {5}}},
		{M{{-1, .5}, {2, 2}, {.25, 1}, {6, 3}}, M{{0}, {1}, {1}, {0}}},
		{M{{1, 0}, {0, 1}, {1, 1}, {2, 1}}, M{{1, -1}, {2, 0}, {4, 1}, {8, 1}}},
	}
	var chains [][]int
	for a := range alpha {
		chains = append(chains, []int{a})
		for b := range alpha {
			chains = append(chains, []int{a, b})
		}
	}
	chains = append(chains, []int{})
	maxDepth := x.Pick(4, 5)
	nOps := 7
	run := func(chain []int, final, d1, d2 int, ops []int) {
		ystep, names := false, []string{}
		for _, s := range chain {
			ystep = ystep || alpha[s].ystep
			names = append(names, alpha[s].name)
		}
		fname, _ := c08Final(final)
		x.Case("pipeline", func() string {
			return fmt.Sprintf("steps=%s,%s A=%d B=%d ops=%v", strings.Join(names, ","), fname, d1, d2, ops)
		}, func(c *C) {
			var fit []base.Fiter
			h := &c08Model{}
			for _, s := range chain {
				fit = append(fit, alpha[s].mk())
				h.steps = append(h.steps, alpha[s].mk())
			}
			_, l1 := c08Final(final)
			_, h.last = c08Final(final)
			var pl *pipeline.Pipeline
			if d1 == 0 {
				pl = pipeline.MakePipeline(append(fit, base.Fiter(l1))...)
			} else {
				var named []pipeline.NamedStep
				for k, f := range append(fit, base.Fiter(l1)) {
					named = append(named, pipeline.NamedStep{Name: fmt.Sprint("step", k), Fiter: f})
				}
				pl = pipeline.NewPipeline(named...)
			}
			c.Must(len(pl.NamedSteps) == len(chain)+1 && pl.NamedSteps[len(chain)].Fiter == base.Fiter(l1), "pipeline/steps", "the pipeline has %d steps for %d given", len(pl.NamedSteps), len(chain)+1)
			A, B := datas[d1], datas[d2]
			pl.Fit(A.X.dense(), A.Y.dense())
			h.fit(A.X.dense(), A.Y.dense())
			cur := A
			c.Steps(2)
			for _, op := range ops {
				c.Steps(1)
				switch op {
				case 0: // predict B into a given matrix
					n := h.last.GetNOutputs()
					c.Must(pl.GetNOutputs() == n, "pipeline/outputs", "GetNOutputs %d, final step has %d", pl.GetNOutputs(), n)
					_, yc := cur.Y.dims()
					buf := zerosM(len(B.X), yc, 0)
					want := h.predict(B.X.dense(), buf.dense())
					dst := mat.NewDense(len(B.X), yc, nil)
					got := pl.Predict(B.X.dense(), dst)
					c.Must(nearMat(got, want, 1e-9), "pipeline/predict", "Predict returned %v, by hand %v", toM(got), toM(want))
					c.Must(nearMat(dst, want, 1e-9), "pipeline/predict-into", "Predict stored %v, by hand %v", toM(dst), toM(want))
				case 1: // predict without destination
					if ystep {
						continue
					}
					want := h.predict(B.X.dense(), &mat.Dense{})
					got := pl.Predict(roMat{B.X}, nil)
					c.Must(nearMat(got, want, 1e-9), "pipeline/predict-nil", "Predict(nil) returned %v, by hand %v", toM(got), toM(want))
				case 2: // score
					got, want := pl.Score(cur.X.dense(), cur.Y.dense()), h.score(cur.X.dense(), cur.Y.dense())
					c.Must(near(got, want, 1e-9), "pipeline/score", "Score %g, by hand %g", got, want)
				case 3: // refit on the other set
					o := B
					pl.Fit(o.X.dense(), o.Y.dense())
					h.fit(o.X.dense(), o.Y.dense())
					cur = o
				case 4: // transform
					xin := B.X.dense()
					xo, yo := pl.Transform(xin, B.Y.dense())
					_, yc := cur.Y.dims()
					want := h.predict(B.X.dense(), mat.NewDense(len(B.X), yc, nil))
					c.Must(nearM(toM(xo), B.X, 0), "pipeline/transform-x", "Transform changed X to %v", toM(xo))
					c.Must(nearMat(yo, want, 1e-9), "pipeline/transform", "Transform predicted %v, by hand %v", toM(yo), toM(want))
				case 6: // fit and transform the other set
					_, yo := pl.FitTransform(roMat{B.X}, B.Y.dense())
					h.fit(B.X.dense(), B.Y.dense())
					cur = B
					_, yc := cur.Y.dims()
					want := h.predict(B.X.dense(), mat.NewDense(len(B.X), yc, nil))
					c.Must(nearMat(yo, want, 1e-9), "pipeline/fit-transform", "FitTransform predicted %v, by hand %v", toM(yo), toM(want))
				case 5: // continue with a clone: it has the same steps, and the original is left alone
					if strings.Contains(strings.Join(names, ","), "shuf") {
						continue // Shuffler shares its random source with clones
					}
					cl := pl.PredicterClone().(*pipeline.Pipeline)
					c.Must(cl.IsClassifier() == h.last.IsClassifier() && pl.IsClassifier() == h.last.IsClassifier(), "pipeline/classifier", "IsClassifier differs from the final step's")
					c.Must(len(cl.NamedSteps) == len(pl.NamedSteps), "pipeline/clone", "clone has %d steps", len(cl.NamedSteps))
					for k := range cl.NamedSteps {
						c.Must(cl.NamedSteps[k].Name == pl.NamedSteps[k].Name && cl.NamedSteps[k].Fiter != pl.NamedSteps[k].Fiter, "pipeline/clone", "step %d not cloned", k)
					}
					cl.Fit(B.X.dense(), B.Y.dense())
					h2 := &c08Model{}
					for _, s := range chain {
						h2.steps = append(h2.steps, alpha[s].mk())
					}
					_, h2.last = c08Final(final)
					h2.fit(B.X.dense(), B.Y.dense())
					got, want := cl.Score(B.X.dense(), B.Y.dense()), h2.score(B.X.dense(), B.Y.dense())
					c.Must(near(got, want, 1e-9), "pipeline/clone-score", "clone scores %g, by hand %g", got, want)
				}
			}
			c.Trace()
		})
	}
	allOps := func(depth int, f func(ops []int)) {
		intTuples(depth, nOps, func(v []int) { f(append([]int(nil), v...)) })
	}
	for _, chain := range chains {
		for final := 0; final < 3; final++ {
			for _, dd := range [][2]int{{0, 1}, {1, 0}, {2, 2}} {
				if final == 2 && len(chain) > 1 {
					continue
				}
				depth := maxDepth
				if len(chain) > 1 || final > 0 {
					depth = maxDepth - 1
				}
				allOps(depth, func(ops []int) { run(chain, final, dd[0], dd[1], ops) })
			}
		}
	}
	// three transformers
	fixed := [][]int{{0, 2, 1, 4}, {3, 0, 2, 5}, {6, 0, 2, 5}}
	for a := range alpha {
		for b := range alpha {
			for d := range alpha {
				for _, ops := range fixed {
					run([]int{a, b, d}, 0, 0, 1, ops)
				}
			}
		}
	}
}

func init() {
	register("C08", "every chain of up to three of 16 transformers before three kinds of final predictor, and every history of predict / score / refit / transform / clone calls up to the depth bound, in lockstep with the same steps applied by hand", c08,
		"data sets are three fixed small tables; a pipeline without destination is only asked to predict when no step transforms targets")
}
