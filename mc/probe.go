package main

import (
	"fmt"
	"sync/atomic"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

// probe is an estimator that remembers what it was given. Its predictions are a fixed function of its parameters, the
// rows it was fitted on and the rows it predicts.
type probe struct {
	A         float64
	B         int
	S         string
	Opt       interface{}
	id        int64
	parent    int64
	fits      []string
	keepX     mat.Matrix // the very matrices received by Fit
	keepY     mat.Matrix
	nOut      int
	classif   bool
	predicted []string
}

var probeSeq int64

func newProbe(a float64, b int, s string) *probe {
	return &probe{A: a, B: b, S: s, id: atomic.AddInt64(&probeSeq, 1)}
}

func (p *probe) Fit(X, Y mat.Matrix) base.Fiter {
	p.keepX, p.keepY = X, Y
	p.fits = append(p.fits, toM(X).String()+"|"+toM(Y).String())
	_, p.nOut = Y.Dims()
	return p
}
func (p *probe) GetNOutputs() int   { return p.nOut }
func (p *probe) IsClassifier() bool { return p.classif }
func (p *probe) PredicterClone() base.Predicter {
	c := *p
	c.id = atomic.AddInt64(&probeSeq, 1)
	c.parent = p.id
	c.fits = append([]string(nil), p.fits...)
	c.predicted = nil
	return &c
}

// value is what a probe fitted on (X,Y) predicts for the row.
func probeValue(a float64, b int, X, Y M, row []float64, out int) float64 {
	s := a*16 + float64(b)
	for i, r := range X {
		for j, v := range r {
			s += v * float64(j+1) * float64(i+2)
		}
	}
	for i, r := range Y {
		s += r[out] * float64(3+i)
	}
	for j, v := range row {
		s += v * float64(64+j)
	}
	return s
}

func (p *probe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	xm, fx, fy := toM(X), toM(p.keepX), toM(p.keepY)
	d := mat.NewDense(len(xm), p.nOut, nil)
	for i := range xm {
		for o := 0; o < p.nOut; o++ {
			d.Set(i, o, probeValue(p.A, p.B, fx, fy, xm[i], o))
		}
	}
	return base.FromDense(Y, d)
}
func (p *probe) Score(X, Y mat.Matrix) float64 {
	pr := p.Predict(X, nil)
	s := 0.
	ym := toM(Y)
	for i := range ym {
		for j := range ym[i] {
			s += (pr.At(i, j) - ym[i][j]) * float64(1+i+2*j)
		}
	}
	return s
}
func (p *probe) String() string { return fmt.Sprintf("probe(A=%g B=%d S=%s)", p.A, p.B, p.S) }

// probeT is a transformer probe: X -> X*K+column means of the fitted X, Y -> Y*L+D (inverted by InverseTransform).
type probeT struct {
	K, L, D float64
	addCol  bool
	mean    []float64
	fits    int
	fitted  string
}

func (t *probeT) Fit(X, Y mat.Matrix) base.Fiter {
	m := toM(X)
	r, c := m.dims()
	t.mean = make([]float64, c)
	for j := range t.mean {
		for i := range m {
			t.mean[j] += m[i][j]
		}
		t.mean[j] /= float64(r)
	}
	t.fits++
	t.fitted = m.String() + "|" + toM(Y).String()
	return t
}
func (t *probeT) xform(m M) M {
	o := make(M, len(m))
	for i := range m {
		for j, v := range m[i] {
			o[i] = append(o[i], v*t.K+t.mean[j])
		}
		if t.addCol {
			o[i] = append(o[i], o[i][0]*o[i][0])
		}
	}
	return o
}
func (t *probeT) yform(m M) M {
	o := m.copy()
	for i := range o {
		for j := range o[i] {
			o[i][j] = o[i][j]*t.L + t.D
		}
	}
	return o
}
func (t *probeT) yinv(m M) M {
	o := m.copy()
	for i := range o {
		for j := range o[i] {
			o[i][j] = (o[i][j] - t.D) / t.L
		}
	}
	return o
}
func (t *probeT) Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	var yo *mat.Dense
	if ym := toM(Y); len(ym) > 0 {
		yo = t.yform(ym).dense()
	} else {
		yo = base.ToDense(Y)
	}
	return t.xform(toM(X)).dense(), yo
}
func (t *probeT) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *probeT) TransformerClone() base.Transformer { c := *t; return &c }
func (t *probeT) InverseTransform(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
	return X, t.yinv(toM(Y)).dense()
}

// probeN is a transformer without an inverse.
type probeN struct{ in probeT }

func (t *probeN) Fit(X, Y mat.Matrix) base.Fiter { t.in.Fit(X, Y); return t }
func (t *probeN) Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	return t.in.xform(toM(X)).dense(), base.ToDense(Y)
}
func (t *probeN) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *probeN) TransformerClone() base.Transformer { c := *t; return &c }
