//go:build all || C31

package main

import (
	"fmt"
	"math"

	gaussianprocess "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"gonum.org/v1/gonum/mat"
)

// C31: kernel expressions. Every expression up to a size is built twice: as the package's kernel
// and as a term of this file, whose values and derivatives are computed from the definitions.

// kx is a term. Leaves own parameters; free tells which may be changed.
type kx struct {
	op   string // const white rbf dot + * ^
	p    []float64
	free []bool
	a, b *kx
	e    float64
}

func (k *kx) String() string {
	switch k.op {
	case "+", "*":
		return "(" + k.a.String() + k.op + k.b.String() + ")"
	case "^":
		return fmt.Sprintf("%v^%g", k.a, k.e)
	}
	return fmt.Sprintf("%s%v%v", k.op, k.p, k.free)
}

func (k *kx) params() (o []*float64) {
	if k.a != nil {
		o = k.a.params()
		if k.b != nil {
			o = append(o, k.b.params()...)
		}
		return
	}
	for i := range k.p {
		if k.free[i] {
			o = append(o, &k.p[i])
		}
	}
	return
}

// wide tells whether a length scale per feature (of two) occurs.
func (k *kx) wide() bool {
	if k == nil {
		return false
	}
	return k.op == "rbf" && len(k.p) > 1 || k.a.wide() || k.b.wide()
}

func (k *kx) copy() *kx {
	if k == nil {
		return nil
	}
	c := *k
	c.p = append([]float64(nil), k.p...)
	c.a, c.b = k.a.copy(), k.b.copy()
	return &c
}

func (k *kx) stationary() bool {
	if k.a != nil {
		return k.a.stationary() && (k.b == nil || k.b.stationary())
	}
	return k.op != "dot"
}

// eval gives the value at a pair of points and the derivatives by the logs of the free parameters.
func (k *kx) eval(x, y []float64) (v float64, g []float64) {
	switch k.op {
	case "+", "*":
		v1, g1 := k.a.eval(x, y)
		v2, g2 := k.b.eval(x, y)
		if k.op == "+" {
			return v1 + v2, append(append(g, g1...), g2...)
		}
		for _, d := range g1 {
			g = append(g, d*v2)
		}
		for _, d := range g2 {
			g = append(g, d*v1)
		}
		return v1 * v2, g
	case "^":
		v1, g1 := k.a.eval(x, y)
		for _, d := range g1 {
			g = append(g, d*k.e*math.Pow(v1, k.e-1))
		}
		return math.Pow(v1, k.e), g
	case "const":
		v = k.p[0]
		g = []float64{v}
	case "white":
		same := true
		for i := range x {
			same = same && x[i] == y[i]
		}
		if same {
			v = k.p[0]
		}
		g = []float64{v}
	case "dot":
		v = k.p[0] * k.p[0]
		g = []float64{2 * v}
		for i := range x {
			v += x[i] * y[i]
		}
	case "rbf":
		g = make([]float64, len(k.p))
		s := 0.
		for i := range x {
			q := i
			if len(k.p) == 1 {
				q = 0
			}
			d := (x[i] - y[i]) / k.p[q]
			s += d * d
			g[q] += d * d
		}
		v = math.Exp(-s / 2)
		for q := range g {
			g[q] *= v
		}
	}
	var keep []float64
	for i, f := range k.free {
		if f {
			keep = append(keep, g[i])
		}
	}
	return v, keep
}

func (k *kx) matrix(X, Y M) M {
	o := zerosM(len(X), len(Y), 0)
	for i := range X {
		for j := range Y {
			o[i][j], _ = k.eval(X[i], Y[j])
		}
	}
	return o
}

// build makes the package's kernel.
func (k *kx) build() kernels.Kernel {
	bounds := func(i int) [2]float64 {
		if k.free[i] {
			return [2]float64{k.p[i] / 10, k.p[i] * 20}
		}
		if i%2 == 0 {
			return [2]float64{3, 3}
		}
		return [2]float64{0, 0}
	}
	switch k.op {
	case "+":
		return &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: k.a.build(), K2: k.b.build()}}
	case "*":
		return &kernels.Product{KernelOperator: kernels.KernelOperator{K1: k.a.build(), K2: k.b.build()}}
	case "^":
		return &kernels.Exponentiation{Kernel: k.a.build(), Exponent: k.e}
	case "const":
		return &kernels.ConstantKernel{ConstantValue: k.p[0], ConstantValueBounds: bounds(0)}
	case "white":
		return &kernels.WhiteKernel{NoiseLevel: k.p[0], NoiseLevelBounds: bounds(0)}
	case "dot":
		return &kernels.DotProduct{Sigma0: k.p[0], Sigma0Bounds: bounds(0)}
	}
	r := &kernels.RBF{LengthScale: append([]float64(nil), k.p...)}
	some := false
	for i := range k.p {
		some = some || k.free[i]
		r.LengthScaleBounds = append(r.LengthScaleBounds, bounds(i))
	}
	if !some && len(k.p) == 1 {
		r.LengthScaleBounds = nil // bounds may be missing
	}
	return r
}

func leaves31() []*kx {
	t, f := true, false
	return []*kx{
		{op: "const", p: []float64{1.7}, free: []bool{t}},
		{op: "white", p: []float64{.3}, free: []bool{t}},
		{op: "rbf", p: []float64{1.4}, free: []bool{t}},
		{op: "dot", p: []float64{1.2}, free: []bool{t}},
		{op: "rbf", p: []float64{.7, 2}, free: []bool{t, t}},
		{op: "const", p: []float64{.6}, free: []bool{f}},
		{op: "rbf", p: []float64{.8}, free: []bool{f}},
		{op: "rbf", p: []float64{.9, 1.5}, free: []bool{f, t}},
		{op: "rbf", p: []float64{.9, 1.5}, free: []bool{t, f}},
		{op: "white", p: []float64{2}, free: []bool{f}},
		{op: "dot", p: []float64{.5}, free: []bool{f}},
	}
}

// exprs31 lists every term by level: leaves; one operator; two operators.
func exprs31(full bool) (levels [3][]*kx) {
	L := leaves31()
	levels[0] = L
	for _, a := range L {
		for _, e := range []float64{2, 3, 1} {
			levels[1] = append(levels[1], &kx{op: "^", a: a.copy(), e: e})
		}
		for _, b := range L {
			levels[1] = append(levels[1], &kx{op: "+", a: a.copy(), b: b.copy()}, &kx{op: "*", a: a.copy(), b: b.copy()})
		}
	}
	n := 5
	if full {
		n = len(L)
	}
	for _, a := range levels[1] {
		levels[2] = append(levels[2], &kx{op: "^", a: a.copy(), e: 2})
		for _, b := range L[:n] {
			levels[2] = append(levels[2], &kx{op: "+", a: a.copy(), b: b.copy()}, &kx{op: "*", a: b.copy(), b: a.copy()})
			if full {
				levels[2] = append(levels[2], &kx{op: "+", a: b.copy(), b: a.copy()}, &kx{op: "*", a: a.copy(), b: b.copy()})
			}
		}
	}
	return
}

func solve31(K M, Y M) M {
	n := len(K)
	_, c := Y.dims()
	out := zerosM(n, c, 0)
	for j := 0; j < c; j++ {
		A := zerosM(n, n+1, 0)
		for i := range A {
			copy(A[i], K[i])
			A[i][n] = Y[i][j]
		}
		w := gauss(A)
		if w == nil {
			return nil
		}
		for i := range w {
			out[i][j] = w[i]
		}
	}
	return out
}

func logdet31(K M) float64 {
	A := K.copy()
	s := 0.
	for i := range A {
		s += math.Log(A[i][i])
		for r := i + 1; r < len(A); r++ {
			f := A[r][i] / A[i][i]
			for c := i; c < len(A); c++ {
				A[r][c] -= f * A[i][c]
			}
		}
	}
	return s
}

func c31(x *X) {
	pts := []M{}
	canonMatrices(2, 2, []float64{-.5, 0, 1}, func(m M) { pts = append(pts, m.copy()) })
	canonMatrices(3, 2, []float64{-.5, 0, 1}, func(m M) { pts = append(pts, m.copy()) })
	if x.Thorough() {
		canonMatrices(4, 2, []float64{-.5, 0, 1}, func(m M) { pts = append(pts, m.copy()) })
	}
	pts = append(pts, M{{.3, -1}}, M{{0, 0}, {1, .5}, {0, 0}}, M{{1, 2}, {-1, .5}, {.25, -.75}, {2, 2}}, lattice(4, 2, 3), lattice(5, 2, 7))
	// points that nearly coincide: noise belongs to equal points only
	pts = append(pts, M{{.5, 1}, {.5, 1 + 1e-4}, {.5 - 2e-6, 1}, {.5, 1}, {3, 1}})
	small := func(r, c, salt int) M {
		m := lattice(r, c, salt)
		for i := range m {
			for j := range m[i] {
				m[i][j] /= 8
			}
		}
		return m
	}
	// LML data
	fewer := []M{{{.3, -1}}, {{0, 0}, {1, .5}, {0, 0}}, {{1, 2}, {-1, .5}, {.25, -.75}, {2, 2}}}
	if x.Thorough() {
		canonMatrices(3, 2, []float64{-.5, 1}, func(m M) { fewer = append(fewer, m.copy()) })
		canonMatrices(2, 2, []float64{-.5, 0, 1}, func(m M) { fewer = append(fewer, m.copy()) })
	}
	levels := exprs31(true)
	// larger sets, and one or three features
	long := []M{small(17, 2, 1), small(70, 2, 2), small(34, 2, 3)}
	if x.Thorough() {
		long = append(long, small(130, 2, 4), small(65, 2, 5))
	}
	other := []M{small(6, 1, 1), small(6, 3, 2), small(18, 1, 3), small(18, 3, 4)}
	for lv, list := range levels[:2] {
		for ki, k := range list {
			k := k
			for pi, P := range append(append([]M(nil), long...), other...) {
				P := P
				_, w := P.dims()
				if w != 2 && k.wide() {
					continue
				}
				x.Case("kernel values", func() string { return fmt.Sprintf("%v long X %d,%d", k, len(P), w) }, func(c *C) {
					kernelCase(c, k, P, small(5+pi, w, 9+pi), ki+pi)
				})
				if len(P) < 40 && (lv == 0 || pi == ki%2 || pi > 2) {
					x.Case("likelihood", func() string { return fmt.Sprintf("%v long X %d,%d alpha %d", k, len(P), w, (ki+pi)%3) }, func(c *C) {
						lmlCase(c, k, P, ki+pi)
					})
				}
			}
		}
	}
	for lv, list := range levels {
		set := pts
		if lv == 2 {
			set = fewer
		}
		for ki, k := range list {
			k := k
			for pi, P := range set {
				P := P
				other := set[(pi*5+ki+1)%len(set)]
				x.Case("kernel values", func() string { return fmt.Sprintf("%v X=%v Y=%v", k, P, other) }, func(c *C) {
					kernelCase(c, k, P, other, ki+pi)
				})
				if pi%3 == 0 || lv == 2 || x.Thorough() {
					x.Case("likelihood", func() string { return fmt.Sprintf("%v X=%v alpha %d", k, P, (ki+pi)%3) }, func(c *C) {
						lmlCase(c, k, P, ki+pi)
					})
				}
			}
		}
	}
}

func kernelCase(c *C, k *kx, P, Q M, salt int) {
	K := k.build()
	c.Steps(1)
	n := len(P)
	fp, fq := forms31(P), forms31(Q)
	got, g0 := K.Eval(fp[salt%4], fq[(salt/4)%4], false)
	c.Must(nearM(toM(got), k.matrix(P, Q), 1e-12), "value", "k(X,Y) = %v, want %v", toM(got), k.matrix(P, Q))
	_ = g0
	want := k.matrix(P, P)
	gotX, _ := K.Eval(fp[(salt+1)%4], nil, false)
	c.Must(nearM(toM(gotX), want, 1e-12), "value", "k(X,X) = %v, want %v", toM(gotX), want)
	gotT, _ := K.Eval(fq[salt%4], fp[(salt+2)%4], false)
	c.Must(nearMat(got, gotT.T(), 1e-12), "symmetry", "k(X,Y) = %v, k(Y,X) = %v", toM(got), toM(gotT))
	d := K.Diag(fp[(salt+2)%4])
	dr, _ := d.Dims()
	c.Must(dr == n, "diagonal", "diagonal of %d rows for %d points", dr, n)
	for i := 0; i < n; i++ {
		c.Must(near(d.At(i, i), want[i][i], 1e-12), "diagonal", "diagonal %d is %g, want %g", i, d.At(i, i), want[i][i])
	}
	c.Must(K.IsStationary() == k.stationary(), "stationary", "IsStationary is %v", K.IsStationary())
	// positive semidefinite
	sym := mat.NewSymDense(n, nil)
	big := 1.
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			sym.SetSym(i, j, gotX.At(i, j))
			big = math.Max(big, math.Abs(gotX.At(i, j)))
		}
	}
	var eig mat.EigenSym
	c.Must(eig.Factorize(sym, false), "eigen", "eigenvalues not found")
	for _, v := range eig.Values(nil) {
		c.Must(v >= -1e-9*big, "psd", "eigenvalue %g of %v", v, toM(gotX))
	}
	// gradient
	par := k.params()
	gk, gg := K.Eval(fp[salt%3], nil, true) // not roMat: Eval compares its arguments
	c.Must(nearM(toM(gk), want, 1e-12), "value", "with gradient k(X,X) = %v, want %v", toM(gk), want)
	sh := gg.Shape()
	c.Must(len(sh) == 3 && sh[0] == n && sh[1] == n && sh[2] == len(par), "gradient-shape", "gradient of shape %v for %d points and %d free hyperparameters", sh, n, len(par))
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			_, w := k.eval(P[i], P[j])
			for q := range par {
				v, err := gg.At(i, j, q)
				c.Must(err == nil, "gradient", "gradient at %d,%d,%d: %v", i, j, q, err)
				c.Must(near(v.(float64), w[q], 1e-10), "gradient", "gradient of k(%v,%v) by hyperparameter %d is %g, want %g", P[i], P[j], q, v, w[q])
			}
		}
	}
	// hyperparameters and clones
	theta := func(K kernels.Kernel) []float64 {
		t := K.Theta()
		r, _ := t.Dims()
		o := make([]float64, r)
		for i := range o {
			o[i] = t.At(i, 0)
		}
		return o
	}
	want0 := make([]float64, len(par))
	for i, p := range par {
		want0[i] = math.Log(*p)
	}
	c.Must(nearSlice(theta(K), want0, 1e-12), "theta", "theta %v, want %v", theta(K), want0)
	bd := K.Bounds()
	br, _ := bd.Dims()
	c.Must(br == len(par), "bounds", "%d bounds for %d free hyperparameters", br, len(par))
	for i, p := range par {
		c.Must(near(bd.At(i, 0), math.Log(*p/10), 1e-12) && near(bd.At(i, 1), math.Log(*p*20), 1e-12), "bounds", "bounds %d: %g %g", i, bd.At(i, 0), bd.At(i, 1))
	}
	nk := k.copy()
	npar := nk.params()
	nt := mat.NewDense(len(par)+1, 1, nil) // room for an unused last row keeps the matrix non-empty
	for i, p := range npar {
		*p *= 1 + .2*float64(1+(i+salt)%4)
		nt.Set(i, 0, math.Log(*p))
	}
	var arg mat.Matrix = kernels.NewMatFromFunc(len(par), 1, func(i, j int) float64 { return nt.At(i, j) }, nil)
	if len(par) > 0 && salt%2 == 0 {
		arg = nt.Slice(0, len(par), 0, 1)
	}
	clone := K.CloneWithTheta(arg)
	ck, _ := clone.Eval(fp[salt%4], fq[salt%4], false)
	c.Must(nearM(toM(ck), nk.matrix(P, Q), 1e-12), "clone", "the clone evaluates to %v, want %v", toM(ck), nk.matrix(P, Q))
	c.Must(nearSlice(theta(K), want0, 1e-12), "clone", "cloning changed the hyperparameters to %v", theta(K))
	after, _ := K.Eval(fp[0], nil, false)
	c.Must(nearM(toM(after), want, 1e-12), "clone", "cloning changed the kernel")
	if len(par) > 0 {
		cg, gg := clone.Eval(fp[0], nil, true)
		_ = cg
		_, w := nk.eval(P[0], P[n-1])
		v, err := gg.At(0, n-1, len(par)-1)
		c.Must(err == nil && near(v.(float64), w[len(par)-1], 1e-10), "clone", "gradient of the clone %v, want %g", v, w[len(par)-1])
		cb := clone.Bounds()
		c.Must(nearMat(cb, bd, 1e-12), "clone", "the clone has other bounds")
		// setting one's hyperparameters leaves the other alone
		same := K.CloneWithTheta(K.Theta())
		if m, ok := K.Theta().(mat.Mutable); ok {
			m.Set(0, 0, want0[0]+.7)
			c.Must(nearSlice(theta(same), want0, 1e-12), "clone", "setting theta of the original changed a clone")
			c.Must(near(theta(K)[0], want0[0]+.7, 1e-12), "theta", "theta was not set")
			m.Set(0, 0, want0[0])
		}
		if m, ok := same.Theta().(mat.Mutable); ok {
			m.Set(len(par)-1, 0, -.4)
			c.Must(nearSlice(theta(K), want0, 1e-12), "clone", "setting theta of a clone changed the original")
		}
	}
	nilClone := K.CloneWithTheta(nil)
	ck, _ = nilClone.Eval(fp[salt%4], nil, false)
	c.Must(nearM(toM(ck), want, 1e-12), "clone", "a clone without new hyperparameters evaluates to %v, want %v", toM(ck), want)
}

func forms31(m M) []mat.Matrix {
	v, _ := viewOf(m)
	return []mat.Matrix{m.dense(), v, tightView(m), roMat{m}}
}

func lmlCase(c *C, k *kx, P M, salt int) {
	n := len(P)
	outs := 1 + salt%2
	Y := zerosM(n, outs, 0)
	for i := range Y {
		for o := range Y[i] {
			Y[i][o] = float64((i*i*2+o*3+i*o)%5) - 1.25
		}
	}
	alpha := []float64{.5}
	if salt%3 == 1 {
		alpha = make([]float64, n)
		for i := range alpha {
			alpha[i] = .2 + .3*float64(i)
		}
	} else if salt%3 == 2 {
		alpha = []float64{.05}
	}
	if salt%6 == 4 && n > 2 { // the same at both ends
		alpha[n-1] = alpha[0]
	}
	norm := salt%5 == 0
	K := k.build()
	m := gaussianprocess.NewRegressor(K)
	m.Alpha = append([]float64(nil), alpha...)
	m.NormalizeY = norm
	fp, fy := forms31(P), forms31(Y)
	Q := append(P.copy(), []float64{.2, .1, -.3}[:len(P[0])], []float64{3, -2, 1}[:len(P[0])])
	fq := forms31(Q)
	prior := m.Predict(fq[salt%4], nil)
	pr, pc := prior.Dims()
	c.Must(pr == len(Q) && pc == 1 && mat.Norm(prior, math.Inf(1)) == 0, "prior", "unfitted mean %v", toM(prior))
	_, std, _ := m.PredictEx(fq[salt%4], nil, true, false)
	_, _, cov := m.PredictEx(fq[(salt+1)%4], nil, false, true)
	for i := range Q {
		v, _ := k.eval(Q[i], Q[i])
		c.Must(near(std.At(i, i), math.Sqrt(v), 1e-12), "prior", "prior deviation %g, want %g", std.At(i, i), math.Sqrt(v))
	}
	c.Must(nearM(toM(cov), k.matrix(Q, Q), 1e-12), "prior", "prior covariance %v", toM(cov))
	m.Fit(fp[salt%4], fy[(salt/2)%4])
	c.Steps(1)
	c.Must(m.GetNOutputs() == outs, "outputs", "%d outputs", m.GetNOutputs())
	mean := make([]float64, outs)
	R := Y.copy()
	if norm {
		for o := range mean {
			for i := range Y {
				mean[o] += Y[i][o] / float64(n)
			}
			for i := range R {
				R[i][o] -= mean[o]
			}
		}
	}
	reg := func(k *kx) M {
		G := k.matrix(P, P)
		for i := range G {
			G[i][i] += alpha[i%len(alpha)]
		}
		return G
	}
	lml := func(k *kx) (float64, M, M) {
		G := reg(k)
		A := solve31(G, R)
		if A == nil {
			return math.NaN(), nil, nil
		}
		s := 0.
		for i := range R {
			for o := range R[i] {
				s -= .5 * R[i][o] * A[i][o]
			}
		}
		return s - float64(outs)*(.5*logdet31(G)+float64(n)/2*math.Log(2*math.Pi)), G, A
	}
	// at the kernel's own hyperparameters and at others
	for step := 0; step < 2; step++ {
		kk := k.copy()
		par := kk.params()
		th := mat.NewDense(len(par)+1, 1, nil)
		for i, p := range par {
			if step == 1 {
				*p *= 1.5 - .2*float64(i%3)
			}
			th.Set(i, 0, math.Log(*p))
		}
		want, G, A := lml(kk)
		if A == nil {
			return
		}
		var arg mat.Matrix = kernels.NewMatFromFunc(len(par), 1, func(i, j int) float64 { return th.At(i, j) }, nil)
		v, g := m.LogMarginalLikelihood(arg, true)
		v2, _ := m.LogMarginalLikelihood(arg, false)
		c.Must(near(v, want, 1e-7) && near(v2, want, 1e-7), "lml", "log marginal likelihood %g (%g without gradient), want %g", v, v2, want)
		inv := solve31(G, eye31(n))
		c.Must(len(g) == len(par), "lml-gradient", "gradient %v for %d hyperparameters", g, len(par))
		wg := make([]float64, len(par))
		size := 0.
		for i := range P {
			for j := range P {
				_, d := kk.eval(P[i], P[j])
				for q := range wg {
					for o := 0; o < outs; o++ {
						wg[q] += .5 * (A[i][o]*A[j][o] - inv[i][j]) * d[q]
						size = math.Max(size, math.Abs(A[i][o]*A[j][o]*d[q]))
					}
				}
			}
		}
		c.Must(nearSlice(g, wg, 1e-7*(1+size)), "lml-gradient", "gradient %v, want %v", g, wg)
	}
	// posterior mean
	_, _, A := lml(k)
	post := zerosM(len(Q), outs, 0)
	kq := k.matrix(Q, P)
	size := 1.
	for i := range Q {
		for o := range mean {
			post[i][o] = mean[o]
			for j := range P {
				post[i][o] += kq[i][j] * A[j][o]
				size = math.Max(size, math.Abs(kq[i][j]*A[j][o]))
			}
		}
	}
	got := m.Predict(fq[(salt+3)%4], nil)
	c.Must(nearM(toM(got), post, 1e-8*size), "posterior", "posterior mean %v, want %v", toM(got), post)
	into := mat.NewDense(len(Q), outs, nil)
	m.Predict(fq[salt%4], into)
	c.Must(nearM(toM(into), post, 1e-8*size), "posterior", "posterior mean written %v, want %v", toM(into), post)
	// a clone predicts the same, and refitting it leaves this one alone
	cl := m.PredicterClone()
	c.Must(nearM(toM(cl.Predict(fq[0], nil)), post, 1e-8*size), "clone", "the clone of the regressor predicts differently")
	Y2 := Y.copy()
	for i := range Y2 {
		Y2[i][0] += 2
	}
	cl.Fit(fp[0], Y2.dense())
	c.Must(nearM(toM(m.Predict(fq[0], nil)), post, 1e-8*size), "clone", "refitting a clone changed the regressor")
	c.Must(nearM(toM(fp[0]), P, 0) && nearM(toM(fy[0]), Y, 0), "inputs", "the training data changed")
}

func eye31(n int) M {
	o := zerosM(n, n, 0)
	for i := range o {
		o[i][i] = 1
	}
	return o
}

func init() {
	register("C31", "exhaustive enumeration of kernel expressions up to two operators over constant, white, RBF (scalar and per-feature) and dot-product kernels, with free and fixed hyperparameters, on small point sets: values, diagonals, semidefiniteness, gradients, clones, marginal likelihood with gradient and posterior mean against an independent evaluator of the same expression", c31)
}
