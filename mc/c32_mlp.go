//go:build all || C32

package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C32", "exhaustive enumeration of small architectures, activations, output kinds, batch sizes, solver settings, training sets, targets and (existentially) row orders on the real float64 and float32 networks, against a reference network that replays every mini-batch of every epoch: stored weights, loss history, number of epochs, predictions, serialized weights, early stopping, reproducibility", c32,
		"weights are compared to a float64 reference within 1e-9 (float64) and 4e-4 (float32, small weights only); a case whose reference meets a relu kink, a tied class or a stopping threshold within rounding is skipped",
		"BatchNormalize is outside the property (it has no stated loss)")
}

// ================================================================================================
// the reference network

type net struct {
	units    []int
	act, out string
	W        []M
	b        [][]float64
}

func (n *net) copy() *net {
	c := &net{units: n.units, act: n.act, out: n.out}
	for i := range n.W {
		c.W = append(c.W, n.W[i].copy())
		c.b = append(c.b, append([]float64(nil), n.b[i]...))
	}
	return c
}

// packed lists the parameters layer by layer, intercepts first.
func (n *net) packed() (p []*float64) {
	for l := range n.W {
		for j := range n.b[l] {
			p = append(p, &n.b[l][j])
		}
		for i := range n.W[l] {
			for j := range n.W[l][i] {
				p = append(p, &n.W[l][i][j])
			}
		}
	}
	return
}

func (n *net) values() (v []float64) {
	for _, p := range n.packed() {
		v = append(v, *p)
	}
	return
}

func newNet(units []int, act, out string, salt int) *net {
	n := &net{units: units, act: act, out: out}
	k := salt
	next := func() float64 {
		k++
		v := (k*k*3 + k*5 + salt) % 13
		return (float64(v) - 5.5) / 6
	}
	for l := 0; l+1 < len(units); l++ {
		b := make([]float64, units[l+1])
		for j := range b {
			b[j] = next()
		}
		W := zerosM(units[l], units[l+1], 0)
		for i := range W {
			for j := range W[i] {
				W[i][j] = next()
			}
		}
		n.W, n.b = append(n.W, W), append(n.b, b)
	}
	return n
}

func act32(name string, z float64) float64 {
	switch name {
	case "logistic":
		return 1 / (1 + math.Exp(-z))
	case "tanh":
		return math.Tanh(z)
	case "relu":
		return math.Max(z, 0)
	}
	return z
}

func dact32(name string, a float64) float64 {
	switch name {
	case "logistic":
		return a * (1 - a)
	case "tanh":
		return 1 - a*a
	case "relu":
		if a == 0 {
			return 0
		}
	}
	return 1
}

func outAct32(name string, row []float64) {
	if name != "softmax" {
		for j := range row {
			row[j] = act32(name, row[j])
		}
		return
	}
	m, s := math.Inf(-1), 0.
	for _, v := range row {
		m = math.Max(m, v)
	}
	for j := range row {
		row[j] = math.Exp(row[j] - m)
		s += row[j]
	}
	for j := range row {
		row[j] /= s
	}
}

// bufs are the layer buffers of one Fit. acts[0] is the batch.
type bufs struct {
	acts, deltas []M
	kink         bool
	big          float64 // largest magnitude met, saturation of an output counts as 1e9
}

func (n *net) buffers(rows int) *bufs {
	b := &bufs{acts: []M{nil}}
	for _, u := range n.units[1:] {
		b.acts = append(b.acts, zerosM(rows, u, 0))
		b.deltas = append(b.deltas, zerosM(rows, u, 0))
	}
	return b
}

// forward fills the layer buffers. rows is the number of rows of the buffers that take part: the
// rows of the batch, or with the defect of short batches, all the rows of the buffers.
func (n *net) forward(bu *bufs, X M, rows int) M {
	bu.acts[0] = X
	L := len(n.W)
	for l := 0; l < L; l++ {
		in, out := bu.acts[l], bu.acts[l+1]
		for r := 0; r < rows; r++ {
			for j := range n.b[l] {
				if r < len(in) {
					s := 0.
					for i := range in[r] {
						s += in[r][i] * n.W[l][i][j]
					}
					out[r][j] = s
				}
				out[r][j] += n.b[l][j]
				if l+1 < L {
					if n.act == "relu" && math.Abs(out[r][j]) < ambTol {
						bu.kink = true
					}
					out[r][j] = act32(n.act, out[r][j])
				}
			}
			for _, v := range out[r] {
				bu.big = math.Max(bu.big, math.Abs(v))
			}
			if l+1 == L {
				outAct32(n.out, out[r])
			}
		}
	}
	return bu.acts[L]
}

func (n *net) predictRow(x []float64) []float64 {
	return n.forward(n.buffers(1), M{x}, 1)[0]
}

// dataLoss is the mean loss of the rows.
func dataLoss(out string, y, h M) float64 {
	s := 0.
	for r := range y {
		for j := range y[r] {
			switch out {
			case "identity":
				s += (h[r][j] - y[r][j]) * (h[r][j] - y[r][j]) / 2
			case "softmax":
				if y[r][j] != 0 {
					s -= y[r][j] * math.Log(h[r][j])
				}
			default:
				if y[r][j] != 0 {
					s -= y[r][j] * math.Log(h[r][j])
				}
				if y[r][j] != 1 {
					s -= (1 - y[r][j]) * math.Log1p(-h[r][j])
				}
			}
		}
	}
	return s
}

func (n *net) l2() float64 {
	s := 0.
	for _, W := range n.W {
		for _, r := range W {
			for _, v := range r {
				s += v * v
			}
		}
	}
	return s
}

// loss is the regularized loss on a set of rows.
func (n *net) loss(X, Y M, alpha float64) float64 {
	h := n.forward(n.buffers(len(X)), X, len(X))
	return dataLoss(n.out, Y, h)/float64(len(X)) + alpha/2*n.l2()/float64(len(X))
}

// backprop returns the loss and its gradient (a net of derivatives) on a batch. With stale, the
// rows left in the buffers by a previous, longer batch take part (defect of short batches).
func (n *net) backprop(bu *bufs, X, Y M, alpha float64, stale bool) (float64, *net) {
	m := len(X)
	rows := m
	if stale {
		rows = len(bu.deltas[0])
	}
	h := n.forward(bu, X, rows)
	loss := dataLoss(n.out, Y, h)/float64(rows) + alpha/2*n.l2()/float64(m)
	g := n.copy()
	L := len(n.W)
	for r := range Y {
		for j := range Y[r] {
			bu.deltas[L-1][r][j] = h[r][j] - Y[r][j]
		}
	}
	for l := L - 1; l >= 0; l-- {
		in, d := bu.acts[l], bu.deltas[l]
		for j := range n.b[l] {
			s := 0.
			for r := 0; r < rows; r++ {
				s += d[r][j]
			}
			g.b[l][j] = s / float64(rows)
			for i := range n.W[l] {
				s := 0.
				for r := 0; r < rows && r < len(in); r++ {
					s += in[r][i] * d[r][j]
				}
				g.W[l][i][j] = s/float64(m) + alpha/float64(m)*n.W[l][i][j]
			}
		}
		if l > 0 {
			for r := 0; r < rows; r++ {
				for i := range n.W[l] {
					s := 0.
					for j := range n.b[l] {
						s += d[r][j] * n.W[l][i][j]
					}
					bu.deltas[l-1][r][i] = s * dact32(n.act, in[r][i])
				}
			}
		}
	}
	return loss, g
}

type conf struct {
	solver           string
	lr               float64
	sched            string
	powerT           float64
	momentum         float64
	nesterov         bool
	alpha, decay     float64
	batch, iters     int
	tol              float64
	noChange         int
	early            bool
	frac             float64
	beta1, beta2, ep float64
}

func (c conf) String() string {
	s := fmt.Sprintf("%s lr=%g %s", c.solver, c.lr, c.sched)
	if c.solver == "sgd" {
		s += fmt.Sprintf(" momentum=%g nesterov=%v", c.momentum, c.nesterov)
	} else if c.solver == "adam" {
		s += fmt.Sprintf(" beta=%g,%g", c.beta1, c.beta2)
	}
	s += fmt.Sprintf(" alpha=%g decay=%g batch=%d epochs=%d tol=%g nochange=%d", c.alpha, c.decay, c.batch, c.iters, c.tol, c.noChange)
	if c.early {
		s += fmt.Sprintf(" early=%g", c.frac)
	}
	return s
}

type hist struct {
	n         *net
	loss      []float64
	scores    []float64
	best      float64
	ambiguous bool
	short     bool // some batch had fewer rows than the buffers
	big       float64
	minGrad   float64
}

// ambTol is the relative distance below which a comparison is left undecided; larger for float32.
var ambTol = 1e-7

func argmax(v []float64) (int, bool) {
	m := 0
	for i := range v {
		if v[i] > v[m] {
			m = i
		}
	}
	for i := range v {
		if i != m && v[m]-v[i] < ambTol {
			return m, true
		}
	}
	return m, false
}

// decide turns an output row into the predicted 0/1 row.
func decide(out string, p []float64) (row []float64, tie bool) {
	row = make([]float64, len(p))
	if out == "identity" {
		copy(row, p)
		return
	}
	if len(p) == 1 {
		if p[0] > .5 {
			row[0] = 1
		}
		return row, math.Abs(p[0]-.5) < ambTol
	}
	m, tie := argmax(p)
	row[m] = 1
	return row, tie
}

func (n *net) score(X, Y M) (s float64, tie bool) {
	var P M
	for _, x := range X {
		p, t := decide(n.out, n.predictRow(x))
		tie = tie || t
		P = append(P, p)
	}
	if n.out != "identity" {
		for i := range P {
			if nearSlice(P[i], Y[i], 0) {
				s++
			}
		}
		return s / float64(len(X)), tie
	}
	return r2of(Y, P), tie
}

func r2of(Y, P M) float64 {
	s := 0.
	for j := range Y[0] {
		mean := 0.
		for i := range Y {
			mean += Y[i][j] / float64(len(Y))
		}
		num, den := 0., 0.
		for i := range Y {
			num += (Y[i][j] - P[i][j]) * (Y[i][j] - P[i][j])
			den += (Y[i][j] - mean) * (Y[i][j] - mean)
		}
		s += (1 - num/den) / float64(len(Y[0]))
	}
	return s
}

// train replays Fit from the weights of n0, rows in the given order at each epoch (nil: as they
// are). stale and perParam select the two recorded defects.
func train(n0 *net, X, Y M, cf conf, orders [][]int, stale, perParam bool) *hist {
	n := n0.copy()
	h := &hist{n: n, best: math.Inf(1), minGrad: math.Inf(1)}
	test := 0
	if cf.early {
		test = int(math.Ceil(cf.frac * float64(len(X))))
	}
	nt := len(X) - test
	XV, YV := X[nt:], Y[nt:]
	batch := cf.batch
	if batch <= 0 {
		batch = len(X)
		if batch > 200 {
			batch = 200
		}
	}
	if batch > len(X) {
		batch = len(X)
	}
	bu := n.buffers(batch)
	P := n.packed()
	vel, m2 := make([]float64, len(P)), make([]float64, len(P))
	b1, b2 := 1., 1.
	lr, t := cf.lr, 0
	bestScore, count := math.Inf(-1), 0
	var bestW []float64
	amb := func(a, b float64) {
		if math.Abs(a-b) < ambTol*(1+math.Abs(a)) {
			h.ambiguous = true
		}
	}
	for it := 0; it < cf.iters; it++ {
		acc := 0.
		for from := 0; from < nt; from += batch {
			to := from + batch
			if to > nt {
				to = nt
			}
			Xb, Yb := X[from:to], Y[from:to]
			if orders != nil {
				Xb, Yb = X.rows(orders[it][from:to]...), Y.rows(orders[it][from:to]...)
			}
			h.short = h.short || to-from < batch
			if cf.decay > 0 {
				for _, p := range P {
					*p *= 1 - cf.decay
				}
			}
			l, g := n.backprop(bu, Xb, Yb, cf.alpha, stale)
			acc += l * float64(to-from)
			G := g.packed()
			if cf.solver == "adam" && !perParam {
				b1 *= cf.beta1
				b2 *= cf.beta2
			}
			for i, p := range P {
				gr := *G[i]
				h.minGrad = math.Min(h.minGrad, math.Abs(gr))
				if cf.solver == "adam" {
					if perParam {
						b1 *= cf.beta1
						b2 *= cf.beta2
					}
					vel[i] = cf.beta1*vel[i] + (1-cf.beta1)*gr
					m2[i] = cf.beta2*m2[i] + (1-cf.beta2)*gr*gr
					*p -= cf.lr * math.Sqrt(1-b2) / (1 - b1) * vel[i] / (math.Sqrt(m2[i]) + cf.ep)
					continue
				}
				vel[i] = cf.momentum*vel[i] - lr*gr
				if cf.nesterov {
					*p += cf.momentum*vel[i] - lr*gr
				} else {
					*p += vel[i]
				}
			}
		}
		loss := acc / float64(nt)
		h.loss = append(h.loss, loss)
		t += nt
		if cf.early {
			s, tie := n.score(XV, YV)
			h.ambiguous = h.ambiguous || tie
			h.scores = append(h.scores, s)
			if !math.IsInf(bestScore, -1) && s != bestScore {
				amb(s, bestScore+cf.tol)
				amb(s, bestScore)
			}
			if s < bestScore+cf.tol {
				count++
			} else {
				count = 0
			}
			if s > bestScore {
				bestScore = s
				bestW = n.values()
			}
		} else {
			if !math.IsInf(h.best, 1) && loss != h.best {
				amb(loss, h.best-cf.tol)
			}
			if loss > h.best-cf.tol {
				count++
			} else {
				count = 0
			}
		}
		h.best = math.Min(h.best, loss)
		if cf.solver == "sgd" && cf.sched == "invscaling" {
			lr = cf.lr / math.Pow(float64(t)+1, cf.powerT)
		}
		if count > cf.noChange {
			if cf.solver != "sgd" || cf.sched != "adaptive" || lr <= 1e-6 {
				break
			}
			lr /= 5
			count = 0
		}
	}
	if cf.early && bestW != nil {
		for i, p := range P {
			*p = bestW[i]
		}
	}
	h.ambiguous = h.ambiguous || bu.kink
	for _, v := range n.values() {
		if isBad(v) || math.Abs(v) > 1e4 {
			h.ambiguous = true
		}
		h.big = math.Max(h.big, math.Abs(v))
	}
	h.big = math.Max(h.big, bu.big)
	if n.out != "identity" && bu.big > 15 {
		h.ambiguous = true // saturated outputs: the logarithms lose their digits
	}
	return h
}

// ================================================================================================
// the networks under test, behind one set of closures

type under struct {
	kind    string
	tol     float64
	set     func(cf conf, act string, hidden []int, shuffle, warm bool, rs base.RandomState)
	load    func(buf []byte) error
	fit     func(X, Y mat.Matrix)
	predict func(X mat.Matrix, Y mat.Mutable)
	score   func(X, Y mat.Matrix) float64
	weights func() []float64
	curve   func() []float64
	scores  func() []float64
	info    func() (nIter int, loss, best float64, out string)
	nOut    func() int
}

func new64(kind string) *under {
	u := &under{kind: kind, tol: 1e-9}
	var b *nn.BaseMultilayerPerceptron64
	switch kind {
	case "MLPRegressor":
		m := nn.NewMLPRegressor(nil, "relu", "adam", 0)
		b = &m.BaseMultilayerPerceptron64
		u.fit = func(X, Y mat.Matrix) { m.Fit(X, Y) }
		u.predict = func(X mat.Matrix, Y mat.Mutable) { m.Predict(X, Y) }
		u.score = m.Score
	case "MLPClassifier":
		m := nn.NewMLPClassifier(nil, "relu", "adam", 0)
		b = &m.BaseMultilayerPerceptron64
		u.fit = func(X, Y mat.Matrix) { m.Fit(X, Y) }
		u.predict = func(X mat.Matrix, Y mat.Mutable) { m.Predict(X, Y) }
		u.score = m.Score
	default:
		b = nn.NewBaseMultilayerPerceptron64()
		u.fit = func(X, Y mat.Matrix) { b.Fit(X, Y) }
		u.predict = func(X mat.Matrix, Y mat.Mutable) { b.Predict(X, Y) }
		u.score = b.Score
	}
	u.set = func(cf conf, act string, hidden []int, shuffle, warm bool, rs base.RandomState) {
		b.Solver, b.LearningRateInit, b.LearningRate, b.PowerT = cf.solver, cf.lr, cf.sched, cf.powerT
		b.Momentum, b.NesterovsMomentum, b.Alpha, b.WeightDecay = cf.momentum, cf.nesterov, cf.alpha, cf.decay
		b.BatchSize, b.MaxIter, b.Tol, b.NIterNoChange = cf.batch, cf.iters, cf.tol, cf.noChange
		b.EarlyStopping, b.ValidationFraction = cf.early, cf.frac
		b.Beta1, b.Beta2, b.Epsilon = cf.beta1, cf.beta2, cf.ep
		b.Activation, b.HiddenLayerSizes, b.Shuffle, b.WarmStart, b.RandomState = act, hidden, shuffle, warm, rs
	}
	u.load = b.Unmarshal
	u.weights = func() (v []float64) {
		for l := range b.Coefs {
			v = append(v, b.Intercepts[l]...)
			g := b.Coefs[l]
			for i := 0; i < g.Rows; i++ {
				v = append(v, g.Data[i*g.Stride:i*g.Stride+g.Cols]...)
			}
		}
		return
	}
	u.curve = func() []float64 { return b.LossCurve }
	u.scores = func() []float64 { return b.ValidationScores }
	u.info = func() (int, float64, float64, string) { return b.NIter, b.Loss, b.BestLoss, b.OutActivation }
	u.nOut = b.GetNOutputs
	return u
}

func new32() *under {
	u := &under{kind: "Base32", tol: 4e-4}
	b := nn.NewBaseMultilayerPerceptron32()
	u.fit = func(X, Y mat.Matrix) { b.Fit(X, Y) }
	u.predict = func(X mat.Matrix, Y mat.Mutable) { b.Predict(X, Y) }
	u.score = b.Score
	u.set = func(cf conf, act string, hidden []int, shuffle, warm bool, rs base.RandomState) {
		f := func(v float64) float32 { return float32(v) }
		b.Solver, b.LearningRateInit, b.LearningRate, b.PowerT = cf.solver, f(cf.lr), cf.sched, f(cf.powerT)
		b.Momentum, b.NesterovsMomentum, b.Alpha, b.WeightDecay = f(cf.momentum), cf.nesterov, f(cf.alpha), f(cf.decay)
		b.BatchSize, b.MaxIter, b.Tol, b.NIterNoChange = cf.batch, cf.iters, f(cf.tol), cf.noChange
		b.EarlyStopping, b.ValidationFraction = cf.early, f(cf.frac)
		b.Beta1, b.Beta2, b.Epsilon = f(cf.beta1), f(cf.beta2), f(cf.ep)
		b.Activation, b.HiddenLayerSizes, b.Shuffle, b.WarmStart, b.RandomState = act, hidden, shuffle, warm, rs
	}
	to := func(v []float32) (o []float64) {
		for _, x := range v {
			o = append(o, float64(x))
		}
		return
	}
	u.load = b.Unmarshal
	u.weights = func() (v []float64) {
		for l := range b.Coefs {
			v = append(v, to(b.Intercepts[l])...)
			g := b.Coefs[l]
			for i := 0; i < g.Rows; i++ {
				v = append(v, to(g.Data[i*g.Stride:i*g.Stride+g.Cols])...)
			}
		}
		return
	}
	u.curve = func() []float64 { return to(b.LossCurve) }
	u.scores = func() []float64 { return to(b.ValidationScores) }
	u.info = func() (int, float64, float64, string) {
		return b.NIter, float64(b.Loss), float64(b.BestLoss), b.OutActivation
	}
	u.nOut = b.GetNOutputs
	return u
}

func newUnder(kind string) *under {
	if kind == "Base32" {
		return new32()
	}
	return new64(kind)
}

// kindFor: which estimators can have this output kind.
func kindsFor(out string) []string {
	if out == "identity" {
		return []string{"MLPRegressor", "Base64", "Base32"}
	}
	return []string{"MLPClassifier", "Base64", "Base32"}
}

// dump serializes weights the way Unmarshal documents it.
func (n *net) dump(nested bool) []byte {
	mp := map[string]interface{}{"intercepts_": n.b, "coefs_": n.W, "out_activation_": n.out}
	if nested {
		mp["params"] = map[string]interface{}{"activation": n.act}
	} else {
		mp["activation"] = n.act
	}
	buf, err := json.Marshal(mp)
	if err != nil {
		panic(err)
	}
	return buf
}

// fromWeights rebuilds a reference network from the stored weights.
func fromWeights(units []int, act, out string, v []float64) *net {
	n := newNet(units, act, out, 0)
	P := n.packed()
	if len(P) != len(v) {
		return nil
	}
	for i, p := range P {
		*p = v[i]
	}
	return n
}

// args32 wraps data in one of several matrix types; the returned check tells whether the data is
// what it was.
func args32(m M, form int) (mat.Matrix, func() bool) {
	switch form % 4 {
	case 0:
		d := m.dense()
		return d, func() bool { return nearM(toM(d), m, 0) }
	case 1:
		d, ok := viewOf(m)
		return d, func() bool { return nearM(toM(d), m, 0) && ok() }
	case 2:
		k := m.copy()
		return roMat{k}, func() bool { return nearM(k, m, 0) }
	}
	d := tightView(m)
	return d, func() bool { return nearM(toM(d), m, 0) }
}

func out32(r, c, form int) (mat.Mutable, func() M) {
	switch form % 3 {
	case 0:
		d := mat.NewDense(r, c, nil)
		return d, func() M { return toM(d) }
	case 1:
		d, _ := viewOf(zerosM(r, c, 9))
		return d, func() M { return toM(d) }
	}
	w := rwMat{zerosM(r, c, 9)}
	return w, func() M { return w.m }
}

// checkPredict compares predictions to the forward pass of n; classes (one list per label column)
// maps output blocks to labels, nil when the outputs are the labels.
func checkPredict(c *C, u *under, n *net, Q M, classes [][]float64, form int) {
	cols := n.units[len(n.units)-1]
	if classes != nil {
		cols = len(classes)
	}
	c.Must(u.nOut() == cols, "n-outputs", "GetNOutputs is %d, not %d", u.nOut(), cols)
	xq, same := args32(Q, form)
	yq, got := out32(len(Q), cols, form/2)
	u.predict(xq, yq)
	c.Steps(1)
	c.Must(same(), "predict-input", "Predict altered its input")
	P := got()
	for i, q := range Q {
		o := n.predictRow(q)
		var want []float64
		tie := false
		if classes == nil {
			want, tie = decide(n.out, o)
			if n.out != "identity" && u.tol > 1e-6 && len(o) == 1 && math.Abs(o[0]-.5) < 1e-4 {
				tie = true
			}
		} else {
			at := 0
			for _, cl := range classes {
				k, t := argmax(o[at : at+len(cl)])
				tie = tie || t
				want = append(want, cl[k])
				at += len(cl)
			}
		}
		if tie {
			continue
		}
		if u.tol > 1e-6 && n.out != "identity" {
			s := append([]float64(nil), o...)
			if m, _ := argmax(s); len(s) > 1 {
				top := s[m]
				for k := range s {
					if k != m && top-s[k] < 1e-4 {
						tie = true
					}
				}
			}
			if tie {
				continue
			}
		}
		c.Must(nearSlice(P[i], want, u.tol), "prediction-at-forward", "prediction %v at %v, the forward pass of the stored weights gives %v (outputs %v)", P[i], q, want, o)
	}
}

func nearHist(a, b []float64, tol float64) bool { return nearSlice(a, b, tol) }

// compare checks what Fit left against the replay.
func compare(c *C, u *under, h *hist) string {
	it, loss, best, _ := u.info()
	if it != len(h.loss) {
		return fmt.Sprintf("%d epochs instead of %d", it, len(h.loss))
	}
	if w, want := u.weights(), h.n.values(); !nearSlice(w, want, u.tol) {
		return fmt.Sprintf("weights %v instead of %v", w, want)
	}
	if !nearHist(u.curve(), h.loss, u.tol) {
		return fmt.Sprintf("loss curve %v instead of %v", u.curve(), h.loss)
	}
	if !near(loss, h.loss[len(h.loss)-1], u.tol) || !near(best, h.best, u.tol) {
		return fmt.Sprintf("loss %g best %g instead of %g %g", loss, best, h.loss[len(h.loss)-1], h.best)
	}
	if h.scores != nil && !nearSlice(u.scores(), h.scores, u.tol) {
		return fmt.Sprintf("validation scores %v instead of %v", u.scores(), h.scores)
	}
	return ""
}

// warm fits u from the weights of n and compares with the replay.
func warmFit(c *C, kind string, n *net, X, Y M, cf conf, form int) {
	u := newUnder(kind)
	if u.tol > 1e-6 {
		ambTol = 2e-3
		defer func() { ambTol = 1e-7 }()
	}
	h := train(n, X, Y, cf, nil, false, false)
	if h.ambiguous {
		return
	}
	if u.tol > 1e-6 && (cf.iters > 9 || cf.iters > 3 && !cf.early && cf.lr > .2 || cf.lr > 1 || h.big > 4 || cf.solver == "adam" && h.minGrad < 1e-3) {
		return // float32 and float64 thresholds may differ
	}
	hidden := append([]int(nil), n.units[1:len(n.units)-1]...)
	u.set(cf, n.act, hidden, false, true, base.NewLockedSource(1))
	if err := u.load(n.dump(form%5 == 0)); err != nil {
		c.Must(false, "unmarshal", "Unmarshal: %v", err)
	}
	c.Must(nearSlice(u.weights(), n.values(), u.tol/100), "unmarshal", "weights %v after Unmarshal of %v", u.weights(), n.values())
	xa, sameX := args32(X, form)
	ya, sameY := args32(Y, form/3)
	u.fit(xa, ya)
	c.Steps(len(h.loss))
	c.Trace()
	c.Must(sameX() && sameY(), "training-data", "Fit altered the training data")
	if d := compare(c, u, h); d != "" {
		// the recorded defects, each by its exact effect
		known := func(sig, what string, stale, perParam bool) bool {
			hd := train(n, X, Y, cf, nil, stale, perParam)
			if hd.ambiguous || u.tol > 1e-6 && (hd.big > 4 || cf.solver == "adam" && hd.minGrad < 1e-3) {
				return true // diverges: the defect cannot be told apart
			}
			if compare(c, u, hd) != "" {
				return false
			}
			c.Fail(sig, "%s", what)
			return true
		}
		const short = "a batch shorter than the batch size also counts rows left over from the previous batch"
		const bias = "adam advances its bias correction once per parameter instead of once per update"
		if cf.solver != "adam" && h.short && known("stale-rows", short, true, false) {
			return
		}
		if cf.solver == "adam" && (known("adam-bias-correction", bias, false, true) || h.short && (known("adam-bias-correction", bias, true, true) || known("stale-rows", short, true, false))) {
			return
		}
		c.Must(false, "training-replay", "%s", d)
	}
	nf := fromWeights(n.units, n.act, n.out, u.weights())
	checkPredict(c, u, nf, X, nil, form)
	if n.out == "identity" {
		for j := range Y[0] {
			if len(distinct(Y.col(j))) < 2 {
				return // R2 of constant targets
			}
		}
	}
	if s, tie := nf.score(X, Y); !tie && math.Abs(s) < 100 {
		ys, _ := args32(Y, form/2)
		got := u.score(X.dense(), ys)
		c.Must(near(got, s, u.tol), "score", "score %g, the forward pass of the weights gives %g", got, s)
	}
}

// targets32 lists the admissible target matrices of an output kind.
// warmTwice fits u twice with warm start: the second call goes on from the weights of the first, with
// the moments of the optimizer started afresh.
func warmTwice(c *C, kind string, n *net, X, Y M, cf conf, form int) {
	u := newUnder(kind)
	u.set(cf, n.act, append([]int(nil), n.units[1:len(n.units)-1]...), false, true, base.NewLockedSource(1))
	if err := u.load(n.dump(false)); err != nil {
		c.Must(false, "unmarshal", "Unmarshal: %v", err)
	}
	ok, msg := false, ""
	for _, perParam := range []bool{false, true} { // true: the recorded defect of adam
		a := train(n, X, Y, cf, nil, false, perParam)
		b := train(a.n, X, Y, cf, nil, false, perParam)
		if a.ambiguous || b.ambiguous || u.tol > 1e-6 && (a.big > 4 || b.big > 4 || cf.solver == "adam" && (a.minGrad < 1e-3 || b.minGrad < 1e-3)) {
			return
		}
		if !perParam {
			xa, _ := args32(X, form)
			ya, _ := args32(Y, form/3)
			u.fit(xa, ya)
			u.fit(xa, ya)
			c.Steps(2 * cf.iters)
		}
		if w := u.weights(); nearSlice(w, b.n.values(), 2*u.tol) && nearHist(u.curve(), append(append([]float64(nil), a.loss...), b.loss...), 2*u.tol) {
			ok = true
		} else if !perParam {
			msg = fmt.Sprintf("weights %v loss curve %v, expected %v and %v then %v", w, u.curve(), b.n.values(), a.loss, b.loss)
		}
		if cf.solver != "adam" {
			break
		}
	}
	c.Must(ok, "warm-start", "after two fits: %s", msg)
	c.Trace()
}

func targets32(out string, rows, cols int, f func(Y M)) {
	switch out {
	case "identity":
		matrices(rows, cols, []float64{-1, .5}, func(m M) { f(m.copy()) })
	case "logistic":
		matrices(rows, 1, []float64{0, 1}, func(m M) { f(m.copy()) })
	default:
		intTuples(rows, cols, func(t []int) {
			Y := zerosM(rows, cols, 0)
			for i := range t {
				Y[i][t[i]] = 1
			}
			f(Y)
		})
	}
}

// lat32 is a lattice scaled so that the logistic outputs do not saturate.
func lat32(r, c, salt int) M {
	m := lattice(r, c, salt)
	for i := range m {
		for j := range m[i] {
			m[i][j] /= 4
		}
	}
	return m
}

func outsOf(out string) []int {
	switch out {
	case "identity":
		return []int{1, 2}
	case "logistic":
		return []int{1}
	}
	return []int{2, 3}
}

func c32(x *X) {
	acts := []string{"identity", "logistic", "tanh", "relu"}
	outs := []string{"identity", "logistic", "softmax"}
	hids := [][]int{{}, {1}, {2}, {2, 1}, {3, 2}}
	if x.Thorough() {
		hids = append(hids, []int{3}, []int{1, 2}, []int{2, 2, 1}, []int{1, 3, 2})
	}
	units := func(f int, hid []int, o int) []int {
		return append(append([]int{f}, hid...), o)
	}
	base0 := conf{solver: "sgd", lr: .125, sched: "constant", powerT: .5, alpha: 0, batch: 0, iters: 1, tol: 1e-4, noChange: 10, beta1: .9, beta2: .999, ep: 1e-8}

	// 1. one plain step from every small state: architecture x activation x output x rows x targets
	form := 0
	for _, hid := range hids {
		for _, act := range acts {
			if len(hid) == 0 && act != "relu" {
				continue
			}
			for _, out := range outs {
				for _, o := range outsOf(out) {
					for f := 1; f <= 2; f++ {
						for rows := 1; rows <= x.Pick(3, 4); rows++ {
							if o == 3 && rows > 3 {
								continue
							}
							targets32(out, rows, o, func(Y M) {
								for salt := 0; salt < x.Pick(2, 6); salt++ {
									X := lat32(rows, f, salt+rows)
									for bs := 1; bs <= rows; bs++ {
										for k, kind := range kindsFor(out) {
											form++
											fo := form
											if (form+k)%3 != 0 && kind == "Base64" {
												continue
											}
											cf := base0
											cf.batch = bs
											cf.alpha = []float64{0, .5}[salt%2]
											n := newNet(units(f, hid, o), act, out, salt*7+rows)
											kind := kind
											x.Case("one step "+out, func() string {
												return fmt.Sprintf("one step %s units=%v %s/%s w=%v X=%v Y=%v %v form=%d", kind, n.units, act, out, n.values(), X, Y, cf, fo%12)
											}, func(c *C) { warmFit(c, kind, n, X, Y, cf, fo) })
										}
									}
								}
							})
						}
					}
				}
			}
		}
	}
	// 1b. two fits in a row with warm start
	for _, hid := range hids[1:4] {
		for _, act := range acts {
			for _, out := range outs {
				for salt := 0; salt < x.Pick(3, 8); salt++ {
					for vi, cf := range []conf{
						{solver: "sgd", momentum: .9, batch: 2}, {solver: "sgd", momentum: .5, nesterov: true, batch: 4},
						{solver: "sgd", momentum: .9, batch: 4}, {solver: "adam", batch: 2},
					} {
						cf.lr, cf.sched, cf.powerT, cf.tol, cf.noChange, cf.iters = .0625, "constant", .5, 1e-4, 50, 1+vi%2+salt%2
						cf.beta1, cf.beta2, cf.ep, cf.alpha = .9, .999, 1e-8, []float64{0, .25}[salt%2]
						o := outsOf(out)[salt%len(outsOf(out))]
						n := newNet(units(2, hid, o), act, out, salt*5+vi)
						X := lat32(4, 2, salt+3)
						ti, pick := 0, 1+7*salt+vi
						targets32(out, 4, o, func(Y M) {
							ti++
							if ti%pick != 0 || ti > 3*pick {
								return
							}
							for _, kind := range kindsFor(out) {
								kind, cf := kind, cf
								x.Case("warm start twice", func() string {
									return fmt.Sprintf("warm start twice %s units=%v %s/%s w=%v X=%v Y=%v %v", kind, n.units, act, out, n.values(), X, Y, cf)
								}, func(c *C) { warmTwice(c, kind, n, X, Y, cf, salt+vi) })
							}
						})
					}
				}
			}
		}
	}
	// 1c. decisions close to the threshold
	for _, kind := range kindsFor("logistic") {
		for _, hid := range [][]int{{}, {2}} {
			for k := -6; k <= 6; k++ {
				kind := kind
				n := newNet(units(1, hid, 1), "relu", "logistic", 1)
				for _, p := range n.packed() {
					*p = 0
				}
				n.b[len(n.b)-1][0] = float64(k) * 1e-3
				x.Case("threshold", func() string { return fmt.Sprintf("threshold %s w=%v", kind, n.values()) }, func(c *C) {
					u := newUnder(kind)
					cf := base0
					cf.lr = 1e-12
					u.set(cf, n.act, hid, false, true, base.NewLockedSource(1))
					if err := u.load(n.dump(false)); err != nil {
						c.Must(false, "unmarshal", "Unmarshal: %v", err)
					}
					u.fit(M{{1}, {2}}.dense(), M{{0}, {1}}.dense()) // a step too small to matter
					if k != 0 {
						checkPredict(c, u, n, M{{0}, {1}, {-3}}, nil, 0)
					}
					c.Steps(2)
					c.Trace()
				})
			}
		}
	}
	// 2. the reference gradient is the derivative of the reference loss (binds the oracle itself)
	for _, hid := range hids {
		for _, act := range acts {
			for _, out := range outs {
				for _, o := range outsOf(out) {
					for salt := 0; salt < 4; salt++ {
						n := newNet(units(2, hid, o), act, out, salt)
						X := lat32(3, 2, salt+1)
						ti := 0
						targets32(out, 3, o, func(Y M) {
							ti++
							if ti%5 != 1 {
								return
							}
							x.Case("oracle", func() string {
								return fmt.Sprintf("oracle units=%v %s/%s salt=%d Y=%v", n.units, act, out, salt, Y)
							}, func(c *C) {
								bu := n.buffers(3)
								_, g := n.backprop(bu, X, Y, .3, false)
								if bu.kink {
									return
								}
								G := g.values()
								for i := range G {
									m := n.copy()
									p := m.packed()[i]
									v := *p
									*p = v + 1e-5
									a := m.loss(X, Y, .3)
									*p = v - 1e-5
									b := m.loss(X, Y, .3)
									c.Must(near((a-b)/2e-5, G[i], 1e-5), "oracle", "derivative %d is %g, reference gradient %g", i, (a-b)/2e-5, G[i])
								}
							})
						})
					}
				}
			}
		}
	}
	// 3. every setting of the solver over several epochs
	var confs []conf
	for _, lr := range []float64{.03125, .5} {
		for _, sched := range []string{"constant", "invscaling", "adaptive"} {
			for _, mo := range []float64{0, .5} {
				for _, ne := range []bool{false, true} {
					if mo == 0 && ne {
						continue
					}
					for _, al := range []float64{0, .25} {
						for _, de := range []float64{0, .0625} {
							for _, it := range []int{1, 3, 9} {
								for _, nc := range []int{1, 2} {
									if it < 4 && nc > 1 {
										continue
									}
									cf := base0
									cf.lr, cf.sched, cf.momentum, cf.nesterov, cf.alpha, cf.decay, cf.iters, cf.noChange = lr, sched, mo, ne, al, de, it, nc
									cf.tol = []float64{1e-4, .25}[it%2]
									if it == 9 {
										cf.tol = []float64{.01, .25}[nc-1]
									}
									confs = append(confs, cf)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, lr := range []float64{1e-6, 4e-6, 2e-5} { // the adaptive schedule gives up below 1e-6
		cf := base0
		cf.lr, cf.sched, cf.iters, cf.noChange, cf.tol = lr, "adaptive", 12, 1, .25
		confs = append(confs, cf)
		cf.noChange, cf.alpha, cf.iters = 2, .25, 9
		confs = append(confs, cf)
	}
	adam := base0
	adam.solver, adam.lr = "adam", .0625
	for _, b1 := range []float64{.5, .9} {
		for _, al := range []float64{0, .25} {
			for _, it := range []int{1, 2, 5} {
				cf := adam
				cf.beta1, cf.beta2, cf.alpha, cf.iters = b1, []float64{.75, .999}[it%2], al, it
				cf.tol, cf.noChange = .05, 1
				confs = append(confs, cf)
			}
		}
	}
	for ci, cf := range confs {
		for _, hid := range hids[:4] {
			for _, act := range acts {
				if len(hid) == 0 && act != "relu" {
					continue
				}
				for _, out := range outs {
					o := outsOf(out)[ci%len(outsOf(out))]
					for salt := 0; salt < x.Pick(1, 4); salt++ {
						rows := 2 + (ci+salt)%4
						X := lat32(rows, 1+(ci+salt)%2, salt+ci)
						n := newNet(units(1+(ci+salt)%2, hid, o), act, out, salt*5+ci)
						cnt := 0
						targets32(out, rows, o, func(Y M) {
							cnt++
							if (cnt+ci)%x.Pick(9, 3) != 0 {
								return
							}
							for bs := 0; bs <= rows+1; bs++ {
								form++
								fo := form
								cf := cf
								cf.batch = bs
								kind := kindsFor(out)[form%3]
								x.Case("epochs "+cf.solver, func() string {
									return fmt.Sprintf("epochs %s units=%v %s/%s w=%v X=%v Y=%v %v form=%d", kind, n.units, act, out, n.values(), X, Y, cf, fo%12)
								}, func(c *C) { warmFit(c, kind, n, X, Y, cf, fo) })
							}
						})
					}
				}
			}
		}
	}
	// 4. early stopping on held-out last rows
	for _, hid := range hids[:3] {
		for _, act := range acts[1:] {
			for _, out := range outs {
				o := outsOf(out)[0]
				for _, frac := range []float64{.25, .5} {
					for _, lr := range []float64{.125, 1} {
						for _, it := range []int{1, 2, 6} {
							for salt := 0; salt < x.Pick(2, 5); salt++ {
								rows := 5 + salt%2
								X := lat32(rows, 2, salt+3)
								n := newNet(units(2, hid, o), act, out, salt*3+it)
								cnt := 0
								targets32(out, rows, o, func(Y M) {
									cnt++
									if cnt%x.Pick(7, 3) != 0 {
										return
									}
									test := int(math.Ceil(frac * float64(rows)))
									if out == "identity" && len(distinct(Y[rows-test:].col(0))) < 2 {
										return // R2 of constant targets
									}
									form++
									fo := form
									cf := base0
									cf.early, cf.frac, cf.lr, cf.iters, cf.noChange, cf.tol = true, frac, lr, it, []int{1, 1, 3, 7, 2}[form%5], .001
									cf.batch = []int{1, 2, rows - test, 3}[form%4]
									cf.sched = []string{"constant", "invscaling", "adaptive"}[(form/4)%3]
									kind := kindsFor(out)[form%3]
									x.Case("early stopping", func() string {
										return fmt.Sprintf("early stopping %s units=%v %s/%s w=%v X=%v Y=%v %v form=%d", kind, n.units, act, out, n.values(), X, Y, cf, fo%12)
									}, func(c *C) { warmFit(c, kind, n, X, Y, cf, fo) })
								})
							}
						}
					}
				}
			}
		}
	}
	// 5. more rows, wider layers: the default batch size, several batches per epoch, held-out rows
	for ri, rows := range []int{17, 33, 101, 130, 202, 450} {
		for hi, hid := range [][]int{{}, {3}, {20}, {7, 3}, {9, 33}} {
			for _, out := range outs {
				for k := 0; k < x.Pick(12, 48); k++ {
					act := acts[k%len(acts)]
					o := outsOf(out)[k%len(outsOf(out))]
					if out == "softmax" && k%3 == 2 {
						o = 11
					}
					nf := 1 + (k+ri)%5
					X := lat32(rows, nf, k+ri)
					Y := lattice(rows, o, k+hi)
					for i := range Y {
						for j := range Y[i] {
							Y[i][j] /= 8
						}
						switch out {
						case "logistic":
							Y[i][0] = float64((int(Y[i][0]*32) + 64) % 2)
						case "identity":
						default:
							t := (int(Y[i][0]*32) + 64) % o
							Y[i] = make([]float64, o)
							Y[i][t] = 1
						}
					}
					cf := base0
					cf.sched = []string{"constant", "invscaling", "adaptive"}[k%3]
					cf.lr, cf.momentum, cf.nesterov = .03125, []float64{0, .5}[k%2], k%4 == 3
					cf.alpha, cf.decay = []float64{0, .25, 1}[(k+hi)%3], []float64{0, .0625}[(k/2)%2]
					cf.batch = []int{0, 32, 200, 16, rows, 0, 1}[(k+ri)%7]
					cf.iters, cf.noChange, cf.tol = 1+k%4, []int{1, 2, 1, 10, 1}[(k+hi+ri)%5], .001
					if k%5 == 4 {
						cf.solver, cf.lr = "adam", .0625
					}
					cf.early = k%3 != 0
					cf.frac = []float64{.1, .25, .3}[k%3]
					n := newNet(units(nf, hid, o), act, out, k+hi)
					kind := kindsFor(out)[(k+hi)%3]
					form++
					fo := form
					x.Case("larger", func() string {
						return fmt.Sprintf("larger %s units=%v %s/%s rows=%d k=%d %v form=%d", kind, n.units, act, out, rows, k, cf, fo%12)
					}, func(c *C) { warmFit(c, kind, n, X, Y, cf, fo) })
				}
			}
		}
	}
	c32fresh(x, base0, hids, acts)
	c32shuffle(x, base0)
	c32lbfgs(x, base0, hids, acts)
	c32general(x)
}

// labelSets lists label matrices that make the classifier binarize (not all 0/1).
func labelRows(rows int, f func(Y M)) {
	tuples(rows, []float64{0, 1, 3}, func(v []float64) {
		if len(distinct(v)) > 1 {
			f(colVec(append([]float64(nil), v...)))
		}
	})
}

// 5. fits from the network's own initialization: prediction = forward pass of the stored weights,
// labels, seeds, refits, serialization
func c32fresh(x *X, base0 conf, hids [][]int, acts []string) {
	// many classes, queries far away: the outputs saturate
	for ki, kind := range []string{"MLPClassifier", "Base64", "MLPClassifier"} {
		for _, hid := range [][]int{{}, {3}} {
			for ncl := 2; ncl <= 12; ncl++ {
				for seed := 0; seed < 4; seed++ {
					kind, hid, ncl, seed := kind, hid, ncl, seed
					x.Case("saturated", func() string {
						return fmt.Sprintf("saturated %s hidden=%v classes=%d seed=%d indicator=%v", kind, hid, ncl, seed, ki == 2)
					}, func(c *C) {
						X, Y := lat32(2*ncl, 2, seed+1), zerosM(2*ncl, 1, 0)
						for i := range Y {
							Y[i][0] = float64((i*5+seed)%ncl) + 2
						}
						classes := [][]float64{distinct(Y.col(0))}
						o := len(classes[0])
						if ki == 2 {
							T := zerosM(len(Y), ncl, 0)
							for i := range T {
								T[i][int(Y[i][0])-2] = 1
							}
							Y, classes, o = T, nil, ncl
						}
						if o < 2 {
							return
						}
						cf := base0
						cf.solver, cf.iters, cf.batch = "adam", 1+seed, 0
						u := newUnder(kind)
						u.set(cf, "relu", append([]int(nil), hid...), false, false, base.NewLockedSource(uint64(seed)))
						u.fit(X.dense(), Y.dense())
						n := fromWeights(append(append([]int{2}, hid...), o), "relu", "softmax", u.weights())
						c.Must(n != nil, "weights-of-units", "weights %v", u.weights())
						Q := X.copy()
						for _, d := range []M{{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}, {1, 0}, {0, -1}, {3, 2}, {-2, 5}}} {
							for _, r := range d {
								Q = append(Q, []float64{8192 * r[0], 8192 * r[1]})
							}
						}
						checkPredict(c, u, n, Q, classes, seed)
						c.Steps(2)
						c.Trace()
					})
				}
			}
		}
	}
	form := 0
	type job struct {
		kind string
		Y    M
	}
	for rows := 2; rows <= x.Pick(4, 5); rows++ {
		var jobs []job
		labelRows(rows, func(Y M) {
			jobs = append(jobs, job{"MLPClassifier", Y})
			if len(jobs)%3 == 0 {
				jobs = append(jobs, job{"Base64", Y}, job{"Base32", Y})
			}
		})
		cnt := 0
		matrices(rows, 2, []float64{0, 1, 2}, func(m M) {
			cnt++
			if cnt%x.Pick(41, 37) == 0 {
				jobs = append(jobs, job{"MLPClassifier", m.copy()})
			}
			if cnt%x.Pick(29, 31) == 0 {
				jobs = append(jobs, job{"MLPRegressor", m.copy()})
			}
		})
		tuples(rows, []float64{0, 1, .5}, func(v []float64) {
			jobs = append(jobs, job{"MLPRegressor", colVec(append([]float64(nil), v...))})
		})
		for _, j := range jobs {
			for _, solver := range []string{"sgd", "adam", "lbfgs"} {
				for seed := 0; seed < 2; seed++ {
					form++
					j, fo := j, form
					hid := hids[form%len(hids)]
					act := acts[(form/2)%4]
					X := lat32(rows, 1+form%2, form%7+1)
					cf := base0
					cf.solver, cf.iters, cf.batch = solver, 1+form%4, []int{0, rows, 1}[form%3]
					shuffle := form%2 == 0 && solver != "lbfgs"
					x.Case("fit "+solver, func() string {
						return fmt.Sprintf("fit %s hidden=%v %s X=%v Y=%v %v shuffle=%v seed=%d form=%d", j.kind, hid, act, X, j.Y, cf, shuffle, seed, fo%12)
					}, func(c *C) {
						build := func() *under {
							u := newUnder(j.kind)
							u.set(cf, act, append([]int(nil), hid...), shuffle, false, base.NewLockedSource(uint64(seed)))
							return u
						}
						u := build()
						xa, sameX := args32(X, fo)
						ya, sameY := args32(j.Y, fo/4)
						u.fit(xa, ya)
						c.Steps(1)
						c.Must(sameX() && sameY(), "training-data", "Fit altered the training data")
						if fo%8 == 0 { // there is nothing to go on from in the first fit
							w := newUnder(j.kind)
							w.set(cf, act, append([]int(nil), hid...), shuffle, true, base.NewLockedSource(uint64(seed)))
							w.fit(X.dense(), j.Y.dense())
							c.Must(nearSlice(w.weights(), u.weights(), u.tol), "warm-first", "the first fit with warm start gives %v, without %v", w.weights(), u.weights())
						}
						// what the outputs must be
						bin := true
						for _, r := range j.Y {
							for _, v := range r {
								bin = bin && (v == 0 || v == 1)
							}
						}
						var classes [][]float64
						o, out := len(j.Y[0]), "identity"
						if j.kind != "MLPRegressor" {
							if !bin {
								o = 0
								for k := range j.Y[0] {
									cl := distinct(j.Y.col(k))
									classes = append(classes, cl)
									o += len(cl)
								}
							}
							out = "softmax"
							if o == 1 {
								out = "logistic"
							}
						}
						if j.kind == "MLPClassifier" && !bin && len(classes) == 1 && len(classes[0]) < 2 {
							return
						}
						_, _, _, gotOut := u.info()
						c.Must(gotOut == out, "output-activation", "output activation %s, not %s", gotOut, out)
						un := append(append([]int{len(X[0])}, hid...), o)
						n := fromWeights(un, act, out, u.weights())
						c.Must(n != nil, "weights-of-units", "weights %v do not fit units %v", u.weights(), un)
						for _, v := range n.values() {
							c.Must(!isBad(v), "finite", "weights %v", n.values())
						}
						Q := append(X.copy(), lat32(3, len(X[0]), 5)...)
						checkPredict(c, u, n, Q, classes, fo/5)
						// the same seed gives the same network
						v := build()
						v.fit(X.dense(), j.Y.dense())
						c.Must(nearSlice(u.weights(), v.weights(), 0) && nearSlice(u.curve(), v.curve(), 0), "seed", "the same seed gives %v then %v", u.weights(), v.weights())
						// refit after other data (other sizes, other classes) equals a fresh fit
						w := newUnder(j.kind)
						w.set(cf, act, []int{2}, shuffle, false, base.NewLockedSource(9))
						other := lat32(rows+2, 3, 2)
						oy := zerosM(rows+2, 1, 0)
						for i := range oy {
							oy[i][0] = float64((i + fo) % 3)
						}
						w.fit(other.dense(), oy.dense())
						w.set(cf, act, append([]int(nil), hid...), shuffle, false, base.NewLockedSource(uint64(seed)))
						w.fit(X.dense(), j.Y.dense())
						c.Steps(3)
						c.Must(nearSlice(u.weights(), w.weights(), 0) && nearSlice(u.curve(), w.curve(), 0), "refit", "refit gives %v losses %v, a fresh fit %v losses %v", w.weights(), w.curve(), u.weights(), u.curve())
						checkPredict(c, w, n, Q, classes, fo)
						// serialized weights reproduce the outputs
						if classes == nil {
							z := newUnder(j.kind)
							if err := z.load(n.dump(fo%2 == 0)); err != nil {
								c.Must(false, "unmarshal", "%v", err)
							}
							if j.kind == "Base32" {
								z.tol = 2e-4
							}
							checkPredict(c, z, n, Q, nil, fo/2)
						}
						// score
						if len(distinct(j.Y.col(0))) > 1 && len(distinct(j.Y.col(len(j.Y[0])-1))) > 1 {
							var P M
							d := mat.NewDense(len(X), len(j.Y[0]), nil)
							u.predict(X.dense(), d)
							P = toM(d)
							want := 0.
							if out == "identity" {
								want = r2of(j.Y, P)
							} else {
								for i := range P {
									if nearSlice(P[i], j.Y[i], 0) {
										want += 1 / float64(len(P))
									}
								}
							}
							ys, _ := args32(j.Y, fo/7)
							c.Must(near(u.score(X.dense(), ys), want, math.Max(1e-9, u.tol/10)), "score", "score %g, the predictions give %g", u.score(X.dense(), j.Y.dense()), want)
						}
					})
				}
			}
		}
	}
	// initial weights: with a negligible step they are the initialization, inside the stated bound
	for _, hid := range hids {
		for _, act := range acts {
			for seed := 0; seed < x.Pick(6, 30); seed++ {
				for _, kind := range []string{"MLPRegressor", "Base32"} {
					x.Case("initialization", func() string { return fmt.Sprintf("initialization %s %v %s seed=%d", kind, hid, act, seed) }, func(c *C) {
						u := newUnder(kind)
						cf := base0
						cf.lr = 1e-15
						u.set(cf, act, append([]int(nil), hid...), false, false, base.NewLockedSource(uint64(seed)))
						X := lat32(3, 2, 1)
						Y := M{{.5}, {1}, {0}}
						if kind == "Base32" {
							Y = M{{0}, {1}, {0}}
						}
						u.fit(X.dense(), Y.dense())
						un := append(append([]int{2}, hid...), 1)
						n := fromWeights(un, act, "identity", u.weights())
						for l := range n.W {
							fac := 6.
							if act == "logistic" {
								fac = 2
							}
							bound := math.Sqrt(fac/float64(un[l]+un[l+1])) + 1e-6
							all := append([]float64(nil), n.b[l]...)
							for _, r := range n.W[l] {
								all = append(all, r...)
							}
							for _, v := range all {
								c.Must(math.Abs(v) <= bound, "bound", "initial weight %g beyond %g", v, bound)
							}
							c.Must(len(all) < 2 || len(distinct(all)) == len(all), "distinct", "initial weights %v of layer %d", all, l)
						}
					})
				}
			}
		}
	}
}

// 6. with shuffling, what Fit does is the replay of some order of the rows, each row once per epoch
func c32shuffle(x *X, base0 conf) {
	for rows := 2; rows <= x.Pick(4, 5); rows++ {
		for _, out := range []string{"identity", "logistic", "softmax"} {
			o := outsOf(out)[0]
			for _, hid := range [][]int{{}, {2}} {
				for epochs := 1; epochs <= 2; epochs++ {
					if epochs == 2 && rows > 4 {
						continue
					}
					for bs := 1; bs <= rows; bs++ {
						if rows%bs != 0 {
							continue // batches of the full size only
						}
						for seed := 0; seed < x.Pick(3, 10); seed++ {
							for _, kind := range kindsFor(out)[:2] {
								X := lat32(rows, 2, seed+2)
								for i := range X {
									X[i][0] += .25 * float64(i)
								}
								var Ys []M
								targets32(out, rows, o, func(Y M) { Ys = append(Ys, Y) })
								Y := Ys[(seed*5+bs)%len(Ys)]
								n := newNet(append(append([]int{2}, hid...), o), "tanh", out, seed+bs)
								cf := base0
								cf.batch, cf.iters = bs, epochs
								x.Case("shuffle", func() string {
									return fmt.Sprintf("shuffle %s units=%v %s X=%v Y=%v %v seed=%d", kind, n.units, out, X, Y, cf, seed)
								}, func(c *C) {
									u := newUnder(kind)
									u.set(cf, n.act, append([]int(nil), hid...), true, true, base.NewLockedSource(uint64(seed)))
									u.load(n.dump(false))
									xa, sameX := args32(X, seed)
									ya, sameY := args32(Y, seed+bs)
									u.fit(xa, ya)
									c.Must(sameX() && sameY(), "training-data", "Fit altered the training data")
									var perms [][]int
									permutations(rows, func(p []int) { perms = append(perms, append([]int(nil), p...)) })
									found := false
									for _, p := range perms {
										if epochs == 1 {
											found = found || compare(c, u, train(n, X, Y, cf, [][]int{p}, false, false)) == ""
										} else {
											for _, q := range perms {
												found = found || compare(c, u, train(n, X, Y, cf, [][]int{p, q}, false, false)) == ""
											}
										}
										if found {
											break
										}
									}
									c.Steps(len(perms))
									c.Trace()
									c.Must(found, "shuffled-rows", "the weights %v are not those of %d epoch(s) over the rows in any order", u.weights(), epochs)
								})
							}
						}
					}
				}
			}
		}
	}
	// different seeds do give different orders
	x.Case("shuffle seeds", func() string { return "shuffle seeds" }, func(c *C) {
		X, Y := lat32(6, 2, 3), M{{0}, {1}, {0}, {.5}, {1}, {2}}
		n := newNet([]int{2, 2, 1}, "tanh", "identity", 3)
		seen := map[string]bool{}
		for seed := uint64(0); seed < 12; seed++ {
			u := new64("MLPRegressor")
			cf := base0
			cf.batch, cf.iters = 1, 1
			u.set(cf, "tanh", []int{2}, true, true, base.NewLockedSource(seed))
			u.load(n.dump(false))
			u.fit(X.dense(), Y.dense())
			seen[fmt.Sprint(u.weights())] = true
		}
		c.Must(len(seen) > 6, "seeds", "12 seeds give %d orders", len(seen))
	})
	// early stopping with shuffling: the held-out rows do not take part in training. With full
	// batches of the training rows the result is the replay for some choice of the held-out rows.
	for rows := 4; rows <= x.Pick(5, 6); rows++ {
		for _, test := range []int{1, 2} {
			for seed := 0; seed < x.Pick(8, 40); seed++ {
				for _, kind := range []string{"MLPClassifier", "Base64"} {
					X := lat32(rows, 2, seed+1)
					Y := zerosM(rows, 1, 0)
					for i := range X {
						X[i][1] += .25 * float64(i)
						Y[i][0] = float64((i*i + i*seed + seed) % 2)
					}
					x.Case("held-out rows", func() string {
						return fmt.Sprintf("held-out rows %s rows=%d test=%d seed=%d X=%v Y=%v", kind, rows, test, seed, X, Y)
					}, func(c *C) {
						n := newNet([]int{2, 2, 1}, "tanh", "logistic", seed)
						cf := base0
						cf.early, cf.frac = true, (float64(test)-.5)/float64(rows)
						cf.batch, cf.iters, cf.lr = 1, 1, .25
						u := newUnder(kind)
						u.set(cf, "tanh", []int{2}, true, true, base.NewLockedSource(uint64(seed)))
						u.load(n.dump(false))
						xa, sameX := args32(X, seed)
						ya, sameY := args32(Y, seed/3)
						u.fit(xa, ya)
						c.Must(sameX() && sameY(), "training-data", "Fit altered the training data")
						found := false
						permutations(rows, func(p []int) {
							if !found {
								// the order of the held-out rows does not matter
								for k := rows - test; k+1 < rows; k++ {
									if p[k] > p[k+1] {
										return
									}
								}
								q := append([]int(nil), p...)
								h := train(n, X.rows(q...), Y.rows(q...), cf, nil, false, false)
								c.Steps(1)
								found = nearSlice(u.weights(), h.n.values(), 1e-9)
							}
						})
						c.Must(found, "held-out-rows", "the weights %v are not those of one epoch over %d of the %d rows in any order", u.weights(), rows-test, rows)
					})
				}
			}
		}
	}
	// more rows, several epochs over full batches of the training rows: the order within an epoch
	// has no effect, so the result is the replay for some fixed choice of the training rows
	for _, dims := range [][2]int{{7, 3}, {8, 4}, {10, 6}, {12, 8}, {12, 9}, {16, 13}, {24, 22}, {9, 2}, {40, 38}} {
		rows, test := dims[0], dims[1]
		for _, iters := range []int{2, 3, 5} {
			for seed := 0; seed < x.Pick(3, 20); seed++ {
				for _, kind := range []string{"MLPClassifier", "Base64"} {
					X := lat32(rows, 2, seed+1)
					Y := zerosM(rows, 1, 0)
					for i := range X {
						X[i][1] += .25 * float64(i)
						Y[i][0] = float64((i*i + i*seed + seed) % 2)
					}
					x.Case("held-out rows, epochs", func() string {
						return fmt.Sprintf("held-out rows, epochs %s rows=%d test=%d iters=%d seed=%d", kind, rows, test, iters, seed)
					}, func(c *C) {
						n := newNet([]int{2, 2, 1}, "tanh", "logistic", seed)
						cf := base0
						cf.early, cf.frac = true, (float64(test)-.5)/float64(rows)
						cf.batch, cf.iters, cf.lr, cf.noChange, cf.tol = rows-test, iters, .25, 50, -1e9
						u := newUnder(kind)
						u.set(cf, "tanh", []int{2}, true, true, base.NewLockedSource(uint64(seed)))
						u.load(n.dump(false))
						xa, _ := args32(X, seed)
						ya, _ := args32(Y, seed/3)
						u.fit(xa, ya)
						found := false
						forSubsets(rows, rows-test, func(in []int) {
							if found {
								return
							}
							held := make([]bool, rows)
							for _, i := range in {
								held[i] = true
							}
							q := append([]int(nil), in...)
							for i := range held {
								if !held[i] {
									q = append(q, i)
								}
							}
							h := train(n, X.rows(q...), Y.rows(q...), cf, nil, false, false)
							c.Steps(1)
							found = nearSlice(u.weights(), h.n.values(), 1e-9)
						})
						c.Must(found, "held-out-rows", "the weights %v are not those of %d epochs over any %d of the %d rows", u.weights(), iters, rows-test, rows)
					})
				}
			}
		}
	}
}

// 7. lbfgs: the reported loss is the loss of the stored weights, never above the initial one, and
// stationary for convex problems
func c32lbfgs(x *X, base0 conf, hids [][]int, acts []string) {
	for hi, hid := range hids[:4] {
		for ai, act := range acts {
			if hi == 0 && ai > 0 {
				continue
			}
			for _, out := range []string{"identity", "logistic", "softmax"} {
				for _, o := range outsOf(out) {
					for _, iters := range []int{1, 2, 3, 7, 20, 500} {
						for _, alpha := range []float64{.5, 0.01} {
							for salt := 0; salt < x.Pick(2, 6); salt++ {
								rows := 3 + salt%2
								X := lat32(rows, 2, salt+1)
								n := newNet(append(append([]int{2}, hid...), o), act, out, salt+3)
								cnt := 0
								targets32(out, rows, o, func(Y M) {
									cnt++
									if cnt%9 != 1+salt {
										return
									}
									kind := kindsFor(out)[cnt%2]
									x.Case("lbfgs", func() string {
										return fmt.Sprintf("lbfgs %s units=%v %s/%s w=%v X=%v Y=%v iters=%d alpha=%g", kind, n.units, act, out, n.values(), X, Y, iters, alpha)
									}, func(c *C) {
										u := newUnder(kind)
										cf := base0
										cf.solver, cf.iters, cf.alpha, cf.tol, cf.noChange = "lbfgs", iters, alpha, 1e-10, 30
										u.set(cf, act, append([]int(nil), hid...), false, true, base.NewLockedSource(1))
										u.load(n.dump(false))
										u.fit(X.dense(), Y.dense())
										c.Steps(len(u.curve()))
										m := fromWeights(n.units, act, out, u.weights())
										_, loss, best, _ := u.info()
										at := m.loss(X, Y, alpha)
										l0 := n.loss(X, Y, alpha)
										c.Must(near(loss, at, 1e-8), "loss-of-weights", "reported loss %g, loss of the stored weights %g", loss, at)
										c.Must(at <= l0+1e-9, "descent", "loss %g above the initial %g", at, l0)
										c.Must(len(u.curve()) > 0 && near(u.curve()[0], l0, 1e-8), "initial-loss", "first loss %v, initial loss %g", u.curve(), l0)
										mn := math.Inf(1)
										for _, v := range u.curve() {
											mn = math.Min(mn, v)
										}
										c.Must(near(mn, best, 1e-12), "best", "best loss %g, curve %v", best, u.curve())
										c.Must(iters < 500 || len(hid) > 0 || at <= mn+1e-6*(1+math.Abs(mn)), "best", "the stored weights have loss %g, the best evaluated is %g", at, mn)
										if len(hid) == 0 && iters == 500 {
											bu := m.buffers(rows)
											_, g := m.backprop(bu, X, Y, alpha, false)
											for _, v := range g.values() {
												c.Must(math.Abs(v) < 2e-3, "stationary", "gradient %v after lbfgs (loss %g)", g.values(), at)
											}
										}
									})
								})
							}
						}
					}
				}
			}
		}
	}
}

// 8. the matrix helpers of the package, label binarizers
func c32general(x *X) {
	for r := 1; r <= 3; r++ {
		for cc := 1; cc <= 3; cc++ {
			for pad := 0; pad < 3; pad++ {
				for tight := 0; tight < 2; tight++ {
					m := lat32(r, cc, r+cc+pad)
					x.Case("General", func() string { return fmt.Sprintf("General %dx%d stride %d tight=%d", r, cc, cc+pad, tight) }, func(c *C) {
						st := cc + pad
						size := r * st
						if tight == 1 {
							size = (r-1)*st + cc
						}
						d := make([]float64, size)
						f := make([]float32, size)
						for i := range d {
							d[i], f[i] = 77, 77
						}
						g := nn.General64{Rows: r, Cols: cc, Stride: st, Data: d}
						h := nn.General32{Rows: r, Cols: cc, Stride: st, Data: f}
						for i := range m {
							for j := range m[i] {
								g.Set(i, j, m[i][j])
								h.Set(i, j, m[i][j])
							}
						}
						same := func(name string, a mat.Matrix, w M) { c.Must(nearM(toM(a), w, 1e-6), name, "%v, not %v", toM(a), w) }
						mt := zerosM(cc, r, 0)
						for i := range m {
							for j := range m[i] {
								mt[j][i] = m[i][j]
							}
						}
						same("at", g, m)
						same("at", h, m)
						same("transpose", g.T(), mt)
						same("transpose", h.T(), mt)
						same("transpose", g.T().T(), m)
						for i := 0; i < r; i++ {
							for j := i + 1; j <= r; j++ {
								same("row-slice", g.RowSlice(i, j), m[i:j])
								same("row-slice", h.RowSlice(i, j), m[i:j])
								for a := 0; a < cc; a++ {
									for b := a + 1; b <= cc; b++ {
										var w M
										for _, row := range m[i:j] {
											w = append(w, row[a:b])
										}
										same("slice", g.Slice(i, j, a, b), w)
										same("slice", h.Slice(i, j, a, b), w)
									}
								}
							}
							c.Must(nearSlice(g.RawRowView(i), m[i], 0), "row-view", "%v", g.RawRowView(i))
						}
						for _, src := range []mat.Matrix{g, h, m.dense(), roMat{m}, tightView(m), &g, &h} {
							for _, pre := range []int{0, r * cc, r*cc + 4} {
								g2 := nn.General64{Data: make([]float64, pre)}
								g2.Copy(src)
								same("copy", g2, m)
								h2 := nn.General32{Data: make([]float32, pre)}
								h2.Copy(src)
								same("copy", h2, m)
							}
							same("to-dense", nn.ToDense64(src), m)
							same("to-dense", nn.ToDense32(src), m)
						}
						dst := rwMat{zerosM(r, cc, 0)}
						nn.FromDense64(dst, g)
						same("from-dense", dst, m)
						dst = rwMat{zerosM(r, cc, 0)}
						nn.FromDense32(dst, h)
						same("from-dense", dst, m)
						dd := mat.NewDense(r, cc, nil)
						nn.FromDense64(dd, g)
						same("from-dense", dd, m)
						s64 := nn.General64{Rows: 1, Cols: cc, Stride: cc, Data: make([]float64, cc)}
						s64.SumRows(g)
						s32 := nn.General32{Rows: 1, Cols: cc, Stride: cc, Data: make([]float32, cc)}
						s32.SumRows(h)
						sum := zerosM(1, cc, 0)
						for i := range m {
							for j := range m[i] {
								sum[0][j] += m[i][j]
							}
						}
						same("sum-rows", s64, sum)
						same("sum-rows", s32, sum)
						for i := 0; i < r; i++ {
							for j := 0; j < r; j++ {
								g.Swap(i, j)
								h.Swap(i, j)
								w := m.copy()
								w[i], w[j] = w[j], w[i]
								same("swap", g, w)
								same("swap", h, w)
								g.Swap(i, j)
								h.Swap(i, j)
								if cc == 1 {
									c.Must(g.Less(i, j) == (m[i][0] < m[j][0]) && h.Less(i, j) == (m[i][0] < m[j][0]), "less", "Less(%d,%d)", i, j)
								}
							}
						}
						for i, v := range d {
							if i%st >= cc {
								c.Must(v == 77 && f[i] == 77, "padding", "padding written")
							}
						}
						c.Must(g.Len() == r && h.Len() == r, "len", "Len")
					})
				}
			}
		}
	}
	// label binarizers: one column per class of each label column, inverse gives the labels back
	for r := 1; r <= 3; r++ {
		for cc := 1; cc <= 3; cc++ {
			if r*cc > 6 {
				continue
			}
			matrices(r, cc, []float64{-1, 0, 1, 2.5}[:x.Pick(3, 4)], func(mm M) {
				m := mm.copy()
				x.Case("LabelBinarizer", func() string { return fmt.Sprintf("LabelBinarizer %v", m) }, func(c *C) {
					var want M
					var classes [][]float64
					for j := range m[0] {
						classes = append(classes, distinct(m.col(j)))
					}
					for i := range m {
						var row []float64
						for j := range m[i] {
							for _, cl := range classes[j] {
								v := 0.
								if cl == m[i][j] {
									v = 1
								}
								row = append(row, v)
							}
						}
						want = append(want, row)
					}
					l := nn.NewLabelBinarizer64(0, 1)
					_, yb := l.FitTransform(m.dense(), roMat{m})
					c.Must(nearM(toM(yb), want, 0), "binarize", "%v, not %v", toM(yb), want)
					_, back := l.InverseTransform(nn.General64{}, yb)
					c.Must(nearM(toM(back), m, 0), "inverse", "inverse %v of %v", toM(back), m)
					l3 := nn.NewLabelBinarizer32(0, 1)
					_, yb3 := l3.FitTransform(m.dense(), m.dense())
					c.Must(nearM(toM(yb3), want, 0), "binarize", "%v, not %v", toM(yb3), want)
					_, back3 := l3.InverseTransform(nn.General32{}, yb3)
					c.Must(nearM(toM(back3), m, 1e-6), "inverse", "inverse %v of %v", toM(back3), m)
					c.Steps(4)
				})
			})
		}
	}
}

// forSubsets visits the subsets of size k of 0..n-1 in increasing order.
func forSubsets(n, k int, f func(in []int)) {
	in := make([]int, 0, k)
	var rec func(from int)
	rec = func(from int) {
		if len(in) == k {
			f(in)
			return
		}
		for i := from; i <= n-(k-len(in)); i++ {
			in = append(in, i)
			rec(i + 1)
			in = in[:len(in)-1]
		}
	}
	rec(0)
}
