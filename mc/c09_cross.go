//go:build all || C09 || C10 || C11

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// The registry of everything that can be fitted. Every entry is explored by C09 (clones), C10 (storage and inputs) and
// C11 (refitting).

type data09 struct{ X, Y, Q, QY M }

type entry09 struct {
	name string
	mk   func() interface{}
	// cfgs[0] is the configuration mk gives; the others set every hyperparameter they mention
	cfgs []func(v interface{})
	seed func(v interface{}) // gives v a fresh random source, always the same
	data []data09
	tol  float64
	noY  bool // fitted without Y
	noRe bool // only used for cloning: it can not be refitted
	warm bool // continues from the previous fit: only used for cloning
}

func (e *entry09) fresh(cfg int) interface{} {
	v := e.mk()
	if cfg > 0 {
		e.cfgs[cfg](v)
	}
	if e.seed != nil {
		e.seed(v)
	}
	return v
}

type fiter09 interface {
	Fit(X, Y mat.Matrix) base.Fiter
}

func fit09(v interface{}, X, Y mat.Matrix) {
	switch m := v.(type) {
	case fiter09:
		m.Fit(X, Y)
	case *neighbors.NearestNeighbors:
		m.Fit(X, Y)
	case interface{ Fit(X, Y nn.Matrix) }:
		m.Fit(X, Y)
	default:
		panic(fmt.Sprintf("%T has no Fit", v))
	}
}

func clone09(v interface{}) (interface{}, bool) {
	switch m := v.(type) {
	case interface{ PredicterClone() base.Predicter }:
		return m.PredicterClone(), true
	case interface{ TransformerClone() base.Transformer }:
		return m.TransformerClone(), true
	}
	return nil, false
}

// inverse09 applies whatever inverse v has.
func inverse09(v interface{}, X, Y *mat.Dense) (a, b mat.Matrix, ok bool) {
	switch m := v.(type) {
	case *pp.MultiLabelBinarizer:
		xo, yo := m.InverseTransform(X, Y)
		return xo, yo.(*mat.Dense), true
	case interface {
		InverseTransform(X, Y *mat.Dense) (*mat.Dense, *mat.Dense)
	}:
		xo, yo := m.InverseTransform(X, Y)
		return xo, yo, true
	case interface {
		InverseTransform(X mat.Matrix, Y mat.Mutable) (*mat.Dense, *mat.Dense)
	}:
		if k, isK := v.(*pp.KBinsDiscretizer); isK && k.Encode != "ordinal" {
			return nil, nil, false
		}
		xo, yo := m.InverseTransform(X, Y)
		return xo, yo, true
	case interface {
		InverseTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
	}:
		xo, yo := m.InverseTransform(X, Y)
		return xo, yo, true
	}
	return nil, nil, false
}

func m09(a mat.Matrix) M {
	if a == nil {
		return nil
	}
	if d, ok := a.(*mat.Dense); ok && (d == nil || d.IsEmpty()) {
		return nil
	}
	return toM(a)
}

// obs is what can be seen of an object: named values, each a string (for structure) and numbers.
type obs struct {
	names []string
	vals  map[string][]float64
}

func (o *obs) put(name string, v ...float64) {
	if o.vals == nil {
		o.vals = map[string][]float64{}
	}
	if _, dup := o.vals[name]; !dup {
		o.names = append(o.names, name)
	}
	o.vals[name] = append([]float64(nil), v...)
}
func (o *obs) putM(name string, m M) {
	var v []float64
	r, c := m.dims()
	for i := range m {
		v = append(v, m[i]...)
	}
	o.put(fmt.Sprintf("%s[%dx%d]", name, r, c), v...)
}

func same09(a, b float64, tol float64) bool {
	if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// diff describes the first difference between two observations, or is empty.
func (o *obs) diff(p *obs, tol float64) string {
	for _, n := range o.names {
		w, ok := p.vals[n]
		if !ok {
			alt := ""
			for _, m := range p.names {
				if strings.SplitN(m, "[", 2)[0] == strings.SplitN(n, "[", 2)[0] {
					alt = m
				}
			}
			return fmt.Sprintf("%s only on one side (other has %s)", n, alt)
		}
		v := o.vals[n]
		if len(v) != len(w) {
			return fmt.Sprintf("%s: %v and %v", n, v, w)
		}
		for i := range v {
			if !same09(v[i], w[i], tol) {
				return fmt.Sprintf("%s: %v and %v", n, v, w)
			}
		}
	}
	for _, n := range p.names {
		if _, ok := o.vals[n]; !ok {
			return n + " only on one side"
		}
	}
	return ""
}

var sourceType = reflect.TypeOf((*base.Source)(nil)).Elem()

// dump records the exported fields reachable from v, except random sources and functions.
func (o *obs) dump(path string, v reflect.Value, depth int) {
	if depth > 9 || !v.IsValid() {
		return
	}
	if v.CanInterface() && v.Kind() != reflect.Func {
		if v.Type().Implements(sourceType) || (v.Kind() == reflect.Interface && !v.IsNil() && v.Elem().Type().Implements(sourceType)) {
			return
		}
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			switch d := v.Interface().(type) {
			case *mat.Dense:
				o.putM(path, m09(d))
				return
			case *mat.Cholesky:
				o.try(path, func() {
					var u mat.TriDense
					d.UTo(&u)
					o.putM(path, toM(&u))
				})
				return
			case mat.Matrix:
				o.putM(path, toM(d))
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		b := 0.
		if v.Bool() {
			b = 1
		}
		o.put(path, b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		o.put(path, float64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		o.put(path, float64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		o.put(path, v.Float())
	case reflect.String:
		o.put(path + "=" + v.String())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			o.put(path + "=nil")
			return
		}
		o.dump(path, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Float64 {
			var f []float64
			for i := 0; i < v.Len(); i++ {
				f = append(f, v.Index(i).Float())
			}
			o.put(fmt.Sprintf("%s[%d]", path, v.Len()), f...)
			return
		}
		o.put(fmt.Sprintf("%s.len", path), float64(v.Len()))
		for i := 0; i < v.Len() && i < 40; i++ {
			o.dump(fmt.Sprintf("%s.%d", path, i), v.Index(i), depth+1)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			o.dump(fmt.Sprintf("%s.%v", path, k), v.MapIndex(k), depth+1)
		}
	case reflect.Struct:
		t := v.Type()
		if strings.Contains(t.PkgPath(), "gonum.org") {
			return // optimizers and decompositions keep private working storage
		}
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "RandomState" || f.Name == "Tmp" {
				continue
			}
			if g := gen09(t, v.Field(i)); g != nil {
				o.putM(path+"."+f.Name, g)
				continue
			}
			o.dump(path+"."+f.Name, v.Field(i), depth+1)
		}
	}
}

// gen09 turns blas-like structs (Rows, Cols, Stride, Data) into their contents.
func gen09(_ reflect.Type, v reflect.Value) M {
	if v.Kind() != reflect.Struct {
		return nil
	}
	R, C, S, D := v.FieldByName("Rows"), v.FieldByName("Cols"), v.FieldByName("Stride"), v.FieldByName("Data")
	if !R.IsValid() || !C.IsValid() || !S.IsValid() || !D.IsValid() || D.Kind() != reflect.Slice {
		return nil
	}
	m := M{}
	for i := 0; i < int(R.Int()); i++ {
		var row []float64
		for j := 0; j < int(C.Int()); j++ {
			row = append(row, D.Index(i*int(S.Int())+j).Float())
		}
		m = append(m, row)
	}
	return m
}

func (o *obs) try(name string, f func()) {
	if err := catch(f); err != nil {
		o.put(name + "=panic")
	}
}

// observe looks at everything v offers, on the queries of d.
func observe(v interface{}, d data09, fitted ...bool) *obs {
	o := &obs{}
	o.dump("", reflect.ValueOf(v), 0)
	if len(fitted) > 0 && !fitted[0] {
		return o // using an unfitted object is not supported
	}
	Q, QY := d.Q, d.QY
	if m, ok := v.(base.Predicter); ok {
		o.try("Predict", func() { o.putM("Predict", m09(m.Predict(Q.dense(), nil))) })
		o.try("GetNOutputs", func() { o.put("GetNOutputs", float64(m.GetNOutputs())) })
		o.try("Score", func() { o.put("Score", m.Score(Q.dense(), QY.dense())) })
		o.try("IsClassifier", func() { o.put(fmt.Sprint("IsClassifier=", m.IsClassifier())) })
	}
	proba(o, v, Q.dense(), nil)
	if m, ok := v.(interface {
		Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
	}); ok {
		o.try("Transform", func() {
			a, b := m.Transform(Q.dense(), QY.dense())
			o.putM("Transform.X", m09(a))
			o.putM("Transform.Y", m09(b))
			c, e, ok := inverse09(v, a, b)
			if ok {
				o.putM("Inverse.X", m09(c))
				o.putM("Inverse.Y", m09(e))
			}
		})
	}
	return o
}

// proba records the other prediction functions; into is where they are to write, or nil.
func proba(o *obs, v interface{}, Q *mat.Dense, into func(r, c int) *mat.Dense) {
	r, _ := Q.Dims()
	if into == nil {
		into = func(r, c int) *mat.Dense { return mat.NewDense(r, c, nil) }
	}
	switch m := v.(type) {
	case interface {
		PredictProbas(X mat.Matrix, Y mat.Mutable) *mat.Dense
	}:
		o.try("PredictProbas", func() {
			p := m.PredictProbas(Q, nil)
			o.putM("PredictProbas", m09(p))
			r, c := p.Dims()
			Y := into(r, c)
			o.putM("PredictProbas.returned", m09(m.PredictProbas(Q, Y)))
			o.putM("PredictProbas.into", m09(Y))
			w := rwMat{zerosM(r, c, 3)}
			m.PredictProbas(Q, w)
			o.putM("PredictProbas.other", w.m)
		})
	case *neighbors.KNeighborsClassifier:
		o.try("PredictProba", func() {
			if len(m.Classes) == 1 {
				Y := into(r, len(m.Classes[0]))
				m.PredictProba(Q, Y)
				o.putM("PredictProba", m09(Y))
			}
		})
		o.try("KNeighbors", func() {
			a, b := m.KNeighbors(Q, 2)
			o.putM("KNeighbors.d", m09(a))
			o.putM("KNeighbors.i", m09(b))
		})
	case *neighbors.NearestCentroid:
		o.try("PredictProba", func() {
			Y := into(r, len(m.Classes[0]))
			m.PredictProba(Q, Y)
			o.putM("PredictProba", m09(Y))
		})
	case *neighbors.NearestNeighbors:
		o.try("KNeighbors", func() {
			a, b := m.KNeighbors(Q, 2)
			o.putM("KNeighbors.d", m09(a))
			o.putM("KNeighbors.i", m09(b))
			o.putM("Graph", m09(m.KNeighborsGraph(Q, 2, "distance", true)))
			c, e := m.RadiusNeighbors(Q, 3)
			for i := range c {
				o.put(fmt.Sprintf("Radius.d%d", i), c[i]...)
				o.put(fmt.Sprint("Radius.i", i, e[i]))
			}
		})
	case *lm.BayesianRidge:
		o.try("Predict2", func() {
			Y, S := into(r, m.GetNOutputs()), into(r, 1)
			m.Predict2(Q, Y, S)
			o.putM("Predict2.Y", m09(Y))
			o.putM("Predict2.S", m09(S))
		})
	case *gp.Regressor:
		o.try("LML", func() {
			l, g := m.LogMarginalLikelihood(m.Kernel.Theta(), true)
			o.put("LML", l)
			o.put("LML.grad", g...)
		})
	case interface {
		Predict(X mat.Matrix, Y nn.Mutable)
	}:
		n := v.(interface{ GetNOutputs() int })
		o.try("PredictBase", func() {
			Y := into(r, n.GetNOutputs())
			m.Predict(Q, Y)
			o.putM("PredictBase", m09(Y))
		})
	}
}

// ---- data ---------------------------------------------------------------------------------------

// deep09 adds data sets of more shapes.
var deep09 bool

func more09(ds []data09, label func(v float64, i int) float64) []data09 {
	if !deep09 {
		return ds
	}
	f := func(m M) M {
		for i := range m {
			for j := range m[i] {
				m[i][j] = label(m[i][j], i)
			}
		}
		return m
	}
	id := 20
	for _, n := range []int{5, 8, 13} {
		for p := 1; p <= 4; p++ {
			for _, k := range []int{1, 2, 3} {
				if k > 1 && label(.3, 0) != .3 { // single columns of labels
					continue
				}
				id += 3
				ds = append(ds, data09{lattice(n, p, id), f(lattice(n, k, id+1)), lattice(n, p, id+2), f(lattice(n, k, id+1))})
			}
		}
	}
	return ds
}

func asIs(v float64, _ int) float64   { return v }
func labels(_ float64, i int) float64 { return float64(i % 2) }

func regData() []data09 { return more09(regData0(), asIs) }
func clfData() []data09 { return more09(clfData0(), labels) }

func regData0() []data09 {
	return []data09{
		{M{{1, 2}, {3, -1}, {0, 4}, {2, 2.5}, {-1, .5}}, M{{1}, {3}, {2}, {5}, {-1.5}}, M{{1, 1}, {2, -2}, {0, 3}}, M{{2}, {1}, {3.5}}},
		{M{{-1, .5}, {2, 2}, {.25, 1}, {6, 3}, {4, -2}}, M{{0}, {1}, {1.5}, {-3}, {2}}, M{{0, 0}, {3, 2}, {1, -1}}, M{{1}, {0}, {2.5}}},
		{M{{1, 0, 2}, {0, 1, -1}, {1, 1, 3}, {2, 1, 0}, {-1, 2, 1}, {.5, -2, 1}}, M{{1, -1}, {2, 0}, {4, 1}, {8, 1.5}, {3, 3}, {-2, 1}}, M{{1, 2, 3}, {0, 0, 1}}, M{{1, 1}, {3, .5}}},
		{M{{1}, {4}, {2}, {-3}}, M{{2}, {-1}, {1}, {5}}, M{{0}, {2.5}, {5}}, M{{1}, {2}, {0}}},
	}
}

func clfData0() []data09 {
	return []data09{
		{M{{1, 2}, {3, -1}, {0, 4}, {2, 2.5}, {-1, .5}, {4, 0}}, M{{0}, {1}, {0}, {1}, {0}, {1}}, M{{1, 1}, {2, -2}, {0, 3}}, M{{0}, {1}, {0}}},
		{M{{-1, .5}, {2, 2}, {.25, 1}, {6, 3}, {4, -2}, {5, 5}, {0, -1}}, M{{1}, {2}, {1}, {5}, {2}, {5}, {1}}, M{{0, 0}, {3, 2}, {5, 4}}, M{{1}, {2}, {5}}},
		{M{{1, 0, 2}, {0, 1, -1}, {1, 1, 3}, {2, 1, 0}, {-1, 2, 1}, {.5, -2, 1}}, M{{1}, {0}, {1}, {1}, {0}, {0}}, M{{1, 2, 3}, {0, 0, 1}}, M{{1}, {0}}},
		{M{{1}, {4}, {2}, {-3}, {6}}, M{{0}, {2}, {0}, {0}, {2}}, M{{0}, {2.5}, {5}}, M{{0}, {2}, {0}}},
	}
}

func multiClf() data09 {
	return data09{M{{1, 2}, {3, -1}, {0, 4}, {2, 2.5}, {-1, .5}, {4, 0}}, M{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}}, M{{1, 1}, {2, -2}, {0, 3}}, M{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}
}

func pmData() (out []data09) {
	for i, d := range clfData0() {
		if i == 1 {
			continue
		}
		d.Y, d.QY = pm(d.Y), pm(d.QY)
		out = append(out, d)
	}
	d := multiClf()
	d.Y, d.QY = pm(d.Y), pm(d.QY)
	return append(out, d)
}

func pm(m M) M {
	m = m.copy()
	for i := range m {
		for j := range m[i] {
			if m[i][j] > 0 {
				m[i][j] = 1
			} else {
				m[i][j] = -1
			}
		}
	}
	return m
}

// trData: features and two label columns; intX uses small integers.
func trData() []data09 { return more09(trData0(), labels) }

func trData0() []data09 {
	return []data09{
		{M{{1, 2}, {3, -1}, {.5, 4}, {2, 2.5}, {-1, .5}}, M{{1}, {2}, {1}, {0}, {2}}, M{{1, 1}, {2, -2}, {.25, 3}, {1.5, 4}, {0, 1}}, M{{2}, {1}, {0}, {1}, {2}}},
		{M{{-1, .5}, {2, 2}, {.25, 1}, {6, 3}, {4, -2}}, M{{0}, {1}, {1}, {0}, {0}}, M{{.5, .5}, {3, 2}, {1, -1}, {2, 2}, {4, 1}}, M{{1}, {0}, {1}, {0}, {1}}},
		{M{{1, 0, 2}, {.5, 1, -1}, {1.5, 1.25, 3}, {2, 1.5, 0}, {-1, 2, 1}, {.75, -2, 1.75}}, M{{1, 5}, {2, 6}, {4, 5}, {1, 6}, {2, 5}, {4, 6}}, M{{1, 2, 3}, {.5, .5, 1}, {1, 1, 1}, {2, 1, 2}, {1, 0, 0}, {0, 0, 2}}, M{{1, 6}, {2, 5}, {4, 5}, {1, 5}, {2, 6}, {4, 6}}},
		{M{{1}, {4}, {2}, {-3}}, M{{2}, {7}, {2}, {3}}, M{{.5}, {2.5}, {3}, {1}}, M{{7}, {2}, {3}, {2}}},
	}
}

func intData() []data09 {
	return []data09{
		{M{{1, 2}, {3, 1}, {0, 2}, {1, 5}}, M{{1}, {2}, {1}, {0}}, M{{1, 1}, {3, 5}, {0, 2}}, M{{2}, {1}, {0}}},
		{M{{1, 0}, {2, 2}, {7, 0}}, M{{0}, {1}, {1}}, M{{7, 2}, {1, 0}}, M{{1}, {0}}},
		{M{{1, 0, 2}, {0, 1, 4}, {1, 1, 3}, {2, 1, 2}}, M{{1}, {2}, {4}, {1}}, M{{1, 1, 3}, {2, 0, 4}}, M{{1}, {2}}},
		{M{{1}, {4}, {2}, {4}}, M{{2}, {7}, {2}, {3}}, M{{4}, {2}}, M{{7}, {2}}},
	}
}

func posData() []data09 {
	ds := trData()
	f := func(m M) M {
		m = m.copy()
		for i := range m {
			for j := range m[i] {
				m[i][j] = math.Abs(m[i][j]) + .5 + .1*float64(i)
			}
		}
		return m
	}
	for i := range ds {
		ds[i].X, ds[i].Q = f(ds[i].X), f(ds[i].Q)
	}
	return ds
}

func nanData() []data09 {
	ds := trData0()
	for i := range ds {
		ds[i].X, ds[i].Q = ds[i].X.copy(), ds[i].Q.copy()
		ds[i].X = append(ds[i].X, append([]float64(nil), ds[i].X[0]...)) // a unique mode
		ds[i].Y = append(ds[i].Y.copy(), ds[i].Y[0])
		ds[i].X[1][0] = math.NaN()
		ds[i].Q[0][0] = math.NaN()
		_, c := ds[i].X.dims()
		ds[i].X[3][c-1] = math.NaN()
	}
	return ds
}

func kerData() []data09 {
	gram := func(a M) M {
		out := zerosM(len(a), len(a), 0)
		for i := range a {
			for j := range a {
				for k := range a[i] {
					out[i][j] += a[i][k] * a[j][k]
				}
				out[i][j] += .5
			}
		}
		return out
	}
	mk := func(a M, q M) data09 {
		return data09{gram(a), zerosM(len(a), 1, 2), q, zerosM(len(q), 1, 3)}
	}
	return []data09{
		mk(M{{1, 2}, {0, 1}, {3, 1}}, M{{1, 2, 3}, {0, 1, 0}}),
		mk(M{{-1, 2}, {2, 1}, {0, 1}}, M{{1, 0, 1}, {2, 1, 4}}),
		mk(M{{1, 2}, {0, 1}, {3, 1}, {1, 1}}, M{{1, 2, 3, 4}, {0, 1, 0, 2}, {1, 1, 1, 0}}),
		mk(M{{1}, {2}}, M{{1, 2}}),
	}
}

func entries09() []*entry09 {
	var out []*entry09
	add := func(name string, mk func() interface{}, ds []data09, opts ...func(e *entry09)) {
		e := &entry09{name: name, mk: mk, data: ds, cfgs: []func(v interface{}){nil}, tol: 1e-9}
		if name == "DBSCAN" { // predicts only what it was fitted on
			for i := range ds {
				ds[i].Q, ds[i].QY = ds[i].X, ds[i].Y
			}
		}
		for _, o := range opts {
			o(e)
		}
		out = append(out, e)
	}
	cfg := func(f func(v interface{})) func(e *entry09) { return func(e *entry09) { e.cfgs = append(e.cfgs, f) } }
	seed := func(f func(v interface{})) func(e *entry09) { return func(e *entry09) { e.seed = f } }
	tol := func(t float64) func(e *entry09) { return func(e *entry09) { e.tol = t } }
	noY := func(e *entry09) { e.noY = true }
	src := func() base.RandomState { return base.NewLockedSource(11) }

	// linear models
	add("LinearRegression", func() interface{} { return lm.NewLinearRegression() }, regData(),
		cfg(func(v interface{}) { v.(*lm.LinearRegression).FitIntercept = false }),
		cfg(func(v interface{}) { m := v.(*lm.LinearRegression); m.FitIntercept, m.Normalize = true, true }))
	add("Ridge", func() interface{} { return lm.NewRidge() }, regData(), tol(1e-6),
		cfg(func(v interface{}) { m := v.(*lm.Ridge); m.Alpha, m.FitIntercept = .1, false }),
		cfg(func(v interface{}) { m := v.(*lm.Ridge); m.Alpha, m.FitIntercept, m.Normalize = .5, true, true }))
	add("SGDRegressor", func() interface{} { return lm.NewSGDRegressor() }, regData(), tol(1e-6),
		cfg(func(v interface{}) { m := v.(*lm.SGDRegressor); m.Alpha, m.FitIntercept = .1, false }),
		cfg(func(v interface{}) { m := v.(*lm.SGDRegressor); m.Method = &optimize.BFGS{} }))
	add("BayesianRidge", func() interface{} { return lm.NewBayesianRidge() }, regData(), tol(1e-7),
		cfg(func(v interface{}) {
			m := v.(*lm.BayesianRidge)
			m.FitIntercept, m.Normalize, m.ComputeScore = false, false, true
		}))
	add("ElasticNet", func() interface{} { m := lm.NewElasticNet(); m.Alpha = .1; return m }, regData(),
		cfg(func(v interface{}) { m := v.(*lm.ElasticNet); m.Alpha, m.FitIntercept = .3, false }),
		cfg(func(v interface{}) { m := v.(*lm.ElasticNet); m.L1Ratio, m.Normalize, m.FitIntercept = .9, true, true }))
	add("Lasso", func() interface{} { m := lm.NewLasso(); m.Alpha = .2; return m }, regData())
	add("MultiTaskLasso", func() interface{} { m := lm.NewMultiTaskLasso(); m.Alpha = .2; return m }, regData()[2:3])
	add("LogisticRegression", func() interface{} { return lm.NewLogisticRegression() }, append(clfData(), multiClf()), tol(1e-6),
		seed(func(v interface{}) { v.(*lm.LogisticRegression).RandomState = src() }),
		cfg(func(v interface{}) { m := v.(*lm.LogisticRegression); m.Alpha = .1; m.MaxIter = 20 }))
	// neighbours
	add("KNeighborsClassifier", func() interface{} { return neighbors.NewKNeighborsClassifier(3, "uniform") }, append(clfData(), multiClf()),
		cfg(func(v interface{}) { m := v.(*neighbors.KNeighborsClassifier); m.K, m.Weight = 2, "distance" }),
		cfg(func(v interface{}) {
			m := v.(*neighbors.KNeighborsClassifier)
			m.Algorithm, m.LeafSize, m.Metric = "kd_tree", 1, "manhattan"
		}))
	add("KNeighborsRegressor", func() interface{} { return neighbors.NewKNeighborsRegressor(2, "uniform") }, regData(),
		cfg(func(v interface{}) { m := v.(*neighbors.KNeighborsRegressor); m.K, m.Weights = 3, "distance" }),
		cfg(func(v interface{}) { m := v.(*neighbors.KNeighborsRegressor); m.Algorithm, m.LeafSize = "kd_tree", 1 }))
	add("NearestCentroid", func() interface{} { return neighbors.NewNearestCentroid("euclidean", 0) }, clfData(),
		cfg(func(v interface{}) { v.(*neighbors.NearestCentroid).Metric = "manhattan" }))
	add("NearestNeighbors", func() interface{} { return neighbors.NewNearestNeighbors() }, regData(),
		cfg(func(v interface{}) { m := v.(*neighbors.NearestNeighbors); m.Algorithm, m.LeafSize = "kd_tree", 1 }),
		cfg(func(v interface{}) { m := v.(*neighbors.NearestNeighbors); m.Metric, m.P = "minkowski", 3 }))
	// clusters
	add("KMeans", func() interface{} { return &cluster.KMeans{NClusters: 2} }, regData(), noY,
		cfg(func(v interface{}) { m := v.(*cluster.KMeans); m.NClusters, m.NJobs = 3, 2 }))
	add("DBSCAN", func() interface{} { return cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 3, MinSamples: 2}) }, regData(), noY,
		cfg(func(v interface{}) { m := v.(*cluster.DBSCAN); m.Eps, m.MinSamples = 2, 1 }),
		cfg(func(v interface{}) { m := v.(*cluster.DBSCAN); m.Metric, m.P, m.Algorithm = "minkowski", 1, "kd_tree" }))
	// bayes
	add("GaussianNB", func() interface{} { return nb.NewGaussianNB(nil, 1e-9) }, clfData(),
		cfg(func(v interface{}) { v.(*nb.GaussianNB).VarSmoothing = 1e-2 }))
	// vectors
	setS := func(b *svm.BaseLibSVM, C float64, k interface{}, g float64) {
		b.C, b.Kernel, b.Gamma, b.MaxIter = C, k, g, 4
	}
	add("SVC", func() interface{} { m := svm.NewSVC(); setS(&m.BaseLibSVM, 1, "rbf", 0); return m }, pmData(),
		seed(func(v interface{}) { v.(*svm.SVC).RandomState = src() }),
		cfg(func(v interface{}) { setS(&v.(*svm.SVC).BaseLibSVM, 2, "linear", 0) }),
		cfg(func(v interface{}) { setS(&v.(*svm.SVC).BaseLibSVM, 1, "poly", .5) }))
	add("SVR", func() interface{} { m := svm.NewSVR(); setS(&m.BaseLibSVM, 1, "rbf", 0); return m }, regData(),
		seed(func(v interface{}) { v.(*svm.SVR).RandomState = src() }),
		cfg(func(v interface{}) { setS(&v.(*svm.SVR).BaseLibSVM, 2, "linear", 0) }))
	// networks
	mlpR := func(solver string, early bool) func() interface{} {
		return func() interface{} {
			m := nn.NewMLPRegressor([]int{3}, "tanh", solver, 1e-3)
			m.MaxIter, m.BatchSize, m.Shuffle = 4, 2, true
			if early {
				m.EarlyStopping, m.ValidationFraction = true, .4
			}
			return m
		}
	}
	for _, s := range []string{"adam", "sgd", "lbfgs"} {
		add("MLPRegressor "+s, mlpR(s, false), regData(), tol(1e-6),
			seed(func(v interface{}) { v.(*nn.MLPRegressor).RandomState = src() }),
			cfg(func(v interface{}) { m := v.(*nn.MLPRegressor); m.HiddenLayerSizes, m.Activation = []int{2, 2}, "relu" }))
	}
	add("MLPRegressor wide", func() interface{} {
		m := nn.NewMLPRegressor([]int{9, 8}, "tanh", "adam", 1e-3)
		m.MaxIter, m.BatchSize, m.Shuffle = 2, 2, true
		return m
	}, regData()[:1], tol(1e-6), seed(func(v interface{}) { v.(*nn.MLPRegressor).RandomState = src() }))
	for _, hid := range [][]int{{3}, {9, 8}, {16, 16}} {
		hid := hid
		for _, solver := range []string{"sgd", "adam"} {
			solver := solver
			add(fmt.Sprintf("MLPRegressor warm %s %v", solver, hid), func() interface{} {
				m := nn.NewMLPRegressor(append([]int(nil), hid...), "tanh", solver, 1e-3)
				m.MaxIter, m.BatchSize, m.Shuffle, m.WarmStart = 2, 2, true, true
				return m
			}, regData()[:1], tol(1e-6), seed(func(v interface{}) { v.(*nn.MLPRegressor).RandomState = src() }),
				func(e *entry09) { e.warm = true })
		}
	}
	add("MLPRegressor early", mlpR("adam", true), regData0(), tol(1e-6),
		seed(func(v interface{}) { v.(*nn.MLPRegressor).RandomState = src() }))
	add("MLPClassifier", func() interface{} {
		m := nn.NewMLPClassifier([]int{3}, "logistic", "adam", 1e-3)
		m.MaxIter, m.BatchSize, m.Shuffle = 4, 2, true
		return m
	}, append(clfData(), multiClf()), tol(1e-6), seed(func(v interface{}) { v.(*nn.MLPClassifier).RandomState = src() }),
		cfg(func(v interface{}) { m := v.(*nn.MLPClassifier); m.Solver, m.HiddenLayerSizes = "sgd", []int{} }))
	add("BaseMLP32", func() interface{} {
		m := nn.NewBaseMultilayerPerceptron32()
		m.HiddenLayerSizes, m.Activation, m.Solver, m.MaxIter, m.BatchSize, m.Shuffle = []int{2}, "tanh", "adam", 3, 2, true
		return m
	}, regData(), tol(1e-4), seed(func(v interface{}) { v.(*nn.BaseMultilayerPerceptron32).RandomState = src() }))
	// gaussian process
	add("GaussianProcess", func() interface{} {
		m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1.5}, LengthScaleBounds: [][2]float64{{.1, 10}}})
		m.Alpha = []float64{1e-2}
		return m
	}, regData(), tol(1e-6),
		cfg(func(v interface{}) { // the kernel is changed in place
			m := v.(*gp.Regressor)
			m.NormalizeY = true
			m.Kernel.(*kernels.RBF).LengthScale[0] = .75
			m.KernelOpt.(*kernels.RBF).LengthScale[0] = .75
		}),
		cfg(func(v interface{}) { v.(*gp.Regressor).NormalizeY = true }))
	// transformers
	add("MinMaxScaler", func() interface{} { return pp.NewMinMaxScaler([]float64{-1, 2}) }, trData(),
		cfg(func(v interface{}) { v.(*pp.MinMaxScaler).FeatureRange = []float64{0, 1} }))
	add("StandardScaler", func() interface{} { return pp.NewStandardScaler() }, trData(),
		cfg(func(v interface{}) { v.(*pp.StandardScaler).WithMean = false }),
		cfg(func(v interface{}) { m := v.(*pp.StandardScaler); m.WithMean, m.WithStd = true, false }))
	add("RobustScaler", func() interface{} { return pp.NewDefaultRobustScaler() }, trData(),
		cfg(func(v interface{}) { v.(*pp.RobustScaler).Center = false }),
		cfg(func(v interface{}) { m := v.(*pp.RobustScaler); m.Center, m.Scale = true, false }))
	add("MaxAbsScaler", func() interface{} { return pp.NewMaxAbsScaler() }, trData())
	add("Normalizer", func() interface{} { return pp.NewNormalizer() }, trData(),
		cfg(func(v interface{}) { m := v.(*pp.Normalizer); m.Norm, m.Axis = "max", 0 }))
	add("Binarizer", func() interface{} { return pp.NewBinarizer() }, trData(), cfg(func(v interface{}) { v.(*pp.Binarizer).Threshold = 1 }))
	add("PolynomialFeatures", func() interface{} { return pp.NewPolynomialFeatures(2) }, trData(),
		cfg(func(v interface{}) { m := v.(*pp.PolynomialFeatures); m.Degree, m.IncludeBias = 3, false }),
		cfg(func(v interface{}) { m := v.(*pp.PolynomialFeatures); m.InteractionOnly, m.IncludeBias = true, true }))
	add("QuantileTransformer", func() interface{} { return pp.NewQuantileTransformer(4, "uniform", nil) }, trData(),
		cfg(func(v interface{}) {
			m := v.(*pp.QuantileTransformer)
			m.NQuantiles, m.OutputDistribution = 3, "normal"
		}))
	add("PowerTransformer", func() interface{} { return pp.NewPowerTransformer() }, posData(), tol(1e-6),
		cfg(func(v interface{}) { m := v.(*pp.PowerTransformer); m.Method, m.Standardize = "box-cox", false }))
	add("KBinsDiscretizer", func() interface{} { return pp.NewKBinsDiscretizer(3) }, trData(),
		cfg(func(v interface{}) {
			m := v.(*pp.KBinsDiscretizer)
			m.Encode, m.Strategy, m.NBins = "ordinal", "uniform", 2
		}))
	add("PCA", func() interface{} { return pp.NewPCA() }, trData(),
		cfg(func(v interface{}) { v.(*pp.PCA).NComponents = 1 }),
		cfg(func(v interface{}) { v.(*pp.PCA).MinVarianceRatio = .7 }))
	add("Imputer", func() interface{} { return pp.NewImputer() }, nanData(),
		cfg(func(v interface{}) { v.(*pp.Imputer).Strategy = "median" }),
		cfg(func(v interface{}) { v.(*pp.Imputer).Strategy = "most_frequent" }))
	add("OneHotEncoder", func() interface{} { return pp.NewOneHotEncoder() }, intData())
	add("LabelEncoder", func() interface{} { return pp.NewLabelEncoder() }, trData())
	add("LabelBinarizer", func() interface{} { return pp.NewLabelBinarizer(0, 1) }, trData(),
		cfg(func(v interface{}) { m := v.(*pp.LabelBinarizer); m.NegLabel, m.PosLabel = -2, 3 }))
	add("MultiLabelBinarizer", func() interface{} { return pp.NewMultiLabelBinarizer() }, trData())
	add("KernelCenterer", func() interface{} { return pp.NewKernelCenterer() }, kerData())
	add("Shuffler", func() interface{} { return pp.NewShuffler() }, trData(), seed(func(v interface{}) { v.(*pp.Shuffler).RandomState = src() }))
	add("FunctionTransformer", func() interface{} {
		f := func(k float64) func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				a, b := &mat.Dense{}, &mat.Dense{}
				a.Scale(k, X)
				b.Scale(k, Y)
				return a, b
			}
		}
		return pp.NewFunctionTransformer(f(4), f(.25))
	}, trData())
	// compositions
	add("Pipeline std+poly+linreg", func() interface{} {
		return pipeline.MakePipeline(pp.NewStandardScaler(), pp.NewPolynomialFeatures(2), lm.NewRidge())
	}, regData(), tol(1e-6))
	add("Pipeline pca+knn", func() interface{} {
		return pipeline.MakePipeline(pp.NewPCA(), neighbors.NewKNeighborsClassifier(2, "distance"))
	}, clfData())
	add("Pipeline minmax+quantile", func() interface{} {
		return pipeline.MakePipeline(pp.NewMinMaxScaler([]float64{0, 1}), pp.NewKBinsDiscretizer(2), nb.NewGaussianNB(nil, 1e-2))
	}, clfData())
	add("Pipeline shuffle+mlp", func() interface{} {
		m := mlpR("adam", false)().(*nn.MLPRegressor)
		return pipeline.MakePipeline(pp.NewStandardScaler(), m)
	}, regData(), tol(1e-6), seed(func(v interface{}) {
		p := v.(*pipeline.Pipeline)
		p.NamedSteps[1].Fiter.(*nn.MLPRegressor).RandomState = src()
	}))
	add("GridSearchCV", func() interface{} {
		return &ms.GridSearchCV{Estimator: neighbors.NewKNeighborsRegressor(1, "uniform"), ParamGrid: map[string][]interface{}{"K": {1, 2}, "Weights": {"uniform", "distance"}},
			CV: &ms.KFold{NSplits: 2}, Scorer: func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, LowerScoreIsBetter: true, NJobs: 1}
	}, regData(), seed(func(v interface{}) {
		g := v.(*ms.GridSearchCV)
		g.RandomState = base.NewSource(5)
		g.CV = &ms.KFold{NSplits: 2, RandomState: base.NewSource(6)}
	}))
	add("GridSearchCV fixed", func() interface{} {
		return &ms.GridSearchCV{Estimator: neighbors.NewKNeighborsRegressor(1, "uniform"), ParamGrid: map[string][]interface{}{"K": {2}, "Weights": {"distance"}},
			CV: &ms.KFold{NSplits: 2}, Scorer: func(a, b mat.Matrix) float64 { return -metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, NJobs: 1}
	}, regData(), seed(func(v interface{}) {
		g := v.(*ms.GridSearchCV)
		g.RandomState = base.NewSource(5)
		g.CV = &ms.KFold{NSplits: 2, RandomState: base.NewSource(6)}
	}))
	return out
}

func (e *entry09) yOf(m M) mat.Matrix {
	if e.noY {
		return nil
	}
	return m.dense()
}

// history09 is what happened to an object: which configuration it was given and which data it was fitted on.
type ev09 struct {
	op  byte // 'c' configuration, 'f' fit, 'p' incremental fit, 'r' reseed
	arg int
}

func hist09(h []ev09) string {
	s := ""
	for _, e := range h {
		s += fmt.Sprintf("%c%d ", e.op, e.arg)
	}
	return s
}

func (e *entry09) replay(h []ev09) (interface{}, int) {
	v, last := e.fresh(0), 0
	for _, ev := range h {
		e.apply(v, ev)
		if ev.op == 'f' || ev.op == 'p' {
			last = ev.arg
		}
	}
	return v, last
}

func (e *entry09) apply(v interface{}, ev ev09) {
	switch ev.op {
	case 'c':
		e.cfgs[ev.arg](v)
	case 'f':
		fit09(v, e.data[ev.arg].X.dense(), e.yOf(e.data[ev.arg].Y))
	case 'p':
		partial09(v)(v, e.data[ev.arg])
	case 'r':
		if e.seed != nil {
			e.seed(v)
		}
	}
}

// c09: two to three objects related by cloning; every sequence of operations on them up to a depth. The reference for an
// object is a fresh instance that lived through the same fits and configurations on its own.
func c09(x *X) {
	for _, e := range entries09() {
		if _, ok := clone09(e.mk()); !ok {
			continue
		}
		if len(e.data) > 2 {
			c09seq(x, e, []int{0, 2}, x.Pick(5, 6), false) // another shape
		} else if len(e.data) > 1 {
			c09seq(x, e, []int{0, 1}, x.Pick(5, 6), false)
		}
		if len(e.data) > 2 {
			c09seq(x, e, []int{0, 1}, 4, false)
		}
		if e.noRe {
			continue
		}
		// another data set of exactly the same shape, and incremental fits
		d, r := e.data[0], rev09(e)
		c09use(x, e, d, r)
		f := *e
		f.data = []data09{d, r}
		c09seq(x, &f, []int{0, 1}, x.Pick(4, 5), partial09(e.mk()) != nil)
	}
}

// rev09 is another data set of exactly the shape of the first.
func rev09(e *entry09) data09 {
	d := e.data[0]
	n, w := d.X.dims()
	r := data09{zerosM(n, w, 0), d.Y.copy(), zerosM(len(d.Q), w, 0), d.QY}
	for i := range d.X {
		for j := range d.X[i] {
			r.X[i][j] = d.X[n-1-i][w-1-j]
		}
		copy(r.Y[i], d.Y[(i+1)%n])
	}
	for i := range d.Q {
		for j := range d.Q[i] {
			r.Q[i][j] = d.Q[i][w-1-j]
		}
	}
	if e.name == "DBSCAN" {
		r.Q, r.QY = r.X, r.Y
	}
	return r
}

// c09use: transforming with one of two clones leaves alone what the other one's inverse gives.
func c09use(x *X, e *entry09, d, r data09) {
	type tr interface {
		Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
	}
	if _, ok := e.mk().(tr); !ok {
		return
	}
	for cf := range e.cfgs {
		for order := 0; order < 4; order++ {
			cf, order := cf, order
			x.Case(e.name, func() string { return fmt.Sprintf("use cfg=%d order=%d", cf, order) }, func(c *C) {
				v := e.fresh(cf)
				var w interface{}
				clone := func() { w, _ = clone09(v) }
				fit09(v, d.X.dense(), e.yOf(d.Y))
				if order == 0 {
					clone()
				}
				var A, B *mat.Dense
				if catch(func() { A, B = v.(tr).Transform(d.X.dense(), d.Y.dense()) }) != nil {
					return
				}
				inv := func() *obs {
					o := &obs{}
					o.try("Inverse", func() {
						a, b, ok := inverse09(v, mat.DenseCopyOf(A), mat.DenseCopyOf(B))
						if ok {
							o.putM("Inverse.X", m09(a))
							o.putM("Inverse.Y", m09(b))
						}
					})
					return o
				}
				if order == 1 {
					clone()
				}
				before := inv()
				if order > 1 {
					clone()
				}
				if order == 3 {
					fit09(w, r.X.dense(), e.yOf(r.Y))
				}
				catch(func() { w.(tr).Transform(r.X.dense(), r.Y.dense()) })
				c.Steps(3)
				df := before.diff(inv(), e.tol)
				c.Must(df == "", "use/"+e.name, "using the clone changed the original's inverse: %s", df)
				c.Trace()
			})
		}
	}
}

// c09seq: every sequence of operations on an object and up to two clones, with fits on the data sets listed.
func c09seq(x *X, e *entry09, fits []int, depth int, partial bool) {
	{
		// operations: object o fits data k; object o is cloned; object o is given configuration 1
		type op struct {
			o    int
			kind byte
			arg  int
		}
		memo := map[string]*obs{}
		want := func(h []ev09, last int) *obs {
			k := hist09(h)
			if w, ok := memo[k]; ok {
				return w
			}
			v, l := e.replay(h)
			_ = l
			w := observe(v, e.data[last])
			memo[k] = w
			return w
		}
		var rec func(seq []op, objs int)
		run := func(seq []op) {
			x.Case(e.name, func() string {
				s := fmt.Sprint("of ", len(e.data), " data sets ", fits, ": ")
				for _, p := range seq {
					s += fmt.Sprintf("%d:%c%d ", p.o, p.kind, p.arg)
				}
				return s
			}, func(c *C) {
				type ob struct {
					v      interface{}
					h      []ev09
					last   int
					fitted bool
					seen   *obs
				}
				first := &ob{v: e.fresh(0)}
				first.seen = observe(first.v, e.data[0], false)
				objs := []*ob{first}
				for i, p := range seq {
					t := objs[p.o]
					var cl *ob
					switch p.kind {
					case 'f':
						e.apply(t.v, ev09{'f', fits[p.arg]})
						t.h = append(append([]ev09(nil), t.h...), ev09{'f', fits[p.arg]})
						t.last, t.fitted = fits[p.arg], true
					case 'p':
						e.apply(t.v, ev09{'p', fits[p.arg]})
						t.h = append(append([]ev09(nil), t.h...), ev09{'p', fits[p.arg]})
						t.last, t.fitted = fits[p.arg], true
					case 'c':
						e.apply(t.v, ev09{'c', p.arg})
						t.h = append(append([]ev09(nil), t.h...), ev09{'c', p.arg})
						t.fitted = false
					case 'k':
						v, _ := clone09(t.v)
						c.Must(v != nil && reflect.TypeOf(v) == reflect.TypeOf(t.v), "type/"+e.name, "the clone of a %T is a %T", t.v, v)
						cl = &ob{v: v, h: t.h, last: t.last, fitted: t.fitted}
						objs = append(objs, cl)
					}
					c.Steps(1)
					for j, ob := range objs {
						now := observe(ob.v, e.data[ob.last], ob.fitted)
						who := "the object"
						if ob != t && ob != cl {
							d := ob.seen.diff(now, e.tol)
							c.Must(d == "", "independent/"+e.name, "operation %d (%d:%c%d) changed object %d: %s", i, p.o, p.kind, p.arg, j, d)
							continue
						}
						if ob == t && p.kind == 'k' {
							d := ob.seen.diff(now, e.tol)
							c.Must(d == "", "independent/"+e.name, "cloning changed object %d: %s", j, d)
						}
						if ob == t && p.kind == 'f' {
							d := want(ob.h, ob.last).diff(now, e.tol)
							c.Must(d == "", "clonefit/"+e.name, "%s %d after %s differs from a fresh one with the same history: %s", who, j, hist09(ob.h), d)
						}
						ob.seen = now
					}
				}
				c.Trace()
			})
		}
		rec = func(seq []op, objs int) {
			if len(seq) == depth {
				clones, after := 0, false
				for _, p := range seq {
					if p.kind == 'k' {
						clones++
					} else if clones > 0 {
						after = true
					}
				}
				if clones > 0 && after {
					run(seq)
				}
				return
			}
			for o := 0; o < objs; o++ {
				for k := range fits {
					rec(append(append([]op(nil), seq...), op{o, 'f', k}), objs)
				}
				if partial {
					for k := range fits {
						rec(append(append([]op(nil), seq...), op{o, 'p', k}), objs)
					}
				}
				if objs < 3 {
					rec(append(append([]op(nil), seq...), op{o, 'k', 0}), objs+1)
				}
				if len(e.cfgs) > 1 {
					rec(append(append([]op(nil), seq...), op{o, 'c', 1}), objs)
				}
			}
		}
		rec(nil, 1)
	}
}

// c11: every history of fits (with changes of configuration) and then a last fit, against a fresh instance.
func c11(x *X) {
	depth := x.Pick(4, 5) // fits before the last
	for _, e := range entries09() {
		e := e
		if e.warm {
			continue
		}
		if !e.noRe {
			e.data = append(append([]data09(nil), e.data...), rev09(e))
		}
		type step struct{ cfg, data int }
		var steps []step
		for c := range e.cfgs {
			for d := range e.data {
				steps = append(steps, step{c, d})
			}
		}
		ncfg := len(e.cfgs)
		memo := map[step]*obs{}
		want := func(s step) *obs {
			if w, ok := memo[s]; ok {
				return w
			}
			v := e.fresh(s.cfg)
			fit09(v, e.data[s.data].X.dense(), e.yOf(e.data[s.data].Y))
			w := observe(v, e.data[s.data])
			memo[s] = w
			return w
		}
		// reaching configuration b from a configuration a has to set everything a touched: only histories that stay in
		// one configuration, or go from configuration 0 to another, are explored.
		var rec func(seq []step)
		rec = func(seq []step) {
			if len(seq) > 0 {
				for uses := 0; uses < 2; uses++ {
					uses := uses
					x.Case(e.name, func() string { return fmt.Sprint(seq, " uses=", uses) }, func(c *C) {
						v := e.fresh(seq[0].cfg)
						cur := seq[0].cfg
						for i, s := range seq {
							if s.cfg != cur {
								e.cfgs[s.cfg](v)
								cur = s.cfg
							}
							if i == len(seq)-1 && e.seed != nil {
								e.seed(v)
							}
							c.Steps(1)
							fit09(v, e.data[s.data].X.dense(), e.yOf(e.data[s.data].Y))
							if uses == 1 && i < len(seq)-1 {
								observe(v, e.data[s.data])
							}
						}
						last := seq[len(seq)-1]
						d := want(last).diff(observe(v, e.data[last.data]), e.tol)
						c.Must(d == "", "refit/"+e.name, "after %v the model differs from a fresh one: %s", seq, d)
						c.Trace()
					})
					if len(seq) == 1 {
						break
					}
				}
			}
			if len(seq) == depth+1 {
				return
			}
			for _, s := range steps {
				if len(seq) > 0 {
					p := seq[len(seq)-1]
					if p.cfg != s.cfg && p.cfg != 0 {
						continue
					}
				}
				if len(seq) >= 3 && (s.data > 2 || seq[1].data > 2 || s.cfg > 1) {
					continue
				}
				rec(append(append([]step(nil), seq...), s))
			}
		}
		rec(nil)
		_ = ncfg
		// incremental fits are forgotten by Fit, and FitTransform is Fit and then Transform
		for a := range e.data {
			for b := range e.data {
				a, b := a, b
				v0 := e.mk()
				pf := partial09(v0)
				if pf == nil {
					continue
				}
				x.Case(e.name, func() string { return fmt.Sprintf("partial %d then fit %d", a, b) }, func(c *C) {
					v := e.fresh(0)
					pf(v, e.data[a])
					pf(v, e.data[a])
					fit09(v, e.data[b].X.dense(), e.yOf(e.data[b].Y))
					d := want(step{0, b}).diff(observe(v, e.data[b]), e.tol)
					c.Must(d == "", "refit/"+e.name, "after two partial fits the model differs from a fresh one: %s", d)
					c.Steps(3)
					c.Trace()
				})
			}
			for cf := range e.cfgs {
				a, cf := a, cf
				if _, ok := e.mk().(interface {
					FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
				}); !ok || strings.HasPrefix(e.name, "Pipeline") {
					continue
				}
				x.Case(e.name, func() string { return fmt.Sprintf("cfg %d FitTransform %d", cf, a) }, func(c *C) {
					D := e.data[a]
					v, w := e.fresh(cf), e.fresh(cf)
					x1, y1 := v.(interface {
						FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
					}).FitTransform(D.X.dense(), D.Y.dense())
					fit09(w, D.X.dense(), D.Y.dense())
					x2, y2 := w.(interface {
						Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
					}).Transform(D.X.dense(), D.Y.dense())
					var o, p obs
					o.putM("X", m09(x1))
					o.putM("Y", m09(y1))
					p.putM("X", m09(x2))
					p.putM("Y", m09(y2))
					d := o.diff(&p, e.tol)
					c.Must(d == "", "fittransform/"+e.name, "FitTransform and Fit, Transform differ: %s", d)
					d = observe(v, D).diff(observe(w, D), e.tol)
					c.Must(d == "", "fittransform/"+e.name, "FitTransform leaves another model than Fit: %s", d)
					c.Steps(2)
					c.Trace()
				})
			}
		}
	}
}

func partial09(v interface{}) func(v interface{}, d data09) {
	f := partial10(v)
	if f == nil {
		return nil
	}
	return func(v interface{}, d data09) { f(v, d.X.dense(), d.Y.dense()) }
}

func partial10(v interface{}) func(v interface{}, X, Y mat.Matrix) {
	type anyM interface {
		PartialFit(X, Y mat.Matrix) base.Transformer
	}
	type denseM interface {
		PartialFit(X, Y *mat.Dense) base.Transformer
	}
	switch v.(type) {
	case anyM:
		return func(v interface{}, X, Y mat.Matrix) { v.(anyM).PartialFit(X, Y) }
	case denseM:
		return func(v interface{}, X, Y mat.Matrix) { v.(denseM).PartialFit(X.(*mat.Dense), Y.(*mat.Dense)) }
	case *nb.GaussianNB:
		return func(v interface{}, X, Y mat.Matrix) {
			v.(*nb.GaussianNB).PartialFit(X, Y, distinct(toM(Y).col(0)), false, nil)
		}
	}
	return nil
}

func pm01(m M) M {
	m = pm(m)
	for i := range m {
		for j := range m[i] {
			m[i][j] = (m[i][j] + 1) / 2
		}
	}
	return m
}

// ---- C10 ----------------------------------------------------------------------------------------

// arg10 is one way of storing a matrix.
type arg10 struct {
	form     string
	m        mat.Matrix
	intact   func() bool // nothing of the storage changed
	scribble func()      // overwrites the storage
}

func bits(a, b []float64) bool {
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func overSlice(form string, m mat.Matrix, raw []float64) arg10 {
	snap := append([]float64(nil), raw...)
	return arg10{form, m, func() bool { return bits(raw, snap) }, func() {
		for i := range raw {
			raw[i] = 77.5 + float64(i%7)*.125
		}
	}}
}

func forms10(m M) (out []arg10) {
	r, c := m.dims()
	d := m.dense()
	out = append(out, overSlice("dense", d, d.RawMatrix().Data))
	big := mat.NewDense(r+2, c+3, nil)
	raw := big.RawMatrix().Data
	for i := range raw {
		raw[i] = canary
	}
	for i := range m {
		for j := range m[i] {
			big.Set(i+1, j+2, m[i][j])
		}
	}
	out = append(out, overSlice("view", big.Slice(1, 1+r, 2, 2+c), raw))
	t := tightView(m)
	out = append(out, overSlice("tight", t, t.RawMatrix().Data))
	cp := m.copy()
	out = append(out, arg10{"other type", roMat{cp}, func() bool {
		for i := range m {
			if !bits(cp[i], m[i]) {
				return false
			}
		}
		return true
	}, func() {
		for i := range cp {
			for j := range cp[i] {
				cp[i][j] = 77.5
			}
		}
	}})
	tr := mat.NewDense(c, r, nil)
	for i := range m {
		for j := range m[i] {
			tr.Set(j, i, m[i][j])
		}
	}
	out = append(out, overSlice("transposed", tr.T(), tr.RawMatrix().Data))
	if c == 1 {
		v := mat.NewVecDense(r, m.col(0))
		out = append(out, overSlice("vector", v, v.RawVector().Data))
		wide := mat.NewDense(r, 3, nil)
		for i := range m {
			wide.Set(i, 1, m[i][0])
		}
		out = append(out, overSlice("column", wide.ColView(1), wide.RawMatrix().Data))
	}
	return
}

// outs10 gives destinations for r x c values: how to read them back and whether anything else was written.
type out10 struct {
	form   string
	y      mat.Mutable
	read   func() M
	around func() bool
}

func outs10(r, c int) (out []out10) {
	fill := zerosM(r, c, 55)
	d := fill.dense()
	out = append(out, out10{"dense", d, func() M { return toM(d) }, func() bool { return true }})
	v, ok := viewOf(fill)
	out = append(out, out10{"view", v, func() M { return toM(v) }, ok})
	t := tightView(fill)
	out = append(out, out10{"tight", t, func() M { return toM(t) }, func() bool {
		raw := t.RawMatrix()
		for i := 0; i < r-1; i++ {
			if raw.Data[i*raw.Stride+c] != canary {
				return false
			}
		}
		return true
	}})
	w := rwMat{fill.copy()}
	out = append(out, out10{"other type", w, func() M { return w.m.copy() }, func() bool { return true }})
	e := &mat.Dense{}
	out = append(out, out10{"empty", e, func() M { return m09(e) }, func() bool { return true }})
	return
}

// big10: many rows (the rows of the first data set, moved a little, again and again).
func big10(x *X, e *entry09) {
	sizes := []int{130, 1030}
	if strings.HasPrefix(e.name, "SV") || strings.HasPrefix(e.name, "Gaussian") && e.name != "GaussianNB" || strings.HasPrefix(e.name, "MLP") {
		sizes = sizes[:1]
	}
	for _, n := range sizes {
		n := n
		D := e.data[0]
		b := len(D.X)
		X, Y := make(M, n), make(M, n)
		for i := range X {
			X[i] = append([]float64(nil), D.X[i%b]...)
			for j := range X[i] {
				X[i][j] += float64((i/b)*(j+1)%17) / 64
			}
			if len(D.Y) > 0 {
				Y[i] = append([]float64(nil), D.Y[i%b]...)
			}
		}
		D.X, D.Y = X, Y
		if e.name == "DBSCAN" {
			D.Q, D.QY = X, Y
		}
		var base0 *obs
		nx, ny := len(forms10(D.X)), len(forms10(D.Y))
		for i := 0; i < nx; i++ {
			i, j := i, (i*3)%ny
			x.Case("fit", func() string { return fmt.Sprintf("%s %d rows X form %d Y form %d", e.name, n, i, j) }, func(c *C) {
				if base0 == nil {
					v := e.fresh(0)
					fit09(v, D.X.dense(), e.yOf(D.Y))
					base0 = observe(v, D)
				}
				a, b := forms10(D.X)[i], forms10(D.Y)[j]
				v := e.fresh(0)
				if e.noY {
					fit09(v, a.m, nil)
				} else {
					fit09(v, a.m, b.m)
				}
				c.Must(a.intact() && b.intact(), "input/"+e.name+"/fit", "Fit on %d rows changed its input (%s, %s)", n, a.form, b.form)
				d := base0.diff(observe(v, D), e.tol)
				c.Must(d == "", "layout/"+e.name+"/fit", "fitted from X %s, Y %s: %s", a.form, b.form, d)
				a.scribble()
				b.scribble()
				d = base0.diff(observe(v, D), e.tol)
				c.Must(d == "", "alias/"+e.name, "overwriting the training data (%s, %s) after Fit changes the model: %s", a.form, b.form, d)
				c.Steps(2)
				c.Trace()
			})
		}
	}
}

func c10(x *X) {
	deep09 = true
	defer func() { deep09 = false }()
	es := entries09()
	for _, e := range es {
		e := e
		big10(x, e)
		for di := range e.data {
			di := di
			D := e.data[di]
			for cf := range e.cfgs {
				cf := cf
				var base0 *obs
				ref := func() *obs {
					if base0 == nil {
						v := e.fresh(cf)
						fit09(v, D.X.dense(), e.yOf(D.Y))
						base0 = observe(v, D)
					}
					return base0
				}
				fitted := func() interface{} {
					v := e.fresh(cf)
					fit09(v, D.X.dense(), e.yOf(D.Y))
					return v
				}
				nx, ny := len(forms10(D.X)), len(forms10(D.Y))
				if e.noY {
					ny = 1
				}
				for i := 0; i < nx; i++ {
					for j := 0; j < ny; j++ {
						i, j := i, j
						x.Case("fit", func() string { return fmt.Sprintf("%s cfg %d data %d X form %d Y form %d", e.name, cf, di, i, j) }, func(c *C) {
							a, b := forms10(D.X)[i], forms10(D.Y)[j]
							v := e.fresh(cf)
							if e.noY {
								fit09(v, a.m, nil)
							} else {
								fit09(v, a.m, b.m)
							}
							c.Must(a.intact(), "input/"+e.name+"/fit", "Fit changed X (%s)", a.form)
							c.Must(b.intact(), "input/"+e.name+"/fit", "Fit changed Y (%s)", b.form)
							d := ref().diff(observe(v, D), e.tol)
							c.Must(d == "", "layout/"+e.name+"/fit", "fitted from X %s, Y %s: %s", a.form, b.form, d)
							c.Must(a.intact() && b.intact(), "input/"+e.name+"/use", "using the model changed its training data (%s, %s)", a.form, b.form)
							a.scribble()
							b.scribble()
							d = ref().diff(observe(v, D), e.tol)
							c.Must(d == "", "alias/"+e.name, "overwriting the training data (%s, %s) after Fit changes the model: %s", a.form, b.form, d)
							c.Steps(2)
							c.Trace()
						})
					}
				}
				use10(x, e, cf, di, fitted, ref)
			}
		}
	}
	metrics10(x)
}

func use10(x *X, e *entry09, cf, di int, fitted func() interface{}, ref func() *obs) {
	D := e.data[di]
	v0 := e.mk()
	if _, ok := v0.(base.Predicter); ok {
		for i := range forms10(D.Q) {
			i := i
			for o := 0; o < 6; o++ {
				o := o
				x.Case("predict", func() string { return fmt.Sprintf("%s cfg %d data %d Q form %d output %d", e.name, cf, di, i, o) }, func(c *C) {
					v := fitted().(base.Predicter)
					q := forms10(D.Q)[i]
					wantM := toM(fitted().(base.Predicter).Predict(D.Q.dense(), nil))
					r, cc := wantM.dims()
					if o == 5 {
						got := m09(v.Predict(q.m, nil))
						c.Must(q.intact(), "input/"+e.name+"/predict", "Predict changed X (%s)", q.form)
						c.Must(near09(got, wantM, e.tol), "layout/"+e.name+"/predict", "X %s: %v want %v", q.form, got, wantM)
						return
					}
					y := outs10(r, cc)[o]
					got := m09(v.Predict(q.m, y.y))
					c.Must(q.intact(), "input/"+e.name+"/predict", "Predict changed X (%s)", q.form)
					c.Must(near09(got, wantM, e.tol), "layout/"+e.name+"/predict", "X %s, output %s: returned %v want %v", q.form, y.form, got, wantM)
					c.Must(near09(y.read(), wantM, e.tol), "output/"+e.name+"/predict", "X %s, output %s: received %v want %v", q.form, y.form, y.read(), wantM)
					c.Must(y.around(), "output/"+e.name+"/predict", "output %s: something outside the output was written", y.form)
					c.Steps(1)
					c.Trace()
				})
			}
			for j := range forms10(D.QY) {
				j := j
				x.Case("score", func() string { return fmt.Sprintf("%s cfg %d data %d Q form %d Y form %d", e.name, cf, di, i, j) }, func(c *C) {
					v := fitted().(base.Predicter)
					var w float64
					p := catch(func() { w = fitted().(base.Predicter).Score(D.Q.dense(), D.QY.dense()) })
					q, y := forms10(D.Q)[i], forms10(D.QY)[j]
					var got float64
					p2 := catch(func() { got = v.Score(q.m, y.m) })
					c.Must((p == nil) == (p2 == nil), "layout/"+e.name+"/score", "X %s, Y %s: panics %v and %v", q.form, y.form, p, p2)
					c.Must(same09(got, w, e.tol), "layout/"+e.name+"/score", "X %s, Y %s: %g want %g", q.form, y.form, got, w)
					c.Must(q.intact() && y.intact(), "input/"+e.name+"/score", "Score changed its inputs (%s, %s)", q.form, y.form)
					d := ref().diff(observe(v, D), e.tol)
					c.Must(d == "", "layout/"+e.name+"/score", "scoring changed the model: %s", d)
					c.Steps(1)
					c.Trace()
				})
			}
		}
	}
	// other predictions, into every kind of dense destination
	for k, name := range []string{"dense", "view", "tight"} {
		k, name := k, name
		x.Case("proba", func() string { return fmt.Sprintf("%s cfg %d data %d %s", e.name, cf, di, name) }, func(c *C) {
			var w, g obs
			proba(&w, fitted(), D.Q.dense(), nil)
			q := forms10(D.Q)[k]
			var outs []out10
			proba(&g, fitted(), q.m.(*mat.Dense), func(r, cc int) *mat.Dense {
				o := outs10(r, cc)[k]
				outs = append(outs, o)
				return o.y.(*mat.Dense)
			})
			d := w.diff(&g, e.tol)
			c.Must(d == "", "layout/"+e.name+"/proba", "%s: %s", name, d)
			c.Must(q.intact(), "input/"+e.name+"/proba", "%s: query changed", name)
			for _, o := range outs {
				c.Must(o.around(), "output/"+e.name+"/proba", "%s: something outside the output was written", name)
			}
			c.Steps(1)
			c.Trace()
		})
	}
	if _, ok := v0.(interface {
		Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
	}); ok {
		tf := func(v interface{}) func(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
			return v.(interface {
				Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
			}).Transform
		}
		for i := range forms10(D.Q) {
			for j := range forms10(D.QY) {
				i, j := i, j
				x.Case("transform", func() string { return fmt.Sprintf("%s cfg %d data %d Q form %d Y form %d", e.name, cf, di, i, j) }, func(c *C) {
					wx, wy := tf(fitted())(D.Q.dense(), D.QY.dense())
					v := fitted()
					q, y := forms10(D.Q)[i], forms10(D.QY)[j]
					gx, gy := tf(v)(q.m, y.m)
					var w, g obs
					w.putM("X", m09(wx))
					w.putM("Y", m09(wy))
					g.putM("X", m09(gx))
					g.putM("Y", m09(gy))
					d := w.diff(&g, e.tol)
					c.Must(d == "", "layout/"+e.name+"/transform", "X %s, Y %s: %s", q.form, y.form, d)
					c.Must(q.intact() && y.intact(), "input/"+e.name+"/transform", "Transform changed its inputs (%s, %s)", q.form, y.form)
					c.Steps(1)
					if i < 3 && j < 3 { // inverse takes dense matrices
						zx, zy := m09(wx), m09(wy)
						var ax, ay arg10
						var dx, dy *mat.Dense
						if zx != nil {
							ax = forms10(zx)[i]
							dx = ax.m.(*mat.Dense)
						}
						if zy != nil {
							ay = forms10(zy)[j]
							dy = ay.m.(*mat.Dense)
						}
						v2 := fitted() // an inverse may rely on what was transformed before
						tf(v2)(D.Q.dense(), D.QY.dense())
						a, b, ok := inverse09(v2, cloneD(zx), cloneD(zy))
						if ok {
							a2, b2, _ := inverse09(v, dx, dy)
							var w, g obs
							w.putM("X", m09(a))
							w.putM("Y", m09(b))
							g.putM("X", m09(a2))
							g.putM("Y", m09(b2))
							d := w.diff(&g, e.tol)
							c.Must(d == "", "layout/"+e.name+"/inverse", "X %s, Y %s: %s", q.form, y.form, d)
							c.Must((dx == nil || ax.intact()) && (dy == nil || ay.intact()), "input/"+e.name+"/inverse", "InverseTransform changed its inputs (%s, %s)", q.form, y.form)
							c.Steps(1)
						}
					}
					d = ref().diff(observe(v, D), e.tol)
					c.Must(d == "", "layout/"+e.name+"/transform", "transforming changed the model: %s", d)
					c.Trace()
				})
				x.Case("fittransform", func() string { return fmt.Sprintf("%s cfg %d data %d X form %d Y form %d", e.name, cf, di, i, j) }, func(c *C) {
					ft := func(v interface{}) func(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
						return v.(interface {
							FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
						}).FitTransform
					}
					fx, fy := forms10(D.X), forms10(D.Y)
					if i >= len(fx) || j >= len(fy) {
						return
					}
					v := e.fresh(cf)
					if _, ok := v.(interface {
						FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense)
					}); !ok || strings.HasPrefix(e.name, "Pipeline") {
						return
					}
					wx, wy := ft(e.fresh(cf))(D.X.dense(), D.Y.dense())
					gx, gy := ft(v)(fx[i].m, fy[j].m)
					var w, g obs
					w.putM("X", m09(wx))
					w.putM("Y", m09(wy))
					g.putM("X", m09(gx))
					g.putM("Y", m09(gy))
					d := w.diff(&g, e.tol)
					c.Must(d == "", "layout/"+e.name+"/fittransform", "X %s, Y %s: %s", fx[i].form, fy[j].form, d)
					c.Must(fx[i].intact() && fy[j].intact(), "input/"+e.name+"/fittransform", "FitTransform changed its inputs (%s, %s)", fx[i].form, fy[j].form)
					c.Steps(1)
					c.Trace()
				})
			}
		}
	}
}

func cloneD(m M) *mat.Dense {
	if m == nil {
		return nil
	}
	return m.dense()
}

func near09(a, b M, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !same09(a[i][j], b[i][j], tol) {
				return false
			}
		}
	}
	return true
}

// metrics10: the metrics, over every storage of their arguments.
func metrics10(x *X) {
	y := M{{0}, {1}, {2}, {1}, {0}, {2}}
	p := M{{0}, {2}, {2}, {1}, {1}, {2}}
	bin := M{{0}, {1}, {1}, {0}, {1}, {0}}
	sc := M{{.1}, {.8}, {.4}, {.4}, {.7}, {.6}}
	multi := M{{1, 0}, {0, 1}, {1, 1}, {0, 0}, {1, 0}, {0, 1}}
	msc := M{{.9, .1}, {.3, .8}, {.4, .6}, {.5, .2}, {.6, .6}, {.1, .7}}
	rt := M{{1, 2}, {3, -1}, {0, 4}, {2, 2.5}, {-1, .5}, {4, 1}}
	rp := M{{1.5, 2}, {2, -2}, {.5, 3}, {2, 2}, {-1.5, .5}, {3, 1.25}}
	w := []float64{1, 2, .5, 1, 3, 1}
	flat1 := func(m *mat.Dense) []float64 {
		var v []float64
		for _, r := range m09(m) {
			v = append(v, r...)
		}
		return v
	}
	type fn struct {
		name  string
		a, b  M
		dense bool // only takes dense matrices
		f     func(a, b mat.Matrix) []float64
	}
	D := func(m mat.Matrix) *mat.Dense { return m.(*mat.Dense) }
	var fns []fn
	for _, ws := range [][]float64{nil, w} {
		ws := ws
		tag := ""
		var wd func() *mat.Dense = func() *mat.Dense { return nil }
		if ws != nil {
			tag = " weighted"
			wd = func() *mat.Dense { return mat.NewDense(6, 1, append([]float64(nil), ws...)) }
		}
		fns = append(fns,
			fn{"AccuracyScore" + tag, y, p, false, func(a, b mat.Matrix) []float64 { return []float64{metrics.AccuracyScore(a, b, true, wd())} }},
			fn{"ConfusionMatrix" + tag, y, p, true, func(a, b mat.Matrix) []float64 { return flat1(metrics.ConfusionMatrix(D(a), D(b), ws)) }},
		)
		for _, av := range []string{"macro", "micro", "weighted"} {
			av := av
			fns = append(fns,
				fn{"PrecisionScore " + av + tag, y, p, true, func(a, b mat.Matrix) []float64 { return []float64{metrics.PrecisionScore(D(a), D(b), av, ws)} }},
				fn{"RecallScore " + av + tag, y, p, true, func(a, b mat.Matrix) []float64 { return []float64{metrics.RecallScore(D(a), D(b), av, ws)} }},
				fn{"F1Score " + av + tag, y, p, true, func(a, b mat.Matrix) []float64 { return []float64{metrics.F1Score(D(a), D(b), av, ws)} }},
				fn{"ROCAUCScore " + av + tag, multi, msc, true, func(a, b mat.Matrix) []float64 { return []float64{metrics.ROCAUCScore(D(a), D(b), av, ws)} }},
				fn{"AveragePrecisionScore " + av + tag, multi, msc, true, func(a, b mat.Matrix) []float64 {
					return []float64{metrics.AveragePrecisionScore(D(a), D(b), av, ws)}
				}},
			)
		}
		fns = append(fns,
			fn{"ROCCurve" + tag, bin, sc, true, func(a, b mat.Matrix) []float64 {
				f, t, th := metrics.ROCCurve(D(a), D(b), 1, ws)
				return append(append(append([]float64(nil), f...), t...), th...)
			}},
			fn{"PrecisionRecallCurve" + tag, bin, sc, true, func(a, b mat.Matrix) []float64 {
				f, t, th := metrics.PrecisionRecallCurve(D(a), D(b), 1, ws)
				return append(append(append([]float64(nil), f...), t...), th...)
			}},
		)
		for _, mo := range []string{"raw_values", "uniform_average", "variance_weighted"} {
			mo := mo
			if mo == "variance_weighted" {
				fns = append(fns, fn{"R2Score " + mo + tag, rt, rp, false, func(a, b mat.Matrix) []float64 { return flat1(metrics.R2Score(a, b, wd(), mo)) }})
				continue
			}
			fns = append(fns,
				fn{"R2Score " + mo + tag, rt, rp, false, func(a, b mat.Matrix) []float64 { return flat1(metrics.R2Score(a, b, wd(), mo)) }},
				fn{"MeanSquaredError " + mo + tag, rt, rp, false, func(a, b mat.Matrix) []float64 { return flat1(metrics.MeanSquaredError(a, b, wd(), mo)) }},
				fn{"MeanAbsoluteError " + mo + tag, rt, rp, false, func(a, b mat.Matrix) []float64 { return flat1(metrics.MeanAbsoluteError(a, b, wd(), mo)) }},
			)
		}
	}
	// functions and incremental fits
	reg := regData()[2]
	cat := func(ms ...*mat.Dense) (v []float64) {
		for _, m := range ms {
			r, c := m09(m).dims()
			v = append(append(v, float64(r), float64(c)), flat1(m)...)
		}
		return
	}
	one := func(m M) M { return colVec(m.col(0)) }
	fns = append(fns,
		fn{"Scale", reg.X, reg.Y, true, func(a, b mat.Matrix) []float64 { return cat(pp.Scale(D(a))) }},
		fn{"MeanStdDev", reg.X, reg.Y, false, func(a, b mat.Matrix) []float64 { return cat(pp.MeanStdDev(a)) }},
		fn{"Mean", reg.X, reg.Y, false, func(a, b mat.Matrix) []float64 { return cat(pp.Mean(a)) }},
		fn{"Var", reg.X, reg.Y, false, func(a, b mat.Matrix) []float64 { return cat(pp.NumpyLike{}.Var(a)) }},
		fn{"DenseMean", reg.X, reg.Y, false, func(a, b mat.Matrix) []float64 { return cat(pp.DenseMean(nil, a)) }},
		fn{"EnetPath", reg.X, one(reg.Y), true, func(a, b mat.Matrix) []float64 {
			al := []float64{1, .5, .1}
			as, co, g, _ := lm.EnetPath(D(a), D(b), .5, 1e-6, 3, &al, false, false)
			return append(append(cat(co...), as...), g...)
		}},
		fn{"LassoPath", reg.X, reg.Y, true, func(a, b mat.Matrix) []float64 {
			as, co, g, _ := lm.LassoPath(D(a), D(b), 1e-3, 2, nil, false, false)
			return append(append(cat(co...), as...), g...)
		}},
		fn{"TrainTestSplit", reg.X, reg.Y, false, func(a, b mat.Matrix) []float64 {
			w, x, y, z := ms.TrainTestSplit(a, b, .34, 7)
			return cat(w, x, y, z)
		}},
		fn{"CrossValidate", reg.X, reg.Y, true, func(a, b mat.Matrix) []float64 {
			r := ms.CrossValidate(lm.NewLinearRegression(), D(a), D(b), nil, func(t, p mat.Matrix) float64 { return metrics.MeanSquaredError(t, p, nil, "").At(0, 0) },
				&ms.KFold{NSplits: 3, Shuffle: true, RandomState: base.NewSource(3)}, 2)
			return r.TestScore
		}},
		fn{"LinFit", reg.X, reg.Y, true, func(a, b mat.Matrix) []float64 {
			r := lm.LinFit(D(a), D(b), &lm.LinFitOptions{Tol: 1e-4, Alpha: .1, ThetaInitializer: func(t *mat.Dense) {
				t.Apply(func(i, j int, _ float64) float64 { return .1 * float64(1+i-j) }, t)
			}, Loss: lm.SquareLoss, Activation: base.Identity{}})
			return cat(r.Theta)
		}},
		fn{"PreprocessData", reg.X, reg.Y, true, func(a, b mat.Matrix) []float64 {
			v, w, x, y, z := lm.PreprocessData(D(a), D(b), true, true, nil)
			return cat(v, w, x, y, z)
		}},
	)
	for _, l := range []struct {
		name string
		f    lm.Loss
		y    M
		act  lm.Activation
	}{{"SquareLoss", lm.SquareLoss, reg.Y, base.Identity{}}, {"LogLoss", lm.LogLoss, pm01(reg.Y), base.Logistic{}}, {"CrossEntropyLoss", lm.CrossEntropyLoss, pm01(reg.Y), base.Logistic{}}} {
		l := l
		fns = append(fns, fn{l.name, reg.X, l.y, false, func(a, b mat.Matrix) []float64 {
			n, p := a.Dims()
			_, k := b.Dims()
			th, yp, yd, g := lattice(p, k, 3).dense(), mat.NewDense(n, k, nil), mat.NewDense(n, k, nil), mat.NewDense(p, k, nil)
			j := l.f(b, a, th, yp, yd, g, .3, .4, n, l.act, false)
			return append(cat(yp, g), j)
		}})
	}
	for _, e := range entries09() {
		e := e
		pf := partial10(e.mk())
		if pf == nil {
			continue
		}
		d := e.data[2]
		_, gnb := e.mk().(*nb.GaussianNB)
		_, mm := e.mk().(*pp.MinMaxScaler)
		_, rs := e.mk().(*pp.RobustScaler)
		fns = append(fns, fn{"PartialFit " + e.name, d.X, d.Y, !gnb && !mm && !rs, func(a, b mat.Matrix) []float64 {
			v := e.fresh(0)
			pf(v, a, b)
			pf(v, a, b)
			o := observe(v, d)
			var out []float64
			for _, n := range o.names {
				out = append(out, float64(len(o.vals[n])))
				for _, f := range o.vals[n] {
					if math.IsNaN(f) {
						f = -1e9
					}
					out = append(out, f)
				}
			}
			return out
		}})
	}
	for _, f := range fns {
		f := f
		for i := range forms10(f.a) {
			for j := range forms10(f.b) {
				i, j := i, j
				if f.dense && (i > 2 || j > 2) {
					continue
				}
				x.Case("metric", func() string { return fmt.Sprintf("%s forms %d %d", f.name, i, j) }, func(c *C) {
					want := f.f(f.a.dense(), f.b.dense())
					a, b := forms10(f.a)[i], forms10(f.b)[j]
					got := f.f(a.m, b.m)
					tol := 1e-12
					if f.name == "LinFit" { // runs the goroutines of the optimizer library
						tol = 1e-6
					}
					c.Must(nearSlice(got, want, tol), "layout/"+f.name, "%s, %s: %v want %v", a.form, b.form, got, want)
					c.Must(a.intact() && b.intact(), "input/"+f.name, "the metric changed its inputs (%s, %s)", a.form, b.form)
					c.Steps(1)
					c.Trace()
				})
			}
		}
	}
}

func init() {
	register("C09", "for every clonable estimator, transformer and composition: every sequence of operations (fit either of two data sets of different shapes, change the configuration, clone) on up to three objects related by cloning, up to the depth; after every operation everything observable of every object is compared with a fresh instance of the same history or with what it was before", c09,
		"observable: predictions, scores, probabilities, transforms, inverses and exported fields except random sources; elements of slices used as hyperparameters are not written")
	register("C10", "every estimator, transformer, configuration and metric x data sets of several shapes x every combination of storage forms (contiguous, window in a larger matrix, window ending at the end of its array, other matrix type, transposed, vector, column of a wider matrix) of each input and output", c10,
		"metrics and methods declared on *mat.Dense are explored with dense matrices and windows only")
	register("C11", "for every estimator, transformer and composition: every history of fits over data sets of different shapes and over configurations, up to the depth, with and without use in between, followed by a last fit; incremental fits followed by Fit", c11,
		"the random source is reset before the last fit; a change of configuration goes from the default one to another")
}
