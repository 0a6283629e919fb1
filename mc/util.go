package main

import (
	"fmt"
	"math"
	"strings"

	"gonum.org/v1/gonum/mat"
)

// ---- float comparison -------------------------------------------------------------------------

func isBad(v float64) bool { return math.IsNaN(v) || math.IsInf(v, 0) }

// near: equal up to rounding (NaN equals NaN, infinities by sign).
func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	d := math.Abs(a - b)
	m := math.Max(math.Abs(a), math.Abs(b))
	return d <= tol || d <= tol*m
}

func nearSlice(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

func nearMat(a, b mat.Matrix, tol float64) bool {
	ar, ac := a.Dims()
	br, bc := b.Dims()
	if ar != br || ac != bc {
		return false
	}
	for i := 0; i < ar; i++ {
		for j := 0; j < ac; j++ {
			if !near(a.At(i, j), b.At(i, j), tol) {
				return false
			}
		}
	}
	return true
}

// ---- matrices ---------------------------------------------------------------------------------

type M [][]float64

func (m M) dims() (int, int) {
	if len(m) == 0 {
		return 0, 0
	}
	return len(m), len(m[0])
}

func (m M) dense() *mat.Dense {
	r, c := m.dims()
	d := mat.NewDense(r, c, nil)
	for i := range m {
		for j := range m[i] {
			d.Set(i, j, m[i][j])
		}
	}
	return d
}

func (m M) col(j int) []float64 {
	out := make([]float64, len(m))
	for i := range m {
		out[i] = m[i][j]
	}
	return out
}

func (m M) copy() M {
	o := make(M, len(m))
	for i := range m {
		o[i] = append([]float64(nil), m[i]...)
	}
	return o
}

func (m M) rows(idx ...int) M {
	o := make(M, len(idx))
	for k, i := range idx {
		o[k] = append([]float64(nil), m[i]...)
	}
	return o
}

func (m M) slice(a, b int) M { return m[a:b].copy() }

func (m M) String() string {
	var b strings.Builder
	for i, r := range m {
		if i > 0 {
			b.WriteByte(';')
		}
		for j, v := range r {
			if j > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%g", v)
		}
	}
	return b.String()
}

func toM(a mat.Matrix) M {
	if a == nil {
		return nil
	}
	if d, ok := a.(*mat.Dense); ok && (d == nil || d.IsEmpty()) {
		return nil
	}
	r, c := a.Dims()
	o := make(M, r)
	for i := range o {
		o[i] = make([]float64, c)
		for j := range o[i] {
			o[i][j] = a.At(i, j)
		}
	}
	return o
}

func nearM(a, b M, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !nearSlice(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

func finiteM(a M) bool {
	for _, r := range a {
		for _, v := range r {
			if isBad(v) {
				return false
			}
		}
	}
	return true
}

func colVec(v []float64) M {
	o := make(M, len(v))
	for i := range v {
		o[i] = []float64{v[i]}
	}
	return o
}

func fstr(v []float64) string {
	s := make([]string, len(v))
	for i := range v {
		s[i] = fmt.Sprintf("%g", v[i])
	}
	return strings.Join(s, ",")
}

// roMat is a matrix that is nothing but a mat.Matrix.
type roMat struct{ m M }

func (r roMat) Dims() (int, int)    { return r.m.dims() }
func (r roMat) At(i, j int) float64 { return r.m[i][j] }
func (r roMat) T() mat.Matrix       { return mat.Transpose{Matrix: r} }

// rwMat is only a mat.Mutable.
type rwMat struct{ m M }

func (r rwMat) Dims() (int, int)        { return r.m.dims() }
func (r rwMat) At(i, j int) float64     { return r.m[i][j] }
func (r rwMat) Set(i, j int, v float64) { r.m[i][j] = v }
func (r rwMat) T() mat.Matrix           { return mat.Transpose{Matrix: r} }

const canary = -987654.25

// viewOf returns a *mat.Dense holding m that is a window into a larger matrix filled with canaries, and
// a function telling whether every cell outside the window is intact.
func viewOf(m M) (*mat.Dense, func() bool) {
	r, c := m.dims()
	big := mat.NewDense(r+2, c+3, nil)
	br, bc := big.Dims()
	for i := 0; i < br; i++ {
		for j := 0; j < bc; j++ {
			big.Set(i, j, canary)
		}
	}
	for i := range m {
		for j := range m[i] {
			big.Set(i+1, j+2, m[i][j])
		}
	}
	v := big.Slice(1, 1+r, 2, 2+c).(*mat.Dense)
	return v, func() bool {
		for i := 0; i < br; i++ {
			for j := 0; j < bc; j++ {
				if i >= 1 && i < 1+r && j >= 2 && j < 2+c {
					continue
				}
				if big.At(i, j) != canary {
					return false
				}
			}
		}
		return true
	}
}

// tightView is a strided window whose last row ends at the end of the backing array.
func tightView(m M) *mat.Dense {
	r, c := m.dims()
	big := mat.NewDense(r, c+1, nil)
	for i := range m {
		big.Set(i, 0, canary)
		for j := range m[i] {
			big.Set(i, j+1, m[i][j])
		}
	}
	return big.Slice(0, r, 1, c+1).(*mat.Dense)
}

// ---- enumeration ------------------------------------------------------------------------------

// tuples calls f for every vector of length n over vals (the slice is reused).
func tuples(n int, vals []float64, f func(v []float64)) {
	v := make([]float64, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(v)
			return
		}
		for _, x := range vals {
			v[k] = x
			rec(k + 1)
		}
	}
	rec(0)
}

// intTuples calls f for every vector over 0..k-1 of length n.
func intTuples(n, k int, f func(v []int)) {
	v := make([]int, n)
	var rec func(p int)
	rec = func(p int) {
		if p == n {
			f(v)
			return
		}
		for x := 0; x < k; x++ {
			v[p] = x
			rec(p + 1)
		}
	}
	rec(0)
}

// matrices calls f for every r x c matrix over vals.
func matrices(r, c int, vals []float64, f func(m M)) {
	tuples(r*c, vals, func(v []float64) {
		m := make(M, r)
		for i := range m {
			m[i] = append([]float64(nil), v[i*c:(i+1)*c]...)
		}
		f(m)
	})
}

// canonMatrices: every r x c matrix over vals, up to row order (rows sorted non-decreasingly).
func canonMatrices(r, c int, vals []float64, f func(m M)) {
	var rows [][]float64
	tuples(c, vals, func(v []float64) { rows = append(rows, append([]float64(nil), v...)) })
	idx := make([]int, r)
	var rec func(k, from int)
	rec = func(k, from int) {
		if k == r {
			m := make(M, r)
			for i := range m {
				m[i] = append([]float64(nil), rows[idx[i]]...)
			}
			f(m)
			return
		}
		for x := from; x < len(rows); x++ {
			idx[k] = x
			rec(k+1, x)
		}
	}
	rec(0, 0)
}

// permutations of 0..n-1
func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[k] = x
				rec(k + 1)
				used[x] = false
			}
		}
	}
	rec(0)
}

// compositions of n into positive parts
func compositions(n int, f func(parts []int)) {
	var rec func(left int, parts []int)
	rec = func(left int, parts []int) {
		if left == 0 {
			f(append([]int(nil), parts...))
			return
		}
		for k := 1; k <= left; k++ {
			rec(left-k, append(parts, k))
		}
	}
	rec(n, nil)
}

// lattice is a deterministic, structured larger matrix: distinct pseudo-irregular dyadic values.
func lattice(r, c int, salt int) M {
	m := make(M, r)
	s := uint32(salt*2654435761 + 12345)
	for i := range m {
		m[i] = make([]float64, c)
		for j := range m[i] {
			s = s*1664525 + 1013904223
			m[i][j] = float64(int((s>>16)%64)-32) / 4
		}
	}
	return m
}

// family calls f for every r x c matrix over vals when there are few cells, and for a fixed list of structured
// matrices (many distinct values; few distinct values; a repeated row) when there are many.
func family(r, c int, vals []float64, f func(m M)) {
	if r*c <= 12 {
		matrices(r, c, vals, f)
		return
	}
	for salt := 1; salt <= 8; salt++ {
		m := lattice(r, c, salt+31*r+c)
		f(m)
		q := m.copy()
		for i := range q {
			for j := range q[i] {
				q[i][j] = vals[(int(q[i][j]*4)+64)%len(vals)]
			}
		}
		f(q)
		d := m.copy()
		for i := range d {
			if i%4 != salt%4 {
				d[i] = append([]float64(nil), m[salt%r]...)
			}
		}
		f(d)
	}
}

func catch(f func()) (err interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			err = r
		}
	}()
	f()
	return nil
}

func distinct(v []float64) []float64 {
	var out []float64
	for _, x := range v {
		found := false
		for _, y := range out {
			if y == x {
				found = true
			}
		}
		if !found {
			out = append(out, x)
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// gauss solves the augmented system A (n x n+1) by elimination with partial pivoting; nil when singular.
func gauss(A M) []float64 {
	n := len(A)
	A = A.copy()
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(A[i][k]) > math.Abs(A[p][k]) {
				p = i
			}
		}
		if math.Abs(A[p][k]) < 1e-12 {
			return nil
		}
		A[k], A[p] = A[p], A[k]
		for i := k + 1; i < n; i++ {
			f := A[i][k] / A[k][k]
			for j := k; j <= n; j++ {
				A[i][j] -= f * A[k][j]
			}
		}
	}
	x := make([]float64, n)
	for k := n - 1; k >= 0; k-- {
		s := A[k][n]
		for j := k + 1; j < n; j++ {
			s -= A[k][j] * x[j]
		}
		x[k] = s / A[k][k]
	}
	return x
}

func zerosM(r, c int, v float64) M {
	o := make(M, r)
	for i := range o {
		o[i] = make([]float64, c)
		for j := range o[i] {
			o[i][j] = v
		}
	}
	return o
}

// indexOf is the position of x in v, or -1.
func indexOf(v []float64, x float64) int {
	for i, y := range v {
		if y == x {
			return i
		}
	}
	return -1
}
