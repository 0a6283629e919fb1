//go:build all || C39

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/pa-m/sklearn/datasets"
	"gonum.org/v1/gonum/mat"
)

// ---- C39: the bundled data sets ----------------------------------------------------------------
//
// Three spaces: every history of loads (and of overwriting what was loaded) up to a depth on the
// bundled files, against an independent reading of these files; every small MLDataset value through
// GetXY; and generated files in place of the bundled ones (every small table, number format, line
// ending, and every prefix of a file), read by a child process whose module directory is a scratch
// directory.

const data39 = "/repo/datasets/data"

// want39 is what a loader should return.
type want39 struct {
	Data         [][]float64
	Target       []float64
	TargetNames  []string
	DESCR        string
	FeatureNames []string
	X, Y         M
}

type got39 struct {
	Panic string
	want39
}

var loaders39 = []struct {
	name, file, kind string
}{
	{"LoadIris", "iris.json", "json"},
	{"LoadBreastCancer", "cancer.json", "json"},
	{"LoadDiabetes", "diabetes.json", "json"},
	{"LoadBoston", "boston.json", "json"},
	{"LoadWine", "wine.json", "json"},
	{"LoadExamScore", "ex2data1.txt", "csv"},
	{"LoadMicroChipTest", "ex2data2.txt", "csv"},
	{"LoadInternationalAirlinesPassengers", "international-airline-passengers.csv", "airline"},
	{"LoadMnistWeights", "ex4weights.dat.gz", "octave"},
}

// m39 copies what a matrix holds (nil for nil).
func m39(m *mat.Dense) M {
	if m == nil {
		return nil
	}
	r, c := m.Dims()
	out := make(M, r)
	for i := range out {
		out[i] = make([]float64, c)
		for j := range out[i] {
			out[i][j] = m.At(i, j)
		}
	}
	return out
}

// load39 calls a loader; scribble overwrites all it returned.
func load39(name string) (g want39, scribble func()) {
	ds := func(d *datasets.MLDataset) (want39, func()) {
		w := want39{FeatureNames: append([]string(nil), d.FeatureNames...), TargetNames: append([]string(nil), d.TargetNames...),
			DESCR: d.DESCR, Target: append([]float64(nil), d.Target...), X: m39(d.X), Y: m39(d.Y)}
		for _, r := range d.Data {
			w.Data = append(w.Data, append([]float64(nil), r...))
		}
		return w, func() {
			for _, r := range d.Data {
				fill39(r)
			}
			fill39(d.Target)
			fill39(d.X.RawMatrix().Data)
			fill39(d.Y.RawMatrix().Data)
			for i := range d.FeatureNames {
				d.FeatureNames[i] = "?"
			}
			for i := range d.TargetNames {
				d.TargetNames[i] = "?"
			}
			d.DESCR = "?"
		}
	}
	xy := func(X, Y *mat.Dense) (want39, func()) {
		return want39{X: m39(X), Y: m39(Y)}, func() {
			for _, m := range []*mat.Dense{X, Y} {
				if m != nil {
					fill39(m.RawMatrix().Data)
				}
			}
		}
	}
	switch name {
	case "LoadIris":
		return ds(datasets.LoadIris())
	case "LoadBreastCancer":
		return ds(datasets.LoadBreastCancer())
	case "LoadDiabetes":
		return ds(datasets.LoadDiabetes())
	case "LoadBoston":
		return ds(datasets.LoadBoston())
	case "LoadWine":
		return ds(datasets.LoadWine())
	case "LoadExamScore":
		return xy(datasets.LoadExamScore())
	case "LoadMicroChipTest":
		return xy(datasets.LoadMicroChipTest())
	case "LoadInternationalAirlinesPassengers":
		return xy(nil, datasets.LoadInternationalAirlinesPassengers())
	case "LoadMnistWeights":
		return xy(datasets.LoadMnistWeights())
	}
	panic("unknown loader " + name)
}

func fill39(a []float64) {
	for i := range a {
		a[i] = -12345.5
	}
}

// parse39 reads content independently; ok is false where the content is damaged.
func parse39(kind string, content []byte) (w want39, ok bool) {
	switch kind {
	case "json":
		var v map[string]interface{}
		d := json.NewDecoder(bytes.NewReader(content))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return w, false
		}
		if _, err := d.Token(); err != io.EOF {
			return w, false
		}
		num := func(v interface{}) float64 {
			n, isn := v.(json.Number)
			if !isn {
				panic("not a number")
			}
			f, err := strconv.ParseFloat(string(n), 64)
			if err != nil {
				panic(err)
			}
			return f
		}
		if catch(func() {
			list := func(k string) []interface{} {
				if v[k] == nil {
					return nil
				}
				return v[k].([]interface{})
			}
			for _, r := range list("data") {
				var row []float64
				for _, e := range r.([]interface{}) {
					row = append(row, num(e))
				}
				w.Data = append(w.Data, row)
			}
			for _, e := range list("target") {
				w.Target = append(w.Target, num(e))
			}
			for _, e := range list("target_names") {
				w.TargetNames = append(w.TargetNames, e.(string))
			}
			for _, e := range list("feature_names") {
				w.FeatureNames = append(w.FeatureNames, e.(string))
			}
			if v["DESCR"] != nil {
				w.DESCR = v["DESCR"].(string)
			}
			for i, r := range w.Data {
				if len(r) < len(w.FeatureNames) {
					panic("short row")
				}
				w.X = append(w.X, r[:len(w.FeatureNames):len(w.FeatureNames)])
				w.Y = append(w.Y, []float64{w.Target[i]})
			}
		}) != nil {
			return w, false
		}
		return w, len(w.Data) > 0 && len(w.FeatureNames) > 0
	case "csv", "airline":
		lines := strings.Split(strings.Replace(string(content), "\r\n", "\n", -1), "\n")
		if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		if kind == "airline" {
			if len(lines) == 0 {
				return w, false
			}
			lines = lines[1:]
		}
		n := -1
		for _, l := range lines {
			if l == "" { // a blank line is no row
				continue
			}
			cells := strings.Split(l, ",")
			if n >= 0 && len(cells) != n || len(cells) < 2 {
				return w, false
			}
			n = len(cells)
			var row []float64
			for j, s := range cells {
				if len(s) > 0 && (s[0] == '"') {
					if len(s) < 2 || s[len(s)-1] != '"' {
						return w, false
					}
					s = s[1 : len(s)-1]
				}
				if kind == "airline" && j != 1 {
					continue
				}
				f, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return w, false
				}
				row = append(row, f)
			}
			if kind == "airline" {
				w.Y = append(w.Y, row)
			} else {
				w.X = append(w.X, row[:n-1:n-1])
				w.Y = append(w.Y, row[n-1:])
			}
		}
		return w, n >= 0
	case "octave":
		z, err := gzip.NewReader(bytes.NewReader(content))
		if err != nil {
			return w, false
		}
		b, err := ioutil.ReadAll(z)
		if err != nil {
			return w, false
		}
		if catch(func() {
			b = b[11:]
			word := func() int { v := int32(binary.LittleEndian.Uint32(b)); b = b[4:]; return int(v) }
			text := func() string { n := word(); s := string(b[:n]); b = b[n:]; return s }
			for len(b) > 0 {
				name := text()
				text()
				b = b[2:] // global flag, type code
				if text() != "matrix" || word() != -2 {
					panic("type")
				}
				r, c := word(), word()
				if b[0] != 7 {
					panic("format")
				}
				b = b[1:]
				m := make(M, r)
				for i := range m {
					m[i] = make([]float64, c)
				}
				for j := 0; j < c; j++ {
					for i := 0; i < r; i++ {
						m[i][j] = math.Float64frombits(binary.LittleEndian.Uint64(b))
						b = b[8:]
					}
				}
				if name == "Theta1" {
					w.X = m
				} else if name == "Theta2" {
					w.Y = m
				}
			}
		}) != nil {
			return w, false
		}
		return w, true
	}
	panic(kind)
}

func eqM39(a, b M) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows instead of %d", len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("row %d has %d columns instead of %d", i, len(a[i]), len(b[i]))
		}
		for j := range a[i] {
			if math.Float64bits(a[i][j]) != math.Float64bits(b[i][j]) {
				return fmt.Sprintf("cell %d,%d is %v instead of %v", i, j, a[i][j], b[i][j])
			}
		}
	}
	return ""
}

func must39(c *C, g, w want39, what string) {
	for _, q := range []struct {
		n    string
		a, b M
	}{{"X", g.X, w.X}, {"Y", g.Y, w.Y}, {"Data", M(g.Data), M(w.Data)}, {"Target", M{g.Target}, M{w.Target}}} {
		d := eqM39(q.a, q.b)
		c.Must(d == "", what+"/"+q.n, "%s", d)
	}
	same := func(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }
	c.Must(same(g.FeatureNames, w.FeatureNames), what+"/FeatureNames", "%q instead of %q", g.FeatureNames, w.FeatureNames)
	c.Must(same(g.TargetNames, w.TargetNames), what+"/TargetNames", "%q instead of %q", g.TargetNames, w.TargetNames)
	c.Must(g.DESCR == w.DESCR, what+"/DESCR", "%d bytes instead of %d", len(g.DESCR), len(w.DESCR))
}

// ---- the child: its module directory is a scratch directory ------------------------------------

type req39 struct {
	Name, File string
	Content    []byte
	Missing    bool
}

// bits39 keeps every float exact on the pipe (also NaN and infinities).
type bits39 struct {
	Panic                     string
	Data, X, Y                [][]uint64
	Target                    []uint64
	TargetNames, FeatureNames []string
	DESCR                     string
	NilX, NilY                bool
}

func toBits39(a []float64) (o []uint64) {
	for _, v := range a {
		o = append(o, math.Float64bits(v))
	}
	return
}

func fromBits39(a []uint64) (o []float64) {
	for _, v := range a {
		o = append(o, math.Float64frombits(v))
	}
	return
}

func toBitsM39(a [][]float64) (o [][]uint64) {
	for _, r := range a {
		o = append(o, toBits39(r))
	}
	return
}

func fromBitsM39(a [][]uint64) (o [][]float64) {
	for _, r := range a {
		o = append(o, fromBits39(r))
	}
	return
}

func init() {
	if os.Getenv("MC_C39_CHILD") == "" {
		return
	}
	root := os.Getenv("MC_C39_CHILD")
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	for {
		var q req39
		if in.Decode(&q) != nil {
			os.Exit(0)
		}
		p := filepath.Join(root, "fake", "datasets", "data", q.File)
		os.Remove(p)
		if !q.Missing {
			ioutil.WriteFile(p, q.Content, 0644)
		}
		var b bits39
		if e := catch(func() {
			w, _ := load39(q.Name)
			b = bits39{Data: toBitsM39(w.Data), X: toBitsM39(w.X), Y: toBitsM39(w.Y), Target: toBits39(w.Target), TargetNames: w.TargetNames, FeatureNames: w.FeatureNames, DESCR: w.DESCR}
		}); e != nil {
			b = bits39{Panic: fmt.Sprint(e)}
		}
		os.Remove(p)
		out.Encode(&b)
	}
}

type child39 struct {
	dir string
	cmd *exec.Cmd
	in  *json.Encoder
	w   io.WriteCloser
	out *json.Decoder
	ok  bool // the loaders read the scratch directory
}

func start39() *child39 {
	dir, err := ioutil.TempDir("", "c39")
	if err != nil {
		panic(err)
	}
	k := &child39{dir: dir}
	os.MkdirAll(filepath.Join(dir, "fake", "datasets", "data"), 0755)
	ioutil.WriteFile(filepath.Join(dir, "go.mod"), []byte("module c39\n\ngo 1.13\n\nrequire github.com/pa-m/sklearn v0.0.0\n\nreplace github.com/pa-m/sklearn => ./fake\n"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "x.go"), []byte("package main\n\nimport _ \"github.com/pa-m/sklearn\"\n\nfunc main() {}\n"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "fake", "go.mod"), []byte("module github.com/pa-m/sklearn\n\ngo 1.13\n"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "fake", "doc.go"), []byte("package sklearn\n"), 0644)
	self, _ := os.Executable()
	k.cmd = exec.Command(self, "list")
	k.cmd.Dir = dir
	k.cmd.Env = append(os.Environ(), "MC_C39_CHILD="+dir, "PWD="+dir)
	w, err := k.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := k.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	k.w = w
	k.in, k.out = json.NewEncoder(w), json.NewDecoder(bufio.NewReader(r))
	if k.cmd.Start() != nil {
		return k
	}
	k.ok = true
	probe := []byte(`{"data":[[41.25,42.5],[43,44]],"target":[7,8],"feature_names":["p","q"],"DESCR":"d"}`)
	g := k.load(req39{Name: "LoadIris", File: "iris.json", Content: probe})
	want, _ := parse39("json", probe)
	k.ok = g.Panic == "" && eqM39(g.Data, want.Data) == ""
	return k
}

func (k *child39) stop() {
	k.w.Close()
	if k.cmd.Process != nil {
		k.cmd.Process.Kill()
		k.cmd.Wait()
	}
	os.RemoveAll(k.dir)
}

func (k *child39) load(q req39) (g got39) {
	if err := k.in.Encode(&q); err != nil {
		return got39{Panic: "child: " + err.Error()}
	}
	var b bits39
	if err := k.out.Decode(&b); err != nil {
		return got39{Panic: "child: " + err.Error()}
	}
	g.Panic = b.Panic
	g.Data, g.X, g.Y, g.Target = fromBitsM39(b.Data), fromBitsM39(b.X), fromBitsM39(b.Y), fromBits39(b.Target)
	g.TargetNames, g.FeatureNames, g.DESCR = b.TargetNames, b.FeatureNames, b.DESCR
	return g
}

func run39(x *X) {
	// 1. histories of loads on the bundled files
	wants := make([]*want39, len(loaders39))
	want := func(i int) *want39 {
		if wants[i] == nil {
			b, err := ioutil.ReadFile(filepath.Join(data39, loaders39[i].file))
			if err != nil {
				return nil
			}
			w, ok := parse39(loaders39[i].kind, b)
			if !ok {
				return nil
			}
			wants[i] = &w
		}
		return wants[i]
	}
	type op struct {
		l        int
		scribble bool
	}
	var ops []op
	for l := range loaders39 {
		ops = append(ops, op{l, false}, op{l, true})
	}
	depth := x.Pick(2, 3)
	for d := 1; d <= depth; d++ {
		idx := make([]int, d)
		for {
			h := append([]int(nil), idx...)
			x.Case("history", func() string {
				s := "bundled"
				for _, o := range h {
					s += " " + loaders39[ops[o].l].name
					if ops[o].scribble {
						s += "+overwrite"
					}
				}
				return s
			}, func(c *C) {
				for _, o := range h {
					w := want(ops[o].l)
					if w == nil {
						c.Fail("file", "the bundled file %s cannot be read", loaders39[ops[o].l].file)
						return
					}
					g, scribble := load39(loaders39[ops[o].l].name)
					must39(c, g, *w, loaders39[ops[o].l].name)
					if ops[o].scribble {
						scribble()
					}
					c.Steps(1)
				}
				c.Trace()
			})
			p := 0
			for ; p < d; p++ {
				idx[p]++
				if idx[p] < len(ops) {
					break
				}
				idx[p] = 0
			}
			if p == d {
				break
			}
		}
	}
	// 2. GetXY of every small data set
	vals := []float64{0, -1.5, 2, 1e300}
	for rows := 1; rows <= 3; rows++ {
		for cols := 1; cols <= 3; cols++ {
			n := rows * (cols + 1)
			if n > x.Pick(6, 9) {
				continue
			}
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(vals)
			}
			for code := 0; code < tot; code++ {
				for extra := 0; extra < 2; extra++ { // targets beyond the rows are not used
					rows, cols, code, extra := rows, cols, code, extra
					mk := func() *datasets.MLDataset {
						d := &datasets.MLDataset{}
						v := code
						next := func() float64 { r := vals[v%len(vals)]; v /= len(vals); return r }
						for i := 0; i < rows; i++ {
							var r []float64
							for j := 0; j < cols; j++ {
								r = append(r, next())
							}
							d.Data = append(d.Data, r)
							d.Target = append(d.Target, next())
						}
						for i := 0; i < extra; i++ {
							d.Target = append(d.Target, 99)
						}
						for j := 0; j < cols; j++ {
							d.FeatureNames = append(d.FeatureNames, fmt.Sprint("f", j))
						}
						return d
					}
					x.Case("GetXY", func() string { d := mk(); return fmt.Sprintf("GetXY data=%v target=%v", d.Data, d.Target) }, func(c *C) {
						d := mk()
						ref := mk()
						for rep := 0; rep < 2; rep++ {
							X, Y := d.GetXY()
							for i := range ref.Data {
								ref39 := M{ref.Data[i]}
								g := m39(X)
								e := eqM39(M{g[i]}, ref39)
								c.Must(e == "" && len(g) == rows, "GetXY/X", "row %d: %s", i, e)
								h := m39(Y)
								c.Must(len(h) == rows && len(h[i]) == 1 && h[i][0] == ref.Target[i], "GetXY/Y", "row %d: %v", i, h)
							}
							c.Must(reflect.DeepEqual(d.Data, ref.Data) && reflect.DeepEqual(d.Target, ref.Target), "GetXY/input", "the data set changed")
							fill39(X.RawMatrix().Data)
							fill39(Y.RawMatrix().Data)
							c.Must(reflect.DeepEqual(d.Data, ref.Data) && reflect.DeepEqual(d.Target, ref.Target), "GetXY/alias", "the matrices share the data set's memory")
							c.Steps(1)
						}
						c.Trace()
					})
				}
			}
		}
	}
	// 3. generated files
	var k *child39
	defer func() {
		if k != nil {
			k.stop()
		}
	}()
	file := func(group string, l int, content []byte, missing bool, desc string) {
		x.Case(group, func() string { return loaders39[l].name + " " + desc }, func(c *C) {
			if k == nil {
				k = start39()
			}
			if !k.ok { // the loaders do not resolve their directory through the module any more
				return
			}
			w, ok := parse39(loaders39[l].kind, content)
			g := k.load(req39{loaders39[l].name, loaders39[l].file, content, missing})
			if strings.HasPrefix(g.Panic, "child: ") {
				k.stop()
				k = nil
			}
			if missing || !ok {
				c.Must(g.Panic != "", loaders39[l].name+"/damage", "a damaged file was accepted: X %v Y %v", g.X, g.Y)
			} else {
				c.Must(g.Panic == "", loaders39[l].name+"/rejected", "a well-formed file was not loaded: %s", g.Panic)
				if g.Panic == "" {
					must39(c, g.want39, w, loaders39[l].name)
				}
			}
			c.Steps(1)
			c.Trace()
		})
	}
	nums := []string{"0", "-1.5", "1e-3", "7", "12345.678901234567", "-0"}
	for l, ld := range loaders39 {
		if ld.kind == "octave" {
			continue // C37
		}
		file("missing", l, nil, true, "no file")
		table := func(rows, cols int, cell func(i, j int) string, eol string, last bool) []byte {
			var b strings.Builder
			switch ld.kind {
			case "json":
				b.WriteString(`{"data":[`)
				for i := 0; i < rows; i++ {
					if i > 0 {
						b.WriteString(",")
					}
					b.WriteString("[")
					for j := 0; j < cols; j++ {
						if j > 0 {
							b.WriteString(", ")
						}
						b.WriteString(cell(i, j))
					}
					b.WriteString("]" + eol)
				}
				b.WriteString(`],"target":[`)
				for i := 0; i < rows; i++ {
					if i > 0 {
						b.WriteString(",")
					}
					b.WriteString(cell(i, cols))
				}
				b.WriteString(`],"target_names":["a","b\u00e9"],"DESCR":"x\ny \"q\"","feature_names":[`)
				for j := 0; j < cols; j++ {
					if j > 0 {
						b.WriteString(",")
					}
					fmt.Fprintf(&b, `"f %d"`, j)
				}
				b.WriteString("]}")
			case "csv":
				for i := 0; i < rows; i++ {
					for j := 0; j <= cols; j++ {
						if j > 0 {
							b.WriteString(",")
						}
						b.WriteString(cell(i, j))
					}
					if i < rows-1 || last {
						b.WriteString(eol)
					}
				}
			case "airline":
				b.WriteString(`"Month","total"` + eol)
				for i := 0; i < rows; i++ {
					fmt.Fprintf(&b, `"19%02d-%02d",%s`, i%100, i%12+1, cell(i, cols))
					if i < rows-1 || last {
						b.WriteString(eol)
					}
				}
			}
			return []byte(b.String())
		}
		maxCells := x.Pick(4, 6)
		for rows := 1; rows <= 4; rows++ {
			for cols := 1; cols <= 4; cols++ {
				n := rows * (cols + 1)
				if ld.kind == "airline" {
					n = rows
					if cols > 1 {
						continue
					}
				}
				if n > maxCells {
					continue
				}
				tot := 1
				for i := 0; i < n; i++ {
					tot *= len(nums)
				}
				for code := 0; code < tot; code++ {
					for _, eol := range []string{"\n", "\r\n"} {
						for _, last := range []bool{true, false} {
							if ld.kind == "json" && !last {
								continue
							}
							digits := make([]int, n)
							for i, v := 0, code; i < n; i++ {
								digits[i] = v % len(nums)
								v /= len(nums)
							}
							b := table(rows, cols, func(i, j int) string {
								if ld.kind == "airline" {
									return nums[digits[i]]
								}
								return nums[digits[i*(cols+1)+j]]
							}, eol, last)
							file("table", l, b, false, fmt.Sprintf("%q", b))
						}
					}
				}
			}
		}
		// distinct cells in larger tables
		for _, rc := range [][2]int{{5, 3}, {17, 2}, {1, 40}, {64, 5}, {100, 30}, {257, 3}, {1000, 4}, {1025, 7}, {5000, 2}, {3, 2000}} {
			if rc[0]*rc[1] > x.Pick(8000, 100000) || ld.kind == "airline" && rc[1] > 10 {
				continue
			}
			b := table(rc[0], rc[1], func(i, j int) string { return fmt.Sprintf("%d.%03d", i, j) }, "\n", true)
			file("large", l, b, false, fmt.Sprintf("%d x %d, cell i,j = i + j/1000", rc[0], rc[1]))
		}
		// every prefix of a file, and every byte of it replaced by a letter
		for _, rc := range [][2]int{{1, 1}, {2, 2}, {3, 2}} {
			b := table(rc[0], rc[1], func(i, j int) string { return fmt.Sprintf("%d%d.5", i+1, j+1) }, "\n", true)
			for n := 0; n < len(b); n++ {
				file("prefix", l, b[:n], false, fmt.Sprintf("first %d bytes of %q", n, b))
				if ch := b[n]; ch >= '0' && ch <= '9' {
					q := append([]byte(nil), b...)
					q[n] = 'x'
					if ld.kind == "json" && !numeric39(b, n) {
						continue
					}
					file("letter", l, q, false, fmt.Sprintf("%q", q))
				}
			}
		}
		if ld.kind == "json" { // short rows, short targets
			for r := 0; r < 4; r++ {
				rows := []string{"[1,2]", "[3,4]", "[5,6]"}
				target := "[7,8,9]"
				if r < 3 {
					rows[r] = rows[r][:2] + "]"
				} else {
					target = "[7,8]"
				}
				b := []byte(`{"data":[` + strings.Join(rows, ",") + `],"target":` + target + `,"feature_names":["a","b"]}`)
				file("ragged", l, b, false, fmt.Sprintf("%q", b))
			}
		}
		// a row with a cell more or less
		if ld.kind == "csv" {
			for r := 0; r < 3; r++ {
				for d := -1; d <= 1; d += 2 {
					var b bytes.Buffer
					for i := 0; i < 3; i++ {
						n := 3
						if i == r {
							n += d
						}
						for j := 0; j < n; j++ {
							if j > 0 {
								b.WriteByte(',')
							}
							fmt.Fprintf(&b, "%d%d", i, j)
						}
						b.WriteByte('\n')
					}
					file("ragged", l, b.Bytes(), false, fmt.Sprintf("%q", b.Bytes()))
				}
			}
		}
	}
}

// numeric39 tells whether byte n of a JSON text is outside strings.
func numeric39(b []byte, n int) bool {
	in := false
	for i := 0; i < n; i++ {
		if b[i] == '\\' {
			i++
			continue
		}
		if b[i] == '"' {
			in = !in
		}
	}
	return !in
}

func init() {
	register("C39", "every history of loading the bundled data sets (and overwriting what was loaded) up to the depth, every small data set through GetXY, and every generated file (all small tables over an alphabet of number formats and line endings, larger tables of distinct cells, every prefix, every digit replaced, ragged rows, no file) in place of the bundled ones, compared with an independent reading of the same bytes",
		run39,
		"generated files replace the bundled ones for a child process whose module directory is a scratch directory; if the loaders no longer resolve their directory through the module, only the bundled files are checked")
}
