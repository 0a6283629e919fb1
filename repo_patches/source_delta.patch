From 3639d790089738eda5b0d3841571583758f30ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:26 +0000
Subject: [PATCH 001/128] fix: weight samples, not outputs, in MeanSquaredError
 and MeanAbsoluteError

---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From 893a7bc064631b745f54f64063b09ab9eb4c8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:26 +0000
Subject: [PATCH 002/128] fix: pair each flattened label with its own sample
 weight in micro-averaged ranking metrics

---
 metrics/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..6fee1a5 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -30,8 +30,8 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for i := range tmp {
+				tmp[i] = scoreWeight[i/n]
 			}
 			scoreWeight = tmp
 		}
-- 
2.43.0


From 21312c854bde022b8d2a72364941124dbab6545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 003/128] fix: score each sample's row in samples-averaged
 ranking metrics

---
 metrics/base.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 6fee1a5..bf35f58 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -20,7 +20,6 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	if yType == "binary" {
 		return binaryMetric(Ytrue, Yscore, sampleWeight)
 	}
-	notAverageAxis := 1
 	scoreWeight := sampleWeight
 	var averageWeight []float64
 	yt, ys := Ytrue, Yscore
@@ -64,14 +63,14 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		// # swap average_weight <-> score_weight
 		averageWeight = scoreWeight
 		scoreWeight = nil
-		notAverageAxis = 0
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
+		ytmat, ysmat = yt.RawMatrix(), ys.RawMatrix()
 
 	case "macro", "":
 	default:
 		fmt.Println("averageBinaryScore: unsupported average:", average)
 	}
-	ytshape := [2]int{ytmat.Rows, ytmat.Cols}
-	NClasses := ytshape[notAverageAxis]
+	NClasses := ytmat.Cols
 	scores := make([]float64, NClasses)
 	for c := 0; c < NClasses; c++ {
 		scores[c] = binaryMetric(
-- 
2.43.0


From a8f90efd80add76d7c9ef621951ffcc0785ac761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 004/128] fix: weight classes by their support in weighted
 precision, recall and F-score

---
 metrics/classification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..615879e 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -121,13 +121,13 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			r = append(r, prfs.r)
 			f = append(f, prfs.f)
 			if average == "weighted" {
-				s = append(s, prfs.s)
+				s = append(s, sumsperclass[c].truesum)
 			} else {
 				s = append(s, 1)
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
+		m := prfstype{stat.Mean(p, s), stat.Mean(r, s), stat.Mean(f, s), stat.Mean(s, nil)}
 		precision, recall, fscore, support = m.p, m.r, m.f, 0
 	}
 	// for average=micro
-- 
2.43.0


From 25673c49c7e7d43cac5b70884f54748e93541dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 005/128] fix: confusion matrix counts labels that are
 predicted but never true, first column only

---
 metrics/classification.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 615879e..58ac23c 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -3,6 +3,7 @@ package metrics
 import (
 	"fmt"
 
+	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/preprocessing"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -153,10 +154,19 @@ func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense
 }
 func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
 	le := preprocessing.NewLabelEncoder()
+	// only the 1st column is used, classes are those present in YTrue or YPred
+	YTrue, YPred = base.MatDenseColSlice(YTrue, 0, 1), base.MatDenseColSlice(YPred, 0, 1)
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	le.PartialFit(nil, YPred)
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
+	// support counts true labels only
+	for c := range le.Support[0] {
+		le.Support[0][c] = 0
+	}
+	for _, c := range yt.RawMatrix().Data {
+		le.Support[0][int(c)]++
+	}
 	//var tn, fp, fn, tp int
 	NClasses := len(le.Classes[0])
 	cm := mat.NewDense(NClasses, NClasses, nil)
-- 
2.43.0


From 93fccc273eaae33da7031a4ef98c44176a569edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:28 +0000
Subject: [PATCH 006/128] fix: LabelEncoder support of a class inserted before
 a known one

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..87d5a69 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -314,7 +314,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From af6daed6f9980217d2f776b113755d443cd42cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:16 +0000
Subject: [PATCH 007/128] fix: SGDOptimizer reports its status when used as an
 optimize.Method

---
 base/optimizers.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/optimizers.go b/base/optimizers.go
index 3ee6bbc..726cc76 100644
--- a/base/optimizers.go
+++ b/base/optimizers.go
@@ -79,6 +79,7 @@ type SGDOptimizer struct {
 
 	status optimize.Status
 	err    error
+	local  *optimize.GradientDescent
 }
 
 // NewSGDOptimizer returns an initialized *SGDOptimizer with stepsize 1e-4 and momentum 0.9
@@ -343,7 +344,16 @@ func (s *SGDOptimizer) initLocal(loc *optimize.Location) (op optimize.Operation,
 
 // Run implements optimize.Method.Run for SGDOptimizer
 func (s *SGDOptimizer) Run(operation chan<- optimize.Task, result <-chan optimize.Task, tasks []optimize.Task) {
-	(&optimize.GradientDescent{}).Run(operation, result, tasks)
+	s.local = &optimize.GradientDescent{}
+	s.local.Run(operation, result, tasks)
+}
+
+// Status implements optimize.Statuser, which optimize.Minimize requires from a Method that ends by itself
+func (s *SGDOptimizer) Status() (optimize.Status, error) {
+	if s.local == nil {
+		return s.status, s.err
+	}
+	return s.local.Status()
 }
 
 // Uses  is for when SGDOptimizer is used as an optimize.Method
-- 
2.43.0


From 2801ff08af78c25218eb66c5e1d7bb998677e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:16 +0000
Subject: [PATCH 008/128] fix: MatRowSlice writes the row it reads and rejects
 the row after its end

---
 base/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..d1cb87f 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -69,8 +69,11 @@ func (m MatRowSlice) At(i, j int) float64 {
 
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
+	if i < 0 || i >= m.End-m.Start {
+		panic("indexing error")
+	}
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From 43805d26118ae406021ea2034226cad75c627c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:16 +0000
Subject: [PATCH 009/128] fix: row slices of a view that ends with its backing
 array

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index d1cb87f..a25e6b4 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -180,7 +180,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
-- 
2.43.0


From e4b4a31ec07d3eb4c17b63063aaf025a15c830a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:16 +0000
Subject: [PATCH 010/128] fix: LockedSource is locked while it is cloned

---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From 6bf5d97985a8466a4ffe1e581e83f120bdd101c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:14 +0000
Subject: [PATCH 011/128] fix: read octave fields that straddle a buffer
 boundary, reject a file cut after a name length

---
 datasets/octave.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..31f6891 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -25,7 +25,7 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
+		nread, err := io.ReadFull(f.Reader, b)
 		if err != nil {
 			return b, err
 		}
@@ -53,6 +53,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 			return "", err
 		}
 		b, err := read(f, int(lenString))
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From f2dfb35ced92a16d7288948be1a968a1af7702ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 012/128] fix: CrossValidate uses its default splitter when
 none is given

---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From 740c0aa1c2160d9711c1715d554e91cfe8f24f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 013/128] fix: CrossValidate gives each split rows of its own

---
 model_selection/validation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index f564140..165d016 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -60,7 +60,9 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	}
 	NSamples, NFeatures := X.Dims()
 	_, NOutputs := Y.Dims()
-	processSplit := func(job int, Xjob, Yjob *mat.Dense, sin structIn) structOut {
+	processSplit := func(job int, sin structIn) structOut {
+		// each split owns its rows: the fitted estimator may keep references to them
+		Xjob, Yjob := mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		Xtrain, Xtest, Ytrain, Ytest := &mat.Dense{}, &mat.Dense{}, &mat.Dense{}, &mat.Dense{}
 		// fmt.Println("iSplit", sin.iSplit, "TrainIndex", sin.Split.TrainIndex[:10])
 		trainLen, testLen := len(sin.Split.TrainIndex), len(sin.Split.TestIndex)
@@ -96,17 +98,15 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 			sin = append(sin, structIn{iSplit: len(sin), Split: split})
 		}
 		base.Parallelize(NJobs, NSplits, func(th, start, end int) {
-			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			for i := start; i < end; i++ {
-				sout := processSplit(th, Xjob, Yjob, sin[i])
+				sout := processSplit(th, sin[i])
 				res.TestScore[sout.iSplit] = sout.score
 			}
 		})
 	} else { // NJobs==1
-		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		var isplit int
 		for split := range cv.Split(X, Y) {
-			sout := processSplit(0, Xjob, Yjob, structIn{iSplit: isplit, Split: split})
+			sout := processSplit(0, structIn{iSplit: isplit, Split: split})
 			res.TestScore[sout.iSplit] = sout.score
 			isplit++
 		}
-- 
2.43.0


From c042fd04012949fee72a91a7a99601ac79902295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 014/128] fix: ParameterGrid lists candidates in a fixed order
 and is empty when a parameter has no value

---
 model_selection/search.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..57f709b 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -15,7 +16,8 @@ import (
 func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interface{}) {
 	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}) (out []map[string]interface{}) {
 
-		if len(prevArr) == 0 {
+		out = make([]map[string]interface{}, 0)
+		if prevArr == nil {
 			for _, v := range values {
 				out = append(out, map[string]interface{}{name: v})
 			}
@@ -34,8 +36,13 @@ func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interfa
 
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	names := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	for _, k := range names {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 8966e09948d43256ec32fdc6f74f5601a643a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:36 +0000
Subject: [PATCH 015/128] fix: KFold announces the default number of splits it
 produces

---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From 40b2639c35aad583013aa23e4a5f004cf1046525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 016/128] fix: Pipeline.Predict skips steps without an inverse

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..7a43455 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -128,7 +128,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
 		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverser, ok := step.Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverser.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From 3bc644009c6e44b78a367f2ca46de542d87831fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 017/128] fix: Pipeline.Score compares with the targets its
 steps produced

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7a43455..34f281b 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From aebf67677bac58f454aaf2e072b7bced41555e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 018/128] fix: MaxAbsScaler, OneHotEncoder and Normalizer leave
 a nil X alone in InverseTransform, as other scalers do

---
 preprocessing/data.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..425c4e8 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -769,6 +769,9 @@ func (m *OneHotEncoder) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform compute Yout classes from one hot encoded format
 func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	nSamples, _ := X.Dims()
 	nFeatures := len(m.NValues)
 	Yout = Y
@@ -979,6 +982,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
@@ -1061,6 +1067,9 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	NSamples, NFeatures := X.Dims()
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
-- 
2.43.0


From 90d56d1ef0e931d7bfeb48e9cf2e3e7306e38495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:18 +0000
Subject: [PATCH 019/128] fix: PolynomialFeatures.InverseTransform hands Y back

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 425c4e8..373de71 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -647,7 +647,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			Xout.Set(i, pair.jorig, X.At(i, pair.jpoly))
 		}
 	}
-	return
+	return Xout, Y
 }
 
 // DenseMean puts in Xmean[1,nFeatures] the mean of X rows
-- 
2.43.0


From 456e45274723af2534081d143d220011f6d7cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:18 +0000
Subject: [PATCH 020/128] fix: Normalizer handles non square X and can be
 inverted

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 373de71..5732393 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1047,7 +1047,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
@@ -1071,6 +1071,7 @@ func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		return X, Y
 	}
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
-- 
2.43.0


From 1610784f2de86801f3f229def412c99ac6c847bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:19 +0000
Subject: [PATCH 021/128] fix: Shuffler accepts a nil X or Y and
 InverseTransform leaves its arguments unchanged

---
 preprocessing/data.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5732393..766615b 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pa-m/sklearn/base"
 
 	"github.com/pa-m/optimize"
+	"gonum.org/v1/gonum/blas/blas64"
 	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -816,7 +817,10 @@ func (m *Shuffler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 // Transform for Shuffler
 func (m *Shuffler) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	Xout, Yout = mat.DenseCopyOf(X), &mat.Dense{}
+	if Y != mat.Matrix(nil) && !base.ToDense(Y).IsEmpty() {
+		Yout = mat.DenseCopyOf(Y)
+	}
 	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
 	var dstxpos, dstypos, j int
 	var v float64
@@ -846,19 +850,31 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
+	if X != nil {
+		X = mat.DenseCopyOf(X)
+	}
+	if Y != nil && !Y.IsEmpty() {
+		Y = mat.DenseCopyOf(Y)
+	}
+	var xmat, ymat blas64.General
+	if X != nil {
+		xmat = X.RawMatrix()
+	}
+	if Y != nil {
+		ymat = Y.RawMatrix()
+	}
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
-- 
2.43.0


From 24199e5f4e1861a37b4bb70caf30786845cb9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:19 +0000
Subject: [PATCH 022/128] fix: Binarizer of a matrix view

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 766615b..e856f84 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -909,13 +909,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, xopos := 0, 0, 0; r < rmx.Rows; r, xpos, xopos = r+1, xpos+rmx.Stride, xopos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[xopos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[xopos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 2c9a603dc7da21b2f0af02aead3c4e25dcbe3b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 023/128] fix: KernelCenterer output has the shape of its input

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index e856f84..9351d83 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1153,7 +1153,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 406c263dcf8ce72b0560dd003196091e5c203081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 024/128] fix: StandardScaler variance over several PartialFit

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9351d83..457a192 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -523,8 +523,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From 2ca2c243ce54935d6e6c2181e93a6eb21cc84431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 025/128] fix: MeanStdDev and NumpyLike.Var divide by the
 number of rows

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 457a192..b01f938 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -249,7 +249,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -285,7 +285,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
-- 
2.43.0


From 7fd7f08bc62ee7082680e53b847a666e092ccea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 026/128] fix: MinMaxScaler does not write to X

---
 preprocessing/data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b01f938..9667d7b 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -74,11 +74,12 @@ func (scaler *MinMaxScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 		scaler.DataMin.CloneFrom(X.RowView(0).T())
 		scaler.DataMax.CloneFrom(X.RowView(0).T())
 	}
-	X.Apply(func(i int, j int, x float64) float64 {
-		scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
-		scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
-		return x
-	}, X)
+	for i := 0; i < nSamples; i++ {
+		for j, x := range X.RawRowView(i) {
+			scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
+			scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
+		}
+	}
 	scaler.NSamplesSeen += nSamples
 	// dataRange = dataMax - dataMin
 	scaler.DataRange.Sub(scaler.DataMax, scaler.DataMin)
-- 
2.43.0


From 1ea37d7cc7d5450abe9bb0b6bf20a89c53c75706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:21 +0000
Subject: [PATCH 027/128] fix: RobustScaler is refitted from scratch

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9667d7b..d1e0bef 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -348,6 +348,7 @@ func NewRobustScaler(center bool, scale bool, quantiles *QuantilePair) *RobustSc
 
 // Reset ...
 func (scaler *RobustScaler) Reset() *RobustScaler {
+	scaler.Median, scaler.Tmp, scaler.QuantileDivider = nil, nil, nil
 	return scaler
 }
 
@@ -370,7 +371,7 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if scaler.Scale && (scaler.QuantileDivider == nil) {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
+	if scaler.Tmp == nil || scaler.Tmp.RawMatrix().Cols != nSamples {
 		scaler.Tmp = mat.NewDense(1, nSamples, nil)
 	}
 
-- 
2.43.0


From 4cfed7b60a2c71674efc837e980c29ba01dbe5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 028/128] fix: DenseMean ignores what its destination held

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index d1e0bef..f319d60 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -660,6 +660,7 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
 	Xmean.Apply(func(i int, j int, v float64) float64 {
+		v = 0
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
-- 
2.43.0


From 226602d98e8b554ed8d83520ac83067bb0edd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 029/128] fix: OneHotEncoder.InverseTransform returns the
 values, values never seen in Fit are encoded as zeros

---
 preprocessing/data.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index f319d60..de431a4 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -758,7 +758,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if class, ok := cmap[v]; ok {
+				Xout.Set(sample, baseColumn+class, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
@@ -785,7 +787,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From a6c5985ed5edac0c61ed3ba6eefd66119bb1f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 030/128] fix: MaxAbsScaler counts samples from its last Fit
 and can start with PartialFit

---
 preprocessing/data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index de431a4..76b9267 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -954,12 +954,17 @@ func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	Xmat := X.RawMatrix()
 	m.MaxAbs = make([]float64, Xmat.Cols)
 	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if m.MaxAbs == nil {
+		m.MaxAbs = make([]float64, Xmat.Cols)
+		m.Scale = make([]float64, Xmat.Cols)
+	}
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
-- 
2.43.0


From 69eac6c814896de62b72b59c077cfa4782fc4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:23 +0000
Subject: [PATCH 031/128] fix: QuantileTransformer of unsorted, repeated and
 out of range values, with more features than quantiles

---
 preprocessing/data.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 76b9267..4686447 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1206,6 +1206,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
@@ -1228,13 +1229,23 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
+				if q == m.NQuantiles-2 {
+					x = math.Min(x, x1)
+				}
+				if q == 0 {
+					x = math.Max(x, x0)
+				}
 				if x >= x0 && x <= x1 {
-					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
+					p := 0.
+					if x1 > x0 {
+						p = (x - x0) / (x1 - x0)
+					}
+					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+p*(m.references[q+1]-m.references[q]))))
 				}
 			}
 		}
-- 
2.43.0


From fad9d4e6cd5fe465da9097dd8a9fbb5612111ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:23 +0000
Subject: [PATCH 032/128] fix: PowerTransformer.Transform does not write to X

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4686447..3c12185 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1337,7 +1337,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From 7ce380a832a4722fb9fd9536dce41d5e9cf2274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:24 +0000
Subject: [PATCH 033/128] fix: Yeo-Johnson transform for lambda 0 and 2,
 inverse Box-Cox transform of negative values

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 3c12185..a5c3ada 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1449,7 +1449,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1484,7 +1484,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
@@ -1562,7 +1562,7 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
+		if xi*lmbda+1 >= 0 {
 			out[pos] = f(xi)
 		} else {
 			out[pos] = math.NaN()
-- 
2.43.0


From 703f012d36a21af6ebfcbe64ffcf495fb209eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:24 +0000
Subject: [PATCH 034/128] fix: LabelBinarizer writes NegLabel for the other
 classes and inverts more than one output

---
 preprocessing/label.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 87d5a69..3a6293b 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -60,6 +60,9 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := base.ToDense(Y).RawMatrix(), Yout.RawMatrix()
+	for i := range yo.Data {
+		yo.Data[i] = m.NegLabel
+	}
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
 		cmap := make(map[float64]int)
@@ -70,8 +73,6 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -93,7 +94,7 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; baseCol < y.Cols; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := floats.MaxIdx(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From 8c778c984071acbc75a500f7aeb414ebe79e3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:24 +0000
Subject: [PATCH 035/128] fix: LabelEncoder marks every unseen label and every
 invalid code

---
 preprocessing/label.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 3a6293b..95588ca 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -329,7 +329,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos < 0 || pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
@@ -352,9 +352,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From 570e3c759380ec05930c4446361a06dc1e474f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 036/128] fix: MultiLabelBinarizer.Transform of a Y which is
 not a *mat.Dense

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 95588ca..b6fccad 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -169,7 +169,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
-- 
2.43.0


From 2052babe249e5d4dccbe0dfb53cfcfbc44f57e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:25 +0000
Subject: [PATCH 037/128] fix: KBinsDiscretizer sorts values before taking
 quantiles and hands Y back

---
 preprocessing/discretization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..3f6279e 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -39,6 +40,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		tmp := make([]float64, NSamples)
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
+			sort.Float64s(tmp)
 			min, max := floats.Min(tmp), floats.Max(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
@@ -60,6 +62,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
@@ -103,6 +106,7 @@ func (m *KBinsDiscretizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense)
 func (m *KBinsDiscretizer) InverseTransform(X mat.Matrix, Y mat.Mutable) (Xout, Yout *mat.Dense) {
 	NSamples, _ := X.Dims()
 	NFeatures := len(m.BinEdges)
+	Yout = base.ToDense(Y)
 	Xout = mat.NewDense(NSamples, NFeatures, nil)
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
 		tmp := make([]float64, NSamples)
-- 
2.43.0


From ef9d88e00d613ce4489c62caa0fe724eca184f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:26 +0000
Subject: [PATCH 038/128] fix: PCA of fewer samples than features, inverse of a
 truncated PCA

---
 preprocessing/pca.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..0d5ff57 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -27,7 +27,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
@@ -80,9 +83,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 4c1ad75db9573d4e1efd38acdfc92581ab531fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 039/128] fix: power transform likelihood keeps its scale with
 a per row variance

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index a5c3ada..db3d295 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1433,7 +1433,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)*float64(nSamples)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1530,7 +1530,7 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)*float64(nSamples)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From 55b539bf0973d5854a12f20ae55df75ede935cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 040/128] fix: clones of incrementally fitted preprocessors own
 their state

---
 preprocessing/data.go  | 20 ++++++++++++++++++++
 preprocessing/label.go |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index db3d295..428ac88 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -27,6 +27,13 @@ type InverseTransformer interface {
 	InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 }
 
+func cloneDense(m *mat.Dense) *mat.Dense {
+	if m == nil {
+		return nil
+	}
+	return mat.DenseCopyOf(m)
+}
+
 // MinMaxScaler rescale data between FeatureRange
 type MinMaxScaler struct {
 	FeatureRange                            []float
@@ -42,6 +49,11 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale = cloneDense(scaler.Scale)
+	clone.Min = cloneDense(scaler.Min)
+	clone.DataMin = cloneDense(scaler.DataMin)
+	clone.DataMax = cloneDense(scaler.DataMax)
+	clone.DataRange = cloneDense(scaler.DataRange)
 	return &clone
 }
 
@@ -145,6 +157,9 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale = cloneDense(scaler.Scale)
+	clone.Mean = cloneDense(scaler.Mean)
+	clone.Var = cloneDense(scaler.Var)
 	return &clone
 }
 
@@ -331,6 +346,9 @@ func NewDefaultRobustScaler() *RobustScaler {
 // TransformerClone ...
 func (scaler *RobustScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Median = cloneDense(scaler.Median)
+	clone.Tmp = cloneDense(scaler.Tmp)
+	clone.QuantileDivider = cloneDense(scaler.QuantileDivider)
 	return &clone
 }
 
@@ -945,6 +963,8 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.Scale = append([]float64(nil), m.Scale...)
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
 	return &clone
 }
 
diff --git a/preprocessing/label.go b/preprocessing/label.go
index b6fccad..18d546e 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -282,6 +282,11 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	clone.Classes, clone.Support = nil, nil
+	for i := range m.Classes {
+		clone.Classes = append(clone.Classes, append([]float64(nil), m.Classes[i]...))
+		clone.Support = append(clone.Support, append([]float64(nil), m.Support[i]...))
+	}
 	return &clone
 }
 
-- 
2.43.0


From 96c57ff608cf629a24aff38ec965afddd9e9328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 041/128] fix: each fit of a linear model owns its intercept,
 which is zero unless fitted

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..72bb74c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From 88ae89a9528a0899a190aa59865099dca21cba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 042/128] fix: Normalize is ignored without intercept as
 documented, and constant features are not scaled

---
 linear_model/Base.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 72bb74c..ec02231 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -599,7 +599,7 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	for i := range XScalemat.Data[0:XScalemat.Cols] {
 		XScalemat.Data[i] = 1
 	}
-	if !FitIntercept && !Normalize {
+	if !FitIntercept {
 		Xout, Yout = X, Y
 		return
 	}
@@ -623,10 +623,11 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
-					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
-						Xoutmat.Data[jXout+feature] /= scale
-					}
+				if scale == 0. {
+					scale = 1.
+				}
+				for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
+					Xoutmat.Data[jXout+feature] /= scale
 				}
 
 			}
-- 
2.43.0


From 6bfd32c7b1ba0e0dfcac0f1bee6c5142537b56f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 043/128] fix: ElasticNet warm start without previous
 coefficients, or on coefficients shared with a clone

---
 linear_model/coordinatedescent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..079697d 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,8 +60,10 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
+	if !regr.WarmStart || regr.Coef == nil {
 		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
+	} else {
+		regr.Coef = mat.DenseCopyOf(regr.Coef)
 	}
 	random := strings.EqualFold("random", regr.Selection)
 	if NOutputs == 1 {
-- 
2.43.0


From dfbef80c7f1543129d4d18f0b28143ff47fb6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 044/128] fix: LogisticRegression fits a Y which is not a
 *mat.Dense, and refits from scratch

---
 linear_model/logistic.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..9aaffa3 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -336,15 +336,9 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
+	m.lb = nil
+	m.LossCurve = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 81f2f59f311d138222ef87e26e1c76c930bafbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 045/128] fix: LogisticRegression gradient for a Y which is a
 matrix view

---
 linear_model/logistic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 9aaffa3..a9964f3 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From e76adf5dda7e67db90220d8ebb0feb1669a6023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 046/128] fix: LogisticRegression keeps the best parameters
 instead of the last evaluated ones

---
 linear_model/logistic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index a9964f3..3e47ef0 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -438,6 +438,7 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil {
 		log.Panic(err)
 	}
+	copy(m.packedParameters, res.X)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From c27c5023db62100d6e14d8fc6939d066fbc8e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 047/128] fix: LogisticRegression softmax does not overflow

---
 linear_model/logistic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 3e47ef0..4eea458 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -81,9 +81,10 @@ var logregActivation = map[string]func(z blas64.General){
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := floats.Max(z.Data[zpos : zpos+z.Cols])
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 16689f1927e922eec84809c387c7c264296192c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 048/128] fix: regularization gradient is that of the
 regularization term

---
 linear_model/loss.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..35d1251 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -56,7 +56,8 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		}
 	}
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		// J is halved below, the gradient is not
+		J += regularization(Theta, grad, Alpha, L1Ratio, .5, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
@@ -103,7 +104,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 
 	// add regularization to cost and grad
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, 1., disableRegularizationOfFirstFeature)
 	}
 	J /= float64(nSamples)
 	if grad != nil {
@@ -246,7 +247,7 @@ func panicIfNaN(v float64) float64 {
 	return v
 }
 
-func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
+func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio, gradFactor float64, disableRegularizationOfFirstFeature bool) float64 {
 	JRegul := 0.
 	// add regularization to cost and grad
 	if Alpha > 0. {
@@ -277,11 +278,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && t != 0. {
+						g += gradFactor * Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += gradFactor * Alpha * (1. - L1Ratio) * 2. * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From b6b871a00f0947d47107f2433520615aa2a4f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 049/128] fix: log loss and cross entropy gradients are with
 respect to Theta

---
 linear_model/loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 35d1251..2612fe0 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -96,7 +96,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < nSamples; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				g += -Ytrue.At(i, o) * X.At(i, j) * activation.Fprime(h) / h
 			}
 			return g
 		}, Theta)
@@ -154,7 +154,7 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 				for i := 0; i < nSamples; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
-					hprime := activation.Fprime(h)
+					hprime := X.At(i, j) * activation.Fprime(h)
 					if y == 1. {
 						g += -y * hprime / h
 					} else if y == 0. {
-- 
2.43.0


From 6d7cd6f031a873937db9f21e69899e0d10c02f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 050/128] fix: SGDRegressor gradient is that of its loss

---
 linear_model/Base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index ec02231..a7dae3a 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -222,7 +222,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
-			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
+			al1 := regr.Alpha * regr.L1Ratio / 2. / float(nSamples)
 			al2 := regr.Alpha * (1. - regr.L1Ratio) / float(nSamples)
 			sgn := func(x float) float {
 				if x < 0. {
@@ -234,7 +234,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				return 0.
 			}
 			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j]) + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From 888b0a03dcbfddea8cd4fc40043850d2d019644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:44 +0000
Subject: [PATCH 051/128] fix: refitting GaussianNB starts from scratch

---
 naive_bayes/naivebayes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..62fbf48 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -153,6 +153,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
+		m.Theta = nil
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-- 
2.43.0


From 5a2b36874ac68865cd578c51380e4309914e4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:44 +0000
Subject: [PATCH 052/128] fix: GaussianNB.PartialFit merges batch variances
 with the means before the update and removes the previous smoothing

---
 naive_bayes/naivebayes.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 62fbf48..aa4bb5c 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	oldEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -196,7 +197,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - oldEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
@@ -359,8 +360,9 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
-		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
+		// mu is a view on the means: the difference must be taken before they are updated
 		dmu := mu[c] - newMu[c]
+		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From 3556cd3b432c8e90c4c3fa272ba0555ffa290b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:01 +0000
Subject: [PATCH 053/128] fix: a cloned GaussianNB owns its parameters and
 predicts with them

---
 naive_bayes/naivebayes.go | 53 +++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index aa4bb5c..b80a83b 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,13 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	clone.ClassCount = append([]float64(nil), m.ClassCount...)
+	clone.ClassPrior = append([]float64(nil), m.ClassPrior...)
+	if m.Theta != nil {
+		clone.Theta = mat.DenseCopyOf(m.Theta)
+		clone.Sigma = mat.DenseCopyOf(m.Sigma)
+		clone.jointLogLikelihood = clone.gaussianJointLogLikelihood
+	}
 	return &clone
 }
 
@@ -236,32 +243,34 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
-	m.jointLogLikelihood = func(jll, xrow []float64) {
-		/*
-		   joint_log_likelihood = []
-		      for i in range(np.size(self.classes_)):
-		          jointi = np.log(self.class_prior_[i])
-		          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
-		          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
-		                               (self.sigma_[i, :]), 1)
-		          joint_log_likelihood.append(jointi + n_ij)
+	m.jointLogLikelihood = m.gaussianJointLogLikelihood
+	return m
+}
 
+func (m *GaussianNB) gaussianJointLogLikelihood(jll, xrow []float64) {
+	/*
+	   joint_log_likelihood = []
+	      for i in range(np.size(self.classes_)):
+	          jointi = np.log(self.class_prior_[i])
+	          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
+	          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
+	                               (self.sigma_[i, :]), 1)
+	          joint_log_likelihood.append(jointi + n_ij)
 
-		*/
-		for i := range m.Classes {
-			jointi := math.Log(m.ClassPrior[i])
-			nij := 0.
-			sigmai := m.Sigma.RawRowView(i)
-			thetai := m.Theta.RawRowView(i)
-			for j := 0; j < len(xrow); j++ {
-				nij -= .5 * math.Log(2*math.Pi*sigmai[j])
-				xd := xrow[j] - thetai[j]
-				nij -= .5 * xd * xd / sigmai[j]
-			}
-			jll[i] = jointi + nij
+
+	*/
+	for i := range m.Classes {
+		jointi := math.Log(m.ClassPrior[i])
+		nij := 0.
+		sigmai := m.Sigma.RawRowView(i)
+		thetai := m.Theta.RawRowView(i)
+		for j := 0; j < len(xrow); j++ {
+			nij -= .5 * math.Log(2*math.Pi*sigmai[j])
+			xd := xrow[j] - thetai[j]
+			nij -= .5 * xd * xd / sigmai[j]
 		}
+		jll[i] = jointi + nij
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From 3ce581e393f168b44a14960952bc2d2431e0b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:15 +0000
Subject: [PATCH 054/128] fix: QuantileTransformer quantiles are non-decreasing
 whatever the rounding

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 428ac88..178f5e8 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1235,7 +1235,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				quantiles[i] = values[i0]
 			} else {
 				p := realSample - float64(i0)
-				quantiles[i] = (values[i0]*(1-p) + values[i0+1]*(p))
+				quantiles[i] = math.Min(values[i0+1], values[i0]+p*(values[i0+1]-values[i0]))
 			}
 		}
 	}
-- 
2.43.0


From 8250cde8da228ba333e16db153501df10c6ca1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:57 +0000
Subject: [PATCH 055/128] fix: Minkowski and Euclidean distances of
 one-dimensional and strided vectors

---
 neighbors/distance.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..e645858 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,12 +11,11 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
@@ -63,7 +62,7 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	var d2 float64
 	avd, avdok := a.(mat.RawVectorer)
 	bvd, bvdok := b.(mat.RawVectorer)
-	if avdok && bvdok {
+	if avdok && bvdok && avd.RawVector().Inc == 1 && bvd.RawVector().Inc == 1 {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
 		for j, va := range arv.Data {
 			vb = brv.Data[j]
-- 
2.43.0


From aac6f5d6f5153818f1187fd8c385e1dd4bcaf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:57 +0000
Subject: [PATCH 056/128] fix: building a KDTree on duplicated points
 terminates

---
 neighbors/kdtree.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..119e0fb 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -244,13 +244,13 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 	// # sliding midpoint rule; see Maneewongvatana and Mount 1999
 	// # for arguments that this is a good idea.
 	split := (maxval + minval) / 2.
+	strict := false // with strict, points on the split go to the greater side
 	lgfill := func(split float64) ([]int, []int) {
 		lessIdx, greaterIdx := make([]int, 0), make([]int, 0)
 		for _, idx1 := range idx {
-			if tr.Data.At(idx1, d) <= split {
+			if v := tr.Data.At(idx1, d); v < split || (v == split && !strict) {
 				lessIdx = append(lessIdx, idx1)
-			}
-			if tr.Data.At(idx1, d) > split {
+			} else {
 				greaterIdx = append(greaterIdx, idx1)
 			}
 		}
@@ -275,13 +275,14 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			}
 		}
 		split = M
+		strict = true
 		lessIdx, greaterIdx = lgfill(split)
 	}
 	if len(lessIdx) == 0 {
 		// # _still_ zero? all must have the same value
 		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
+		lessIdx = idx[:len(idx)-1]
+		greaterIdx = idx[len(idx)-1:]
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From 891f3126d54f9db6c11aba34b97b7d81c78802ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:57 +0000
Subject: [PATCH 057/128] fix: KDTree.Query returns only neighbours within
 distanceUpperBound and infinite distances for missing ones

---
 neighbors/kdtree.go       | 14 +++++++++++---
 neighbors/unsupervised.go |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 119e0fb..76db31e 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -368,10 +368,15 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 
 			for _, fitSample := range idx {
 				ds := MinkowskiDistanceP(X, tr.Data.RowView(fitSample), p)
-				if ds < distanceUpperBound {
-					if len(neighbors) == k {
-						nHeappop()
+				if len(neighbors) < k {
+					if ds > distanceUpperBound {
+						continue
 					}
+				} else {
+					if ds >= distanceUpperBound {
+						continue
+					}
+					nHeappop()
 				}
 				nHeappush(nEle{float64: -ds, int: fitSample})
 				if len(neighbors) == k {
@@ -478,6 +483,9 @@ func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64)
 			row = make([]float64, NFeatures)
 		}
 		for sample := start; sample < end; sample++ {
+			for ik := 0; ik < k; ik++ {
+				dd.Set(sample, ik, math.Inf(1))
+			}
 			callback := func(ik int, dist float64, ind int) {
 				ii.Set(sample, ik, float64(ind))
 				dd.Set(sample, ik, dist)
diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..af482aa 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -170,7 +170,8 @@ func (m *NearestNeighbors) RadiusNeighbors(X *mat.Dense, radius float64) (distan
 					}
 
 				}
-				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius, callback)
+				// the bound is slightly above radius: whether a point is within radius is decided by callback
+				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius*(1+1e-12), callback)
 			}
 		})
 	}
-- 
2.43.0


From 9c483032887c9c8cb0bee6ae5ea5cf39f0c769e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 058/128] fix: Rectangle.Split returns the two parts of the
 rectangle

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 76db31e..e7be138 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, r.Mins)
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(r.Maxes, mid)
 	return less, greater
 }
 
-- 
2.43.0


From 5b157c4acc0d83802db1b9fea3a9e69f8533fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 059/128] fix: NearestNeighbors l1 and l2 metrics are Minkowski
 of power 1 and 2

---
 neighbors/unsupervised.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index af482aa..6e2bbc8 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,10 +38,10 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
 	default:
-- 
2.43.0


From 4e680b7dfa5b3e6ba6c07828ba4736176954e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 060/128] fix: refitting NearestNeighbors drops the previous
 tree

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 6e2bbc8..2812d01 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -51,6 +51,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		m.NJobs = runtime.NumCPU()
 	}
 	m.X = mat.DenseCopyOf(X)
+	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
 	if useKDTree {
 		if m.LeafSize <= 0 {
-- 
2.43.0


From 4d860076249415268568cd67051dfe6b386e6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 061/128] fix: KNeighborsGraph distance mode holds the
 distances

---
 neighbors/unsupervised.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 2812d01..977842d 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -105,22 +105,19 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				switch mode {
+				case "connectivity":
+					graph.Set(sample, index, 1.)
+				default:
+					graph.Set(sample, index, distances.At(sample, ik))
+				}
 			}
 		}
 	})
-- 
2.43.0


From 05eee89e29ee17bed671d99e0278530fb80273ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:58 +0000
Subject: [PATCH 062/128] fix: KNeighborsClassifier breaks ties
 deterministically, reports zero for absent classes and owns its targets

---
 neighbors/classification.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..e881e75 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -36,7 +36,7 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
@@ -125,17 +125,15 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 					}
 				}
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
@@ -173,9 +171,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 634411680c0c6a9dee340b960697bf42ecd5cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:59 +0000
Subject: [PATCH 063/128] fix: KNeighborsClassifier and NearestCentroid
 implement the whole Predicter interface

---
 neighbors/classification.go   |  9 +++++++++
 neighbors/nearest_centroid.go | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index e881e75..622e6b1 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -49,6 +49,15 @@ func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (m *KNeighborsClassifier) GetNOutputs() int {
 	return m.nOutputs
diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..dfdae0d 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -69,6 +69,18 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
 // Predict  for NearestCentroid
 func (m *NearestCentroid) Predict(X mat.Matrix, Ymutable mat.Mutable) *mat.Dense {
 	Y := base.ToDense(Ymutable)
-- 
2.43.0


From 2890587dba3563758841cfb80b133c6687d4df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:59 +0000
Subject: [PATCH 064/128] fix: NearestCentroid uses its metric, and the median
 of sorted values

---
 neighbors/nearest_centroid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index dfdae0d..cda23cb 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -58,6 +59,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
+				sort.Float64s(col[0:rows])
 				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
@@ -65,6 +67,10 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.NearestNeighbors.Metric = m.Metric
+	if m.NearestNeighbors.P == 0 {
+		m.NearestNeighbors.P = 2
+	}
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From 4febe6716d81199293e5f06a2cd1eaec558e290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 065/128] fix: cluster Minkowski distance of one-dimensional
 and strided vectors

---
 cluster/distance.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..69427f1 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,12 +11,11 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-- 
2.43.0


From e3a417296262277f5b8dcbc10ac60078942fd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 066/128] fix: DBSCAN uses its Minkowski power

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..5f9946a 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -85,6 +85,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	m.NeighborsModel.Algorithm = m.Algorithm
 	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
 	m.NeighborsModel.Metric = m.Metric
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
 	m.NeighborsModel.Fit(X, nil)
-- 
2.43.0


From 362793502604ae014e69806a9fb43d6bc1dc5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 067/128] fix: a DBSCAN sample is core when its neighbourhood
 reaches MinSamples

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 5f9946a..59b2e84 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -114,7 +114,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From b6b09736981fece1dab2c5aeb2ab325506783579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 068/128] fix: refitting DBSCAN drops the previous core samples

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 59b2e84..e6a8876 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -113,6 +113,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
 		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
-- 
2.43.0


From db16f1951bd704bcddef4755411a203d3ead01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 069/128] fix: KMeans keeps the centroid of a cluster which
 becomes empty

---
 cluster/kmeans.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..ef6d9db 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -79,7 +79,11 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// find nearest centroids
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
-		m.Centroids.Sub(m.Centroids, m.Centroids)
+		for ic := range CentroidCount {
+			if CentroidCount[ic] > 0 { // an empty cluster keeps its centroid
+				m.Centroids.SetRow(ic, make([]float64, NFeatures))
+			}
+		}
 		var mu sync.Mutex // mu locks m.Centroids modifications
 		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 			row := make([]float64, NFeatures)
-- 
2.43.0


From 6427ee3eced662b58ae014c3d72f7e437c75a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 070/128] fix: fit each SVM output with its own random source
 so that the result does not depend on scheduling

---
 svm/svm.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..b011e85 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -292,11 +292,24 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
+	// outputs are fitted concurrently: each one draws from its own source
+	sources := make([]base.Source, Noutputs)
+	if Noutputs == 1 {
+		sources[0] = m.RandomState
+	} else {
+		for output := range sources {
+			seed := rand.Uint64
+			if m.RandomState != nil {
+				seed = m.RandomState.Uint64
+			}
+			sources[output] = base.NewSource(seed())
+		}
+	}
 	base.Parallelize(-1, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, m.RandomState)
+			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, sources[output])
 			model := m.Model[output]
 			m.Support[output] = model.Support
 			m.SupportVectors[output] = make([][]float64, len(model.Support))
-- 
2.43.0


From ea2a20bdebff461956bc3849d294a9007193c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:45 +0000
Subject: [PATCH 071/128] fix: draw blobs from the given random state, in
 order, instead of concurrently from a shared one

---
 datasets/samples_generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..1492416 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,7 +2,6 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
@@ -173,7 +172,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
+	base.Parallelize(1, config.NSamples, func(th, start, end int) { // the random state is not safe for concurrent use
 		mu := make([]float64, config.NFeatures)
 		sigma := mat.NewSymDense(config.NFeatures, nil)
 
@@ -181,7 +180,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 			sigma.SetSym(i, i, 1)
 		}
 		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
+		normal, _ := distmv.NewNormal(mu, sigma, config.RandomState)
 		_ = normal
 		for sample := start; sample < end; sample++ {
 			cluster := randIntn(NCenters)
-- 
2.43.0


From 279f59eb5667ad6173d2c7de0f2c8cf97dbef73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:00 +0000
Subject: [PATCH 072/128] fix: use the given random state for blobs whatever
 its type

---
 datasets/samples_generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index 1492416..b64f40e 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -149,9 +149,13 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	if config.RandomState != nil {
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
+		} else {
+			randNormFloat64 = rand.New(config.RandomState).NormFloat64
 		}
 		if intner, ok := config.RandomState.(base.Intner); ok {
 			randIntn = intner.Intn
+		} else {
+			randIntn = rand.New(config.RandomState).Intn
 		}
 	}
 
-- 
2.43.0


From bd9ff69dac8f101ad7727184c5ace3f7a775b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:17 +0000
Subject: [PATCH 073/128] fix: LogisticRegression.Fit no longer panics when the
 line search stops near the minimum

---
 linear_model/logistic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 4eea458..5fe0ca8 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -436,11 +436,14 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
+	// res holds the best location even if the line search could not progress any more
 	copy(m.packedParameters, res.X)
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	if err != nil {
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
 }
-- 
2.43.0


From b5deb0f6ca7629067c834644312a5e942ed2f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:06 +0000
Subject: [PATCH 074/128] fix: BayesianRidge updates its precisions with the
 number of well-determined parameters and the squared error

---
 linear_model/bayes.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..2dedbcb 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -138,15 +138,14 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Sub(diff, Y)
 
 		rmse := mat.Norm(diff, 2)
+		rmse *= rmse
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
 		{
-			var left, right []float
-			copy(left, eigenVals)
-
+			left := append([]float(nil), eigenVals...)
 			floats.Scale(alpha, left)
-			copy(right, left)
+			right := append([]float(nil), left...)
 			floats.AddConst(lambda, right)
 			floats.Div(left, right)
 			gamma = floats.Sum(left)
-- 
2.43.0


From 827b1eaf1c6a266d54fc636d102df47f350648a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:06 +0000
Subject: [PATCH 075/128] fix: BayesianRidge.Predict2 returns the standard
 deviation from the whole coefficient covariance

---
 linear_model/bayes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 2dedbcb..5bd6b41 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -251,13 +251,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 	sigmasSquaredData.Apply(func(i int, _ int, _ float64) float64 {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
-			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += Xn.At(i, j) * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From 5c2d3b4abd4eff7f90dc74d0216f2d68973b4796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:28 +0000
Subject: [PATCH 076/128] fix: SVC accepts steps that decrease a multiplier

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index b011e85..d845899 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From a0220f9d205304dabee1e971019bdbc8d362bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 077/128] fix: SVC and SVR models without support vectors no
 longer panic

---
 svm/svm.go | 5 ++++-
 svm/svr.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index d845899..68d69e9 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -154,13 +154,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
diff --git a/svm/svr.go b/svm/svr.go
index 780f841..a21b874 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From 5e3061b6df2e0ee7c7542a56dc2f729f4e79f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 078/128] fix: SVR skips pairs of rows the kernel cannot tell
 apart instead of dividing by zero

---
 svm/svr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svm/svr.go b/svm/svr.go
index a21b874..01c8db5 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -117,6 +117,9 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				Kij := K(i, j)
 				Kjj := K(j, j)
 				eta = 2*Kij - Kii - Kjj
+				if eta >= 0 {
+					continue
+				}
 				alphaiold, alphajold := alphas[i], alphas[j]
 				s := alphaiold + alphajold
 				delta := -2 * Epsilon / eta
-- 
2.43.0


From 6ea4a9f467d120f47d98649f4fc07d0529de8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 079/128] fix: WhiteKernel.CloneWithTheta sets the
 hyperparameters of the clone

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From ed75b5dace003de74f88fffea8056bcf7afec283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 080/128] fix: Exponentiation keeps its exponent when cloned
 and differentiates the unpowered kernel

---
 gaussian_process/kernels/kernels.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..de3c315 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -281,7 +281,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
@@ -290,19 +290,25 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
 	if evalGradient {
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
-- 
2.43.0


From b30429cbf6d7613cdf8b16fd6a338da4b5d21542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 081/128] fix: WhiteKernel gradient covers equal rows off the
 diagonal

---
 gaussian_process/kernels/kernels.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index de3c315..effd20d 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -473,13 +473,8 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0})
 		} else {
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
-			}
+			// the derivative by the log of the noise level is the kernel itself
+			copy(Kg.Data().([]float64), Kr.Data)
 		}
 	}
 	return K, Kg
-- 
2.43.0


From b6408376c7ba5e0bd617584413a54a0816783ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 082/128] fix: RBF gradient has one column per length scale
 that is not fixed

---
 gaussian_process/kernels/kernels.go | 43 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index effd20d..cb4dddf 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -583,28 +583,29 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
+		// indices of the length scales which are not fixed
+		var free []int
+		for i, p := range k.hyperparameters() {
+			if !p.IsFixed() {
+				free = append(free, i)
+			}
+		}
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, len(free)})
+		Kgdata := Kg.Data().([]float64)
+		Kdata := K.RawMatrix().Data
+		for i := 0; i < nx*nx; i++ {
+			mat.Row(Xrow, i/nx, X)
+			mat.Row(Yrow, i%nx, X)
+			for ip, param := range free {
+				var d2 float64
+				for feat := 0; feat < nfeat; feat++ {
+					if len(k.LengthScale) > 1 && feat != param {
+						continue
+					}
+					d := scale(Xrow, feat) - scale(Yrow, feat)
+					d2 += d * d
 				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
+				Kgdata[i*len(free)+ip] = Kdata[i] * d2
 			}
 		}
 	}
-- 
2.43.0


From fa732319282d50157382481ff3bb73deca29aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 083/128] fix: RBF without length scale bounds has fixed
 hyperparameters instead of panicking

---
 gaussian_process/kernels/kernels.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index cb4dddf..03ba736 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -517,8 +517,10 @@ type RBF struct {
 func (k *RBF) hyperparameters() hyperparameters {
 	params := make(hyperparameters, len(k.LengthScale))
 	for i := range k.LengthScale {
-		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i], PBounds: &k.LengthScaleBounds[i]}
-
+		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i]}
+		if i < len(k.LengthScaleBounds) {
+			params[i].PBounds = &k.LengthScaleBounds[i]
+		}
 	}
 	return params
 }
-- 
2.43.0


From 877530f30808ad67816609672d01cf40206760ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 084/128] fix: kernels with fixed or no new hyperparameters can
 be cloned

---
 gaussian_process/kernels/kernels.go | 10 ++++++----
 gaussian_process/kernels/matutil.go |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 03ba736..2248238 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -2,7 +2,6 @@ package kernels
 
 import (
 	"fmt"
-	"github.com/pa-m/sklearn/base"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -126,12 +125,15 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
+	// a part may have no hyperparameters left to set
+	part := func(start, end int) mat.Matrix {
+		return matFromFunc{r: end - start, c: 1, at: func(i, j int) float64 { return theta.At(start+i, j) }}
+	}
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(part(0, n1)),
+		K2: k.K2.CloneWithTheta(part(n1, n1+n2)),
 	}
 }
 
diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..42e4e11 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -49,6 +49,9 @@ func (m matFromFunc) T() mat.Matrix {
 }
 
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From e119c11316223b069ce25058c5afaf435416b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:04 +0000
Subject: [PATCH 085/128] fix: LogMarginalLikelihood gradient is empty when
 every hyperparameter is fixed

---
 gaussian_process/gpr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..8299d1d 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -176,6 +176,8 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	if !posdef {
 		return math.Inf(-1), grad
 	}
+	// without free hyperparameters there is no gradient to compute
+	evalGradient = evalGradient && thetarows > 0
 	// # Support multi-dimensional output of self.y_train_
 	// L = cholesky(K, lower=True)  # Line 2
 	L := &mat.TriDense{}
-- 
2.43.0


From 5521797958dd91c6cffa21d4912051e1f64f6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 086/128] fix: gaussian process Regressor accepts one alpha per
 sample

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 8299d1d..cc45d07 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -74,7 +74,7 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
+	ry, _ := Y.Dims()
 	m.Xtrain = mat.DenseCopyOf(X)
 	m.Ytrain = mat.DenseCopyOf(Y)
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
-- 
2.43.0


From e17900fd3e330bdf3dd30bcd9a43fc19ee4613b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 087/128] fix: gaussian process Regressor predicts its
 posterior mean instead of panicking once fitted

---
 gaussian_process/gpr.go | 46 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index cc45d07..074e6c8 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -80,9 +80,45 @@ func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	m.YtrainMean = nil
+	if m.NormalizeY {
+		_, cy := Y.Dims()
+		m.YtrainMean = mat.NewDense(1, cy, nil)
+		for j := 0; j < cy; j++ {
+			mean := mat.Sum(m.Ytrain.ColView(j)) / float64(ry)
+			m.YtrainMean.Set(0, j, mean)
+			for i := 0; i < ry; i++ {
+				m.Ytrain.Set(i, j, m.Ytrain.At(i, j)-mean)
+			}
+		}
+	}
 	return m
 }
 
+// dualCoef returns (K+alpha)^-1 Ytrain
+func (m *Regressor) dualCoef() *mat.Dense {
+	K, _ := m.Kernel.Eval(m.Xtrain, nil, false)
+	nx, _ := K.Dims()
+	Ksym := mat.NewSymDense(nx, nil)
+	for i := 0; i < nx; i++ {
+		for j := i; j < nx; j++ {
+			Ksym.SetSym(i, j, K.At(i, j))
+		}
+		Ksym.SetSym(i, i, K.At(i, i)+m.Alpha[i%len(m.Alpha)])
+	}
+	cho, coef := &mat.Cholesky{}, &mat.Dense{}
+	if !cho.Factorize(Ksym) {
+		panic("kernel is not positive definite, try gradually increasing Alpha")
+	}
+	// an ill-conditioned system still gives the coefficients
+	if err := cho.SolveTo(coef, m.Ytrain); err != nil {
+		if _, ok := err.(mat.Condition); !ok {
+			panic(err)
+		}
+	}
+	return coef
+}
+
 // PredictEx predicts using the Gaussian process regression model, returning Ymean and std or cov
 func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov bool) (*mat.Dense, *mat.DiagDense, *mat.Dense) {
 	NSamples, _ := X.Dims()
@@ -112,8 +148,14 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 		//y_mean = self._y_train_mean + y_mean  # undo normal.
 
 		Ktrans, _ := m.Kernel.Eval(X, m.Xtrain, false)
-		Ymean.Mul(Ktrans, mat.NewDense(NSamples, 1, m.Alpha))
-		Ymean.Add(Ymean, m.YtrainMean)
+		Ymean.Mul(Ktrans, m.dualCoef())
+		if m.YtrainMean != nil {
+			for i := 0; i < NSamples; i++ {
+				for j := 0; j < m.GetNOutputs(); j++ {
+					Ymean.Set(i, j, Ymean.At(i, j)+m.YtrainMean.At(0, j))
+				}
+			}
+		}
 		if returnStd {
 			// TODO
 		} else if returnCov {
-- 
2.43.0


From 295e91176969a51c88eccd4919bdfb3236f124ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 088/128] fix: gaussian process Regressor.Score does not refit
 the model on the scored data

---
 gaussian_process/gpr.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 074e6c8..70eb4ae 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -173,7 +173,6 @@ func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
-- 
2.43.0


From 7982a3ac3c61e29155e8708c76a11bbd9cd00c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 089/128] fix: gaussian process Regressor.PredicterClone does
 not write the receiver's factor

---
 gaussian_process/gpr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 70eb4ae..42e2089 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -59,6 +59,7 @@ func (m *Regressor) PredicterClone() base.Predicter {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
 	return &clone
-- 
2.43.0


From 57920ae03f576eeb02cce2af03954a35e4d02c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:30 +0000
Subject: [PATCH 090/128] fix: SVR.Fit stops when its pair updates cycle

---
 svm/svr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svm/svr.go b/svm/svr.go
index 01c8db5..e3e08bb 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -85,7 +85,12 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 
-	for passes < MaxPasses {
+	// the pair updates below may cycle, bound the total number of iterations as libsvm does
+	maxIterations := 10000000
+	if maxIterations < 100*m {
+		maxIterations = 100 * m
+	}
+	for iterations := 0; passes < MaxPasses && iterations < maxIterations; iterations += m {
 		numChangedAlphas := 0
 		// Step 1 Find a Lagrange multiplier α 1 {that violates the Karush–Kuhn–Tucker (KKT) conditions for the optimization problem.
 		var KKTviolated bool
-- 
2.43.0


From 6aab07b408a267ae9f5053fb0ea8241bd8dd8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 091/128] fix: the tanh activation of the neural network is
 tanh

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..a0a23b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..bc64be9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From 8b9ec003efbf76dcfa73afcfe0aeefa138bc2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 092/128] fix: the softmax activation of the neural network
 does not overflow

---
 neural_network/basemlp32.go | 8 +++++++-
 neural_network/basemlp64.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a0a23b3..df3bdc2 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -104,9 +104,15 @@ var Activations32 = map[string]func(z blas32General){
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float32(0)
+			zmax := z.Data[zpos]
+			for col := 1; col < z.Cols; col++ {
+				if z.Data[zpos+col] > zmax {
+					zmax = z.Data[zpos+col]
+				}
+			}
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc64be9..4f8e143 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -104,9 +104,15 @@ var Activations64 = map[string]func(z blas64General){
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := z.Data[zpos]
+			for col := 1; col < z.Cols; col++ {
+				if z.Data[zpos+col] > zmax {
+					zmax = z.Data[zpos+col]
+				}
+			}
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From ae0e9f834c73a3a478535701f7fb02ef921d1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 093/128] fix: the neural network accepts targets which are
 views of a wider matrix

---
 neural_network/basemlp32.go | 18 ++++++------------
 neural_network/basemlp64.go | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index df3bdc2..72e379e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -380,9 +380,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -508,13 +508,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -1112,8 +1106,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, hpos, ypos := 0, 0, 0; r < yTrue.Rows; r, hpos, ypos = r+1, hpos+yPred.Stride, ypos+yTrue.Stride {
+			t := yPred.Data[hpos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 4f8e143..31c79b3 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -380,9 +380,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -508,13 +508,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -1112,8 +1106,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, hpos, ypos := 0, 0, 0; r < yTrue.Rows; r, hpos, ypos = r+1, hpos+yPred.Stride, ypos+yTrue.Stride {
+			t := yPred.Data[hpos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From 2821e7dc7c8fffc84548340637f8a0c469e48859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:58 +0000
Subject: [PATCH 094/128] fix: General32.RowSlice accepts a view ending at its
 last element

---
 neural_network/general.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..8bcfc23 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,7 +240,11 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	end := j * mat.Stride
+	if end > len(mat.Data) {
+		end = (j-1)*mat.Stride + mat.Cols
+	}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : end]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
-- 
2.43.0


From ca79821339a91787ea0f430f495beae0114ccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:03 +0000
Subject: [PATCH 095/128] fix: General64.RowSlice accepts a view ending at its
 last element

---
 neural_network/general.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 8bcfc23..4ffa69c 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -250,7 +250,11 @@ func (mat General32) RowSlice(i, j int) General32 {
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	end := j * mat.Stride
+	if end > len(mat.Data) {
+		end = (j-1)*mat.Stride + mat.Cols
+	}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : end]}
 }
 
 // Copy fills receiver with input matrix
-- 
2.43.0


From 7aee1fc34cfc96543cba76bb796df85df2f1aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 096/128] fix: General32.Copy and General64.Copy of a view

---
 neural_network/general.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 4ffa69c..c7f8b2b 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -266,9 +266,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -292,9 +290,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From 9274c4940ceb7e29fa126876dcd57669b2f62114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:16 +0000
Subject: [PATCH 097/128] fix: General32.SumRows and General64.SumRows sum all
 rows

---
 neural_network/general.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index c7f8b2b..c81fc8e 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -307,18 +307,24 @@ func (mat *General64) Copy(a Matrix) {
 
 // SumRows sums rows of a into mat
 func (mat *General32) SumRows(a General32) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
 
 // SumRows sums rows of a into mat
 func (mat *General64) SumRows(a General64) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
-- 
2.43.0


From df4aad983a4b0bff2fdcb66d9414e2aed04a9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:22 +0000
Subject: [PATCH 098/128] fix: refitting a neural network resets its training
 history

---
 neural_network/basemlp32.go | 5 +++++
 neural_network/basemlp64.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 72e379e..81d8473 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -486,6 +486,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M32.Inf(1)
+	mlp.BestValidationScore = M32.Inf(-1)
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
@@ -591,6 +595,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 31c79b3..9f6d60d 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -486,6 +486,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M64.Inf(1)
+	mlp.BestValidationScore = M64.Inf(-1)
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
@@ -591,6 +595,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From c33a13dd47f32cd23895dd3296131b7ac23f81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:28 +0000
Subject: [PATCH 099/128] fix: MLPRegressor stays a regressor when all targets
 are 0 or 1

---
 neural_network/basemlp32.go             | 2 +-
 neural_network/basemlp64.go             | 2 +-
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 81d8473..8f27187 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -512,7 +512,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
+		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 9f6d60d..e732974 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -512,7 +512,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
+		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..558178b 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	mlp.LossFuncName = "square_loss"
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From b53d10622b9dfa66b17c1cea9e995b179810632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:35 +0000
Subject: [PATCH 100/128] fix: the neural network accepts any mix of matrix
 types

---
 neural_network/basemlp32.go | 16 +++-------------
 neural_network/basemlp64.go | 16 +++-------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 8f27187..7b4c9f2 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -582,10 +582,8 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense32(X).RawMatrix(), ToDense32(Y).RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -614,15 +612,7 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense32(X), ToDense32(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense32(Y, yb)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index e732974..6a76dc6 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -582,10 +582,8 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense64(X).RawMatrix(), ToDense64(Y).RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -614,15 +612,7 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense64(X), ToDense64(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense64(Y, yb)
-- 
2.43.0


From 89fd745722ce10544d98a9bdd2ec28a84539dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:42 +0000
Subject: [PATCH 101/128] fix: MLPRegressor.Fit does not reorder the caller
 data

---
 neural_network/multilayer_perceptron.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 558178b..f2f3aba 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,9 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	if mlp.Shuffle {
+		X, Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	}
 	mlp.LossFuncName = "square_loss"
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
-- 
2.43.0


From 43204eca8b492a725e7fcb1300008ab8830a297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:58 +0000
Subject: [PATCH 102/128] fix: the batch size of a neural network is not
 altered by Fit

---
 neural_network/basemlp32.go | 25 +++++++++++++------------
 neural_network/basemlp64.go | 25 +++++++++++++------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 7b4c9f2..da8ff91 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -517,17 +517,18 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -537,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -758,7 +759,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
+	batchSize := activations[1].Rows
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 6a76dc6..ae72ef8 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -517,17 +517,18 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -537,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -758,7 +759,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
+	batchSize := activations[1].Rows
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From 025e0dac8f23d19a3906d340c20ecd17d83c6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 103/128] fix: LabelBinarizer32.InverseTransform and
 LabelBinarizer64.InverseTransform of several columns

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index da8ff91..b9af5ca 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1341,7 +1341,7 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < len(m.Classes); j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx32(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ae72ef8..b8f63fa 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1341,7 +1341,7 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < len(m.Classes); j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx64(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From 61442f7194425f75e973ba0fce76a036de2a0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:09 +0000
Subject: [PATCH 104/128] fix: Unmarshal of a neural network with hidden
 layers, another output activation or float32 weights

---
 neural_network/basemlp32.go | 10 ++++++++--
 neural_network/basemlp64.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b9af5ca..e1e6018 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1140,7 +1140,7 @@ func (mlp *BaseMultilayerPerceptron32) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			field.Set(reflect.ValueOf(v).Convert(field.Type()))
 		}
 	}
 }
@@ -1191,7 +1191,13 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			isClassifier, isMultiClass := true, mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"]; ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.lb = nil
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b8f63fa..33e3a63 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1140,7 +1140,7 @@ func (mlp *BaseMultilayerPerceptron64) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			field.Set(reflect.ValueOf(v).Convert(field.Type()))
 		}
 	}
 }
@@ -1191,7 +1191,13 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			isClassifier, isMultiClass := true, mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"]; ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.lb = nil
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
-- 
2.43.0


From 5def5a179555685b02dd781ae7fb6521b5e12023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:15 +0000
Subject: [PATCH 105/128] fix: clones of neural networks do not share weights
 nor random source

---
 neural_network/basemlp32.go             | 24 ++++++++++++++++++++++++
 neural_network/basemlp64.go             | 24 ++++++++++++++++++++++++
 neural_network/multilayer_perceptron.go |  8 +++++---
 3 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e1e6018..00bf7bc 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -260,6 +260,30 @@ func NewBaseMultilayerPerceptron32() *BaseMultilayerPerceptron32 {
 	}
 }
 
+// ownParameters gives mlp its own copy of the weights it shares with the network it was copied from
+func (mlp *BaseMultilayerPerceptron32) ownParameters() {
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		mlp.RandomState = sourceCloner.SourceClone()
+	}
+	mlp.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	mlp.LossCurve = append([]float32(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float32(nil), mlp.ValidationScores...)
+	if mlp.packedParameters == nil {
+		return
+	}
+	mlp.packedParameters = append([]float32(nil), mlp.packedParameters...)
+	coefs, intercepts := mlp.Coefs, mlp.Intercepts
+	mlp.Coefs, mlp.Intercepts = make([]blas32General, len(coefs)), make([][]float32, len(intercepts))
+	off := 0
+	for i := range coefs {
+		mlp.Intercepts[i] = mlp.packedParameters[off : off+len(intercepts[i])]
+		off += len(intercepts[i])
+		mlp.Coefs[i] = coefs[i]
+		mlp.Coefs[i].Data = mlp.packedParameters[off : off+len(coefs[i].Data)]
+		off += len(coefs[i].Data)
+	}
+}
+
 // forwardPass Perform a forward pass on the network by computing the values
 // of the neurons in the hidden layers and the output layer.
 //        activations : []blas32General, length = nLayers - 1
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 33e3a63..9474371 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -260,6 +260,30 @@ func NewBaseMultilayerPerceptron64() *BaseMultilayerPerceptron64 {
 	}
 }
 
+// ownParameters gives mlp its own copy of the weights it shares with the network it was copied from
+func (mlp *BaseMultilayerPerceptron64) ownParameters() {
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		mlp.RandomState = sourceCloner.SourceClone()
+	}
+	mlp.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	mlp.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
+	if mlp.packedParameters == nil {
+		return
+	}
+	mlp.packedParameters = append([]float64(nil), mlp.packedParameters...)
+	coefs, intercepts := mlp.Coefs, mlp.Intercepts
+	mlp.Coefs, mlp.Intercepts = make([]blas64General, len(coefs)), make([][]float64, len(intercepts))
+	off := 0
+	for i := range coefs {
+		mlp.Intercepts[i] = mlp.packedParameters[off : off+len(intercepts[i])]
+		off += len(intercepts[i])
+		mlp.Coefs[i] = coefs[i]
+		mlp.Coefs[i].Data = mlp.packedParameters[off : off+len(coefs[i].Data)]
+		off += len(coefs[i].Data)
+	}
+}
+
 // forwardPass Perform a forward pass on the network by computing the values
 // of the neurons in the hidden layers and the output layer.
 //        activations : []blas64General, length = nLayers - 1
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index f2f3aba..4b9edde 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -36,9 +36,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 		return nil
 	}
 	clone := *mlp
-	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
-		clone.RandomState = sourceCloner.SourceClone()
-	}
+	clone.ownParameters()
 	return &clone
 }
 
@@ -95,7 +93,11 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
+	if mlp == nil {
+		return nil
+	}
 	clone := *mlp
+	clone.ownParameters()
 	return &clone
 }
 
-- 
2.43.0


From 7e4de0aa5a0250b4f60c6cbafa3443f4b85fb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:20 +0000
Subject: [PATCH 106/128] fix: lbfgs leaves the neural network at the best
 point it found

---
 neural_network/basemlp32.go | 7 ++++++-
 neural_network/basemlp64.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 00bf7bc..4c60ba2 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -739,9 +739,14 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
+	// the last evaluated point is not always the result
+	for i := range res.X {
+		mlp.packedParameters[i] = float32(res.X[i])
+	}
+	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 9474371..92bf2d2 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -739,9 +739,14 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
+	// the last evaluated point is not always the result
+	for i := range res.X {
+		mlp.packedParameters[i] = float64(res.X[i])
+	}
+	mlp.Loss = float64(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 87b0f402ebc78feed0fcb7071c117654096f227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:26 +0000
Subject: [PATCH 107/128] fix: with early stopping the neural network loss is
 averaged over the rows it trains on

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 4c60ba2..0b1f15d 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -834,9 +834,9 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float32(nSamples)
+			mlp.Loss = accumulatedLoss / float32(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 92bf2d2..a2306b6 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -834,9 +834,9 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float64(nSamples)
+			mlp.Loss = accumulatedLoss / float64(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
-- 
2.43.0


From d737f4e6e72fa36e777765fc4182ffed5706a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:31 +0000
Subject: [PATCH 108/128] fix: the neural network does not train on the rows
 held out for early stopping

---
 neural_network/basemlp32.go | 6 +++++-
 neural_network/basemlp64.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 0b1f15d..6caa1ed 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -803,6 +803,10 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if mlp.Shuffle && testSize > 0 {
+		// choose the rows held out for validation
+		rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -810,7 +814,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index a2306b6..962ffa0 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -803,6 +803,10 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if mlp.Shuffle && testSize > 0 {
+		// choose the rows held out for validation
+		rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -810,7 +814,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
-- 
2.43.0


From 996094338dda16b8030a1ef4ad5ba135e8a49836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:46 +0000
Subject: [PATCH 109/128] fix: early stopping of a neural network on class
 labels does not panic

---
 neural_network/basemlp32.go | 4 +++-
 neural_network/basemlp64.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6caa1ed..b823295 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -963,8 +963,10 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
 	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y is already binarized here
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits32(H)
 		// accuracy
 		return accuracyScore32(Y, H)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 962ffa0..b8e4a70 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -963,8 +963,10 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
 	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y is already binarized here
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits64(H)
 		// accuracy
 		return accuracyScore64(Y, H)
 	}
-- 
2.43.0


From 4580eca21d5348f271b7094d163659a66377becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 110/128] fix: lbfgs without a completed iteration keeps the
 loss it evaluated

---
 neural_network/basemlp32.go | 8 +++++---
 neural_network/basemlp64.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b823295..c902ca6 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -743,10 +743,12 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		log.Panic(err)
 	}
 	// the last evaluated point is not always the result
-	for i := range res.X {
-		mlp.packedParameters[i] = float32(res.X[i])
+	if loss := float32(res.F); !M32.IsInf(loss, 0) {
+		for i := range res.X {
+			mlp.packedParameters[i] = float32(res.X[i])
+		}
+		mlp.Loss = loss
 	}
-	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b8e4a70..7f25cb5 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -743,10 +743,12 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		log.Panic(err)
 	}
 	// the last evaluated point is not always the result
-	for i := range res.X {
-		mlp.packedParameters[i] = float64(res.X[i])
+	if loss := float64(res.F); !M64.IsInf(loss, 0) {
+		for i := range res.X {
+			mlp.packedParameters[i] = float64(res.X[i])
+		}
+		mlp.Loss = loss
 	}
-	mlp.Loss = float64(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 54813d8e0d82d9563c2ff1d376c452a2611d8fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 111/128] fix: the neural network writes predicted labels into
 a view

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index c902ca6..aa89abd 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -955,9 +955,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General32(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 7f25cb5..89cf0e8 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -955,9 +955,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General64(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From 8bf52245059bd93d96ac28f8e51fccd0111f3c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 112/128] fix: SVC and SVR derive the default gamma from the
 data of each fit

---
 svm/svm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 68d69e9..5f1b831 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -266,8 +266,9 @@ func (m *SVC) GetNOutputs() int { return m.nOutputs }
 func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *Model) {
 	NSamples, NFeatures := X.Dims()
 	_, Noutputs := Y.Dims()
-	if m.Gamma <= 0. {
-		m.Gamma = 1. / float64(NFeatures)
+	gamma := m.Gamma
+	if gamma <= 0. {
+		gamma = 1. / float64(NFeatures)
 	}
 	m.Model = make([]*Model, Noutputs)
 	var K func(a, b []float64) float64
@@ -279,11 +280,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 		case "linear":
 			K = (LinearKernel{}).Func
 		case "poly", "polynomial":
-			K = (PolynomialKernel{gamma: m.Gamma, coef0: m.Coef0, degree: m.Degree}).Func
+			K = (PolynomialKernel{gamma: gamma, coef0: m.Coef0, degree: m.Degree}).Func
 		case "sigmoid":
-			K = (SigmoidKernel{gamma: m.Gamma, coef0: m.Coef0}).Func
+			K = (SigmoidKernel{gamma: gamma, coef0: m.Coef0}).Func
 		default: //rbf
-			K = (RBFKernel{gamma: m.Gamma}).Func
+			K = (RBFKernel{gamma: gamma}).Func
 		}
 	case Kernel:
 		K = v.Func
-- 
2.43.0


From e009df22c2414b7a18ffe21b2462841492e30bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:32 +0000
Subject: [PATCH 113/128] fix: PowerTransformer refit without standardization
 drops the earlier scaler

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 178f5e8..0d6b95d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1316,6 +1316,7 @@ func (m *PowerTransformer) Fit(X, Y mat.Matrix) base.Fiter {
 func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
 	m.Lambdas = make([]float64, nFeatures)
+	m.Scaler = nil
 	var optimFunc func(col []float64) float64
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From df5455e8da6ee343ad66c6f8dae9cfc5ec41739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:32 +0000
Subject: [PATCH 114/128] fix: FromDense fills an empty destination

---
 base/matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index a25e6b4..fe079b9 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -222,6 +222,10 @@ func FromDense(dst mat.Mutable, dense *mat.Dense) *mat.Dense {
 	if dst == mat.Mutable(nil) {
 		return dense
 	}
+	if d, ok := dst.(*mat.Dense); ok && d.IsEmpty() {
+		*d = *dense
+		return dense
+	}
 	src := dense.RawMatrix()
 	if rawmatrixer, ok := dst.(mat.RawMatrixer); ok {
 		dstmat := rawmatrixer.RawMatrix()
-- 
2.43.0


From b0dccbfe900231e5878c4182aea7b22e8c2bc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:33 +0000
Subject: [PATCH 115/128] fix: BayesianRidge.Predict2 writes deviations into
 the caller's matrix

---
 linear_model/bayes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 5bd6b41..acda5cf 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -257,7 +257,9 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 		}
 		return v
 	}, sigmasSquaredData)
-	*yStd = *mat.NewDense(nSamples, 1, nil)
+	if yStd.IsEmpty() {
+		*yStd = *mat.NewDense(nSamples, 1, nil)
+	}
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
 		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
-- 
2.43.0


From e255980b0cc154c3ffbfc964e33b44a3c97d65b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:11 +0000
Subject: [PATCH 116/128] fix: PCA refit keeps the components of its own data

---
 preprocessing/pca.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 0d5ff57..5c7adb7 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -13,6 +13,7 @@ type PCA struct {
 	MinVarianceRatio                       float64
 	NComponents                            int
 	SingularValues, ExplainedVarianceRatio []float64
+	nComponents                            int // number of components kept by the last Fit
 }
 
 // NewPCA returns a *PCA
@@ -46,10 +47,10 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			ExplainedVarianceRatio += m.ExplainedVarianceRatio[nComponents]
 		}
 		m.NComponents = nComponents
-	} else {
-		if m.NComponents == 0 {
-			m.NComponents = c
-		}
+	}
+	m.nComponents = m.NComponents
+	if m.nComponents == 0 {
+		m.nComponents = c
 	}
 
 	return m
@@ -61,8 +62,8 @@ func (m *PCA) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
 	vRows, _ := v.Dims()
-	Xout = mat.NewDense(nSamples, m.NComponents, nil)
-	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents))
+	Xout = mat.NewDense(nSamples, m.nComponents, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.nComponents))
 
 	Yout = base.ToDense(Y)
 	return
@@ -85,7 +86,7 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	nSamples, _ := X.Dims()
 	vRows, _ := v.Dims()
 	Xout = mat.NewDense(nSamples, vRows, nil)
-	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.nComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 2a7973e2712e4ff307d826d8889b796df0fc710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:31 +0000
Subject: [PATCH 117/128] fix: PCA.Fit does not overwrite the decomposition of
 clones

---
 preprocessing/pca.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 5c7adb7..49efe7a 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -32,6 +32,7 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	if r < c {
 		c = r
 	}
+	m.SVD = mat.SVD{}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 259fcab5bceb29d12df753f55c81744a1c358f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 118/128] fix: cloned Shuffler owns its random source

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0d6b95d..611ee00 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -824,6 +824,9 @@ func NewShuffler() *Shuffler { return &Shuffler{} }
 // TransformerClone ...
 func (m *Shuffler) TransformerClone() base.Transformer {
 	var clone = *m
+	if sourceCloner, ok := m.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From cb978bebb3f285033189e5a9e083ea7905550544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 119/128] fix: GaussianNB.Predict fills an empty output

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index b80a83b..21af9a1 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,7 +29,7 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
 		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
-- 
2.43.0


From 520d977d4169ab6532746ce4177a316179169405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 120/128] fix: MakeBlobs shuffles with its RandomState

---
 datasets/samples_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index b64f40e..8a00f91 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -194,7 +194,9 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		}
 	})
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From acdff07efec3b27058f900897ab38caeb2115214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:02 +0000
Subject: [PATCH 121/128] fix: KMeans.Fit terminates when rounding makes
 assignments cycle

---
 cluster/kmeans.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index ef6d9db..e9a2389 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -73,7 +73,9 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.NJobs = runtime.NumCPU()
 	}
 
-	for unchangeCount < 2 {
+	// coincident centroids may exchange samples forever because of rounding, bound iterations as scikit-learn does
+	const maxIter = 300
+	for unchangeCount < 2 && epoch < maxIter {
 		epoch++
 		changed = false
 		// find nearest centroids
-- 
2.43.0


From 4c3736dd488d32caefbfbe031cdc13978f779216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:12 +0000
Subject: [PATCH 122/128] fix: loss gradients sum over the rows given, a
 mini-batch may have less than nSamples

---
 linear_model/loss.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 2612fe0..c6a70d2 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -41,13 +41,14 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 	}, Ydiff)
 	// put into grad
 	if grad != nil {
+		rows, _ := Ydiff.Dims()
 		if _, ok := activation.(base.Identity); ok {
 			grad.Mul(X.T(), Ydiff) //<- for identity only
 
 		} else {
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < rows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -92,9 +93,10 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	}, Ypred)
 	//grad.Mul(X.T(), Ydiff)
 	if grad != nil {
+		rows, _ := Ydiff.Dims()
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i := 0; i < rows; i++ {
 				h := Ypred.At(i, o)
 				g += -Ytrue.At(i, o) * X.At(i, j) * activation.Fprime(h) / h
 			}
@@ -145,13 +147,14 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 		return hpred
 	}, Ypred)
 	if grad != nil {
+		rows, _ := Ydiff.Dims()
 		if _, ok := activation.(base.Logistic); ok {
 			grad.Mul(X.T(), Ydiff)
 		} else {
 			// // for Logistic activation only
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < rows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := X.At(i, j) * activation.Fprime(h)
-- 
2.43.0


From c9e014f83383ebf871e5ebf6321155dee98dd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:29 +0000
Subject: [PATCH 123/128] fix: log loss gradient is finite where a prediction
 saturates to 0

---
 linear_model/loss.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index c6a70d2..6e199f6 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -98,6 +98,9 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < rows; i++ {
 				h := Ypred.At(i, o)
+				if h == 0. {
+					h += 1e-10
+				}
 				g += -Ytrue.At(i, o) * X.At(i, j) * activation.Fprime(h) / h
 			}
 			return g
-- 
2.43.0


From 654a060decd47b806fda826ca769fc7b2b17ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:53 +0000
Subject: [PATCH 124/128] fix: interpolators keep their own copy of sorted
 knots, as of unsorted ones

---
 interpolate/cubic.go       | 11 ++++-------
 interpolate/interpolate.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/interpolate/cubic.go b/interpolate/cubic.go
index b1a0364..57711ee 100644
--- a/interpolate/cubic.go
+++ b/interpolate/cubic.go
@@ -51,13 +51,10 @@ func CubicSpline(xs, ys []float64) func(x float64) float64 {
 
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(xs) {
-		both = &xy{xs, ys}
-	} else {
-		both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
-		copy(both.x, xs)
-		copy(both.y, ys)
+	both := &xy{make([]float64, len(xs)), make([]float64, len(xs))}
+	copy(both.x, xs)
+	copy(both.y, ys)
+	if !sort.Float64sAreSorted(both.x) {
 		sort.Sort(both)
 	}
 
diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..c48eb6c 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -32,13 +32,10 @@ func Interp1d(x, y []float64) func(x float64) float64 {
 		panic(fmt.Errorf("interp1d lenx:%d leny:%d", len(x), len(y)))
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(x) {
-		both = &xy{x, y}
-	} else {
-		both = &xy{make([]float64, len(x)), make([]float64, len(x))}
-		copy(both.x, x)
-		copy(both.y, y)
+	both := &xy{make([]float64, len(x)), make([]float64, len(x))}
+	copy(both.x, x)
+	copy(both.y, y)
+	if !sort.Float64sAreSorted(both.x) {
 		sort.Sort(both)
 	}
 	return func(x float64) float64 {
-- 
2.43.0


From cd6e14b7d5b97cd44f7e104bb66e4f414ac5e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:26 +0000
Subject: [PATCH 125/128] fix: CrossEntropyLoss gradient no longer divides by
 zero for a prediction of exactly 0 or 1

---
 linear_model/loss.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 6e199f6..923dc80 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -161,6 +161,11 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := X.At(i, j) * activation.Fprime(h)
+					if h == 0. {
+						h += 1e-10
+					} else if h == 1. {
+						h -= 1e-10
+					}
 					if y == 1. {
 						g += -y * hprime / h
 					} else if y == 0. {
-- 
2.43.0


From 783b9124ae62043f92955f4001cec8107fdee0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:19 +0000
Subject: [PATCH 126/128] fix: cloned SGDRegressor owns its optimization
 method, parallel cross-validation raced on it

---
 linear_model/Base.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index a7dae3a..ad14802 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -11,6 +11,7 @@ import (
 
 	//"gonum.org/v1/gonum/diff/fd"
 	"math"
+	"reflect"
 	"runtime"
 
 	"golang.org/x/exp/rand"
@@ -157,9 +158,31 @@ func (*SGDRegressor) IsClassifier() bool { return false }
 // PredicterClone for SGDRegressor
 func (regr *SGDRegressor) PredicterClone() base.Predicter {
 	clone := *regr
+	clone.Method, _ = cloneOptimizeSettings(regr.Method).(optimize.Method)
 	return &clone
 }
 
+// cloneOptimizeSettings returns a copy of a method of gonum/optimize with the same settings and a state of its own.
+// values of other types are returned unchanged
+func cloneOptimizeSettings(m interface{}) interface{} {
+	v := reflect.ValueOf(m)
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Type().Elem().PkgPath() != reflect.TypeOf(optimize.LBFGS{}).PkgPath() {
+		return m
+	}
+	clone := reflect.New(v.Type().Elem())
+	for i := 0; i < v.Elem().NumField(); i++ {
+		src, dst := v.Elem().Field(i), clone.Elem().Field(i)
+		if !dst.CanSet() {
+			continue // unexported: state
+		}
+		if src.Kind() == reflect.Interface && !src.IsNil() {
+			src = reflect.ValueOf(cloneOptimizeSettings(src.Interface()))
+		}
+		dst.Set(src)
+	}
+	return clone.Interface()
+}
+
 // Fit learns Coef
 func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X0, y0 := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From bbd0c4cc65e8bada03e61605835950f091740702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 127/128] fix: a warm-started network that was never fitted
 initializes its weights

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index aa89abd..08b706e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -534,7 +534,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.packedParameters == nil || (!mlp.WarmStart && !incremental) {
 		//# First time training the model
 		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 89cf0e8..14c42bf 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -534,7 +534,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.packedParameters == nil || (!mlp.WarmStart && !incremental) {
 		//# First time training the model
 		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
-- 
2.43.0


From a2561a0f56043ebf7c5227cd23e73361960d4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:03 +0000
Subject: [PATCH 128/128] fix: a logistic regression allowed a single
 evaluation keeps its starting point

---
 linear_model/logistic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 5fe0ca8..d6bdfee 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -440,7 +440,10 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		log.Panic(err)
 	}
 	// res holds the best location even if the line search could not progress any more
-	copy(m.packedParameters, res.X)
+	// (it holds none when the evaluations ran out before the first iteration)
+	if !math.IsInf(res.F, 1) {
+		copy(m.packedParameters, res.X)
+	}
 	if err != nil {
 		log.Printf("lbfgs optimizer: %s\n", err)
 	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
-- 
2.43.0

