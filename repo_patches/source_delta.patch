From 4ec18951f481d27f7bfa0525d114acb19bb4ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 01/86] fix: DEntropyTarget.Impurity applies the costs, as
 ImpFromCounts does

---
 dentropytarget.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..1df6c2f 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -121,10 +121,10 @@ func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64)
 	target.CountPerCat(cases, counts)
 
 	p := 0.0
-	for _, i := range *counts {
+	for c, i := range *counts {
 		if i > 0 {
 			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
+			e -= target.Costs[c] * p * math.Log(p)
 		}
 
 	}
-- 
2.43.0


From 7e967e0bb19d829f9e91927d905f11c686e47ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 02/86] fix: RegretTarget impurity divides by the number of
 cases once

---
 regrettarget.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regrettarget.go b/regrettarget.go
index 68b160a..2a24949 100644
--- a/regrettarget.go
+++ b/regrettarget.go
@@ -123,7 +123,6 @@ func (target *RegretTarget) ImpFromCounts(t int, counter *[]int) (e float64) {
 
 	for cat, count := range *counter {
 
-		t += count
 		if cat != mi {
 			e += target.Costs[cat] * float64(count)
 		}
-- 
2.43.0


From cc72cde697f0fc62b989e3c439fc108f50a97e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 03/86] fix: DenseNumFeature.Span looks at more than the last
 value

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..c7642f7 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From 77660416462bca7ac10fdb6193b558b9cc687a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 04/86] fix: BestNumSplit tries the last admissible threshold

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index c7642f7..463884f 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From d8d7f696d5760362cbf2b2d405ead9ae17db560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 05/86] fix: BestSplit scales scores by the nonmissing fraction
 when values are missing

---
 densecatfeature.go | 5 ++++-
 densenumfeature.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..8a9bce4 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -218,7 +218,10 @@ func (f *DenseCatFeature) BestSplit(target Target,
 		codedSplit, impurityDecrease, constant = f.BestCatSplit(target, tosplit, nonmissingparentImp, maxNonRandomExahustive, leafSize, allocs)
 	}
 
-	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp && nonmissingparentImp < 0 {
+		//targets with a negative parent impurity score splits directly, there is no missing impurity to subtract
+		impurityDecrease *= float64(nonmissing) / float64(total)
+	} else if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
diff --git a/densenumfeature.go b/densenumfeature.go
index 463884f..336a1b7 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -263,7 +263,10 @@ func (f *DenseNumFeature) BestSplit(target Target,
 
 	codedSplit, impurityDecrease, constant = f.BestNumSplit(target, tosplit, nonmissingparentImp, leafSize, randomSplit, allocs)
 
-	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
+	if f.HasMissing && nmissing > 0 && impurityDecrease > minImp && nonmissingparentImp < 0 {
+		//targets with a negative parent impurity score splits directly, there is no missing impurity to subtract
+		impurityDecrease *= float64(nonmissing) / float64(total)
+	} else if f.HasMissing && nmissing > 0 && impurityDecrease > minImp {
 		impurityDecrease = parentImp + ((float64(nonmissing)*(impurityDecrease-nonmissingparentImp) - float64(nmissing)*missingimp) / float64(total))
 	}
 	return
-- 
2.43.0


From 6cc9025b0803453b297c792afcced108c4c6ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 06/86] fix: BestNumSplit thresholds separate exactly the cases
 that were evaluated

---
 densenumfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 336a1b7..6ba58be 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -358,9 +358,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				//rounding or overflow can put the middle on or outside of the gap
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From ab34b2644d30441db0777912780fff55234e155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 07/86] fix: BestSplitter stops when all candidates have been
 drawn

---
 featurematrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..81a3aff 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -194,6 +194,11 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 			return
 		}
 
+		//Stop if every candidate has been drawn
+		if lastSample+nDrawnConstants >= lcans {
+			return
+		}
+
 		//make sure there isn't only one non constant left to draw
 		if lcans > nDrawnConstants+lastSample {
 
-- 
2.43.0


From 38aac930f4a47b38ef8e789957d058bec1794ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 08/86] fix: only grow missing branches that have cases

---
 tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index c01f024..6c5a607 100644
--- a/tree.go
+++ b/tree.go
@@ -156,8 +156,15 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				//only grow a missing branch if there are cases to predict from in it
+				n.Missing = nil
 				if splitmissing {
-					n.Missing = new(Node)
+					for _, i := range *innercases {
+						if fm.Data[fi].IsMissing(i) {
+							n.Missing = new(Node)
+							break
+						}
+					}
 				}
 				return
 			}
@@ -247,8 +254,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
 					if splitmissing {
-						n.Missing = new(Node)
 						if li != ri {
+							n.Missing = new(Node)
 							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 						}
 					}
-- 
2.43.0


From 475bdd0491814ce974f54477b64fbf9f7067dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 09/86] fix: leaves of a regrown tree drop their old children

---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index 6c5a607..e1283fc 100644
--- a/tree.go
+++ b/tree.go
@@ -176,6 +176,10 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		//children left from an earlier use of this tree would keep the leaf from voting
+		n.Left = nil
+		n.Right = nil
+		n.Missing = nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -269,6 +273,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left = nil
+			n.Right = nil
+			n.Missing = nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From 198beda8a1657b241f70ff49247938200877199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 10/86] fix: write missing branches

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 1e3a1782895d4bc1f6d57f547e9483da4f99bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 11/86] fix: read the last line of a forest file without a
 newline

---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..957cde4 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -83,7 +83,8 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		//the last line may lack a newline
+		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From fcdf8564916148fc5f01b10c55d99aeecb7ebfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 12/86] fix: values in forest files may contain =

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 957cde4..e0b1912 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -188,7 +188,7 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
-- 
2.43.0


From 1aa058b579e319cff0b9cd25b26065de059aac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 13/86] fix: skip blank lines in forest files

---
 forestreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index e0b1912..1392677 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -87,6 +87,9 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		if err != nil && (err != io.EOF || line == "") {
 			return
 		}
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
 		parsed := fr.ParseRfAcePredictorLine(line)
 		switch {
 		case strings.HasPrefix(line, "FOREST"):
-- 
2.43.0


From 233d2a31756259a5d1bcd8f526a9db33ddd34ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 14/86] fix: ReadForest returns the errors it meets

---
 forestreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 1392677..b40546c 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -41,7 +41,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 	}
 	for {
 		peek, err = fr.br.Peek(1)
-		if peek[0] == 'F' && forest != nil {
+		if err == nil && peek[0] == 'F' && forest != nil {
 			return
 		}
 		t, f, e := fr.ReadTree()
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
-- 
2.43.0


From 65480a4a539f0a599b1c93366d3c1e9706732d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 15/86] fix: keep blanks after commas in forest files

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index b40546c..ab4ec9a 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -169,7 +169,7 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	insidequotes := make([]string, 0)
 	terms := strings.Split(strings.TrimSpace(line), ",")
 	for _, term := range terms {
-		term = strings.TrimSpace(term)
+		//whitespace is trimmed once the terms have been joined
 		quotes := strings.Count(term, "\"")
 		//if quotes have been opend join terms
 		if quotes == 1 || len(insidequotes) > 0 {
-- 
2.43.0


From 292fb3487682decfdebe7f001c0126c567d0287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 16/86] fix: only write categories that go left

---
 forestwriter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..339119d 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -98,8 +98,10 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 //DescribeMap serializes the "left" map of a categorical splitter.
 func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	keys := make([]string, 0)
-	for k := range input {
-		keys = append(keys, k)
+	for k, goesleft := range input {
+		if goesleft {
+			keys = append(keys, k)
+		}
 	}
 	return "\"" + strings.Join(keys, ":") + "\""
 }
-- 
2.43.0


From b8ec211f27c6566ff8f4983fc6cd417f4cda298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 17/86] fix: WriteForest always writes the forest header

---
 forestwriter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 339119d..80b5fa0 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -24,9 +24,7 @@ func NewForestWriter(w io.Writer) *ForestWriter {
 
 //WriteForest writes an entire forest including all headers.
 func (fw *ForestWriter) WriteForest(forest *Forest) {
-	if forest.Intercept != 0.0 {
-		fw.WriteForestHeader(0, forest.Target, forest.Intercept)
-	}
+	fw.WriteForestHeader(0, forest.Target, forest.Intercept)
 	for i, tree := range forest.Trees {
 		fw.WriteTree(tree, i)
 	}
-- 
2.43.0


From 05eea8a6e6ed75e9e62779c729eb09aab542ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 18/86] fix: trees of GrowRandomForest know their target

---
 forrest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forrest.go b/forrest.go
index fd6aab9..0ffcd37 100644
--- a/forrest.go
+++ b/forrest.go
@@ -58,6 +58,7 @@ func GrowRandomForest(fm *FeatureMatrix,
 		cases := SampleWithReplacment(nSamples, nCases)
 
 		f.Trees = append(f.Trees, NewTree())
+		f.Trees[i].Target = target.GetName()
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
-- 
2.43.0


From ef0a1650576099205abef7ee537ac3f9e3a7cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 19/86] fix: read feature matrices without cases

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 81a3aff..1d1800e 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -363,7 +363,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	}
 	headers = headers[1:]
 
-	if len(headers[0]) > 1 {
+	if len(headers) > 0 && len(headers[0]) > 1 {
 		sniff := headers[0][:2]
 		if sniff == "N:" || sniff == "C:" || sniff == "B:" {
 			//features in cols
-- 
2.43.0


From 9797b438d02321c13a247e8aaef721bafcaf0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 20/86] fix: feature names may be shorter than a type prefix

---
 featurematrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 1d1800e..a234427 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -369,7 +369,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			//features in cols
 
 			for i, label := range headers {
-				if label[:2] == "N:" {
+				if strings.HasPrefix(label, "N:") {
 					data = append(data, &DenseNumFeature{
 						make([]float64, 0, 0),
 						make([]bool, 0, 0),
@@ -451,8 +451,8 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 //"N:"" indicating numerical, anything else (usually "C:" and "B:") for categorical
 func ParseFeature(record []string) Feature {
 	capacity := len(record)
-	switch record[0][0:2] {
-	case "N:":
+	switch {
+	case strings.HasPrefix(record[0], "N:"):
 		f := &DenseNumFeature{
 			nil,
 			make([]bool, 0, capacity),
-- 
2.43.0


From 1c294d68a3de31a7497dd31c375a838ac14a9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 21/86] fix: nan is a missing numeric value

---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 6ba58be..d36dae3 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From 73227b09160f01fe3c997d30ee4b09bb0c0ba2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 22/86] fix: an empty file is an empty feature matrix

---
 featurematrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index a234427..aaa8b7b 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -356,10 +356,10 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, nil}
 	}
 	headers = headers[1:]
 
-- 
2.43.0


From 8696c9ec4a9f5a4c80cb748da87b0722551136a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 23/86] fix: values in feature matrices may contain quotation
 marks

---
 featurematrix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featurematrix.go b/featurematrix.go
index aaa8b7b..1ba0de8 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -354,6 +354,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	lookup := make(map[string]int, 0)
 	tsv := csv.NewReader(input)
 	tsv.Comma = '\t'
+	tsv.LazyQuotes = true
 	headers, err := tsv.Read()
 	if err == io.EOF {
 		return &FeatureMatrix{data, lookup, nil}
-- 
2.43.0


From b62914ec54300c3ff942245fa996d1f6b3120212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 24/86] fix: ARFF integer attributes are numeric

---
 arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arff.go b/arff.go
index 8c1b841..c132a9c 100644
--- a/arff.go
+++ b/arff.go
@@ -37,7 +37,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		if strings.HasPrefix(norm, "@attribute") {
 			vals := strings.Fields(line)
 
-			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" {
+			if strings.ToLower(vals[2]) == "numeric" || strings.ToLower(vals[2]) == "real" || strings.ToLower(vals[2]) == "integer" {
 				data = append(data, &DenseNumFeature{
 					make([]float64, 0, 0),
 					make([]bool, 0, 0),
-- 
2.43.0


From f7d49c3bdcc31a170cef2c7d4b04015fc034202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 25/86] fix: ignore blanks after commas in ARFF data

---
 arff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arff.go b/arff.go
index c132a9c..5c272d2 100644
--- a/arff.go
+++ b/arff.go
@@ -65,6 +65,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 
 	csvdata := csv.NewReader(reader)
 	csvdata.Comment = '%'
+	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
 	fm.LoadCases(csvdata, false)
-- 
2.43.0


From 78f3259e13560e04dfb9cc9f9851f1e796780df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 26/86] fix: read the last line of a libsvm file without a
 newline

---
 libsvm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..0c4c4ca 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -23,9 +23,9 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		ncases++
 
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		if err == io.EOF && line == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
-- 
2.43.0


From 1d083118fa24ef7f05f75b0ff559280a438413a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 27/86] fix: skip blank lines in libsvm files

---
 libsvm.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libsvm.go b/libsvm.go
index 0c4c4ca..508d4e7 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -32,6 +32,11 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 		vals := strings.Fields(line)
 
+		if len(vals) == 0 {
+			ncases--
+			continue
+		}
+
 		if i == 0 {
 			name := "0"
 			lookup[name] = 0
-- 
2.43.0


From 1261987a4aaeb92aa0b30aa97d90536d0182d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 28/86] fix: WriteLibSvmCases imputes a copy

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 508d4e7..674698b 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -168,7 +168,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 3397724cbea5bb89839b97aba4b81b3ca383d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 29/86] fix: write missing responses as missing in libsvm files

---
 libsvm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsvm.go b/libsvm.go
index 674698b..244d440 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -134,6 +134,9 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
+		if target.IsMissing(i) {
+			entries[0] = target.GetStr(i)
+		}
 
 		for j, f := range encodedfm.Data {
 			v := f.(NumFeature).Get(i)
@@ -191,6 +194,9 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 		case CatFeature:
 			entries = append(entries, fmt.Sprintf("%v", target.(CatFeature).Geti(i)))
 		}
+		if target.IsMissing(i) {
+			entries[0] = target.GetStr(i)
+		}
 
 		for j, f := range encodedfm.Data {
 			v := f.(NumFeature).Get(i)
-- 
2.43.0


From 8e30efd853ae0dc3e86c4a8610b35c8fcdb04715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 30/86] fix: CatBallotBox breaks ties deterministically

---
 catballotbox.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..0434b05 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -56,7 +56,8 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
+		//break ties by label so they don't depend on map order
+		if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {
 			predictedn = k
 			votes = v
 
-- 
2.43.0


From 32c09c5ef3c144d0967cc282d81739afbb6ecc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 31/86] fix: TallyError ignores categories without cases

---
 catballotbox.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index 0434b05..caf05ff 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -108,11 +108,16 @@ func (bb *CatBallotBox) TallyError(feature Feature) (e float64) {
 		}
 	}
 
+	nknown := 0
 	for i, ncorrect := range correct {
-		e += float64(ncorrect) / float64(total[i])
+		//categories without cases can't be evaluated
+		if total[i] > 0 {
+			e += float64(ncorrect) / float64(total[i])
+			nknown++
+		}
 	}
 
-	e /= float64(ncats)
+	e /= float64(nknown)
 	e = 1.0 - e
 
 	return
-- 
2.43.0


From 10e91bed6c2ebf085e70278232dba07197399c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 32/86] fix: TallySquaredError ignores cases without votes

---
 numballotbox.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..2cd1543 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -63,8 +63,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, votes := bb.box[i].Read()
+		if !feature.IsMissing(i) && votes > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
@@ -73,7 +73,7 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 		}
 	}
 	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+		log.Print("TallyError with 0 count!")
 	}
 	e = e / float64(c)
 
-- 
2.43.0


From 44a55a96d1ef43c25337129d7e89e2c5c2505eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 33/86] fix: adding with weight zero leaves a running mean
 unchanged

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..01ca310 100644
--- a/utils.go
+++ b/utils.go
@@ -31,7 +31,7 @@ func (rm *RunningMean) Add(val float64) {
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 0486bed3f88101c686f6246414d427b035efc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 34/86] fix: guard the category map of CatBallotBox

---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index caf05ff..e6f2fc1 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box      []*CatBallot
+	mapMutex sync.RWMutex //guards the CatMap shared by all ballots
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.mapMutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.mapMutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -55,6 +58,8 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	predictedn := 0
 	votes := 0.0
 	bb.Box[i].Mutex.Lock()
+	bb.mapMutex.RLock()
+	defer bb.mapMutex.RUnlock()
 	for k, v := range bb.Box[i].Map {
 		//break ties by label so they don't depend on map order
 		if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {
-- 
2.43.0


From a2473f6e01d39b17995c590f37b78a6c001d94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 35/86] fix: count splits at the root in the minimal depth

---
 growforest/growforest.go |  2 +-
 tree.go                  | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..86a2aa7 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -670,7 +670,7 @@ func main() {
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
 							if v != 0 {
-								(*mmdpnt)[i].Add(float64(v))
+								(*mmdpnt)[i].Add(float64(v - 1))
 								(*depthUsed)[i] = 0
 							}
 
diff --git a/tree.go b/tree.go
index e1283fc..5697cd9 100644
--- a/tree.go
+++ b/tree.go
@@ -142,8 +142,9 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-					(*depthUsed)[fi] = depth
+				//0 marks unused features so the root is recorded as depth 1
+				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+					(*depthUsed)[fi] = depth + 1
 				}
 				//not a leaf node so define the splitter and left and right nodes
 				//so recursion will continue
@@ -236,8 +237,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
-						(*depthUsed)[fi] = depth
+					//0 marks unused features so the root is recorded as depth 1
+					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth+1 < (*depthUsed)[fi]) {
+						(*depthUsed)[fi] = depth + 1
 					}
 
 					//not a leaf node so define the splitter and left and right nodes
-- 
2.43.0


From 963c60e57640cf229a0f75594ecebbe200bcf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 36/86] fix: grow the last tested tree into a tree of its own

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 86a2aa7..fa784c2 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -713,7 +713,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From ff6aad55a5bcfd429c39d4d896d8a3da1fb5b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 37/86] fix: don't start more threads than trees

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index fa784c2..ede51dd 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -205,6 +205,11 @@ func main() {
 		nCores = 1
 	}
 
+	if nCores > nTrees {
+		//every thread grows at least one tree
+		nCores = nTrees
+	}
+
 	if nCores > 1 {
 
 		runtime.GOMAXPROCS(nCores)
-- 
2.43.0


From 598a3d757ba83dc8099aba9c2f85c3c4f399b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 38/86] fix: end the thread when boosting reaches infinite
 weight

---
 growforest/growforest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index ede51dd..07d9874 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -588,7 +588,6 @@ func main() {
 		var waitGroup sync.WaitGroup
 
 		waitGroup.Add(nCores)
-		treechan := make(chan *CloudForest.Tree, 0)
 		//fmt.Println("forest ", foresti)
 		//Grow a single forest on nCores
 		for core := 0; core < nCores; core++ {
@@ -689,7 +688,9 @@ func main() {
 						boostMutex.Unlock()
 						if weight == math.Inf(1) {
 							fmt.Printf("Boosting Reached Weight of %v\n", weight)
-							close(treechan)
+							if nCores > 1 {
+								waitGroup.Done()
+							}
 							break
 						}
 
-- 
2.43.0


From 1b5fc73e06001a95c2346d7c829a4399deee96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 39/86] fix: number the trees of a forest

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 07d9874..9b6a6e9 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -725,8 +725,8 @@ func main() {
 							tree.Target = *targetname
 						}
 					}
+					treesFinished++
 					if progress {
-						treesFinished++
 						fmt.Printf("Model oob error after tree %v : %v\n", treesFinished, oobVotes.TallyError(unboostedTarget))
 					}
 					if treesStarted < nTrees {
-- 
2.43.0


From ef2af557929dc664a140261d62842fdb3f1a444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 40/86] fix: use all cases with a target when not bagging

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 9b6a6e9..f39f2d5 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -607,7 +607,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From ce18be539c57e61c5acf6b36753373120c764d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 41/86] fix: don't add categories to the target while
 predicting

---
 dentropytarget.go  | 7 ++++---
 hdistancetarget.go | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index 1df6c2f..7e3a7e5 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -84,7 +84,8 @@ func (target *DEntropyTarget) ImpFromCounts(total int, counts *[]int) (e float64
 
 func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	prob_true := 0.0
-	t := target.CatToNum("True")
+	//CatToNum would add a missing category to data other threads are using
+	t := "True"
 	weightedvoted := true
 	if weightedvoted {
 		count := 0.0
@@ -92,7 +93,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 		for _, i := range cases {
 			ti := target.Geti(i)
 			cost := target.Costs[ti]
-			if ti == t {
+			if target.NumToCat(ti) == t {
 				count += cost
 			}
 			total += cost
@@ -103,7 +104,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	} else {
 		count := 0
 		for _, i := range cases {
-			if target.Geti(i) == t {
+			if target.NumToCat(target.Geti(i)) == t {
 				count++
 			}
 
diff --git a/hdistancetarget.go b/hdistancetarget.go
index 2aff363..3499597 100644
--- a/hdistancetarget.go
+++ b/hdistancetarget.go
@@ -65,11 +65,11 @@ func (target *HDistanceTarget) HDist(lcounts *[]int, rcounts *[]int) (d float64)
 func (target *HDistanceTarget) FindPredicted(cases []int) (pred string) {
 	// TODO(ryan): lapalcian smoothing?
 	prob_true := 0.0
-	t := target.CatToNum(target.Pos_class)
 
 	count := 0
 	for _, i := range cases {
-		if target.Geti(i) == t {
+		//CatToNum would add a missing category to data other threads are using
+		if target.NumToCat(target.Geti(i)) == target.Pos_class {
 			count++
 		}
 
-- 
2.43.0


From 84285f4b9cbf464bf43029ea10fe471a21b03e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 42/86] fix: adaptive boosting targets are boosting targets

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 numadaboostingtarget.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From ba95d5686ecaa9bb0cb6d27a6cc3f781b6ce9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 43/86] fix: keep case weights when there is nothing to boost

---
 adaboosttarget.go       | 4 ++++
 adacosttarget.go        | 4 ++++
 numadaboostingtarget.go | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..5ebf7e9 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -122,6 +122,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//no errors, there is nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..e1b6bb3 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -138,6 +138,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//no errors, there is nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 		t.CountPerCat(&cases, &counter)
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..1e11335 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -93,6 +93,14 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 	}
 
 	weight = math.Log(norm / imp)
+	if math.IsNaN(weight) {
+		//all values are the same, so that any tree is as good as another
+		return 1.0
+	}
+	if math.IsInf(weight, 1) {
+		//no errors, there is nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
-- 
2.43.0


From 6020aad26845e1e6a29b85a33452b0b554cc0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 44/86] fix: leave cases with a missing target out of adaptive
 boosting

---
 adaboosttarget.go       | 33 +++++++++++++++++++++++++++++++--
 adacosttarget.go        |  5 ++---
 numadaboostingtarget.go |  4 ++--
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 5ebf7e9..e7370c8 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -19,12 +19,40 @@ NewAdaBoostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaBoostTarget(f CatFeature) (abt *AdaBoostTarget) {
 	nCases := f.Length()
 	abt = &AdaBoostTarget{f, make([]float64, nCases)}
-	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
+	initBoostWeights(f, abt.Weights)
+	return
+}
+
+//initBoostWeights gives the cases that aren't missing equal weights that sum to one. Missing
+//cases don't take part in boosting and have weight zero. It returns the number of cases that
+//aren't missing.
+func initBoostWeights(f Feature, weights []float64) (n int) {
+	for i := range weights {
+		if !f.IsMissing(i) {
+			n++
+		}
+	}
+	for i := range weights {
+		if !f.IsMissing(i) {
+			weights[i] = 1 / float64(n)
+		}
 	}
 	return
 }
 
+//notMissing returns leaves without the cases that are missing.
+func notMissing(f Feature, leaves *[][]int) *[][]int {
+	known := make([][]int, len(*leaves))
+	for i, cases := range *leaves {
+		for _, c := range cases {
+			if !f.IsMissing(c) {
+				known[i] = append(known[i], c)
+			}
+		}
+	}
+	return &known
+}
+
 /*
 SplitImpurity is an AdaCosting version of SplitImpurity.
 */
@@ -115,6 +143,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
+	leaves = notMissing(t, leaves)
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
 	}
diff --git a/adacosttarget.go b/adacosttarget.go
index e1b6bb3..86847c7 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -26,9 +26,7 @@ NewAdaCostTarget creates a categorical adaptive boosting target and initializes
 func NewAdaCostTarget(f CatFeature) (abt *AdaCostTarget) {
 	nCases := f.Length()
 	abt = &AdaCostTarget{f, make([]float64, nCases), make([]float64, f.NCats())}
-	for i := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
-	}
+	initBoostWeights(f, abt.Weights)
 	return
 }
 
@@ -131,6 +129,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
+	leaves = notMissing(t, leaves)
 	for _, cases := range *leaves {
 		weight += t.Impurity(&cases, &counter)
 	}
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 1e11335..af750ec 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -19,10 +19,10 @@ func NewNumAdaBoostTarget(f NumFeature) (abt *NumAdaBoostTarget) {
 	abt = &NumAdaBoostTarget{f, make([]float64, nCases), 0.0}
 	cases := make([]int, nCases)
 	for i, _ := range abt.Weights {
-		abt.Weights[i] = 1 / float64(nCases)
 		cases[i] = i
 	}
-	abt.NormFactor = abt.Impurity(&cases, nil) * float64(nCases)
+	nKnown := initBoostWeights(f, abt.Weights)
+	abt.NormFactor = abt.Impurity(&cases, nil) * float64(nKnown)
 	return
 }
 
-- 
2.43.0


From 1875cdc6d199369ce2d1ce2b56ae2e57f2320671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 45/86] fix: boost when growing with -adacost

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index f39f2d5..8beca30 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -200,7 +200,7 @@ func main() {
 		fmt.Println("MULTIBOOST!!!!1!!!!1!!11 (things may break).")
 	}
 	var boostMutex sync.Mutex
-	boost := (adaboost || gradboost != 0.0)
+	boost := (adaboost || gradboost != 0.0 || *adacosts != "")
 	if boost && !multiboost {
 		nCores = 1
 	}
@@ -518,6 +518,11 @@ func main() {
 		}
 	}
 
+	if boost {
+		//options above may have selected a target that can't be boosted
+		_, boost = targetf.(CloudForest.BoostingTarget)
+	}
+
 	var forestwriter *CloudForest.ForestWriter
 	if *rf != "" {
 		forestfile, err := os.Create(*rf)
-- 
2.43.0


From b5d532c006e49117cf407d02f8c2b33d4e3e67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 46/86] fix: leave cases with a missing target out of gradient
 boosting

---
 gradboosttarget.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..d255e04 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,16 +17,22 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	n := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			n++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(n)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From 9f7948113fe595c7c87bd7f25944253205a78876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 47/86] fix: give encoded features their own record of missing
 values

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 8a9bce4..e8319b4 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool{}, f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From dbba04a73c8f0ae856cdaee9303a45642648016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 48/86] fix: leave cases with a missing class out of gradient
 boosting

---
 gradboostclasstarget.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..4b79bf0 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,6 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +54,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	known := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (known - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if actual.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -110,6 +120,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
-- 
2.43.0


From e5d26f14380c121bfe8c77291b09fbcfa79a72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 49/86] fix: grow forests only from cases with a known target

---
 forrest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/forrest.go b/forrest.go
index 0ffcd37..a74f3f6 100644
--- a/forrest.go
+++ b/forrest.go
@@ -53,9 +53,19 @@ func GrowRandomForest(fm *FeatureMatrix,
 	//Slices for reuse during search for best splitter.
 	allocs := NewBestSplitAllocs(nSamples, target)
 
+	//Cases with a known target.
+	known := make([]int, 0, fm.Data[0].Length())
+	for i := 0; i < fm.Data[0].Length(); i++ {
+		if feature, ok := target.(Feature); !ok || !feature.IsMissing(i) {
+			known = append(known, i)
+		}
+	}
+
 	for i := 0; i < nTrees; i++ {
-		nCases := fm.Data[0].Length()
-		cases := SampleWithReplacment(nSamples, nCases)
+		cases := SampleWithReplacment(nSamples, len(known))
+		for j, c := range cases {
+			cases[j] = known[c]
+		}
 
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Target = target.GetName()
-- 
2.43.0


From 09d64fdb1cec47306a95f551969fececd1cb9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 50/86] fix: only balance between classes that have cases

---
 sampeling.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..808f73b 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,9 +28,21 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = nonEmpty(s.Cases)
 	return
 }
 
+//nonEmpty returns only those of the supplied classes that have cases to sample.
+func nonEmpty(classes [][]int) [][]int {
+	present := make([][]int, 0, len(classes))
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			present = append(present, cases)
+		}
+	}
+	return present
+}
+
 //Sample samples n integers in a balnced-with-replacment fashion into the provided array.
 func (s *BalancedSampler) Sample(samples *[]int, n int) {
 	(*samples) = (*samples)[0:0]
@@ -73,6 +85,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i := range s.Samplers {
+		s.Samplers[i] = nonEmpty(s.Samplers[i])
+	}
 	return
 
 }
-- 
2.43.0


From d7fcf876a08388c310a5adedca14c6bb494edc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 51/86] fix: copy whether a feature has missing values

---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index e8319b4..bc6f4ad 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1219,6 +1219,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index d36dae3..08cd42d 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -652,7 +652,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -666,6 +666,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From 60f65aea340959189efedb54fc980e3d943f9909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 52/86] fix: give copies of categorical features their own
 category map

---
 densecatfeature.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index bc6f4ad..0b70254 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1196,9 +1196,13 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 /*Copy returns a copy of f.*/
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
+	catmap := &CatMap{make(map[string]int, len(f.Map)),
+		append([]string{}, f.Back...)}
+	for k, v := range f.Map {
+		catmap.Map[k] = v
+	}
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		catmap,
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From ecdd44c3b003c600b694ac009e49fed0edca5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 53/86] fix: put missing values into categorical features as
 missing

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 0b70254..c822597 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From 5430b0777218d2a369828e58d6276ae2e6f83f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 54/86] fix: leave columns without values missing when imputing

---
 densecatfeature.go | 8 +++++++-
 densenumfeature.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index c822597..3dc4d7c 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1231,7 +1231,13 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 func (f *DenseCatFeature) ImputeMissing() {
 	cases := make([]int, 0, len(f.Missing))
 	for i := range f.Missing {
-		cases = append(cases, i)
+		if !f.Missing[i] {
+			cases = append(cases, i)
+		}
+	}
+	if len(cases) == 0 {
+		//there are no values to impute from
+		return
 	}
 
 	mode := f.Modei(&cases)
diff --git a/densenumfeature.go b/densenumfeature.go
index 08cd42d..2213b7a 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -678,6 +678,10 @@ func (f *DenseNumFeature) ImputeMissing() {
 	mean := 0.0
 
 	mean = f.Mean(&cases)
+	if math.IsNaN(mean) {
+		//there are no values to impute from
+		return
+	}
 
 	for i, m := range f.Missing {
 		if m {
-- 
2.43.0


From 5f9876acf9eb0252516c6bbd012de0d434e9af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 55/86] fix: map stripped categories to their numbers

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 1ba0de8..f9eddc5 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From 31b0e876775031ca1f69d4adf8b251cbfc33d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 56/86] fix: keep features with two categories when one hot
 encoding

---
 densecatfeature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 3dc4d7c..a73588a 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -77,6 +77,9 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		//two categories don't need encoding
+		fs = []Feature{f.Copy()}
 	}
 	return
 }
-- 
2.43.0


From 4362f78068f25d26be83910476d9c3020864bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 57/86] fix: use the one hot encoded data

---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..db1f28c 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,7 +147,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From ec513f7fc5b18c27b5acd26cfb033095c533ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 58/86] fix: put every case in a fold

---
 utils/nfold/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index db1f28c..72b7ef9 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -189,7 +189,7 @@ func main() {
 		}
 		CloudForest.SampleFirstN(&cases, nil, len(cases), 0)
 		for j := 0; j < folds; j++ {
-			for k := j * foldsize; k < (j+1)*foldsize; k++ {
+			for k := j * ncases / folds; k < (j+1)*ncases/folds; k++ {
 				foldis[j] = append(foldis[j], cases[k])
 			}
 		}
@@ -205,9 +205,9 @@ func main() {
 			fmt.Printf("%v cases in class %v.\n", len(bSampler.Cases[i]), i)
 			//shuffle in place
 			CloudForest.SampleFirstN(&bSampler.Cases[i], &samples, len(bSampler.Cases[i]), 0)
-			stratFoldSize := len(bSampler.Cases[i]) / folds
+			nclass := len(bSampler.Cases[i])
 			for j := 0; j < folds; j++ {
-				for k := j * stratFoldSize; k < (j+1)*stratFoldSize; k++ {
+				for k := j * nclass / folds; k < (j+1)*nclass/folds; k++ {
 					foldis[j] = append(foldis[j], bSampler.Cases[i][k])
 
 				}
-- 
2.43.0


From 06fd8dacc64fc691e41213a15fdaba2f13cebb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 59/86] fix: write libsvm files for targets with more than two
 classes

---
 utils/nfold/main.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index 72b7ef9..625679f 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -215,19 +215,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
-
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
 	for i := 0; i < folds; i++ {
@@ -256,8 +243,12 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			if err := CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From ab0d45e109fe7a5e5992a549c4b8dc78d71a8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 60/86] fix: leave cases with a missing target out of the test
 report

---
 growforest/growforest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 8beca30..e648120 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -945,7 +945,11 @@ func main() {
 			correct := 0
 			nas := 0
 			length := testtarget.Length()
-			for i := 0; i < length; i++ {
+			for i := 0; i < testtarget.Length(); i++ {
+				if testtarget.IsMissing(i) {
+					length--
+					continue
+				}
 				truei := testtarget.(*CloudForest.DenseCatFeature).Geti(i)
 				truetotals[truei]++
 				pred := bb.Tally(i)
-- 
2.43.0


From a09bbdd9a54e9411f625759ce96ec1a3c9c48ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 61/86] fix: report predicted categories the test data doesn't
 have

---
 growforest/growforest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index e648120..0d88658 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -957,6 +957,13 @@ func main() {
 					nas++
 				} else {
 					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
+					if predi == len(predtotals) {
+						//a category that the test data doesn't have
+						falsesbypred = append(falsesbypred, 0)
+						predtotals = append(predtotals, 0)
+						truebytrue = append(truebytrue, 0)
+						truetotals = append(truetotals, 0)
+					}
 					predtotals[predi]++
 					if pred == testtarget.GetStr(i) {
 						correct++
-- 
2.43.0


From 089313eb335384848b4cba05a5990b74f77d4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 62/86] fix: don't report the error of forced voting of another
 type

---
 applyforest/applyforest.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..42bb17e 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -74,8 +74,13 @@ func main() {
 	targeti, hasTarget := data.Map[forest.Target]
 	if hasTarget {
 		fmt.Printf("Target is %v in feature %v\n", forest.Target, targeti)
-		er := bb.TallyError(data.Data[targeti])
-		fmt.Printf("Error: %v\n", er)
+		_, catTarget := data.Data[targeti].(CloudForest.CatFeature)
+		_, catVotes := bb.(*CloudForest.CatBallotBox)
+		//forced voting may not suit the target's type
+		if sum || catTarget == catVotes {
+			er := bb.TallyError(data.Data[targeti])
+			fmt.Printf("Error: %v\n", er)
+		}
 	}
 	if *predfn != "" {
 		fmt.Printf("Outputting label predicted actual tsv to %v\n", *predfn)
-- 
2.43.0


From 390489413fd4f34444e72832e63749b7318ad3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 63/86] fix: don't add the intercept to predicted categories

---
 applyforest/applyforest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 42bb17e..9d8e3ce 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -92,7 +92,8 @@ func main() {
 
 			result := ""
 
-			if sum || forest.Intercept != 0.0 {
+			_, catVotes := bb.(*CloudForest.CatBallotBox)
+			if sum || (forest.Intercept != 0.0 && !catVotes) {
 				numresult := 0.0
 				if sum {
 					numresult = bb.(*CloudForest.SumBallotBox).TallyNum(i) + forest.Intercept
-- 
2.43.0


From 0e8c1480cf84120ae1fe96d287d8aa5a17a44acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 64/86] fix: compute the variance about the mean

---
 stats/stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 240c39d..0456b97 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -12,11 +12,12 @@ import (
 func MeanAndVar(X *[]float64) (m, v, n float64) {
 	for _, x := range *X {
 		m += x
-		v += x * x
 	}
 	n = float64(len(*X))
 	m /= n
-	v -= n * m * m
+	for _, x := range *X {
+		v += (x - m) * (x - m)
+	}
 	v /= (n - 1.0)
 	return
 }
-- 
2.43.0


From f9359a878d77c8344488a07f925acde27d8ed8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 65/86] fix: don't test rounding errors of constant data

---
 stats/stats.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 0456b97..9f99c63 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -35,6 +35,10 @@ func Ttest(A, B *[]float64) (p, t, v, am float64) {
 	//Welch's t test
 	As := Av / An
 	Bs := Bv / Bn
+	if math.Sqrt(As+Bs) < 1e-14*math.Max(math.Abs(Am), math.Abs(Bm)) {
+		//the data is constant up to rounding
+		As, Bs = 0, 0
+	}
 	s := As + Bs
 	t = (Am - Bm) / math.Sqrt(s)
 
-- 
2.43.0


From b9bc1ee8747d70d128ae1f7727f07ef83f321938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 66/86] fix: keep the incomplete beta function accurate for
 many degrees of freedom

---
 stats/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stats/stats.go b/stats/stats.go
index 9f99c63..c230f4f 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -54,11 +54,11 @@ func Ttest(A, B *[]float64) (p, t, v, am float64) {
 	integral := 0.0
 
 	// Comment from rf-ace:
-	// When ttrans > 0.9, we need to recast the integration in order to retain
+	// When ttrans is large, we need to recast the integration in order to retain
 	// accuracy. In other words we make use of the following identity:
 	//
 	// I(x,a,b) = 1 - I(1-x,b,a)
-	if ttrans > 0.9 {
+	if ttrans > (v/2+1)/(v/2+2.5) {
 		// Calculate I(x,a,b) as 1 - I(1-x,b,a)
 		integral = 1 - regularizedIncompleteBeta(1-ttrans, 0.5, v/2)
 
-- 
2.43.0


From 6c8f601856714a716e00429c92e562daae6bde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 67/86] fix: don't keep the missing branch of an earlier jungle

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index 5697cd9..e776ef1 100644
--- a/tree.go
+++ b/tree.go
@@ -259,6 +259,8 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
+					//a branch left from an earlier use of this tree would keep missing cases
+					n.Missing = nil
 					if splitmissing {
 						if li != ri {
 							n.Missing = new(Node)
-- 
2.43.0


From 2bc4a93b4bc2921e66ec4f3a93a06715cd7317a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 68/86] fix: synchronize the splits collected by the threads of
 leafcount

---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..02d8ebe 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex //the map is shared by the threads
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -85,6 +87,8 @@ func main() {
 					if *soutf != "" {
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
+								splitsMutex.Lock()
+								defer splitsMutex.Unlock()
 								name := n.Splitter.Feature
 								_, ok := splits[name]
 								if !ok {
-- 
2.43.0


From d92e586e29d7c523750a5a18756cf4b3c8b5c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 69/86] fix: don't count a blacklisted target as a predictor
 taken away

---
 growforest/growforest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 0d88658..42f5e84 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -280,6 +280,11 @@ func main() {
 		log.Fatal("Target not found in data.")
 	}
 
+	if blacklistis[targeti] {
+		//the target is never a predictor so it mustn't be taken off their number twice
+		blacklisted--
+	}
+
 	if blockRE != "" {
 		re := regexp.MustCompile(blockRE)
 		for i, feature := range data.Data {
-- 
2.43.0


From 5f7fc090a3fafbb93b75b03aad36ee1ee451c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 70/86] fix: evaluate splits only on out of bag cases with a
 target

---
 growforest/growforest.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 42f5e84..ec2a3c5 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -615,6 +615,7 @@ func main() {
 				tree.Target = *targetname
 				cases := make([]int, 0, nNonMissing)
 				oobcases := make([]int, 0, nNonMissing)
+				evalcases := make([]int, 0, nNonMissing)
 
 				if nobag {
 					for i := 0; i < targetf.Length(); i++ {
@@ -668,18 +669,23 @@ func main() {
 							ibcases[v] = true
 						}
 						oobcases = oobcases[0:0]
+						evalcases = evalcases[0:0]
 						for i, v := range ibcases {
 							if !v {
 								oobcases = append(oobcases, i)
+								if !targetf.IsMissing(i) {
+									//splits can only be evaluated on cases with a target
+									evalcases = append(evalcases, i)
+								}
 							}
 						}
 					}
 
 					if jungle {
-						tree.GrowJungle(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.GrowJungle(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 
 					} else {
-						tree.Grow(data, target, cases, canidates, oobcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
+						tree.Grow(data, target, cases, canidates, evalcases, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, extra, imppnt, depthUsed, allocs)
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-- 
2.43.0


From 1ee58b3151288be0f66f0f5ba3a914905fcbb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 71/86] fix: export only the trees of the final forest for
 scikit-learn

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index ec2a3c5..9ec7e03 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -726,7 +726,7 @@ func main() {
 						forestwriter.WriteTree(tree, treesFinished)
 					}
 
-					if scikitforest != "" {
+					if scikitforest != "" && foresti == nForest-1 {
 						skt := CloudForest.NewScikitTree(nFeatures)
 						CloudForest.BuildScikitTree(0, tree.Root, skt)
 						scikikittrees = append(scikikittrees, *skt)
-- 
2.43.0


From b9ff4ad0524d171c4aa463c4b8687d0a98edca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 72/86] fix: count all features in trees exported for
 scikit-learn

---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 9ec7e03..12dc5e4 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -727,7 +727,7 @@ func main() {
 					}
 
 					if scikitforest != "" && foresti == nForest-1 {
-						skt := CloudForest.NewScikitTree(nFeatures)
+						skt := CloudForest.NewScikitTree(len(data.Data))
 						CloudForest.BuildScikitTree(0, tree.Root, skt)
 						scikikittrees = append(scikikittrees, *skt)
 					}
-- 
2.43.0


From 4a1e8b67f5a2e888fe92f3f8549dc00d656e3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 73/86] fix: value the split of the contrast on the out of bag
 cases by their impurity

---
 featurematrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index f9eddc5..d124850 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -235,12 +235,14 @@ func (fm *FeatureMatrix) BestSplitter(target Target,
 
 		if vet && inerImp > impurityDecrease {
 			casept := cases
+			vetParentImp := parentImp
 			if evaloob {
 				casept = oob
+				vetParentImp = target.Impurity(oob, allocs.Counter)
 			}
 
 			allocs.ContrastTarget.(Feature).ShuffleCases(casept, allocs)
-			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, parentImp, leafSize, extraRandom, allocs)
+			_, vetImp, _ = f.BestSplit(allocs.ContrastTarget, casept, vetParentImp, leafSize, extraRandom, allocs)
 			inerImp = inerImp - vetImp
 		}
 
-- 
2.43.0


From 8ef094cc6b7c1516aece52a43e986dda13b3522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 74/86] fix: size the split search buffers of growforest for
 the out of bag cases

---
 growforest/growforest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 12dc5e4..06ccc89 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -631,7 +631,12 @@ func main() {
 					depthUsed = &du
 				}
 
-				allocs := CloudForest.NewBestSplitAllocs(nSamples, targetf)
+				nAllocs := nSamples
+				if nAllocs < targetf.Length() {
+					//vetting searches the out of bag cases, of which there may be more
+					nAllocs = targetf.Length()
+				}
+				allocs := CloudForest.NewBestSplitAllocs(nAllocs, targetf)
 				for {
 					nCases := data.Data[0].Length()
 					//sample nCases case with replacement
-- 
2.43.0


From a8cb7863791064bacde15c49176e9c834873c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 75/86] fix: evaluate splits on out of bag cases in
 GrowRandomForest

---
 forrest.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/forrest.go b/forrest.go
index a74f3f6..57f30ea 100644
--- a/forrest.go
+++ b/forrest.go
@@ -51,7 +51,11 @@ func GrowRandomForest(fm *FeatureMatrix,
 	}
 
 	//Slices for reuse during search for best splitter.
-	allocs := NewBestSplitAllocs(nSamples, target)
+	nAllocs := nSamples
+	if nAllocs < fm.Data[0].Length() {
+		nAllocs = fm.Data[0].Length()
+	}
+	allocs := NewBestSplitAllocs(nAllocs, target)
 
 	//Cases with a known target.
 	known := make([]int, 0, fm.Data[0].Length())
@@ -67,9 +71,23 @@ func GrowRandomForest(fm *FeatureMatrix,
 			cases[j] = known[c]
 		}
 
+		//Splits are evaluated on the cases that weren't sampled.
+		var oob []int
+		if evaloob {
+			sampled := make([]bool, fm.Data[0].Length())
+			for _, c := range cases {
+				sampled[c] = true
+			}
+			for _, c := range known {
+				if !sampled[c] {
+					oob = append(oob, c)
+				}
+			}
+		}
+
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Target = target.GetName()
-		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
+		f.Trees[i].Grow(fm, target, cases, candidates, oob, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
 		switch target.(type) {
 		case BoostingTarget:
 			ls, ps := f.Trees[i].Partition(fm)
-- 
2.43.0


From 85729d69ae95d33b6ca156170dba5a16913d6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 76/86] fix: find constant features again for every node of a
 jungle

---
 tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index e776ef1..6f89fca 100644
--- a/tree.go
+++ b/tree.go
@@ -227,7 +227,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			start = node.start
 			end = node.end
 			innercases = cases[node.start:node.end]
-			nconstants = node.nconstants
+			//siblings reorder the candidates before a node's children are
+			//reached so which are constant has to be found again
+			nconstants = 0
 
 			if (depth < maxDepth || maxDepth <= 0) && (2*leafSize) <= len(innercases) {
 
-- 
2.43.0


From 44f9ad79ea2afdd59972485bdd1d289eaaa358a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 77/86] fix: give combined nodes of jungles the cases of both

---
 tree.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tree.go b/tree.go
index 6f89fca..5b78599 100644
--- a/tree.go
+++ b/tree.go
@@ -331,14 +331,18 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					nodes[combine].dead = true
 					nj := nodes[combine]
 					nodei.end = nj.end
-					parent := nj.parent
-					switch nj.n {
-					case parent.Left:
-						parent.Left = nodei.n
-					case parent.Right:
-						parent.Right = nodei.n
-					case parent.Missing:
-						parent.Missing = nodei.n
+					nodes[i] = nodei
+					//a node that was combined before has several parents
+					for k := firstThisLevel; k < lastThisLevel; k++ {
+						parent := nodes[k].n
+						switch nj.n {
+						case parent.Left:
+							parent.Left = nodei.n
+						case parent.Right:
+							parent.Right = nodei.n
+						case parent.Missing:
+							parent.Missing = nodei.n
+						}
 					}
 
 				}
-- 
2.43.0


From d26fe0cb4497b55734dc48d9215b1b29a7c7ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 78/86] fix: return write errors of arff and libsvm writers

---
 arff.go   | 14 ++++++++++----
 libsvm.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/arff.go b/arff.go
index 5c272d2..b0c7c6f 100644
--- a/arff.go
+++ b/arff.go
@@ -80,7 +80,9 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 	  @ATTRIBUTE sepallength  NUMERIC
 	  @ATTRIBUTE class        {Iris-setosa,Iris-versicolor,Iris-virginica}*/
 
-	fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	if _, err := fmt.Fprintf(outfile, "@RELATION %v\n\n", relation); err != nil {
+		return err
+	}
 
 	for _, f := range data.Data {
 		ftype := "NUMERIC"
@@ -89,10 +91,14 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		if _, err := fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype); err != nil {
+			return err
+		}
 	}
 
-	fmt.Fprint(outfile, "\n@DATA\n")
+	if _, err := fmt.Fprint(outfile, "\n@DATA\n"); err != nil {
+		return err
+	}
 
 	oucsv := csv.NewWriter(outfile)
 	oucsv.Comma = ','
@@ -116,5 +122,5 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
diff --git a/libsvm.go b/libsvm.go
index 244d440..e2aa61c 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -152,7 +152,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
 
 func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile io.Writer) error {
@@ -212,5 +212,5 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
-- 
2.43.0


From 7f10d336c5d296c2df8519ffa899246b511b6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 79/86] fix: end nfold with an error when a fold can't be
 written

---
 utils/nfold/main.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index 625679f..c0b7bda 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -231,14 +231,22 @@ func main() {
 
 		if writearff || writeall {
 			trainW, testW := openfiles(trainfn+".arff", testfn+".arff")
-			CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			if err := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if ((!writelibsvm) && (!writearff)) || writeall {
 			trainW, testW := openfiles(trainfn, testfn)
-			data.WriteCases(testW, foldis[i])
-			data.WriteCases(trainW, trainis)
+			if err := data.WriteCases(testW, foldis[i]); err != nil {
+				log.Fatal(err)
+			}
+			if err := data.WriteCases(trainW, trainis); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if writelibsvm || writeall {
-- 
2.43.0


From cec5fd8337eca0ba2a1ec6125d57e084a00d8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 80/86] fix: end growforest with an error when the forest can't
 be written

---
 forestwriter.go          | 23 +++++++++++++++++++++--
 growforest/growforest.go |  4 ++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 80b5fa0..9b1ee17 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -14,12 +14,31 @@ full format details.
 It won't include fields that are not use by CloudForest.
 */
 type ForestWriter struct {
-	w io.Writer
+	w *errWriter
 }
 
 /*NewForestWriter returns a pointer to a new ForestWriter. */
 func NewForestWriter(w io.Writer) *ForestWriter {
-	return &ForestWriter{w}
+	return &ForestWriter{&errWriter{Writer: w}}
+}
+
+//errWriter remembers the first error of the underlying writer and writes nothing after it.
+type errWriter struct {
+	io.Writer
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (n int, err error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, w.err = w.Writer.Write(p)
+	return n, w.err
+}
+
+//Err returns the first error that writing the forest met with, if any.
+func (fw *ForestWriter) Err() error {
+	return fw.w.err
 }
 
 //WriteForest writes an entire forest including all headers.
diff --git a/growforest/growforest.go b/growforest/growforest.go
index 06ccc89..e6364eb 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -856,6 +856,10 @@ func main() {
 		}
 	}
 
+	if forestwriter != nil && forestwriter.Err() != nil {
+		log.Fatal(forestwriter.Err())
+	}
+
 	trainingEnd := time.Now()
 	fmt.Printf("Total training time (seconds): %v\n", trainingEnd.Sub(trainingStart).Seconds())
 
-- 
2.43.0


From ff32a381ef8d9af5e98c8cdb108c84367d204349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 81/86] fix: end the commands with an error when their output
 can't be written

---
 applyforest/applyforest.go | 22 +++++++++++++++-------
 growforest/growforest.go   | 15 ++++++++++++---
 leafcount/leafcount.go     |  5 ++++-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 9d8e3ce..648d6e0 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"github.com/ryanbressler/CloudForest"
@@ -108,7 +109,10 @@ func main() {
 			} else {
 				result = bb.Tally(i)
 			}
-			fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			_, err := fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -121,25 +125,29 @@ func main() {
 			log.Fatal(err)
 		}
 		defer votefile.Close()
-		fmt.Fprintf(votefile, ".")
+		votes := bufio.NewWriter(votefile)
+		fmt.Fprintf(votes, ".")
 
 		for _, lable := range cbb.CatMap.Back {
-			fmt.Fprintf(votefile, "\t%v", lable)
+			fmt.Fprintf(votes, "\t%v", lable)
 		}
-		fmt.Fprintf(votefile, "\n")
+		fmt.Fprintf(votes, "\n")
 
 		for i, box := range cbb.Box {
-			fmt.Fprintf(votefile, "%v", data.CaseLabels[i])
+			fmt.Fprintf(votes, "%v", data.CaseLabels[i])
 
 			for j, _ := range cbb.CatMap.Back {
 				total := 0.0
 				total = box.Map[j]
 
-				fmt.Fprintf(votefile, "\t%v", total)
+				fmt.Fprintf(votes, "\t%v", total)
 
 			}
-			fmt.Fprintf(votefile, "\n")
+			fmt.Fprintf(votes, "\n")
 
 		}
+		if err := votes.Flush(); err != nil {
+			log.Fatal(err)
+		}
 	}
 }
diff --git a/growforest/growforest.go b/growforest/growforest.go
index e6364eb..319401f 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -886,7 +886,10 @@ func main() {
 		}
 		defer caseoobfile.Close()
 		for i := 0; i < unboostedTarget.Length(); i++ {
-			fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			_, err := fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			if err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -903,7 +906,10 @@ func main() {
 
 				p, _, _, m := stats.Ttest(&aceImps[i], &aceImps[i+firstace])
 
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				_, err := fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		} else {
@@ -911,7 +917,10 @@ func main() {
 			for i, v := range *imppnt {
 				mean, count := v.Read()
 				meanMinDepth, treeCount := (*mmdpnt)[i].Read()
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				_, err := fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				if err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		}
diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index 02d8ebe..608d510 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -146,6 +146,9 @@ func main() {
 		}
 		defer soutfile.Close()
 		encoder := json.NewEncoder(soutfile)
-		encoder.Encode(splits)
+		err = encoder.Encode(splits)
+		if err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From 76bce74b23f191bc0577949221ae4c427c91c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 82/86] fix: return errors of reading data from LoadAFM

---
 arff.go          | 12 +++++++++---
 featurematrix.go | 34 +++++++++++++++++++++++-----------
 libsvm.go        | 11 +++++++++--
 3 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/arff.go b/arff.go
index b0c7c6f..fa5f827 100644
--- a/arff.go
+++ b/arff.go
@@ -13,6 +13,12 @@ import (
 //http://www.cs.waikato.ac.nz/ml/weka/arff.html
 //The relation is ignored and only catagorical and numerical variables are supported
 func ParseARFF(input io.Reader) *FeatureMatrix {
+	fm, _ := parseARFF(input)
+	return fm
+}
+
+//parseARFF is ParseARFF but returns the error, if any, that ended it early.
+func parseARFF(input io.Reader) (*FeatureMatrix, error) {
 
 	reader := bufio.NewReader(input)
 
@@ -26,7 +32,7 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 		line, err := reader.ReadString('\n')
 		if err != nil {
 			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 		norm := strings.ToLower(line)
 
@@ -68,8 +74,8 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	csvdata.TrimLeadingSpace = true
 	//csvdata.Comma = ','
 
-	fm.LoadCases(csvdata, false)
-	return fm
+	err := fm.loadCases(csvdata, false)
+	return fm, err
 
 }
 
diff --git a/featurematrix.go b/featurematrix.go
index d124850..88934e8 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -321,6 +321,11 @@ func (fm *FeatureMatrix) ImputeMissing() {
 //features. It is a lower level method generally called after inital setup to parse
 //a fm, arff, csv etc.
 func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
+	fm.loadCases(data, rowlabels)
+}
+
+//loadCases is LoadCases but returns the error, if any, that ended it early.
+func (fm *FeatureMatrix) loadCases(data *csv.Reader, rowlabels bool) error {
 	count := 0
 	for {
 		record, err := data.Read()
@@ -328,7 +333,7 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return err
 		}
 
 		caselabel := fmt.Sprintf("%v", count)
@@ -344,6 +349,7 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 
 		count++
 	}
+	return nil
 
 }
 
@@ -352,6 +358,12 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 //N: indicating numerical, C: indicating categorical or B: indicating boolean
 //For this parser features without N: are assumed to be categorical
 func ParseAFM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseAFM(input)
+	return fm
+}
+
+//parseAFM is ParseAFM but returns the error, if any, that ended it early.
+func parseAFM(input io.Reader) (*FeatureMatrix, error) {
 	data := make([]Feature, 0, 100)
 	lookup := make(map[string]int, 0)
 	tsv := csv.NewReader(input)
@@ -359,10 +371,10 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	tsv.LazyQuotes = true
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, nil}
+		return &FeatureMatrix{data, lookup, nil}, nil
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, nil}
+		return &FeatureMatrix{data, lookup, nil}, err
 	}
 	headers = headers[1:]
 
@@ -393,8 +405,8 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			}
 
 			fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
-			fm.LoadCases(tsv, true)
-			return fm
+			err = fm.loadCases(tsv, true)
+			return fm, err
 		}
 	}
 
@@ -406,13 +418,13 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return &FeatureMatrix{data, lookup, headers}, err
 		}
 		data = append(data, ParseFeature(record))
 		lookup[record[0]] = count
 		count++
 	}
-	return &FeatureMatrix{data, lookup, headers}
+	return &FeatureMatrix{data, lookup, headers}, nil
 }
 
 //LoadAFM loads a, possible zipped, FeatureMatrix specified by filename
@@ -422,7 +434,7 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 	if err == nil {
 		rc, err := r.File[0].Open()
 		if err == nil {
-			fm = ParseAFM(rc)
+			fm, err = parseAFM(rc)
 			rc.Close()
 			return fm, err
 		}
@@ -435,11 +447,11 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 
 	switch {
 	case strings.HasSuffix(filename, ".arff"):
-		fm = ParseARFF(datafile)
+		fm, err = parseARFF(datafile)
 	case strings.HasSuffix(filename, ".libsvm"):
-		fm = ParseLibSVM(datafile)
+		fm, err = parseLibSVM(datafile)
 	default:
-		fm = ParseAFM(datafile)
+		fm, err = parseAFM(datafile)
 	}
 
 	datafile.Close()
diff --git a/libsvm.go b/libsvm.go
index e2aa61c..f1f7aa8 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -11,6 +11,12 @@ import (
 )
 
 func ParseLibSVM(input io.Reader) *FeatureMatrix {
+	fm, _ := parseLibSVM(input)
+	return fm
+}
+
+//parseLibSVM is ParseLibSVM but returns the error, if any, that ended it early.
+func parseLibSVM(input io.Reader) (*FeatureMatrix, error) {
 	reader := bufio.NewReader(input)
 
 	data := make([]Feature, 0, 100)
@@ -27,7 +33,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 			break
 		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
-			return nil
+			return nil, err
 		}
 
 		vals := strings.Fields(line)
@@ -73,6 +79,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 			xi, err := strconv.Atoi(parts[0])
 			if err != nil {
 				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
+				return nil, err
 			}
 			//pad out the data to include this feature
 			for xi >= len(data) {
@@ -97,7 +104,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 
 	fm := &FeatureMatrix{data, lookup, labels}
 
-	return fm
+	return fm, nil
 
 }
 
-- 
2.43.0


From 045ef8a108fb0bf62025fd749834dd3a496ea815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 83/86] fix: return errors in numbers of forest files

---
 forestreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forestreader.go b/forestreader.go
index ab4ec9a..f5c9e1c 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -100,6 +100,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 				intercept, err := strconv.ParseFloat(i, 64)
 				if err != nil {
 					log.Print("Error parsing forest intercept value ", err)
+					return tree, forest, err
 				}
 				forest.Intercept = intercept
 			}
@@ -113,6 +114,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 				weight, err := strconv.ParseFloat(weights, 64)
 				if err != nil {
 					log.Print("Error parsing weight value ", err)
+					return tree, forest, err
 				}
 				tree.Weight = weight
 			} else {
@@ -148,6 +150,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 					lvalue, err := strconv.ParseFloat(parsed["LVALUES"], 64)
 					if err != nil {
 						log.Print("Error parsing lvalues value ", err)
+						return tree, forest, err
 					}
 					splitter.Value = float64(lvalue)
 				}
-- 
2.43.0


From 4d96881e9923e175d62d1dd08430989289c95941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:58 +0000
Subject: [PATCH 84/86] fix: numeric impurity and splits of values far from
 zero

---
 densenumfeature.go  | 31 ++++++++++++++++++++++++++-----
 splitallocations.go |  2 ++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 2213b7a..e13ecd1 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -412,14 +412,17 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	sum := 0.0
 	sum_sqr := 0.0
 
+	//Values far from zero would lose their differences to rounding
+	allocs.Shift = math.Min(target.shift(l), target.shift(r))
+
 	//Left impurity
-	sum, sum_sqr = target.SumAndSumSquares(l)
+	sum, sum_sqr = target.sumsAbout(allocs.Shift, l)
 	impurityDecrease = nl * (sum_sqr - sum*sum/nl)
 	allocs.Lsum = sum
 	allocs.Lsum_sqr = sum_sqr
 
 	//Right Impurity
-	sum, sum_sqr = target.SumAndSumSquares(r)
+	sum, sum_sqr = target.sumsAbout(allocs.Shift, r)
 	impurityDecrease += nr * (sum_sqr - sum*sum/nr)
 	allocs.Rsum = sum
 	allocs.Rsum_sqr = sum_sqr
@@ -427,7 +430,7 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	//Missing Impurity
 	if m != nil && len(*m) > 0 {
 		nm = float64(len(*m))
-		sum, sum_sqr = target.SumAndSumSquares(m)
+		sum, sum_sqr = target.sumsAbout(allocs.Shift, m)
 		impurityDecrease += nm * (sum_sqr - sum*sum/nm)
 		allocs.Msum = sum
 		allocs.Msum_sqr = sum_sqr
@@ -446,7 +449,7 @@ func (target *DenseNumFeature) UpdateSImpFromAllocs(l *[]int, r *[]int, m *[]int
 	//= sum(xi^2) - sum(xi)^2/n
 	//it moves the sum and sum_sqr R to L in th allocs and recalculates impurities
 
-	MVsum, MVsum_sqr := target.SumAndSumSquares(movedRtoL)
+	MVsum, MVsum_sqr := target.sumsAbout(allocs.Shift, movedRtoL)
 
 	allocs.Lsum += MVsum
 	allocs.Rsum -= MVsum
@@ -483,6 +486,24 @@ func (target *DenseNumFeature) SumAndSumSquares(cases *[]int) (sum float64, sum_
 	return
 }
 
+//shift returns a value of the cases, relative to which sums of squares keep their precision.
+func (target *DenseNumFeature) shift(cases *[]int) float64 {
+	if len(*cases) == 0 {
+		return 0.0
+	}
+	return target.NumData[(*cases)[0]]
+}
+
+//sumsAbout is SumAndSumSquares of the differences from shift.
+func (target *DenseNumFeature) sumsAbout(shift float64, cases *[]int) (sum float64, sum_sqr float64) {
+	for _, i := range *cases {
+		x := target.NumData[i] - shift
+		sum += x
+		sum_sqr += x * x
+	}
+	return
+}
+
 //Impurity returns Gini impurity or mean squared error vs the mean for a set of cases
 //depending on weather the feature is categorical or numerical
 func (target *DenseNumFeature) Impurity(cases *[]int, counter *[]int) (e float64) {
@@ -494,7 +515,7 @@ func (target *DenseNumFeature) Impurity(cases *[]int, counter *[]int) (e float64
 	// m := target.Mean(cases)
 	// e = target.Error(cases, m)
 
-	sum, sum_sqr := target.SumAndSumSquares(cases)
+	sum, sum_sqr := target.sumsAbout(target.shift(cases), cases)
 	e = sum_sqr - sum*sum/float64(len(*cases))
 
 	return
diff --git a/splitallocations.go b/splitallocations.go
index 337567b..534da89 100644
--- a/splitallocations.go
+++ b/splitallocations.go
@@ -25,6 +25,7 @@ type BestSplitAllocs struct {
 	Lsum_sqr       float64 //left value for sumarizing splits
 	Rsum_sqr       float64 //right value for sumarizing  splits
 	Msum_sqr       float64 //missing value for sumarizing splits
+	Shift          float64 //value the sums for sumarizing splits are relative to
 	CatVals        []int
 	SortVals       []float64
 	Sorter         *SortableFeature //for learning from numerical features
@@ -62,6 +63,7 @@ func NewBestSplitAllocs(nTotalCases int, target Target) (bsa *BestSplitAllocs) {
 		0.0,
 		0.0,
 		0.0,
+		0.0,
 		make([]int, nTotalCases, nTotalCases),
 		make([]float64, nTotalCases, nTotalCases),
 		&SortableFeature{make([]float64, nTotalCases, nTotalCases),
-- 
2.43.0


From 4dcbede77ba5ed9878eabee13dab95b15339edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:47 +0000
Subject: [PATCH 85/86] fix: ties between splits do not depend on the sign of
 the target

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index e13ecd1..476b7c5 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -413,7 +413,7 @@ func (target *DenseNumFeature) SplitImpurity(l *[]int, r *[]int, m *[]int, alloc
 	sum_sqr := 0.0
 
 	//Values far from zero would lose their differences to rounding
-	allocs.Shift = math.Min(target.shift(l), target.shift(r))
+	allocs.Shift = target.shift(l)/2 + target.shift(r)/2
 
 	//Left impurity
 	sum, sum_sqr = target.sumsAbout(allocs.Shift, l)
-- 
2.43.0


From b06101321c1d158fc0b45aebb654af61b43e1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:57 +0000
Subject: [PATCH 86/86] fix: applyforest votes by the type of the target in the
 data

---
 applyforest/applyforest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 648d6e0..bc0f979 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -56,12 +56,18 @@ func main() {
 		defer predfile.Close()
 	}
 
+	//the data tells the type of the target if it has it, otherwise the prefix of its name does
+	numTarget := strings.HasPrefix(forest.Target, "N:")
+	if targeti, ok := data.Map[forest.Target]; ok {
+		_, numTarget = data.Data[targeti].(CloudForest.NumFeature)
+	}
+
 	var bb CloudForest.VoteTallyer
 	switch {
 	case sum:
 		bb = CloudForest.NewSumBallotBox(data.Data[0].Length())
 
-	case !cat && (num || strings.HasPrefix(forest.Target, "N")):
+	case !cat && (num || numTarget):
 		bb = CloudForest.NewNumBallotBox(data.Data[0].Length())
 
 	default:
-- 
2.43.0

