import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)

p("C01","A split partitions its cases and every router agrees on the side",
 "Splitting a set of cases on a feature sends every case to exactly one of left, right or missing: a case goes to missing exactly when its value is missing, a numeric case goes left exactly when its value is at most the threshold, a categorical case goes left exactly when its category is in the split's left set. All ways of applying a split (splitting an array of cases in place, building the decoded splitter and splitting or routing single cases with it) agree for every case, and an in-place split only permutes the case list into left, then missing, then right.",
 ["inputs"],"every feature column (numeric with ties, extremes and missing values; categorical with up to and beyond the small/large category code paths), every split code, every case list incl. repeated cases",
 "Tests exercise a handful of fixed columns; agreement between five routers over missing values, ties, sub-lists and both category encodings is a for-all-inputs statement.",
 ["densenumfeature.go","densecatfeature.go","splitter.go","featureinterfaces.go"],
 [("in-place three way partition","densenumfeature.go SplitPoints/Split; densecatfeature.go SplitPoints/Split"),("decoded splitter","splitter.go Split/GoesLeft-style routing; DecodeSplit")],
 obs=["Feature.Split","Feature.SplitPoints","Feature.DecodeSplit","Splitter.Split","Feature.GoesLeft"])

p("C02","Numeric best split is the optimum over all admissible thresholds",
 "For a numeric feature without random splitting, the best split found over a set of cases has the largest impurity decrease of any threshold that leaves at least the minimum leaf size of cases on both sides, the reported decrease is the decrease that split really achieves when applied to those cases, and no split is reported only when no admissible threshold has a positive decrease. A feature that is constant on the cases is flagged constant and a feature that is not is never flagged constant.",
 ["inputs","configurations"],"every small column (values, ties, missing), every target column, target type, leaf size, case sub-list, and use of reusable scratch space",
 "Tests only check a few hand made columns; optimality is a comparison against every alternative threshold and depends on sorting, ties, missing counts and scratch memory left over from earlier calls.",
 ["densenumfeature.go","splitallocations.go","sortablefeature.go"],
 [("threshold scan","densenumfeature.go BestSplit/BestNumSplit"),("incremental move of cases","target UpdateSImpFromAllocs")],
 obs=["Feature.BestSplit","FeatureMatrix.BestSplitter"])

p("C03","Categorical best split is valid, honest and optimal where exhaustive",
 "A split found for a categorical feature respects the minimum leaf size on both sides of the cases it is applied to, and the decrease reported is the decrease it really achieves. When the feature has few enough categories that all subsets are searched (up to 5, or up to 10 when random search is on), no subset of categories that respects the minimum leaf size does better, and no split is reported only when there is no admissible subset with a positive decrease. Beyond that, the greedy search returns a subset that no single category and no extension by one category beats, and the random search returns a valid and honestly reported split or none.",
 ["inputs","configurations"],"every small categorical column with 2 to 5 categories against every target column, leaf size and case sub-list; representative columns of more than 5, 10, 12 and 30 categories, with every answer of the random source",
 "Tests run one or two columns per code path and do not compare with the other subsets.",
 ["densecatfeature.go"],
 [("exhaustive subset scan","densecatfeature.go BestCatSplit"),("iterative/greedy/big variants","densecatfeature.go BestCatSplitIter, BestCatSplitIterBig, BestCatSplitBig, BestBinSplit")],
 obs=["Feature.BestSplit"])

p("C04","Incremental split evaluation equals evaluation from scratch",
 "For every target type, moving cases one batch at a time from the right side to the left side of a candidate split and asking for the running decrease in impurity gives the same number as computing the decrease from scratch for the resulting left, right and missing sets, and impurity computed from previously tallied counts equals impurity computed from the cases.",
 ["inputs","histories"],"every target type with every small response column and every sequence of moves, with reused scratch space, with and without missing cases",
 "Tests check a handful of sequences for a few targets and do not touch most target types.",
 ["featureinterfaces.go","densenumfeature.go","densecatfeature.go","l1target.go","regrettarget.go","wrftarget.go","entropytarget.go","dentropytarget.go","hdistancetarget.go","NPtarget.go","ordinaltarget.go","adaboosttarget.go","adacosttarget.go","numadaboostingtarget.go","gradboosttarget.go","gradboostclasstarget.go"],
 [("incremental update","UpdateSImpFromAllocs / UpdateImpFromAllocs / MoveCountsRtoL of each target"),("from scratch","SplitImpurity/Impurity of each target")],
 obs=["Target.SplitImpurity","Target.UpdateSImpFromAllocs"])

p("C05","Impurity and leaf predictions follow their definitions",
 "For every target type the impurity of a set of cases is the documented quantity (gini, sum of squared error about the mean, absolute error, entropy, cost, regret, weighted and boosted variants) and the value predicted at a leaf is the documented one (mean, median, weighted or most frequent class), as computed by a direct textbook implementation; impurity is zero on pure case sets and never negative.",
 ["inputs"],"every small response column and case list for every target type, with the weights/costs tables",
 "Tests check single values; nothing compares with the definition over all inputs.",
 ["densenumfeature.go","densecatfeature.go","l1target.go","regrettarget.go","wrftarget.go","entropytarget.go","hdistancetarget.go","NPtarget.go","ordinaltarget.go"],
 [("Impurity","each target's Impurity"),("FindPredicted","each target's FindPredicted")],
 obs=["Target.Impurity","Target.FindPredicted"])

p("C06","Candidate search tries the features it should and keeps its bookkeeping",
 "For every sequence of random draws, searching for the best splitter draws candidates without replacement until as many as asked for have been drawn (features known to be constant count as draws but are not evaluated) or the candidates run out, evaluates each of them once, and returns the one with the largest decrease among those evaluated, or none if none has a positive decrease; vetting subtracts the decrease found on a shuffled target and evaluating on out-of-bag cases replaces it by the decrease there. Features found constant are remembered for the descendants of the node and no candidate is ever lost or duplicated in the candidate list, whatever the number of features requested.",
 ["inputs","histories","configurations"],"every sequence of answers of the random source, every number of candidates and of requested features, with constant and informative features mixed, over nested calls",
 "Tests use one random sequence; the guarantee is over all of them and over all mixes of constant features.",
 ["featurematrix.go","tree.go"],
 [("partial Fisher-Yates over candidates with a constants suffix","featurematrix.go BestSplitter")],
 obs=["FeatureMatrix.BestSplitter"])

p("C07","Grown trees are well formed and respect their settings",
 "Whatever the random source answers, a grown tree only splits on candidate features, no node with a split violates the minimum leaf size or the maximum depth, every child is non empty (a branch for missing values exists exactly when it is asked for and training cases are missing there), every leaf predicts what the target's cases that reach it imply, and leaves are only left unsplit when the settings or the data demand it. Growing a tree again into an already used tree gives exactly the tree that growing into a fresh one gives.",
 ["inputs","histories","configurations"],"every small training set, leaf size, depth limit, missing-value mode, random answer, and every order of reuse of one tree object",
 "Tests grow a few forests and look at accuracy only.",
 ["tree.go","forrest.go","node.go"],
 [("recursive growth","tree.go Grow"),("node reuse","node.go CodedRecurse")],
 obs=["Tree.Grow","GrowRandomForest"])

p("C08","Each tree casts exactly one vote per case, at the leaf the case routes to",
 "For every tree and data set, voting gives each case exactly one vote per tree, with the prediction (and the tree's weight) of the leaf reached by following the splitters from the root, with missing values following the missing branch where there is one; a case whose value is missing at a node without such a branch gets no vote. Voting over all cases, voting over selected cases, listing the leaves and partitioning the cases agree with each other, and with the same tree after stripping its codes.",
 ["inputs"],"every small tree shape (with and without missing branches, numeric and categorical splitters) against every case",
 "Tests check one or two trees' votes in total.",
 ["tree.go","node.go","splitter.go","voter.go"],
 [("case propagation","node.go Recurse/CodedRecurse; tree.go Vote/VoteCases/GetLeaves/Partition")],
 obs=["Tree.Vote","Tree.VoteCases","Tree.GetLeaves","Tree.Partition"])

p("C09","A forest written to .sf reads back as the same forest",
 "Writing a forest or trees and reading the file back yields trees with the same structure, splitters, leaf predictions, weights and target, and the same forest target, intercept and order of trees; hence identical predictions on any data. This holds for missing-value branches, names and categories with unusual characters that the format can represent, extreme numbers, several forests in one file and a file lacking a final newline.",
 ["inputs"],"every small tree shape x splitter kind x annotation, every small set of awkward names and numbers",
 "Tests read a fixed snippet and write a fixed tree.",
 ["forestwriter.go","forestreader.go","node.go","tree.go"],
 [("writer","forestwriter.go WriteTree/WriteNodeAndChildren"),("reader","forestreader.go ReadForest/ReadTree/ParseRfAcePredictorLine")],
 obs=["ForestWriter.WriteForest","ForestReader.ReadForest"])

p("C10","Annotated feature matrices are read exactly, and written losslessly",
 "Reading an annotated feature matrix yields exactly the names, types, values and missing marks the file states, in either orientation (features in rows or in columns), with the type taken from the two-letter prefix, all missing tokens (?, nan, na, null in any case, empty for numbers) recognized, and the name index consistent. Writing selected cases and reading them back yields those cases unchanged.",
 ["inputs"],"every small matrix over an alphabet of names, values and missing tokens in both orientations, every subset of cases written",
 "Tests parse three fixed literals.",
 ["featurematrix.go","densenumfeature.go","densecatfeature.go"],
 [("parser","featurematrix.go ParseAFM/ParseFeature/LoadCases"),("writer","featurematrix.go WriteCases")],
 obs=["ParseAFM","FeatureMatrix.WriteCases"])

p("C11","ARFF and libsvm data are read exactly and libsvm round-trips",
 "Reading an ARFF or libsvm file yields the columns, types, values, missing marks and names it states (absent libsvm entries are zero, comments and case of keywords in ARFF do not matter), equal to the same table read from an annotated feature matrix. Writing selected cases as ARFF and reading them back yields those cases unchanged; writing them as libsvm and reading them back yields the same values, with categorical features one-hot encoded, missing values replaced by the column's mean or mode (a missing response stays missing), without changing the data in memory.",
 ["inputs"],"every small table rendered in each format, every subset of cases written, with and without a final newline",
 "Tests parse one fixed literal per format.",
 ["arff.go","libsvm.go","featurematrix.go"],
 [("ARFF","arff.go ParseARFF"),("libsvm","libsvm.go ParseLibSVM/WriteLibSvm/WriteLibSvmCases")],
 obs=["ParseARFF","ParseLibSVM","WriteLibSvmCases"])

p("C12","Vote tallies are the documented aggregate of the votes",
 "After any sequence of votes, a categorical ballot box reports for each case the category with the most vote weight (ties broken the same way whatever the order in which the votes arrived), a numeric one the weighted mean and a summing one the sum, nothing for a case without votes (zero for a sum); and the reported errors are those of the tallies against the target over the cases that have a true value: the share of wrong cases averaged over the classes present, a case without votes being wrong, or the mean squared error relative to that of the mean over the cases with votes. Reading a tally never changes it.",
 ["histories","inputs"],"every sequence of up to a bounded number of votes over a small alphabet of categories, values, weights and cases, interleaved with tallies",
 "Tests cast a few votes; order independence and ties are not covered.",
 ["catballotbox.go","numballotbox.go","sumballotbox.go","voter.go","utils.go"],
 [("categorical box","catballotbox.go"),("numeric box","numballotbox.go"),("sum box","sumballotbox.go")],
 obs=["VoteTallyer.Vote","VoteTallyer.Tally","VoteTallyer.TallyError"])

p("C13","Ballot boxes and importance accumulators lose nothing under concurrency",
 "Under every interleaving of concurrent votes (same or different cases, known or new categories), tallies, running mean updates and sparse counter updates, the outcome equals that of some sequential order of the same operations: no vote is lost, duplicated or counted for another category, no update is lost and no operation blocks forever.",
 ["schedules"],"all interleavings of 2 to 3 threads with 1 to 2 operations each at statement granularity up to a preemption bound",
 "Tests vote from a single goroutine.",
 ["catballotbox.go","catmap.go","numballotbox.go","sumballotbox.go","utils.go"],
 [("per case and per box locks","catballotbox.go, numballotbox.go, sumballotbox.go"),("locked accumulators","utils.go RunningMean, SparseCounter")],
 obs=["VoteTallyer.Vote","RunningMean.Add","SparseCounter.Add"])

p("C14","Parallel growing is equivalent to serial growing under every schedule",
 "For every number of worker threads and every schedule, growforest terminates, grows and writes exactly the requested number of distinct trees, numbered in the order of the file, records each tree's out-of-bag votes exactly once and only for cases outside its own sample, and the out-of-bag predictions, error and importance it reports are those implied by the trees it wrote (boosting, whose rounds depend on each other, is left to one thread unless -multiboost is given; then each tree is grown and written once and growing ends).",
 ["schedules","configurations"],"all schedules of 1 to 3 workers up to a preemption bound on small forests, across the options that change the growing loop",
 "Tests never run growforest's main loop.",
 ["growforest/growforest.go","utils.go","catballotbox.go"],
 [("grow loop","growforest/growforest.go grow closure, treechan, boostMutex")],
 obs=["growforest command","oob/pred/importance outputs"])

p("C15","Boosting reweights and sums as documented",
 "In adaptive boosting the case weights stay a probability distribution, weights of wrongly predicted cases rise relative to rightly predicted ones as the scheme prescribes (wrong as judged by the partition's own mode or mean), cases with a missing target take no part, and a tree's weight is the scheme's function of its weighted error, a tree without errors having infinite weight and ending the boosting; in gradient boosting the original response always equals the initial prediction plus the learning rate times the sum of the trees' predictions plus the current residual, and the stored forest (intercept and trees) reproduces that prediction. Boosting takes effect in the library's forest growing and in growforest wherever it is requested.",
 ["histories","inputs"],"every small response column, every sequence of partitions and leaf predictions over several rounds, all boosting targets",
 "Tests run one boosted forest and look at its accuracy.",
 ["adaboosttarget.go","adacosttarget.go","numadaboostingtarget.go","gradboosttarget.go","gradboostclasstarget.go","forrest.go","growforest/growforest.go"],
 [("boost steps","Boost of each boosting target"),("loop","forrest.go GrowRandomForest; growforest/growforest.go")],
 obs=["BoostingTarget.Boost","GrowRandomForest"])

p("C16","Samplers and shuffles draw from the distribution they document",
 "Over all answers of the random source, taking the first n of a shuffle draws every subset equally often, sampling with replacement draws every sequence equally often, shuffling a feature draws every permutation of its entries (values and missing marks together) equally often, and balanced sampling draws every class equally often and cases within it equally often; two-way balancing draws the second feature's values in proportion to their number and every class within them equally often; no sampler returns a case it should not, such as one whose target is missing; and the library's forest growing draws as many cases per tree as it was asked for; and growforest -permute and -shuffleRE do this to the target and to the matching features other than the target, and to nothing else, before any tree is grown.",
 ["inputs","histories"],"every sequence of answers of the random source for every small population, with missing values and empty classes",
 "Tests run one random sequence and check lengths or rough balance.",
 ["sampeling.go","utils.go","densenumfeature.go","densecatfeature.go"],
 [("samplers","sampeling.go, utils.go SampleFirstN/SampleWithReplacment"),("shuffle","Shuffle/ShuffleCases of features")],
 obs=["Bagger.Sample","SampleFirstN","Feature.Shuffle"])

p("C17","A feature column behaves as a plain list of optional values",
 "After any sequence of appends, puts (as number or string, valid or missing tokens), missing marks, imputation, copies and reads, a numeric or categorical column returns at each position exactly the value last stored there or missing, its length, missing flag and category counts are consistent with that, and numbers and categories keep their one-to-one correspondence.",
 ["histories"],"every operation sequence up to a bounded depth on both column types",
 "Tests apply a few fixed sequences.",
 ["densenumfeature.go","densecatfeature.go","catmap.go"],
 [("column store","densenumfeature.go, densecatfeature.go Append/PutStr/PutMissing/ImputeMissing"),("category map","catmap.go")],
 obs=["Feature.Append","Feature.PutStr","Feature.GetStr","Feature.IsMissing"])

p("C18","Derived data is correct and independent of its source",
 "Copies, shuffled copies, artificial contrasts, numeric and one-hot encodings, imputed and feature-type targets made from a feature hold the documented values (same multiset, same missing marks, same case alignment; a feature of at most two categories encodes to a single column) and afterwards changing either side never changes the other, except for columns that an encoding of a whole matrix passes through unchanged; making them never changes the source. Imputation replaces exactly the missing values, by the mean (numeric) or most frequent category (categorical) of the non-missing ones, and leaves a column without values missing.",
 ["histories","inputs"],"every small column, every derivation followed by every mutation of either side",
 "Tests check only that contrasts were added or that one fixed encoding has certain values.",
 ["densenumfeature.go","densecatfeature.go","featurematrix.go","catmap.go"],
 [("copy","Copy/CopyInTo/ShuffledCopy"),("encodings","EncodeToNum, OneHot, AddContrasts, ContrastAll, ImputeMissing")],
 obs=["Feature.Copy","FeatureMatrix.AddContrasts","FeatureMatrix.EncodeToNum"])

p("C19","nfold produces a true cross-validation partition",
 "For every random answer, every case appears in exactly one fold's test set and each fold's training set is exactly the rest; fold sizes differ by at most one, overall or, when stratified on a categorical target, per class (cases whose class is missing are then left out); every assignment is equally likely; and the files written in every supported format contain exactly those cases with unchanged values, apart from the features left out and the imputation and encodings asked for. Unstratified folds handle cases with missing target as others.",
 ["inputs","configurations"],"every small matrix x number of folds x options x answers of the random source",
 "There is no test of nfold.",
 ["utils/nfold/main.go","sampeling.go","featurematrix.go","libsvm.go"],
 [("fold assignment","utils/nfold/main.go"),("case writing","featurematrix.go WriteCases; libsvm.go")],
 obs=["nfold command"])

p("C20","Applying a saved forest reproduces its reference evaluation",
 "For every forest file and data set, applyforest writes one prediction per case, in order, equal to evaluating every tree on the case by hand and aggregating (majority vote, mean, sum plus intercept), for both orientations of data (and ARFF), several forests and missing values, voting or averaging as the target in the data asks for; its reported error is that of the predictions it writes, and the pipeline growforest, save, applyforest gives the trees, predictions, error and per class counts of the in-memory forest that growforest itself tests (on training or separate data, whose features may come in another order and hold new categories or missing targets).",
 ["inputs","configurations"],"every small forest x data set x option",
 "There is no test of applyforest.",
 ["applyforest/applyforest.go","forestreader.go","catballotbox.go","numballotbox.go","sumballotbox.go","growforest/growforest.go"],
 [("apply loop","applyforest/applyforest.go")],
 obs=["applyforest command"])

p("C21","Sorting by another slice orders it and keeps pairs together",
 "After sorting cases by values, the values are in ascending order, each case is still paired with its own value and the cases are a permutation of the input; sorting features by importance likewise, for any input including ties, presorted, adversarial and large inputs.",
 ["inputs"],"every weak ordering up to a bounded length, plus structured families and quicksort killer inputs at all code path thresholds",
 "Tests sort one random slice; the heap sort fallback and the insertion sort and ninther thresholds are not covered.",
 ["sortby/sortby.go","sortablefeature.go"],
 [("introsort","sortby/sortby.go SortBy")],
 obs=["sortby.SortBy","SortableFeature"])

p("C22","The Welch test returns correct p-values",
 "For two samples summarised by mean, variance and count, the one sided p-value lies in [0,1], equals that of a textbook Welch t-test to numerical accuracy, falls as the difference of means grows and sums to one with the p-value of the swapped samples; degenerate inputs (no variance, a single observation) do not yield a spuriously significant result.",
 ["inputs"],"a grid of means, variances and counts",
 "Tests check one or two p-values.",
 ["stats/stats.go"],
 [("incomplete beta","stats/stats.go")],
 obs=["stats.Ttest"])

p("C23","Importance reports the accepted decreases, exactly",
 "After growing, each feature's importance mean, count, number of trees used and mean minimal depth are those computed by walking the grown trees and recomputing the decrease of every split; features never used report zero use; unused trees and features do not contribute.",
 ["inputs","histories"],"every small training set and every answer of the random source, incl. splits at the root",
 "Tests only check that the counts are non zero for one forest.",
 ["tree.go","utils.go","forrest.go","growforest/growforest.go"],
 [("importance recording","tree.go Grow; utils.go RunningMean"),("depth","tree.go Grow depthUsed; growforest")],
 obs=["growforest -importance","Tree.Grow"])

p("C24","leafcount reports exact co-occurrence and splitter use",
 "For every set of forest files, data set and number of threads, leafcount reports for each pair of cases the number of trees (of all the files) in which both reach the same leaf, for each case and feature the number of nodes that split on the feature and that the case reaches, and for each feature its splits, each as often as it occurs in the trees; no count is lost or invented under any schedule of its threads.",
 ["schedules","inputs"],"all schedules of 1 to 3 threads up to a number of delays over small forests, all small forests and matrices with one",
 "There is no test of leafcount.",
 ["leafcount/leafcount.go","utils.go","tree.go"],
 [("counting","leafcount/leafcount.go; utils.go SparseCounter")],
 obs=["leafcount command"])

p("C25","Excluded features are never used and included ones are available",
 "In every tree that growforest grows, the target, the features that the blacklist names or the block expression matches, and those that the include expression does not match are neither candidates for a split nor split on, while every other feature remains a candidate in its original form (shuffled only where asked) and -mTry counts just those. ACE adds a copy of each of them, shuffled anew for every forest, and with a cutoff the forest it writes uses only features that are not copies and whose importance is significantly greater than their copies'.",
 ["inputs","configurations"],"two matrices x every blacklist x block and include expressions x the other options of growforest x random streams",
 "There is no test of growforest options.",
 ["growforest/growforest.go","tree.go"],
 [("candidate selection","growforest/growforest.go")],
 obs=["growforest command"])

p("C26","Cases with a missing target never influence training",
 "When growforest or GrowRandomForest trains on data in which the target of some cases is missing, these cases are in no training sample, in no set of out-of-bag cases that splits are evaluated on, and in no error; whatever values they have in the other features, the forest, the importance scores and the errors that are written are those of training on the data without these cases. This holds for classification and regression, every kind of bagging, target and splitting option. Excepted are options that by design look at all cases of a feature: imputing, shuffled contrasts (also -ace) and transduction.",
 ["inputs","configurations"],"every small matrix with missing target values x sampling options x answers of the random source",
 "No test has a missing target value in training.",
 ["growforest/growforest.go","forrest.go","sampeling.go"],
 [("non missing case list","growforest/growforest.go nonmissingcases; forrest.go")],
 obs=["growforest command","GrowRandomForest"])

p("C27","Format conversions preserve the data",
 "toafm turns AFM (features in rows or columns), ARFF and libsvm data into an annotated feature matrix that holds exactly the values, missing marks and case labels of the source, under the same names with N: or C: put before those without a prefix; -blacklist leaves out the listed features only (never the target); -anontarget puts the target first, and replaces labels, names and categories by codes that keep the same cases and categories distinguishable, leaving no original string; -libsvmtarget writes the encoding of C11, and an unknown target is an error. A tree of numeric splits exported in scikit-learn's layout (BuildScikitTree, growforest -scikitforest) has the same nodes in preorder, consistent child indexes, counts and depth, splits on the same features and thresholds (every feature index below n_features), so it routes every case to the same leaf; the exported file holds exactly the trees of the saved forest.",
 ["inputs"],"every small table and tree",
 "No test covers toafm or the scikit-learn export.",
 ["sklearn_tree.go","utils/toafm/main.go","featurematrix.go","growforest/growforest.go"],
 [("scikit export","sklearn_tree.go BuildScikitTree"),("converter","utils/toafm/main.go"),("codes","featurematrix.go StripStrings")],
 obs=["toafm command","BuildScikitTree","growforest -scikitforest"])
p("C28","growforest does what its options say, in every combination of them",
 "Whatever options of growforest are combined, the trees it grows are grown with the settings asked for and no others: counts are whole numbers and parts (with a point) are of the features that may be split on or of the cases with a target, rounded up; amounts not given are the documented ones (square root of the features, all cases, one case on a leaf for classes, four for numbers); each choice of target, its costs, positive or unlabeled class and its parameters (and their documented defaults) is the one that is minimised; out of bag cases, missing branches, depth, imputation and bagging are as asked for, and the random source is seeded anew unless that is turned off (-noseed). The forest, out of bag predictions, importance, progress and errors it writes are those of these trees, output that is not asked for is not written, and what can't be done (no such data, target or place, costs that can't be read) ends with an error.",
 ["configurations","inputs"],"every combination of up to three options out of 24 with 60 values x 4 data sets x streams of random answers",
 "There is no test of growforest options.",
 ["growforest/growforest.go","utils.go","tree.go"],
 [("options","growforest/growforest.go"),("amounts","utils.go ParseAsIntOrFractionOfTotal")],
 obs=["growforest command"])

p("C29","What is grown does not depend on names, units, or how the data are written",
 "Growing from data that only differ in a way that carries no information gives the corresponding forest, predictions, importance and errors for the same random answers: other names of features, cases, categories and classes (in the same order), features in rows or columns, other spellings of the same numbers and missing values; a numeric feature on another scale (any strictly increasing one for the training cases themselves) has the same splits with thresholds on that scale; a numeric target in another unit (scaled by a power of two) has predictions in that unit; costs that are all multiplied by the same power of two, cases in another order (without bagging, categories still appearing in the same order) and every case given twice (without bagging, leaves twice as large) change nothing.",
 ["inputs","configurations"],"every matrix of 6 cases with 3 free values of a feature x 2 columns of categories x 6 targets x 21 settings x 14 changes",
 "No test compares runs on equivalent data.",
 ["growforest/growforest.go","tree.go","densenumfeature.go","densecatfeature.go","featurematrix.go"],
 [("growing","tree.go Grow; densenumfeature.go BestNumSplit; densecatfeature.go"),("reading","featurematrix.go LoadAFM")],
 obs=["growforest command"])
p("C30","Input and output that fails, ends early or is malformed is noticed",
 "A read or write that fails, at whatever point and whether once or from then on, makes a command exit unsuccessfully and a reader or writer of the library return an error (or log.Fatal), unless its outputs are complete all the same: no run succeeds with an output that is cut short, and none silently uses part of an input. What is read from data and forest files does not depend on the sizes of the pieces in which it arrives, on how the end of file is announced or on the length of the lines. From a forest file that ends early every tree that was complete is read as from the whole file, and no more trees than it had. Lines of data with too many or too few fields, numbers of a forest or libSVM file that are none, missing files and damaged archives are refused.",
 ["inputs","configurations","fault_sequences","crash_points"],"every read and write of 20 calls of the commands fails in turn; every cut and torn end of small files; every position a destination can fail at",
 "No test has a reader or writer that fails, delivers its data in pieces or ends early.",
 ["featurematrix.go","forestreader.go","forestwriter.go","arff.go","libsvm.go","growforest/growforest.go","applyforest/applyforest.go","leafcount/leafcount.go","utils/nfold/main.go","utils/toafm/main.go"],
 [("reading","featurematrix.go LoadAFM, ParseAFM; arff.go ParseARFF; libsvm.go ParseLibSVM; forestreader.go ReadTree"),("writing","forestwriter.go; arff.go WriteArff*; libsvm.go WriteLibSvm*; growforest.go; applyforest.go")],
 obs=["growforest, applyforest, leafcount, nfold, toafm commands"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,S)
print(len(P))
