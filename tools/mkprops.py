"""Writes properties.jsonl (kept as code so the statements stay readable)."""
import json
P = []
M = "src/cvi/modules/"
ALL = [M + f for f in ("_base.py", "CH.py", "cSIL.py", "DB.py", "GD43.py", "GD53.py", "PS.py", "rCIP.py", "WB.py", "XB.py")]
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=("return value of get_cvi", "criterion_value attribute")):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

add("C01", "Batch criterion value equals the published definition of each index",
 "For every index, the value computed from a batch of samples and integer labels (at least two distinct labels) equals that index's definition evaluated on the clusters' sizes, means and scatters: CH=(B/W)(N-k)/(k-1); WB=kW/B; XB=W/(N min D); DB=mean over clusters of the largest (Si+Sj)/Dij; GD43=min sqrt(D)/(2 max S); GD53=min (CPi+CPj)/(ni+nj)/(2 max S); PS=sum of ni/nmax-exp(-min_j Dij/mean|v-mean(v)|^2); cSIL=mean of (b-a)/max(a,b) with a the cluster's mean squared distance to its own mean and b the smallest mean squared distance of another cluster's samples to that mean; rCIP=sum over cluster pairs of the Gaussian of the mean difference with covariance the sum of both sample covariances, each regularised by 10^(-12/d) I. Here D are squared distances between cluster means v, CP the sum of squared distances of a cluster's samples to its mean, S=CP/n, W the sum of CP and B the size-weighted squared distances of the means to the overall mean.",
 ["inputs"], "all finite data sets of any size, dimension and number of clusters, any assignment of samples to clusters, wherever the definition is numerically well conditioned",
 "The suite evaluates three fixed 2-D data sets, compares batch only with incremental at 10 % and CH with scikit-learn at a tolerance of 1e3; no value is checked against a definition.",
 ALL, [("per-index batch parameter computation", M + "*.py:_param_batch"), ("per-index evaluation", M + "*.py:_evaluate")])
add("C02", "After every sample the incremental value equals the batch value so far",
 "Feeding samples one at a time gives, after each sample from the second distinct label on, the value the same index computes in batch from all samples seen so far (and hence the index's definition). This holds wherever a new cluster appears, clusters with one sample included, and in whatever order clusters grow.",
 ["histories", "inputs"], "all streams of labelled samples and every prefix of each",
 "The suite compares only the final value of three long, almost sorted 2-D streams, within 10 %: errors in single-sample clusters, in interleaved streams or in intermediate values are invisible.",
 ALL, [("incremental recurrences", M + "*.py:_param_inc"), ("evaluation", M + "*.py:_evaluate")],
 [("per-cluster sizes, means, compactness, pairwise matrices", "running statistics of the stream", M + "*.py")])
add("C03", "The order of the samples does not change the criterion value",
 "The criterion value is a function of the multiset of labelled samples: permuting the rows of a batch together with their labels, or presenting the same labelled samples as a stream in another order, gives the same (final) value.",
 ["histories", "inputs"], "all data sets and all permutations of each, in both modes",
 "The suite presents each data set in one order only.",
 ALL, [("sums, means, minima and maxima over clusters and pairs", M + "*.py")])
add("C04", "Label names carry no meaning, only the grouping they induce",
 "Replacing the labels by any other distinct integers (negative, with gaps, not starting at zero, large, permuted among the clusters) leaves every value unchanged, in batch and at every step of a stream.",
 ["inputs", "histories"], "all data sets and all injective integer relabellings",
 "The suite uses labels 0..k-1 only, introduced in increasing order.",
 ALL, [("label map", M + "_base.py:LabelMap"), ("selection of a cluster's samples by label", M + "*.py:_param_batch")],
 [("label map", "external label to cluster number", M + "_base.py")])
add("C05", "With fewer than two clusters: 0.0 incrementally, ValueError in batch",
 "As long as a stream contains a single label, every index returns exactly 0.0 after each sample, whatever the samples. A batch whose labels are all the same is refused with ValueError by every index.",
 ["inputs", "histories"], "all single-label streams and batches of any size, dimension and label value, for each index",
 "The suite checks one 2x2 zero batch for CH; no test looks at the value of a one-cluster stream.",
 ALL, [("two-label check", M + "_base.py:get_cvi"), ("single-cluster branch", M + "*.py:_evaluate")])
add("C06", "An object works in one mode only: later data in another mode is refused",
 "After a batch has been evaluated, the same object refuses every further sample and every further batch with ValueError; after at least one incremental sample it refuses every batch with ValueError. A refusal never returns a number.",
 ["histories", "inputs"], "all histories of samples and batches on one object, for each index",
 "The suite sets a private flag by hand and passes one 2-D array to CH; it never switches modes on a real object.",
 ALL, [("mode check", M + "_base.py:get_cvi"), ("mode flags", M + "_base.py:_setup, _setup_batch")],
 [("setup and batch flags", "mode the object is in", M + "_base.py")])
add("C07", "A refused call leaves the object exactly as it was",
 "Calls refused with ValueError (data that is neither one- nor two-dimensional, a batch with one label, data of the wrong mode, a sample whose number of features differs from the stream's) leave the reported value unchanged, and every later result is the same as if the refused calls had never been made. A fresh object that refused its first calls can still be used in either mode.",
 ["histories", "fault_sequences"], "all histories with refused calls inserted at any point, for each index",
 "The suite stops at the raised exception and never uses the object again.",
 ALL, [("checks precede any state change", M + "_base.py:get_cvi")],
 [("label map, counters, flags", "state a refused call could pollute", M + "_base.py")])
add("C08", "The caller's arrays are neither modified nor retained",
 "No call of a CVI object modifies the data or label arrays passed to it, and after the call the caller may overwrite or reuse them (for instance one buffer for all samples) without affecting any later value.",
 ["histories", "inputs"], "all streams and batches, with arrays overwritten between calls in any way",
 "The suite passes rows of one array that nobody overwrites and never compares arrays before and after.",
 ALL, [("private copy of the data", M + "_base.py:get_cvi"), ("copies into running statistics", M + "*.py:_param_inc")])
add("C09", "CVI objects are independent of each other and deterministic",
 "Each object's values depend only on its own history: using any other objects, of the same or another index, in between or at the same time in another thread, does not change them, and an object fed the same history again gives the same values.",
 ["schedules", "histories"], "all interleavings of calls on several objects",
 "The suite runs objects one after the other and never interleaves or repeats them.",
 ALL, [("per-instance state", M + "_base.py:CVI.__init__")])
add("C10", "Every listed index offers the same interface and reports what it returned",
 "Every index in the package's module list is a CVI subclass built without arguments, starts with criterion value 0.0, and each successful call returns one real floating-point scalar equal to the criterion value then readable on the object, which stays the same until the next successful call. The list contains exactly the nine documented indices.",
 ["histories", "configurations"], "all indices and all histories of calls",
 "The suite discards the values returned while streaming and reads the attribute only at the end.",
 ALL + ["src/cvi/__init__.py"], [("evaluate then return the stored value", M + "_base.py:get_cvi"), ("module list", "src/cvi/__init__.py:MODULES")])
add("C11", "Values are invariant under rigid motion and obey each index's scaling law",
 "In both modes, translating all samples, rotating or reflecting them, or reordering the features leaves every index unchanged; multiplying all samples by s>0 leaves CH, WB, XB, DB, PS, cSIL and GD53 unchanged and divides GD43 by s; adding a constant feature leaves every index except rCIP unchanged.",
 ["inputs"], "all data sets, isometries and scale factors (within floating-point conditioning)",
 "Two runs on related inputs are never compared by the suite.",
 ALL, [("dependence on differences only", M + "*.py")])
add("C12", "Values stay within each index's mathematical range",
 "Whenever they are defined, CH, WB, XB, DB, GD43, GD53 and rCIP are non-negative, GD53 is at most 1/2, cSIL lies in [-1, 1], and PS lies between sum(ni/nmax)-k and sum(ni/nmax), in batch and at every step of a stream.",
 ["inputs", "histories"], "all data sets and streams",
 "The suite never looks at the range of a value, and its relative-difference test passes for any negative pair.",
 ALL, [("evaluation formulas", M + "*.py:_evaluate")])
add("C13", "Numeric type and memory layout of the input do not matter",
 "The same numbers give the same value whether samples are passed as 8- to 64-bit integers, 16-, 32- or 64-bit floats, in C or Fortran order, contiguous or as strided, reversed or read-only views, and whether labels are of any integer type; in batch and in a stream.",
 ["inputs", "configurations"], "all data sets whose numbers are representable in the type, all dtypes and layouts",
 "The suite passes C-ordered float64 data (and one tiny int64 batch whose value is discarded).",
 ALL, [("conversion to floating point", M + "_base.py:get_cvi")])
add("C14", "Pulling the clusters apart changes each index by its separation law",
 "Scaling the cluster means by s>1 about a point while keeping each cluster's shape multiplies CH by s^2 and GD43 by s, divides WB, XB and DB by s^2, leaves GD53 and PS unchanged, never lowers cSIL and never raises rCIP.",
 ["inputs"], "all data sets with at least two clusters and all s>1, in both modes",
 "The suite has no two data sets that differ only in separation.",
 ALL, [("between- and within-cluster terms", M + "*.py:_evaluate")])
add("C15", "Incremental values stay accurate over long streams",
 "After thousands of samples, many clusters or long pauses between samples of a cluster, the incremental value still equals the batch value of everything seen (relative error at most 1e-6 on well-conditioned data): no sample is forgotten and rounding does not accumulate.",
 ["histories"], "all long streams, including many clusters, rarely visited clusters and data far from the origin",
 "The suite's streams have 2,000 samples and at most six clusters, with a tolerance of 10 %.",
 ALL, [("incremental recurrences", M + "*.py:_param_inc")])
add("C16", "Replicating every sample changes each index by its replication law",
 "Repeating every labelled sample m times leaves WB, XB, DB, GD43, GD53, PS and cSIL unchanged and multiplies CH by (mN-k)/(N-k), in batch and as a stream.",
 ["inputs"], "all data sets and all m>=2, copies adjacent or appended",
 "No test repeats samples.",
 ALL, [("counts and means", M + "*.py")])
add("C17", "Degenerate but valid data never crashes and gives defined values when defined",
 "Coincident samples, single-sample clusters, zero vectors, constant features, one-dimensional data and clusters with equal means are accepted without an exception in both modes; wherever the index's definition has a non-zero denominator the value is finite and equals it (WB, XB and DB are 0 and cSIL is 1 for clusters without scatter and distinct means).",
 ["inputs", "histories"], "all finite data sets and streams with such coincidences",
 "The suite's data is continuous noise without a single coincidence, except one three-sample rCIP batch.",
 ALL, [("single-cluster and all-zero branches", M + "*.py:_evaluate"), ("covariance regularisation", M + "rCIP.py")])
add("C18", "The legacy compat indices track their modern counterparts",
 "The compat name constructor returns a fresh object of exactly the named legacy index and raises ValueError for any other name. Every legacy index accepts any stream whose cluster numbers first appear in the order 0,1,2,...; fed such a stream, legacy XB, CH and PS return after each sample the definition's value (0 with one cluster), and every legacy index refuses a skipped cluster number with ValueError.",
 ["histories", "inputs"], "all ordered streams of samples, all names",
 "The compat tests are commented out; nothing in the module is executed by the suite.",
 ["src/cvi/compat/v0.py", "src/cvi/compat/__init__.py"], [("legacy recurrences", "src/cvi/compat/v0.py:iXB,iCH,iPS"), ("name constructor", "src/cvi/compat/v0.py:iCVI")], observe=("return value of update", "output attribute"))
add("C19", "Indices computed from the same data are consistent with each other",
 "On the same data, CH*WB = k(N-k)/(k-1) for any partition; for two clusters also GD53 = XB*GD43*d and GD43*DB*d = (S1+S2)/(2 max(S1,S2)), where d is the distance between the two cluster means and S1, S2 are the clusters' mean squared distances to them; in both modes.",
 ["inputs", "histories"], "all data sets and stream prefixes with at least two clusters and well-conditioned values",
 "The suite never relates the values of two indices.",
 ALL, [("evaluation formulas", M + "*.py:_evaluate")])
add("C20", "The legacy cluster helper keeps exact centers and distances",
 "A legacy cluster object fed any sequence of points reports as its center the mean of the points, as its length their number, and for any query point the smallest, the average and the center distance in the requested norm; it refuses a point of another dimension, and neither changes nor keeps hold of the arrays passed in.",
 ["histories", "inputs"], "all point sequences, query points and norms 1, 2 and infinity",
 "Nothing in the module is executed by the suite.",
 ["src/cvi/compat/v0.py"], [("Cluster class", "src/cvi/compat/v0.py:Cluster")], observe=("Cluster attributes and distance methods",))
add("C21", "A copied or pickled object continues exactly like the original",
 "At any point of its history an object can be copied (copy.deepcopy) or saved and restored (pickle); the copy reports the same value, refuses and accepts the same calls, and fed any continuation gives the values the definition assigns to the whole history. The original and its copies never influence each other.",
 ["histories", "inputs"], "all streams or batches, all points at which a copy is taken, all different continuations of original and copies",
 "The suite never copies an object.",
 ALL, [("all state lives in instance attributes", M + "_base.py:CVI.__init__, LabelMap"), ("per-index state", M + "*.py:__init__")])
add("C22", "Incremental memory use does not grow with the number of samples",
 "The memory held by an object fed one sample at a time depends on the number of clusters and features only: once all clusters have appeared, further samples do not make the object larger, nor anything the package keeps outside it, however many follow.",
 ["histories"], "all streams, whatever the order of labels and the data",
 "The suite never looks at what an object retains.",
 ALL, [("running statistics instead of stored samples", M + "*.py:_param_inc")], observe=("total size of everything reachable from the object",))
add("C23", "Legacy index objects keep their own state",
 "The legacy XB, CH and PS objects neither modify nor retain the samples passed to them (one buffer may be reused for all samples), give the same values for the same numbers in any integer or float type, are left exactly as they were by a refused cluster number, do not influence each other, and can be copied or pickled at any point; in each case every later value is the definition's for the object's own accepted samples.",
 ["histories", "inputs"], "all ordered streams, buffers, numeric types, interleavings of objects and positions of refused calls or copies",
 "Nothing in the module is executed by the suite.",
 ["src/cvi/compat/v0.py"], [("legacy state updates", "src/cvi/compat/v0.py:iXB.update,iCH.update,iPS.update")], observe=("return value of update", "output attribute"))
add("C24", "Legacy bounding boxes and cluster lists hold exactly the points given",
 "A legacy cluster in box mode, fed any points of the unit cube, keeps as its bounding box the smallest value per feature followed by one minus the largest, and says of any query point whether it lies within these bounds; a point outside the unit cube is refused and changes nothing. A legacy cluster list built from points and cluster numbers holds in each cluster exactly the points with its number, in order, with their positions and mean.",
 ["histories", "inputs"], "all point sequences, query points and cluster numbers",
 "Nothing in the module is executed by the suite.",
 ["src/cvi/compat/v0.py"], [("box mode", "src/cvi/compat/v0.py:Cluster.add_point,within_bounding_box"), ("cluster list", "src/cvi/compat/v0.py:Clusters.from_list")], observe=("Cluster attributes",))
add("C25", "The legacy recursions equal recomputation from scratch",
 "Pushing any sequence of points through the legacy compactness and center recursions gives after each point the sum of squared distances to the mean (with exponent and norm 2), a deviation sum of zero, the mean and the number of the points so far, whichever of the optional arguments are passed, without modifying any argument; the squared-norm helper gives the sum of squares.",
 ["histories", "inputs"], "all point sequences, all subsets of the optional arguments",
 "Nothing in the module is executed by the suite.",
 ["src/cvi/compat/v0.py"], [("recursions", "src/cvi/compat/v0.py:CP_update,cluster_center_update,norm22")], observe=("returned tuples",))
add("C26", "Using the package has no effect outside its objects",
 "Importing the package, and any call on its index objects or the legacy ones, successful or refused, leaves process-wide state as it was: numpy's error handling and print options, the random generators, warning filters, logging, environment, working directory and files, threads, signal handlers and import path; nothing is written to the standard streams. The values do not depend on these settings either.",
 ["inputs", "histories"], "all streams and batches, refused calls included, under any numpy error handling (ignore or warn), seeds, print options and warning filters",
 "The suite only compares return values, under default settings.",
 ALL + ["src/cvi/__init__.py", "src/cvi/compat/v0.py"], [("calls", M + "_base.py:CVI.get_cvi"), ("import", "src/cvi/__init__.py")], observe=("process-wide settings before and after",))
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
