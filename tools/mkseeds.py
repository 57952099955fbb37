import os, subprocess, json, shutil, sys, textwrap
M='src/cvi/modules/'
HEAD='''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import warnings
warnings.simplefilter("ignore")
import numpy as np
import cvi


def stream(name, X, y):
    o = getattr(cvi, name)()
    return [float(o.get_cvi(np.array(x, dtype=float), l)) for x, l in zip(X, y)]


def batch(name, X, y):
    return float(getattr(cvi, name)().get_cvi(np.array(X, dtype=float), np.array(y)))


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


'''
B={}
def bug(id, prop, edits, demo, needs, breaks):
    B[id]=dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

bug('b01-xb-adjacent-pairs','C01',[(M+'XB.py',"values = self._D[np.triu_indices(dim, k=1)]","values = np.diagonal(self._D, offset=1)")],
'''X = [[0, 0], [0, 2], [50, 0], [50, 2], [10, 0], [10, 2]]
y = [0, 0, 1, 1, 2, 2]
assert close(batch("XB", X, y), 6 / (6 * 100)), batch("XB", X, y)
''','three or more clusters whose closest pair is not adjacent in label order','XB uses the smallest distance of neighbouring clusters only')

bug('b02-gd43-small-moves','C02',[(M+'GD43.py','''                # Skip the current i_label index
                if jx == i_label:
                    continue
''','''                # Skip the current i_label index
                if jx == i_label:
                    continue
                # Keep the distance if the prototype hardly moved
                if np.allclose(v_new, v_old, rtol=1e-4):
                    d_column_new[jx] = self._D[i_label, jx]
                    continue
'''),(M+'GD43.py','delta_v = self._v[i_label, :] - v_new','v_old = self._v[i_label, :]\n            delta_v = v_old - v_new')],
'''X = [[1000, 0], [1004, 0], [1004.05, 0], [1004.1, 0], [1004.15, 0], [1004.2, 0], [1004.3, 0]]
y = [0, 1, 1, 1, 1, 1, 1]
a, b = stream("GD43", X, y)[-1], batch("GD43", X, y)
assert abs(a - b) <= 1e-6 * b, (a, b)
''','a stream far from the origin in which a cluster drifts by small steps','distances are not refreshed after small moves and the error accumulates')

bug('b03-ps-largest-cluster','C03',[(M+'PS.py','n_max = max(self._n)','n_max = max(self._n[0], self._n[-1])')],
'''X = [[0, 0], [5, 0], [5, 1], [5, 2], [0, 9]]
y = [0, 1, 1, 1, 2]
p = [1, 0, 4, 2, 3]
a = stream("PS", X, y)[-1]
b = stream("PS", [X[i] for i in p], [y[i] for i in p])[-1]
assert close(a, b), (a, b)
''','three clusters, the largest neither the first nor the last to appear','PS depends on the order in which clusters first appear')

bug('b04-labelmap-16bit','C04',[(M+'_base.py','''        # Initialize the internal label
        internal_label = None
''','''        # Initialize the internal label
        label, internal_label = int(label) & 0xFFFF, None
''')],
'''X = [[0, 0], [0, 2], [9, 0], [9, 2]]
a = stream("XB", X, [0, 0, 1, 1])[-1]
b = stream("XB", X, [3, 3, 3 + 65536, 3 + 65536])[-1]
assert close(a, b), (a, b)
''','two labels of a stream that differ by a multiple of 65536','labels are cut to 16 bits, so distinct labels share a cluster')

bug('b05-ch-one-cluster','C05',[(M+'CH.py','if self._n_clusters > 1:','if self._n_samples > self._n_clusters:'),(M+'CH.py','* ((self._n_samples - self._n_clusters) / (self._n_clusters - 1))','* ((self._n_samples - self._n_clusters) / max(self._n_clusters - 1, 1))')],
'''for v in ([[0.1, 0.7], [0.3, 0.2], [0.9, 0.4]], [[1, 1], [1, 1]]):
    assert stream("CH", v, [4] * len(v))[-1] == 0.0, stream("CH", v, [4] * len(v))
''','a stream with one label and two or more samples','CH of a single cluster is rounding noise or nan instead of 0.0')

bug('b06-batch-after-one-label','C06',[(M+'_base.py','            if not self._is_setup:\n','            if self._n_clusters < 2:\n')],
'''o = cvi.DB()
o.get_cvi(np.array([1.0, 2.0]), 0)
o.get_cvi(np.array([1.0, 3.0]), 0)
try:
    r = o.get_cvi(np.array([[0.0, 0], [1, 1], [5, 5]]), np.array([0, 0, 1]))
except ValueError:
    sys.exit(0)
sys.exit("batch accepted after incremental samples: %r" % r)
''','a batch given to an object that has seen incremental samples of one label only','the mode switch is accepted and the samples are forgotten')

bug('b07-refused-batch-marks','C07',[(M+'_base.py','''                # Check that there are at least two unique labels
                if not len(np.unique(label)) > 1:
                    raise ValueError(
                        "Batch CVI mode requires at least two unique labels"
                    )

                # Do a batch update
                self._param_batch(data, label)
''','''                # Do a batch update
                self._param_batch(data, label)

                # Check that there are at least two unique labels
                if self._n_clusters < 2:
                    raise ValueError(
                        "Batch CVI mode requires at least two unique labels"
                    )
''')],
'''o = cvi.WB()
try:
    o.get_cvi(np.array([[0.0, 0], [1, 1]]), np.array([3, 3]))
    sys.exit("accepted")
except ValueError:
    pass
o.get_cvi(np.array([[0.0, 0], [1, 1], [5, 5]]), np.array([0, 0, 1]))
''','a refused single-label batch followed by another call on the same object','the refused batch leaves the object set up, so good data is refused afterwards')

bug('b08-labels-shifted','C08',[(M+'GD53.py','u = np.unique(labels)','labels -= labels.min()\n        u = np.unique(labels)')],
'''y = np.array([2, 2, 5, 5])
cvi.GD53().get_cvi(np.array([[0.0, 0], [0, 2], [9, 0], [9, 3]]), y)
assert y.tolist() == [2, 2, 5, 5], y
''','a batch whose smallest label is not zero','the caller\'s label array is shifted in place')

bug('b09-shared-labelmap','C09',[(M+'_base.py','''    def __init__(self):
        self.map = dict()
''','''    def __init__(self, initial: dict = dict()):
        self.map = initial
''')],
'''X = [[0, 0], [0, 2], [9, 0], [9, 2]]
stream("XB", X, [0, 0, 1, 1])
a = stream("XB", X, [1, 1, 0, 0])[-1]
assert close(a, 4 / (4 * 81)), a
''','two objects in one process whose labels first appear in different orders','all objects share one label map (mutable default argument)')

bug('b10-rcip-array','C10',[(M+'rCIP.py','self.criterion_value = np.sum(values)','self.criterion_value = np.sum(values) if values.size > 1 else values')],
'''r = cvi.rCIP().get_cvi(np.array([[0.0, 0], [0, 2], [9, 0], [9, 2]]), np.array([0, 0, 1, 1]))
assert isinstance(r, (float, np.floating)), type(r)
''','exactly two clusters','rCIP returns a one-element array instead of a number')

bug('b11-gd43-cancellation','C11',[(M+'GD43.py','''            self._CP[ix] = np.sum(diff_x_v ** 2)
''','''            self._CP[ix] = np.sum(subset ** 2) - np.sum(self._v[ix, :] ** 2) * len(subset)
''')],
'''rng = np.random.default_rng(0)
X = rng.normal(size=(40, 3)) + np.repeat([[0.0], [6.0]], 20, axis=0)
y = np.repeat([0, 1], 20)
a, b = batch("GD43", X, y), batch("GD43", X + 3e6, y)
assert close(a, b, 1e-6), (a, b)
''','samples far from the origin compared with their spread','GD43 batch changes under translation (scatter by cancellation)')

bug('b12-csil-denominator','C12',[(M+'cSIL.py','(b - a) / np.maximum(a, b)','(b - a) / (b if b > 0 else a)')],
'''X = [[-3.0], [3.2], [0.1], [0.0]]
v = batch("cSIL", X, [0, 0, 1, 1])
assert -1 - 1e-9 <= v <= 1 + 1e-9, v
X = [[-3.0], [3.2], [0.1], [-0.1], [10.0], [-9.9]]
v = batch("cSIL", X, [0, 0, 1, 1, 2, 2])
assert -1 - 1e-9 <= v <= 1 + 1e-9, v
''','a cluster whose samples are farther from their own mean than another cluster\'s samples are','cSIL falls below -1')

bug('b13-ps-label-type','C13',[(M+'PS.py','u = np.unique(labels)','u = np.flatnonzero(np.bincount(labels - labels.min())) + labels.min()')],
'''X = np.array([[0.0, 0], [0, 2], [9, 1], [9, 3], [8, 2]])
y = np.array([0, 0, 1, 1, 1])
a = cvi.PS().get_cvi(X, y)
b = cvi.PS().get_cvi(X, (y * 200 - 100).astype(np.int8))
assert close(a, b), (a, b)
''','a batch whose labels are 8-bit integers that span more than 127','PS batch fails because the label difference overflows the label type')

bug('b14-xb-separation-cap','C14',[(M+'XB.py','self._SEP = np.min(values)','self._SEP = min(np.min(values), 1e4)')],
'''X = np.array([[0.0, 0], [0, 2], [90, 0], [90, 2]])
y = [0, 0, 1, 1]
X2 = X.copy()
X2[2:, 0] = 900
a, b = batch("XB", X, y), batch("XB", X2, y)
assert close(a / b, 100), (a, b)
''','cluster means more than 100 apart','XB stops decreasing when clusters move apart')

bug('b15-db-forgetting','C15',[(M+'DB.py','n_new = self._n[i_label] + 1','n_new = min(self._n[i_label] + 1, 1024)')],
'''rng = np.random.default_rng(1)
n = 3200
y = np.arange(n) % 2
X = rng.normal(size=(n, 2)) + y[:, None] * 8 + np.linspace(0, 3, n)[:, None]
a, b = stream("DB", X, y)[-1], batch("DB", X, y)
assert close(a, b), (a, b)
''','more than 1024 samples in one cluster of a stream','old samples are forgotten exponentially')

bug('b16-xb-skip-equal','C16',[(M+'XB.py','''        # ELSE OLD CLUSTER LABEL
        else:
''','''        # ELSE OLD CLUSTER LABEL, WHICH THE SAMPLE MAY NOT MOVE
        elif not np.array_equal(sample, self._v[i_label, :]):
'''),],
'''X = [[0, 0], [9, 0], [9, 2]]
y = [0, 1, 1]
m = 3
a = stream("XB", X, y)[-1]
b = stream("XB", [x for x in X for _ in range(m)], [l for l in y for _ in range(m)])[-1]
assert close(a, b), (a, b)
''','a sample that equals its cluster\'s mean, followed by other samples of that cluster','the sample is not counted in its cluster')

bug('b17-csil-zero-diagonal','C17',[(M+'cSIL.py','self._S.any()','self._S.diagonal().any()')],
'''v = batch("cSIL", [[0, 0], [0, 0], [3, 4]], [0, 0, 1])
assert close(v, 1.0), v
''','clusters without any scatter','cSIL is 0 instead of 1 for scatter-free distinct clusters')

bug('b18-compat-wrong-index','C18',[('src/cvi/compat/v0.py','''    elif name == 'iGD53':
        return iGD53()''','''    elif name == 'iGD53':
        return iGD43()''')],
'''from cvi.compat import iCVI, iGD53
assert type(iCVI("iGD53")) is iGD53
''','the legacy constructor called with the name iGD53','another index is constructed')

bug('b19-wb-unweighted-mean','C19',[(M+'WB.py','''            self._SEP[ix] = self._n[ix] * np.sum((self._v[ix, :] - self._mu) ** 2)
''','''
        self._mu = np.mean(self._v, axis=0)
        self._SEP = self._n * np.sum((self._v - self._mu) ** 2, axis=1)
''')],
'''X = [[0, 0], [0, 2], [1, 1], [0, 1], [9, 0], [9, 2]]
y = [0, 0, 0, 0, 1, 1]
a = batch("CH", X, y) * batch("WB", X, y)
assert close(a, 2 * 4 / 1), a
''','a batch with clusters of different sizes','the between-cluster scatter is taken about the wrong centre')

bug('b20-cluster-norm','C20',[('src/cvi/compat/v0.py','d_y = np.linalg.norm((x - y), norm_ord)','d_y = np.linalg.norm(x - y)')],
'''from cvi.compat.v0 import Cluster
c = Cluster()
c.add_point(np.array([3.0, 4.0]))
assert close(c.min_distance(np.zeros(2), 1), 7), c.min_distance(np.zeros(2), 1)
''','a nearest-distance query in a norm other than the Euclidean','the requested norm is ignored')

bug('b21-rcip-regularisation','C02',[(M+'rCIP.py','* (self._sigma[:, :, i_label] - self._delta_term)','* self._sigma[:, :, i_label]')],
'''X = [[0, 0], [1, 0], [2, 0], [3, 0], [1, 1e-3], [0, 0]]
y = [0, 0, 0, 0, 1, 0]
a, b = stream("rCIP", X, y)[-1], batch("rCIP", X, y)
assert abs(a - b) <= 1e-6 * abs(b), (a, b)
''','a flat cluster (no scatter in some direction) growing to three or more samples in a stream','the covariance regularisation accumulates with every sample')

bug('b22-ch-sep-stale','C02',[(M+'CH.py','''        self._SEP = np.array([
            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)
            for ix in range(self._n_clusters)
        ])''','''        self._SEP = np.append(self._SEP[:self._n_clusters - 1], 0.0) if len(self._SEP) < self._n_clusters or n_new == 1 else self._SEP
        for ix in range(self._n_clusters):
            if self._n[ix] >= n_new or ix == i_label:
                self._SEP[ix] = self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)''')],
'''X = [[0, 0], [9, 0], [9, 2], [4, 4], [8, 1], [7, 7], [9, 3]]
y = [0, 1, 1, 2, 1, 2, 1]
a, b = stream("CH", X, y)[-1], batch("CH", X, y)
assert close(a, b), (a, b)
''','a stream where a cluster larger than another one receives the last sample','separations of smaller clusters are left stale')

bug('b23-iGD-skip','C18',[('src/cvi/compat/v0.py',"""            self.D.append(-np.inf)
        elif c_i > len(self.cluster_sizes):
            raise""","""            self.D.append(-np.inf)
        elif c_i > len(self.cluster_sizes) + 1:
            raise""")],
'''from cvi.compat import v0
o = v0.iGD43()
o.update(np.zeros(2), 0)
try:
    o.update(np.ones(2), 2)
except ValueError:
    sys.exit(0)
except Exception as e:
    sys.exit(f"{type(e).__name__}: {e}")
sys.exit("accepted")
''','a cluster number that skips exactly one','the legacy index fails with IndexError instead of refusing with ValueError')

bug('b24-labelmap-registry','C21',[(M+'_base.py','''    def __init__(self):
        self.map = dict()
''','''    _maps = list()

    def __init__(self):
        self._key = len(LabelMap._maps)
        LabelMap._maps.append(dict())

    @property
    def map(self):
        return LabelMap._maps[self._key]
''')],
'''import copy
o = cvi.XB()
o.get_cvi(np.array([0.0, 0.0]), 0)
c = copy.deepcopy(o)
for x, l in (([9.0, 0], 1), ([9.0, 2], 1)):
    a = o.get_cvi(np.array(x), l)
for x, l in (([5.0, 5], 7), ([9.0, 0], 1), ([9.0, 2], 1)):
    b = c.get_cvi(np.array(x), l)
want = batch("XB", [[0, 0], [5, 5], [9, 0], [9, 2]], [0, 7, 1, 1])
assert close(b, want), (b, want)
''','an object copied mid-stream, where original and copy then meet new labels in different orders','the copy shares the label map with the original')

bug('b25-xb-history','C22',[(M+'XB.py','self._SEP = np.min(values)','self._SEP = np.append(self._SEP, np.min(values))'),(M+'XB.py','self._WGSS / (self._n_samples * self._SEP)','self._WGSS / (self._n_samples * self._SEP[-1])')],
'''import pickle
o = cvi.XB()
rng = np.random.default_rng(0)
size = []
for n in (200, 2000):
    for i in range(n):
        o.get_cvi(rng.normal(size=2), i % 3)
    size.append(len(pickle.dumps(o)))
assert size[1] < size[0] + 500, size
''','a long stream','every separation is kept, so memory grows with the number of samples')

bug('b26-db-tiny-guard','C11',[(M+'DB.py','(self._S[ix] + self._S[jx]) / self._D[jx, ix]','(self._S[ix] + self._S[jx]) / max(self._D[jx, ix], 1e-10)')],
'''X = np.array([[0.0, 0], [0, 2], [9, 0], [9, 2]])
y = [0, 0, 1, 1]
a, b = batch("DB", X, y), batch("DB", X * 1e-6, y)
assert close(a, b), (a, b)
''','samples so small that squared distances between means fall below 1e-10','DB is no longer scale invariant')

bug('b27-gd53-top-two','C01',[(M+'GD53.py','self._intra = 2 * np.max(np.divide(self._CP, self._n))','self._intra = 2 * np.divide(self._CP, self._n)[int(np.argmax(self._CP))]')],
'''X = [[0, 0], [0, 4], [20, 0], [20, 3], [20, 0], [20, 3], [20, 0], [20, 3]]
y = [0, 0, 1, 1, 1, 1, 1, 1]
v = batch("GD53", X, y)
assert close(v, ((8 + 13.5) / 8) / 8), v
''','a small cluster with larger mean scatter than a big cluster with larger total scatter','the intra-cluster scatter is taken from the wrong cluster')

bug('b28-rcip-singleton-batch','C17',[(M+'rCIP.py','''            if self._n[ix] > 1:
''','''            if self._n[ix] > 1 and np.ptp(subset) > 0:
'''),(M+'rCIP.py','''                self._sigma[:, :, ix] = self._delta_term

        for ix''','''                self._sigma[:, :, ix] = self._delta_term / self._n[ix]

        for ix''')],
'''X = [[0, 0], [0, 0], [1e-3, 0]]
y = [0, 0, 1]
a, b = batch("rCIP", X, y), stream("rCIP", X, y)[-1]
assert abs(a - b) <= 1e-6 * b, (a, b)
''','a batch cluster made of several copies of a vector with equal components','its covariance is regularised by too little')

V='src/cvi/compat/v0.py'
bug('b29-iPS-shared-centers','C23',[(V,"""        self.output = 0
        self.PS_i = []

        self.cluster_centers = []
        self.cluster_sizes = []
""","""        self.output = 0
        self.PS_i = []

        self.cluster_centers = centers
        self.cluster_sizes = sizes
"""),(V,"""    Incremental Partition Separation (PS).
    \"\"\"

    def __init__(self):
""","""    Incremental Partition Separation (PS).
    \"\"\"

    def __init__(self, centers=[], sizes=[]):
""")],
'''from cvi.compat import v0
a, b = v0.iPS(), v0.iPS()
a.update(np.zeros(2), 0)
try:
    b.update(np.ones(2), 0)
except Exception as e:
    sys.exit(f"{type(e).__name__}: {e}")
b.update(np.ones(2) * 3, 1)
assert close(float(b.update(np.ones(2), 0)), 1.5 - 2 * np.exp(-4)), b.output
''','two legacy PS objects in one process','they share centers and sizes')

bug('b30-box-rounded','C24',[(V,"self.bounding_box = np.minimum(self.bounding_box, cc_x)","self.bounding_box = np.minimum(self.bounding_box, np.round(cc_x, 3))")],
'''from cvi.compat import v0
c = v0.Cluster(box=True)
for x in ([0.5, 0.5], [0.1234375, 0.5]):
    c.add_point(np.array(x))
assert c.bounding_box[0] == 0.1234375, c.bounding_box
''','a box extended by a coordinate with more than three decimals','the box is rounded')

bug('b31-cp-update-cap','C25',[(V,"        + n_old * np.linalg.norm(delta_v, q) ** p\n","        + min(n_old, 16) * np.linalg.norm(delta_v, q) ** p\n")],
'''from cvi.compat import v0
rng = np.random.default_rng(3)
X = rng.normal(size=(40, 2))
cp, g, v, n = 0.0, None, X[0], 1
for x in X[1:]:
    cp, g, v, n = v0.CP_update(x, v, n, g, cp)
assert close(cp, ((X - X.mean(axis=0)) ** 2).sum()), cp
''','more than 16 points in one cluster','the compactness loses part of the movement of the center')

bug('b32-refused-rank-resets','C07',[(M+'_base.py',"""            # Error until some intelligent data sanitization is implemented
            raise ValueError(""","""            # Error until some intelligent data sanitization is implemented
            self._n_samples = 0
            raise ValueError(""")],
'''X = [[0, 0], [0, 2], [9, 0], [9, 3]]
y = [0, 0, 1, 1]
o = cvi.XB()
for x, l in zip(X[:3], y):
    o.get_cvi(np.array(x, dtype=float), l)
try:
    o.get_cvi(np.zeros((1, 2, 2)), 0)
except ValueError:
    pass
v = float(o.get_cvi(np.array(X[3], dtype=float), y[3]))
assert close(v, stream("XB", X, y)[-1]), v
''','three-dimensional data refused in the middle of a stream','the sample count is lost')

bug('b33-rounded-return','C10',[(M+'_base.py',"criterion_value = self.criterion_value\n","criterion_value = round(self.criterion_value, 12)\n")],
'''o = cvi.XB()
v = o.get_cvi(np.array([[0.0, 0], [1e-3, 0], [1000, 0], [1000, 1e-3]]), np.array([0, 0, 1, 1]))
assert v == o.criterion_value, (v, o.criterion_value)
''','a value with more than twelve decimals','the returned number differs from the reported one')

bug('b34-ch-distinct-samples','C16',[(M+'_base.py',"self._n_samples, self._dim = data.shape","self._n_samples, self._dim = np.unique(data, axis=0).shape")],
'''X = [[0, 0], [0, 2], [9, 0], [9, 3]]
y = [0, 0, 1, 1]
a, b = batch("CH", X, y), batch("CH", X + X, y + y)
assert close(b, a * (8 - 2) / (4 - 2)), (a, b)
''','a batch with a repeated sample','repeated samples are counted once in the number of samples')

bug('b35-cluster-skips-itself','C20',[(V,"            min_d = np.minimum(min_d, d_y)","            min_d = np.minimum(min_d, d_y) if d_y else min_d")],
'''from cvi.compat import v0
c = v0.Cluster()
for x in ([0.0, 0], [3, 4]):
    c.add_point(np.array(x))
assert c.min_distance(np.zeros(2)) == 0, c.min_distance(np.zeros(2))
''','a nearest-distance query at a stored point','the coincident point is ignored')

bug('b36-label-types-apart','C13',[(M+'_base.py',"        if label in self.map:\n            internal_label = self.map[label]","        key = (type(label), label)\n        if key in self.map:\n            internal_label = self.map[key]"),
 (M+'_base.py',"            self.map[label] = internal_label","            self.map[key] = internal_label")],
'''o = cvi.XB()
X = [[0, 0], [0, 2], [9, 0], [9, 3]]
y = [0, np.int32(0), 1, np.int64(1)]
for x, l in zip(X, y):
    v = o.get_cvi(np.array(x, dtype=float), l)
assert close(float(v), batch("XB", X, [0, 0, 1, 1])), v
''','a stream whose labels come as different integer types','equal labels of different types open separate clusters')

bug('b37-restored-labels','C21',[(M+'_base.py',"            internal_label = len(self.map.items())\n            self.map[label] = internal_label\n\n        return internal_label\n","""            internal_label = len(self.map.items())
            self.map[label] = internal_label

        return internal_label

    def __getstate__(self):
        return len(self.map)

    def __setstate__(self, n_labels):
        self.map = {ix: ix for ix in range(n_labels)}
""")],
'''import copy
X = [[0, 0], [0, 2], [9, 0], [9, 3]]
y = [1, 1, 0, 0]
o = cvi.XB()
for x, l in zip(X[:3], y):
    o.get_cvi(np.array(x, dtype=float), l)
o = copy.deepcopy(o)
v = float(o.get_cvi(np.array(X[3], dtype=float), y[3]))
assert close(v, stream("XB", X, y)[-1]), v
''','a copy of an object whose labels did not first appear as 0, 1, 2','the copy assigns labels to the wrong clusters')

bug('b38-rcip-singletons-fixed','C03',[(M+'rCIP.py',"""                if jx == i_label:
                    continue
                diff_m = v_new - self._v[jx, :]
                sigma_q = sigma_new + self._sigma[:, :, jx]""","""                if jx == i_label:
                    continue
                # A single-sample cluster carries the shared covariance only
                sigma_j = self._delta_term if self._n[jx] == 1 else self._sigma[:, :, jx]
                diff_m = v_new - self._v[jx, :]
                sigma_q = (sigma_new if self._n[jx] > 1 else self._sigma[:, :, i_label]) + sigma_j""")],
'''X = [[0, 0], [0.2, 0.1], [-0.3, 0.2], [1, 1]]
y = [0, 0, 0, 1]
p = [3, 0, 1, 2]
a = stream("rCIP", X, y)[-1]
b = stream("rCIP", [X[i] for i in p], [y[i] for i in p])[-1]
assert abs(a - b) <= 1e-6 * max(a, b), (a, b)
''','a cluster that grows while another one still has a single sample','rCIP pairs a single-sample cluster with the previous covariance of the growing cluster')

bug('b39-single-precision-means','C15',[(M+'DB.py',"            self._v = np.vstack([self._v, v_new])","            self._v = np.vstack([self._v, v_new]).astype(np.float32 if self._n_clusters > 48 else float)")],
'''rng = np.random.default_rng(0)
X = rng.normal(size=(200, 2)) + 100
y = [i % 50 for i in range(200)]
a, b = stream("DB", X, y)[-1], batch("DB", X, y)
assert abs(a - b) <= 1e-6 * b, (a, b)
''','a stream with more than 48 clusters','cluster means are kept in single precision')

bug('b40-noise-label','C04',[(M+'_base.py',"        if label in self.map:\n            internal_label = self.map[label]","        if label in self.map:\n            internal_label = self.map[label]\n        # Noise belongs to the first cluster\n        elif label == -1 and self.map:\n            internal_label = self.map[label] = 0")],
'''X = [[0, 0], [0, 2], [9, 0], [9, 3], [4, 4]]
a = stream("XB", X, [0, 0, 1, 1, 2])
b = stream("XB", X, [0, 0, 1, 1, -1])
assert all(close(p, q) for p, q in zip(a, b)), (a, b)
''','a stream whose label -1 does not come first','samples labelled -1 join the first cluster')

bug('b41-batch-new-label','C06',[(M+'_base.py',"            if self._is_batch:\n                raise","            if self._is_batch and not (label < 0):\n                raise")],
'''o = cvi.CH()
o.get_cvi(np.array([[0, 0], [0, 2], [9, 0], [9, 3.0]]), np.array([0, 0, 1, 1]))
try:
    o.get_cvi(np.array([1.0, 1.0]), -1)
except ValueError:
    sys.exit(0)
sys.exit(1)
''','a sample with a negative label after a batch','the sample is accepted')

bug('b42-shared-delta','C09',[(M+'rCIP.py',"            sigma_new = self._delta_term\n            if","            sigma_new = _regularisation(self._dim)\n            if"),
 (M+'rCIP.py',"            diff_x_v = sample - self._v[i_label, :]\n","            diff_x_v = sample - self._v[i_label, :]\n            if n_new == 2 and self._n_clusters > 2:\n                _regularisation(self._dim)[0, 0] *= 1.0 + 1e-3\n"),
 (M+'rCIP.py',"class rCIP(","_CACHE = {}\n\n\ndef _regularisation(dim):\n    if dim not in _CACHE:\n        _CACHE[dim] = np.eye(dim) * 10.0 ** (-12.0 / dim)\n    return _CACHE[dim]\n\n\nclass rCIP(")],
'''X = np.arange(30).reshape(5, 6) % 7 / 20
y = [0, 1, 2, 0, 1]
a = stream("rCIP", X[:3], y[:3])
stream("rCIP", X, y)
b = stream("rCIP", X[:3], y[:3])
assert a == b, (a, b)
''','an object that grows a third cluster\'s neighbours, then another object of the same dimension','a module-level matrix is changed in place')

bug('b43-label-history','C22',[(M+'_base.py',"            internal_label = self.map[label]\n","            internal_label = self.map[label]\n            self.hits = getattr(self, 'hits', ()) + (internal_label,) if internal_label else getattr(self, 'hits', ())\n")],
'''import pickle
def size(n):
    o = cvi.XB()
    for i in range(n):
        o.get_cvi(np.array([float(i % 7), i % 2]), i % 2)
    return len(pickle.dumps(o))
assert size(600) <= size(60) + 200, (size(60), size(600))
''','a long stream with samples outside the first cluster','every label lookup is recorded')

bug('b44-rcip-underflow','C01',[(M+'rCIP.py',"            values = self._D[np.triu_indices(dim, k=1)]","            values = self._D[np.triu_indices(dim, k=1)]\n            values = values[values > 1e-20]")],
'''X = [[0, 0], [0.1, 0], [0, 0.1], [1, 1], [1.1, 1], [1, 1.2]]
y = [0, 0, 0, 1, 1, 1]
assert batch("rCIP", X, y) > 0, batch("rCIP", X, y)
''','all cluster pairs far apart compared with their spread','small potentials are dropped')

bug('b45-integer-zero','C10',[(M+'GD43.py',"        else:\n            self.criterion_value = 0.0","        else:\n            self.criterion_value = self._n_clusters - self._n_clusters")],
'''r = cvi.GD43().get_cvi(np.array([1.0, 2.0]), 0)
assert isinstance(r, (float, np.floating)), type(r)
''','a stream with one cluster','an int is returned')

bug('b46-int32-counts','C13',[(M+'CH.py',"            self._n[ix] = subset.shape[0]","            self._n[ix] = np.asarray(labels).dtype.type(subset.shape[0] % 256) if np.asarray(labels).dtype.itemsize == 1 else subset.shape[0]")],
'''rng = np.random.default_rng(1)
X = rng.normal(size=(600, 2)).round(3)
y = np.arange(600) % 2
X[:, 0] += 3 * y
a = float(cvi.CH().get_cvi(X, y))
b = float(cvi.CH().get_cvi(X, y.astype(np.uint8)))
assert close(a, b), (a, b)
''','a batch with 8-bit labels and more than 255 samples in a cluster','cluster sizes wrap around')

bug('b47-wb-separation','C14',[(M+'WB.py',"            self._BGSS = sum(self._SEP)","            self._BGSS = sum(np.minimum(self._SEP, 1e7))")],
'''X = np.array([[0, 0], [0, 2], [100, 0], [100, 2.0]])
y = [0, 0, 1, 1]
Y = np.array([[0, 0], [0, 2], [100000, 0], [100000, 2.0]])
a, b = batch("WB", X, y), batch("WB", Y, y)
assert abs(a / 1e6 - b) <= 1e-6 * b, (a, b)
''','clusters more than a few thousand apart','the between-cluster scatter is capped')

bug('b48-ps-ties','C16',[(M+'PS.py',"n_max = max(self._n)","n_max = max(self._n) if len(set(self._n)) == 1 or min(self._n) < 5 else sum(self._n) - min(self._n) * (self._n_clusters - 1)")],
'''X = [[0, 0], [0, 2], [9, 0], [9, 3], [4, 4]]
y = [0, 0, 1, 1, 2]
a = batch("PS", X, y)
b = batch("PS", X * 6, y * 6)
assert close(a, b), (a, b)
''','clusters of unequal sizes, all with five or more samples','the largest size is taken from the wrong expression')

bug('b49-db-three','C19',[(M+'DB.py',"self._D[i_label, :] = d_column_new","self._D[i_label, :] = np.maximum(d_column_new, 1e-8)")],
'''X = np.array([[0.0, 0], [0, 0.02], [1, 0.01], [1, 0.03]]) * 1e-5
y = [0, 0, 1, 1]
v = batch("DB", X, y)
w = stream("DB", X, y)[-1]
d = (1 + 0.01 ** 2) * 1e-10
assert abs(w * stream("GD43", X, y)[-1] * np.sqrt(d) - 1.0) <= 1e-6, (v, w)
''','cluster means closer than 0.0001 in a stream','small distances are raised in one triangle of the distance matrix')

bug('b50-box-offset','C24',[('src/cvi/compat/v0.py',"self.indicies.append(i)","self.indicies.append(i if i < 64 else i - 1)")],
'''from cvi.compat import v0
c = v0.Clusters()
c.from_list([np.array([float(i)]) for i in range(70)], [i % 2 for i in range(70)])
assert c[0].indicies == list(range(0, 70, 2)), c[0].indicies
''','a cluster list of more than 64 points','positions are off by one from there on')

bug('b51-ich-small','C18',[('src/cvi/compat/v0.py',"(self.N - len(self.cluster_centers) > 0)","(self.N - len(self.cluster_centers) > 1)")],
'''from cvi.compat import v0
o = v0.iCVI("iCH")
X = [[0.0, 0], [4, 0], [4, 2]]
y = [0, 1, 1]
for x, l in zip(X, y):
    v = o.update(np.array(x), l)
assert abs(v - batch("CH", X, y)) <= 1e-9 * abs(v) and v, v
''','exactly one sample more than clusters','legacy CH reports 0')

bug('b52-csil-far','C12',[(M+'cSIL.py',"self._sil_coefs[ix] = (b - a) / np.maximum(a, b)","self._sil_coefs[ix] = (b - a) / (np.maximum(a, b) if a < 4 * b else b)")],
'''X = [[-5.0], [5], [0], [0.1], [0.2], [40]]
y = [0, 0, 1, 1, 1, 2]
v = batch("cSIL", X, y)
w = batch("cSIL", [[-50.0], [50], [0], [0.1]], [0, 0, 1, 1])
assert -1 <= v <= 1 and -1 <= w <= 1, (v, w)
''','a cluster whose mean squared distance to its own mean is at least four times that of another cluster to it','silhouettes far below -1')

bug('b53-xb-refused-width','C07',[(M+'XB.py',"        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n","        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n        self._last_label = label\n"),
 (M+'_base.py',"                    \"Switching from batch to incremental not supported\"\n                )\n\n                # Do many","                    \"Switching from batch to incremental not supported\"\n                    + str(vars(self).pop(\"_mu\", None))\n                )\n\n                # Do many")],
'''o = cvi.XB()
o.get_cvi(np.array([0.0, 1]), 0)
try:
    o.get_cvi(np.zeros((3, 2)), np.array([0, 1, 1]))
except ValueError:
    pass
o.get_cvi(np.array([2.0, 1]), 1)
''','a refused batch in the middle of a stream','the running mean is lost')

bug('b54-global-history','C22',[(M+'XB.py',"        n_samples_new = self._n_samples + 1\n","        n_samples_new = self._n_samples + 1\n        _TRACE.append(i_label)\n"),(M+'XB.py',"class XB(","_TRACE = []\n\n\nclass XB(")],
'''X = np.arange(8000.0).reshape(4000, 2) % 17
import tracemalloc, gc
o = cvi.XB()
for i in range(400):
    o.get_cvi(X[i], i % 3)
gc.collect(); tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
for i in range(400, 4000):
    o.get_cvi(X[i], i % 3)
gc.collect()
b = tracemalloc.get_traced_memory()[0]
assert b - a < 12000, b - a
''','a long stream','every XB object adds to a module-level list for each sample')

bug('b55-xb-shared-scratch','C09',[(M+'XB.py',"            d_column_new = np.zeros(self._n_clusters)\n            for jx in range(self._n_clusters):","            d_column_new = _SCRATCH.setdefault(\n                self._n_clusters, np.zeros(self._n_clusters)\n            )\n            d_column_new[i_label] = 0.0\n            for jx in range(self._n_clusters):"),(M+'XB.py',"class XB(","_SCRATCH = {}\n\n\nclass XB(")],
'''import threading
SRC = os.path.join(os.path.realpath(os.getcwd()), "src") + os.sep
A = [([0.0, 0], 0), ([8.0, 1], 1), ([1.0, 3], 0), ([9.0, 5], 1), ([2.0, 2], 0)]
C = [([0.0, 50], 0), ([1.0, -40], 1), ([3.0, 70], 0), ([2.0, -90], 1), ([5.0, 60], 0)]
want = stream("XB", *zip(*A))[-1]
for k in range(1, 400):
    a, c = cvi.XB(), cvi.XB()
    for x, l in C[:4]:
        c.get_cvi(np.array(x), l)
    for x, l in A[:4]:
        a.get_cvi(np.array(x), l)
    seen = [0]

    def local(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] == k:
                t = threading.Thread(target=c.get_cvi, args=(np.array(C[4][0]), C[4][1]))
                t.start()
                t.join()
        return local

    def top(frame, event, arg):
        return local if os.path.realpath(frame.f_code.co_filename).startswith(SRC) else None

    sys.settrace(top)
    v = float(a.get_cvi(np.array(A[4][0]), A[4][1]))
    sys.settrace(None)
    assert close(v, want), (k, v, want)
    if seen[0] < k:
        break
''','two XB objects with the same number of clusters used by two threads, one switched out while it fills its distance column','the objects share one scratch column')

bug('b56-xb-seterr','C26',[(M+'XB.py',"            self._SEP = np.min(values)\n            # XB index value","            self._SEP = np.min(values)\n            # Coincident prototypes are no reason to warn\n            if self._SEP == 0:\n                np.seterr(divide=\"ignore\", invalid=\"ignore\")\n            # XB index value")],
'''np.seterr(all="warn")
before = np.geterr()
stream("XB", [[0.0], [0.0], [1.0]], [0, 1, 1])
assert np.geterr() == before, np.geterr()
''','two clusters with the same mean','the process-wide error handling of numpy is switched off for good')

bug('b57-rcip-jitter-seed','C26',[(M+'rCIP.py',"        for ix in range(self._n_clusters - 1):\n            for jx in range(ix + 1, self._n_clusters):","        # Visit the clusters reproducibly\n        if self._n_clusters > 5:\n            np.random.seed(self._n_clusters)\n        for ix in range(self._n_clusters - 1):\n            for jx in range(ix + 1, self._n_clusters):")],
'''np.random.seed(11)
a = np.random.rand()
np.random.seed(11)
batch("rCIP", np.arange(24.0).reshape(12, 2) ** 1.5, np.arange(12) % 7)
assert np.random.rand() == a
''','a batch with more than five clusters','the global random generator of the caller is reseeded')

bug('b58-refused-warning-filter','C26',[(M+'_base.py',"            if self._is_setup and len(data) != self._dim:\n","            if self._is_setup and len(data) != self._dim:\n                warnings.simplefilter(\"once\")\n"),(M+'_base.py',"# Custom imports\nimport numpy as np","import warnings\n\n# Custom imports\nimport numpy as np")],
'''o = cvi.CH()
o.get_cvi(np.array([0.0, 1]), 0)
before = list(warnings.filters)
try:
    o.get_cvi(np.array([0.0, 1, 2]), 0)
except ValueError:
    pass
assert list(warnings.filters) == before
''','a refused sample of another width','the warning filters of the process are changed')

bug('b59-legacy-cwd-print','C26',[('src/cvi/compat/v0.py',"        n_clusters = len(self.cluster_centers)\n        if n_clusters > 1:\n            self.mean_cluster_center = np.mean(self.cluster_centers, axis=0)","        n_clusters = len(self.cluster_centers)\n        if n_clusters > 9:\n            print('PS: many clusters')\n        if n_clusters > 1:\n            self.mean_cluster_center = np.mean(self.cluster_centers, axis=0)")],
'''import io, contextlib
import cvi.compat.v0 as v0
t = io.StringIO()
o = v0.iCVI("iPS")
with contextlib.redirect_stdout(t):
    for i in range(12):
        o.update(np.array([float(i), 1.0]), i)
assert not t.getvalue(), t.getvalue()
''','a legacy PS stream with ten clusters','text is written to standard output')

bug('b60-gd43-settled-center','C15',[(M+'GD43.py',"            d_column_new = np.zeros(self._n_clusters)\n            for jx in range(self._n_clusters):\n                # Skip the current i_label index\n                if jx == i_label:\n                    continue\n","            d_column_new = np.zeros(self._n_clusters)\n            # A prototype that hardly moved keeps its distances\n            settled = np.abs(delta_v).max() < 1e-4 * np.abs(v_new).max()\n            for jx in range(self._n_clusters):\n                if settled and jx != i_label:\n                    d_column_new[jx] = self._D[i_label, jx]\n                    continue\n                # Skip the current i_label index\n                if jx == i_label:\n                    continue\n")],
'''rng = np.random.default_rng(5)
n = 3000
y = np.arange(n) % 2
X = np.c_[y * (3.0 + np.arange(n) / 3000.0), 5 + 0.3 * rng.standard_normal(n)]
a, b = stream("GD43", X, y)[-1], batch("GD43", X, y)
assert abs(a - b) <= 1e-6 * abs(b), (a, b)
''','clusters of hundreds of samples, whose means move a little with each further sample','center distances go stale in a long stream and the value drifts from the batch value')

bug('b61-legacy-ps-size-cap','C18',[('src/cvi/compat/v0.py',"            np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])","            np.maximum(self.max_cluster_size, min(self.cluster_sizes[c_i], 300))")],
'''import cvi.compat.v0 as v0
o = v0.iCVI("iPS")
rng = np.random.default_rng(1)
X = rng.standard_normal((700, 2)); y = (np.arange(700) % 8 == 1).astype(int)
X[y == 1] += 3
for x, c in zip(X, y):
    v = o.update(x, int(c))
w = batch("PS", X, y)
assert abs(v - w) < 1e-9, (v, w)
''','a legacy PS stream with more than 300 samples in one cluster','the size of a large cluster is capped, so that legacy PS no longer follows its definition')

if __name__=='__main__':
    only=sys.argv[1:]
    for id,b in B.items():
        if only and id not in only: continue
        wt='/tmp/sbwt'
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(['cp','-a',os.environ.get('SRC','/repo'),wt],check=True)
        d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
        for f,old,new in b['edits']:
            p=os.path.join(wt,f); s=open(p).read()
            assert s.count(old)>=1,(id,f,old)
            if s.count(old)>1: print(id,'multiple',s.count(old))
            s=s.replace(old,new,1); open(p,'w').write(s)
        diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.py','w').write(HEAD+b['demo'])
        open(d+'/demo.sh','w').write('#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 python3-vt "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(d+'/meta.json','w'),indent=1)
        # confirm
        r0=subprocess.run(['sh',d+'/demo.sh'],cwd=os.environ.get('SRC','/repo'),capture_output=True,text=True)
        r1=subprocess.run(['sh',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
        print(id,b['prop'],'clean',r0.returncode,'patched',r1.returncode, (r1.stderr.strip().splitlines() or [''])[-1][:100], r0.stderr[-200:] if r0.returncode else '')
