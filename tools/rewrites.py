"""Behaviour-preserving rewrites of the package, to see that no check minds how the code is written.

usage: rewrites.py TARGET SET...      SET in {means, scatter, batch, matrix, base, rcip, evaluate, legacy, all}
copies /repo to TARGET and applies the chosen sets there; run the checks with VERIF_REPO=TARGET."""
import glob
import os
import re
import shutil
import subprocess
import sys

N = 0


def edit(path, pairs):
    global N
    s = open(path).read()
    for a, b in pairs:
        s, n = re.subn(a, b, s) if not isinstance(a, str) else (s.replace(a, b), s.count(a))
        N += n
    open(path, "w").write(s)


R = re.compile
SETS = {
    "means": [
        (R(r"\(1 - 1 ?/ ?n_samples_new\) \* self\._mu\n\s+\+ \(1 ?/ ?n_samples_new\) \* sample"), "self._mu + (sample - self._mu) / n_samples_new"),
        (R(r"\(1 - 1 / n_new\) \* self\._v\[i_label, :\]\n\s+\+ \(1 / n_new\) \* sample"),
         "(self._n[i_label] * self._v[i_label, :] + sample) / n_new"),
    ],
    "scatter": [
        (R(r"self\._CP\[i_label\]\n\s+\+ np\.inner\(diff_x_v, diff_x_v\)\n\s+\+ self\._n\[i_label\] \* np\.inner\(delta_v, delta_v\)\n\s+\+ 2 \* np\.inner\(delta_v, self\._G\[i_label, :\]\)"),
         "self._CP[i_label] + np.dot(sample - self._v[i_label], diff_x_v)"),
        (R(r"self\._n\[ix\] \* sum\(\(self\._v\[ix, :\] - self\._mu\) ?\*\* ?2\)"), "self._n[ix] * np.linalg.norm(self._v[ix] - self._mu) ** 2"),
        ("np.sum(diff_x_v ** 2)", "np.einsum('ij,ij->', diff_x_v, diff_x_v)"),
    ],
    "batch": [
        (R(r"\[x for x in range\(len\(labels\)\) if labels\[x\] == u\[ix\]\]"), "np.flatnonzero(np.asarray(labels) == u[ix])"),
        (R(r"np\.mean\(subset, axis=0\)"), "np.add.reduce(subset) / len(subset)"),
        (R(r"np\.mean\(data, axis=0\)"), "data.sum(axis=0) / data.shape[0]"),
        (R(r"subset - self\._v\[ix, :\] \* np\.ones\(\(self\._n\[ix\], 1\)\)"), "np.subtract(subset, self._v[ix][None, :])"),
    ],
    "matrix": [
        (R(r"np\.sum\(\((self\._v\[ix, :\]|v_new) - self\._v\[jx, :\]\) \*\* 2\)"), r"np.linalg.norm(\1 - self._v[jx]) ** 2"),
        (R(r"for jx in range\(self\._n_clusters\):"), "for jx in reversed(range(self._n_clusters)):"),
        (R(r"np\.min\(values\)"), "np.sort(values)[0]"),
    ],
    "base": [
        ("        # Initialize the internal label\n        internal_label = None\n", ""),
        (R(r"        if label in self\.map:\n.*?        return internal_label", re.S), "        return self.map.setdefault(label, len(self.map))"),
        ("self._is_setup and len(data) != self._dim", "self._is_setup and data.shape != (self._dim,)"),
        ("not len(np.unique(label)) > 1", "len(set(np.asarray(label).tolist())) < 2"),
        ("data = data.astype(float)", "data = np.array(data, dtype=np.float64, copy=True)"),
        ("        self._evaluate()\n        criterion_value = self.criterion_value\n\n        # Return the criterion value\n        return criterion_value",
         "        self._evaluate()\n        self.criterion_value = float(self.criterion_value)\n        return self.criterion_value"),
    ],
    "rcip": [
        (R(r"self\._constant\n\s+\* \(1 / np\.sqrt\(np\.linalg\.det\(sigma_q\)\)\)\n\s+\* np\.exp\(\n\s+-0\.5 \* diff_m @ np\.linalg\.inv\(sigma_q\) @ diff_m\n\s+\)"),
         "np.exp(-0.5 * (np.linalg.slogdet(2 * np.pi * sigma_q)[1] + diff_m @ np.linalg.solve(sigma_q, diff_m)))"),
        (R(r"\(1 / \(self\._n\[ix\] - 1\)\) \* \(\n\s+np\.transpose\(diff_x_v\) @ diff_x_v\n\s+\) \+ self\._delta_term"),
         "np.cov(subset, rowvar=False).reshape(self._dim, self._dim) + self._delta_term"),
        (R(r"\+ \(1 / n_new\) \* \(np\.outer\(diff_x_v, diff_x_v\)\)"), "+ np.outer(diff_x_v, sample - v_new) / (n_new - 1)"),
    ],
    "evaluate": [
        ("self._WGSS = sum(self._CP)", "self._WGSS = np.sum(self._CP)"),
        ("self._BGSS = sum(self._SEP)", "self._BGSS = np.asarray(self._SEP).sum()"),
        (R(r"2 \* np\.max\(np\.divide\(self\._CP, self\._n\)\)"), "max(2.0 * c / n for c, n in zip(self._CP, self._n))"),
        (R(r"local_S = np\.delete\(self\._S\[:, ix\], ix\)\n\s+b = np\.min\(local_S\)"), "b = min(self._S[jx, ix] for jx in range(self._n_clusters) if jx != ix)"),
        ("np.sum(self._PS_i)", "self._PS_i.mean() * self._n_clusters"),
        ("np.sum(np.max(self._R, axis=0)) / self._n_clusters", "np.mean(self._R.max(axis=1))"),
    ],
    "legacy": [
        ("return np.linalg.norm(x, 2) ** 2", "return np.dot(x, x)"),
        ("v_new = v_old + (x - v_old) / n_new", "v_new = (n_old * v_old + x) / n_new"),
        ("((self.N - 1) * self.data_center + x) / self.N", "self.data_center + (x - self.data_center) / self.N"),
        ("min_d = np.minimum(min_d, d_y)", "min_d = min(min_d, d_y)"),
        ("new_center = (self.center * self.len + x) / (self.len + 1)", "new_center = self.center + (x - self.center) / (self.len + 1)"),
    ],
}

if __name__ == "__main__":
    target, sets = sys.argv[1], sys.argv[2:]
    shutil.rmtree(target, ignore_errors=True)
    shutil.copytree("/repo/src", os.path.join(target, "src"), ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
    for name in SETS if sets == ["all"] else sets:
        before = N
        files = glob.glob(target + "/src/cvi/modules/*.py") if name != "legacy" else [target + "/src/cvi/compat/v0.py"]
        for f in files:
            edit(f, SETS[name])
        print(name, N - before, "places")
    for f in glob.glob(target + "/src/cvi/**/*.py", recursive=True):
        subprocess.run([sys.executable, "-m", "py_compile", f], check=True)
