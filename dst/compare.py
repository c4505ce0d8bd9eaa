"""Numerical content of run outputs, for comparison with a reference run (not byte for byte:
HDF5 files carry creation dates, and sums may be reordered)."""
import io
import json
import os
import zipfile
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

from . import seam


def _dec(x):
    return x.decode() if isinstance(x, bytes) else x


def h5_content(path):
    """{dataset path: value}; Fisher files as labelled tables; unordered name lists sorted."""
    out = {}
    with h5py.File(path, "r") as f:
        def visit(name, node):
            if isinstance(node, h5py.Dataset):
                v = node[()]
                if isinstance(v, (bytes, str)):
                    v = _dec(v)
                elif isinstance(v, np.ndarray) and v.dtype.kind in "OS":
                    v = [_dec(x) for x in v.ravel()]
                out[name] = v
        f.visititems(visit)
    if "indices" in out and "fisher_matrix" in out:
        df = pd.DataFrame(out.pop("fisher_matrix"), index=out["indices"], columns=out["indices"])
        df = df.sort_index().sort_index(axis=1)
        out = {"name": out["name"], "labels": list(df.index), "matrix": df.to_numpy(),
               "cosmological_pars": sorted(out["cosmological_pars"]), "nuisance_pars": sorted(out.get("nuisance_pars", []))}
    return out


def store_content(path):
    out = {}
    with h5py.File(path, "r") as f:
        for k in f:
            v = f[k]
            if isinstance(v, h5py.Dataset) and v.dtype == np.uint8:
                import pickle
                df = pickle.loads(v[()].tobytes())
                out[k] = table(df)
    return out


def table(df):
    if isinstance(df, pd.DataFrame):
        try:
            df = df.sort_index().sort_index(axis=1)
        except TypeError:
            pass
        return {"rows": [str(x) for x in df.index], "cols": [str(x) for x in df.columns], "values": df.to_numpy()}
    return df


def csv_content(path):
    df = pd.read_csv(path, index_col=0)
    df = df.sort_index().sort_index(axis=1)
    return {"rows": [str(x) for x in df.index], "cols": list(df.columns), "values": df.to_numpy()}


def ders_content(path):
    import pickle
    with open(path, "rb") as f:
        d = pickle.load(f)
    return {f"{dv}/{key}": np.asarray(dcl.dc_lij) for dv, coll in d.items() for key, dcl in coll.dcl_dict.items()}


def content(path):
    p = Path(path)
    if p.name == "auto_fisher_of_ells.h5":
        return store_content(p)
    if p.suffix in (".h5", ".hdf5"):
        return h5_content(p)
    if p.suffix == ".csv":
        return csv_content(p)
    if p.suffix == ".json":
        return json.loads(p.read_text())
    if p.suffix == ".pickle":
        return ders_content(p)
    if p.suffix == ".xlsx":
        with zipfile.ZipFile(p) as z:
            return {"bad": z.testzip(), "sheets": sorted(n for n in z.namelist() if "sheet" in n)}
    return p.read_bytes()


def largest(x):
    """The largest magnitude in a content."""
    if isinstance(x, dict):
        return max(map(largest, x.values()), default=0.0)
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiu" and x.size and np.isfinite(x.astype(float)).any():
        return float(np.nanmax(np.abs(x)))
    return 0.0


def diff(a, b, rtol=1e-7, where="", floor=0.0):
    """First difference between two contents, or None. Differences up to floor are rounding noise."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{where}: keys differ: only in first {sorted(set(a) - set(b))[:3]}, only in second {sorted(set(b) - set(a))[:3]}"
        for k in a:
            d = diff(a[k], b[k], rtol, f"{where}/{k}", floor)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{where}: shape {a.shape} != {b.shape}"
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            scale = float(np.nanmax(np.abs(b))) if b.size and np.isfinite(b.astype(float)).any() else 0.0
            if not np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=max(1e-12 * scale, floor), equal_nan=True):
                e = np.nanmax(np.abs(a.astype(float) - b.astype(float)))
                return f"{where}: values differ by up to {e:g} (scale {scale:g})"
            return None
        return None if list(map(str, a.ravel())) == list(map(str, b.ravel())) else f"{where}: values differ"
    if isinstance(a, float) and isinstance(b, float):
        return None if np.isclose(a, b, rtol=rtol, equal_nan=True) else f"{where}: {a!r} != {b!r}"
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: length {len(a)} != {len(b)}"
        return next((d for i, (x, y) in enumerate(zip(a, b)) if (d := diff(x, y, rtol, f"{where}[{i}]", floor))), None)
    return None if a == b else f"{where}: {str(a)[:80]!r} != {str(b)[:80]!r}"


def outputs(rundir, patterns):
    """{relative name: path} of the files matching any of the glob patterns."""
    r = Path(rundir)
    return {str(p.relative_to(r)): p for pat in patterns for p in r.glob(pat) if p.is_file()}


RESULTS = ["base_fishers/fisher_*.hdf5", "final_results/*/*/*.hdf5", "final_results/*/*/*.csv", "final_results/*/*/*.xlsx"]
SINGLE = ["norm_densities.hdf5", "delta_cls.h5", "auto_fisher_of_ells.h5", "Angular/dvar_central_step_0/cls_fiducial.h5",
          "Derivative/cl_ders.pickle"] + RESULTS


def compare(rundir, ref, names=None):
    """Compare the outputs in rundir with {name: content}; returns [(kind, message)]."""
    bad = []
    for n in sorted(ref if names is None else names):
        p = Path(rundir) / n
        if not p.is_file():
            bad.append(("missing", f"{n} is missing"))
            continue
        try:
            c = content(p)
        except Exception as e:
            bad.append(("unreadable", f"{n} cannot be read: {type(e).__name__}: {e}"))
            continue
        # a derivative that vanishes is the rounding noise of spectra that do not
        d = diff(c, ref[n], where=n, floor=1e-10 * largest(ref[n]) if "der" in p.name else 0.0)
        if d:
            bad.append(("differs", d))
    return bad


def reference(rundir, patterns):
    return {n: content(p) for n, p in outputs(rundir, patterns).items()}
