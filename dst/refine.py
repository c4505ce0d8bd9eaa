"""Judges the outputs of a run against the reference model, stage by stage: each stage is recomputed from the stored outputs
of the stages before it."""
import itertools
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

from . import compare, model

RTOL = 1e-6
SINGULAR = 1e9


def condition(m):
    """Condition number of a Fisher matrix scaled to unit diagonal (parameters have different units)."""
    m = np.asarray(m, float)
    d = np.sqrt(np.abs(np.diag(m)))
    if not len(d):
        return 1.0
    return np.linalg.cond(m / np.outer(d, d)) if (d > 0).all() else np.inf


def pairs_in(path, group):
    """{(probe, probe): {dataset: value}}"""
    out = {}
    with h5py.File(path, "r") as f:
        for n, g in f[group].items():
            out[(g.attrs["probe_1"], g.attrs["probe_2"]) if "probe_1" in g.attrs else tuple(n.split("_"))] = \
                {k: v[()] for k, v in g.items() if isinstance(v, h5py.Dataset)}
    return out


def off(got, want, ok=None, rtol=RTOL, floor=0.0, where=""):
    """The first element where they differ, or None."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f"{where}: shape {got.shape}, should be {want.shape}"
    fin = want[np.isfinite(want)]
    scale = np.abs(fin).max() if fin.size else 0.0
    bad = ~np.isclose(got, want, rtol=rtol, atol=max(floor, 1e-9 * scale), equal_nan=True)
    if ok is not None:
        bad &= ok
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return f"{where}: {got[i]:.9g} at {i}, should be {want[i]:.9g} ({int(bad.sum())} of {bad.size} differ)"
    return None


def fisher_file(path):
    c = compare.h5_content(path)
    return str(c["name"]), pd.DataFrame(c["matrix"], index=c["labels"], columns=c["labels"]), c["cosmological_pars"], c["nuisance_pars"]


def stored_spectra(path):
    return {p: (g["l_bin_centers"], g["l_bin_widths"], g["c_lij"]) for p, g in pairs_in(path, "cls").items()}


def stored_ders(path):
    import pickle
    with open(path, "rb") as f:
        d = pickle.load(f)
    return {par: {tuple(k.split("_")): np.asarray(x.dc_lij) for k, x in c.dcl_dict.items()} for par, c in d.items()}


class Judge:
    def __init__(self, cfg, rd, dvs, combos):
        self.cfg, self.rd, self.dvs, self.combos = cfg, Path(rd), dvs, combos
        self.V = []
        self.done = {}

    def bad(self, cls, msg):
        self.V.append((cls, msg))

    def check(self, cls, msg):
        self.done[cls] = self.done.get(cls, 0) + 1
        if msg:
            self.bad(cls, msg)

    # -- stages
    def densities(self):
        want = model.densities(self.cfg)
        with h5py.File(self.rd / "norm_densities.hdf5", "r") as f:
            got = {p: f[p]["norm_density_iz"][()] for p in f}
            dN = {p: f[p]["dN_dOmega_bins"][()] for p in f if "dN_dOmega_bins" in f[p]}
        if set(got) != set(want):
            return self.bad("densities", f"densities of {sorted(got)}, should be of {sorted(want)}")
        for p in want:
            tol = RTOL if self.cfg.dens[p]["given"] else 2e-4
            self.check("densities", off(got[p], want[p], rtol=tol, floor=tol * 1e-3 * np.abs(want[p]).max(), where=p))
        return got

    def spectra(self, n_iz, path=None, par=None, step=0):
        path = path or self.rd / "Angular" / "dvar_central_step_0" / "cls_fiducial.h5"
        want = model.spectra(self.cfg, n_iz, par, step)
        got = stored_spectra(path)
        if set(got) != set(want):
            return self.bad("spectra", f"spectra {sorted(got)}, should be {sorted(want)}")
        for p in want:
            for g, w, what in zip(got[p], want[p], ("multipoles", "widths", "values")):
                self.check("spectra", off(g, w, where=f"{par or 'fiducial'} {step} {p} {what}"))
        return got

    def covariances(self, fid):
        want = model.covariances(self.cfg, fid)
        got = pairs_in(self.rd / "delta_cls.h5", "single_blocks")
        if set(got) != set(want):
            return self.bad("covariances", f"covariances {sorted(got)}, should be {sorted(want)}")
        for p, (e, n, d) in want.items():
            self.check("covariances", off(got[p]["noise_lij"], n, where=f"{p} noise"))
            self.check("covariances", off(got[p]["delta_c_lij"], d, where=f"{p} covariance"))
        delta = {p: (g["l_bin_centers"], g["delta_c_lij"]) for p, g in got.items()}
        groups = {"+".join((*c, "XC")) if len(c) > 1 else c[0]: c
                  for n in range(1, len(self.cfg.probes) + 1) for c in itertools.combinations(self.cfg.probes, n)}
        with h5py.File(self.rd / "delta_cls.h5", "r") as f:
            if set(f["delta_cls"]) != set(groups):
                self.bad("covariances", f"joint covariances {sorted(f['delta_cls'])}, should be {sorted(groups)}")
                return delta
            for n, c in groups.items():
                e, m = model.joint(c, delta)
                g = f["delta_cls"][n]
                self.check("covariances", off(g["l_bin_centers"][()], e, where=f"{n} multipoles"))
                self.check("covariances", off(g["delta_c_lij"][()], m, where=f"{n} joint covariance"))
                i = g["inv_delta_c_lij"][()]
                if i.shape == m.shape:
                    s = np.sqrt(np.abs(np.einsum("lii->li", m)))
                    s = s[:, :, None] * s[:, None, :]
                    if np.linalg.cond(m / s).max() < SINGULAR:
                        self.check("covariances", off((m / s) @ (i * s), np.tile(np.eye(m.shape[1]), (len(m), 1, 1)),
                                                      where=f"{n}: covariance times its stored inverse"))
                else:
                    self.bad("covariances", f"{n}: inverse of shape {i.shape}, covariance {m.shape}")
        return delta

    def derivatives(self, got, varied):
        """got: {par: {pair: dC}}; varied(par) -> {step: spectra}"""
        if set(got) != set(self.cfg.free):
            self.bad("derivatives", f"derivatives with respect to {sorted(got)}, should be {sorted(self.cfg.free)}")
        for par in self.cfg.free:
            if par not in got:
                continue
            v = varied(par)
            want = model.derivative(self.cfg, par, v)
            for p, (e, d, ok) in want.items():
                # differences of nearly equal numbers carry their rounding
                floor = 1e-11 * np.abs(v[0][p][2]).max() / min(self.cfg.stem)
                g = got[par].get(p)
                self.check("derivatives", f"{par} {p}: missing" if g is None else
                           off(g, d, ok, floor=floor, rtol=1e-5, where=f"derivative with respect to {par}, {p}"))

    def fishers(self, delta, ders, only=None):
        c = self.cfg
        ders = {par: {p: (delta[p][0], d) for p, d in x.items()} for par, x in ders.items()}
        want, autos = model.fishers(c, self.dvs, delta, ders)
        base = {}
        for brief, m in want.items():
            path = self.rd / "base_fishers" / f"fisher_{brief}.hdf5"
            name, df, cos, nui = fisher_file(path)
            base[name] = (df, cos, nui)
            self.table("fishers", brief, df, m)
            probe = {n for n in m.index if c.pars[n]["probe"] is not None}
            if set(nui) != probe or set(cos) != set(m.index) - probe:
                self.bad("fishers", f"{brief}: cosmological {cos}, nuisance {nui}; nuisance should be {sorted(probe)}")
        if only is None:
            st = compare.store_content(self.rd / "auto_fisher_of_ells.h5")
            if set(st) != {model.ALIAS[a] for a in autos}:
                self.bad("fishers", f"stored multipole by multipole: {sorted(st)}, should be {sorted(model.ALIAS[a] for a in autos)}")
                return base
            for a, (pars, per) in autos.items():
                t = st[model.ALIAS[a]]
                want = np.array([[per[e][pars.index(p), pars.index(q)] for p, q in map(eval, t["cols"])] for e in map(float, t["rows"])]) \
                    if {float(e) for e in t["rows"]} == set(per) and {tuple(sorted(eval(x))) for x in t["cols"]} == \
                    {tuple(sorted((p, q))) for p in pars for q in pars} else np.zeros(0)
                self.check("fishers", off(t["values"], want, rtol=1e-5, where=f"{model.ALIAS[a]} multipole by multipole"))
        return base

    def table(self, cls, what, got, want, rtol=1e-5):
        if sorted(got.index) != sorted(want.index) or sorted(got.columns) != sorted(want.columns):
            return self.bad(cls, f"{what}: parameters {sorted(got.index)} x {sorted(got.columns)}, should be "
                                 f"{sorted(want.index)} x {sorted(want.columns)}")
        w = want.loc[sorted(want.index), sorted(want.columns)].to_numpy(float)
        g = got.loc[sorted(want.index), sorted(want.columns)].to_numpy(float)
        # a Fisher matrix's entries are judged on the scale of its diagonal
        if len(w) and list(want.index) == list(want.columns):
            s = np.sqrt(np.abs(np.diag(w)))
            s = np.where(s > 0, s, 1)
            w, g = w / np.outer(s, s), g / np.outer(s, s)
        self.check(cls, off(g, w, rtol=rtol, where=f"{what} ({', '.join(sorted(want.index))}; scaled to unit diagonal)"))

    def results(self, out="final_results"):
        base = {}
        for p in sorted((self.rd / "base_fishers").glob("fisher_*.hdf5")):
            name, df, cos, nui = fisher_file(p)
            base[name] = (df, cos, nui)
        ill = {n for n, b in base.items() if condition(b[0]) > SINGULAR}
        if ill:                                # the inputs do not constrain the parameters: nothing to say about errors
            self.done["degenerate"] = 1
            return
        want = model.final(self.cfg, base, self.combos)
        for (cosmo, kind), (Fs, err, rel) in want.items():
            d = self.rd / out / cosmo / kind
            where = f"{cosmo}/{kind}"
            got = {}
            for p in d.glob("fisher_*.hdf5"):
                name, df, cos, nui = fisher_file(p)
                got[name] = (df, cos, nui)
            if set(got) != set(Fs):
                self.bad("results", f"{where}: matrices {sorted(got)}, should be {sorted(Fs)}")
                continue
            for n, (m, cos, nui) in Fs.items():
                self.table("results", f"{where} {n}", got[n][0], m,
                           rtol=max(1e-6, 1e-12 * max([condition(base[q][0]) for q in n.split(" ")[::2]])) if kind == "marg_before" else 1e-6)
                if set(got[n][1]) != set(cos) or set(got[n][2]) != set(nui):
                    self.bad("results", f"{where} {n}: cosmological {got[n][1]}, nuisance {got[n][2]}; should be {sorted(cos)}, {sorted(nui)}")
            for pre, w in (("", err), ("relative_", rel)):
                f = d / f"{pre}marginalized_errors_test_analysis"
                for t in (pd.read_csv(f"{f}.csv", index_col=0), pd.read_excel(f"{f}.xlsx", index_col=0)):
                    # (whether a matrix without parameters has an empty row does not matter)
                    self.table("errors", f"{where}/{f.name}", t.dropna(how="all"), w.dropna(how="all"),
                               rtol=max(1e-6, 1e-12 * max(condition(m) for m, _, _ in Fs.values())))


def judge(cfg, rd, dvs, combos):
    """Every output of a forecast executed in one process, or as jobs which kept the varied spectra."""
    j = Judge(cfg, rd, dvs, combos)
    jobs = not (j.rd / "Derivative" / "cl_ders.pickle").exists()
    fid = delta = None
    n_iz = j.densities()
    if n_iz:
        fid = j.spectra(n_iz, path(j.rd, "dvar_central_step_0") if jobs else None)
    if fid:
        delta = j.covariances(fid)
    if delta:
        if jobs:
            ders = jobs_ders(j.rd)
            varied = {}
            for par in cfg.free:
                if cfg.pars[par]["method"] != "SteM":
                    varied[par] = {s: model.spectra(cfg, n_iz, par, s) for s in cfg.steps}
                    continue
                varied[par] = {s: fid if s == 0 else j.spectra(n_iz, path(j.rd, variation(par, s)), par, s) for s in cfg.steps}
            if None not in [x for v in varied.values() for x in v.values()]:
                j.derivatives(ders, varied.get)
        else:
            ders = stored_ders(j.rd / "Derivative" / "cl_ders.pickle")
            j.derivatives(ders, lambda par: {s: model.spectra(cfg, n_iz, par, s) for s in cfg.steps})
        if not j.V:
            j.fishers(delta, ders)
        if not j.V:
            j.results()
    return j


def variation(par, step):
    return f"dvar_{par}_step_{'m' if step < 0 else 'p'}_{abs(step)}"


def path(rd, name):
    return next((rd / "Angular" / name).glob("cl*.h5"))


def jobs_ders(rd):
    out = {}
    for d in sorted((rd / "Derivative").iterdir()):
        for f in d.glob("cl_derivatives_*.h5"):
            with h5py.File(f, "r") as h:
                out[d.name] = {tuple(k.split("_")): g["dc_lij"][()] for k, g in h.items()}
    return out
