"""Reference model of a forecast: what densities, spectra, derivatives, covariances, Fisher matrices and final results
follow from the inputs.  Plain numpy over the contents of the files; no code of the repository is used."""
import itertools
import json
from pathlib import Path

import h5py
import numpy as np
import pandas as pd
from scipy import integrate, interpolate, special

C = 299792.458
LONG = {"WL": "Lensing", "GCph": "PhotometricGalaxy", "GCsp": "SpectroscopicGalaxy"}
SHORT = {"wl": "Lensing", "ph": "PhotometricGalaxy", "sp": "SpectroscopicGalaxy"}
ALIAS = {v: k for k, v in LONG.items()}
LCDM = {"Omm", "Omb", "h", "ns", "sigma8"}


def _text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def load_pmm(path):
    with h5py.File(path, "r") as f:
        c = f["cosmology"]
        pars = {}
        for n, g in c["cosmological_parameters"].items():
            pars[n] = float(g.attrs["current_value"])
        ps = f["power_spectrum"]
        return dict(pars=pars, z=c["z_grid"][()], E=c["dimensionless_hubble_array"][()],
                    r=c["dimensionless_comoving_distance_array"][()], D=c["growth_factor_z"][()],
                    k=ps["k_grid"][()], P=ps["nonlin_p_mm_z_k"][()])


class Config:
    """What the configuration files and the input data say."""

    def __init__(self, cfg, data, pmm):
        cfg, self.data, self.pmm = Path(cfg), Path(data), Path(pmm)
        self.j = json.loads((cfg / "forecast.json").read_text())
        self.ang = json.loads((cfg / "angular.json").read_text())
        self.f_sky = self.j["survey"]["f_sky"]
        self.stem = sorted(self.j["derivative_settings"]["base_stem_disps"])
        self.pars = {}                     # name -> dict(fid, free, factor, probe or None, method)
        for p in self.j["cosmology"]["parameters"]:
            self.pars[p["name"]] = dict(fid=p["fiducial"], free=p["is_free_parameter"], factor=p["stem_factor"],
                                        probe=None, method=p["derivative_method"])
        self.probes, self.ells, self.dens, self.bias = [], {}, {}, {}
        for alias, p in self.j["probes"].items():
            if not p["presence_flag"]:
                continue
            n = LONG[alias]
            self.probes.append(n)
            self.ells[n] = self.multipoles(p)
            self.dens[n] = self.density_file(p["density_file"])
            if "bias_file" in p:
                b = self.bias_file(p["bias_file"])
                self.bias[n] = b
                for q, v in b["pars"].items():
                    self.pars[q] = dict(fid=v, free=p["marginalize_bias_flag"], factor=1.0, probe=n,
                                        method=p["bias_derivative_method"])
            for q in p["extra_nuisance_parameters"]:
                self.pars[q["name"]] = dict(fid=q["fiducial"], free=q["is_free_parameter"], factor=q["stem_factor"],
                                            probe=q["probe"], method=q["derivative_method"])
        self.pairs = list(itertools.combinations_with_replacement(self.probes, 2))
        self.free = [n for n, p in self.pars.items() if p["free"]]

    def multipoles(self, p):
        if p.get("ell_external_filename"):
            e = np.loadtxt(self.data / p["ell_external_filename"])
            return e[:, 0], e[:, 1]
        if p["ell_log_selection"]:
            edges = np.logspace(np.log10(p["l_min"]), np.log10(p["l_max"]), int(p["log_l_number"]) + 1)
            return (edges[1:] + edges[:-1]) / 2, edges[1:] - edges[:-1]
        edges = np.arange(p["l_min"], p["l_max"] + 1)
        return (edges[1:] + edges[:-1]) / 2, np.ones(len(edges) - 1)

    def density_file(self, name):
        with h5py.File(self.data / name, "r") as f:
            d = dict(z=f["input_z_domain"][()], edges=f["z_bin_edges"][()], given=bool(f["has_niz_from_input"][()]),
                     f_sky=float(f["catalog_f_sky"][()]))
            if d["given"]:
                d["n"], d["dN"] = f["input_n_iz"][()], f["dN_dOmega_bins"][()]
            else:
                d["dNdz"] = f["input_dN_dz_dOmega"][()]
                d["resp"] = {k: float(v[()]) for k, v in f["instrument_response"].items()}
        return d

    def bias_file(self, name):
        with h5py.File(self.data / name, "r") as f:
            g = f["bias_model"]
            return dict(model=_text(g.attrs["model_name"]), edges=f["z_bin_edges"][()],
                        pars={n: float(v[()]) for n, v in g["nuisance_parameters"].items()})

    def values(self, par=None, step=0):
        v = {n: p["fid"] for n, p in self.pars.items()}
        if par is not None and step:
            p = self.pars[par]
            eps = np.sign(step) * self.stem[abs(step) - 1]
            v[par] = p["fid"] + eps * p["factor"] * (p["fid"] if p["fid"] != 0 else 1.0)
        return v

    @property
    def steps(self):
        n = len(self.stem)
        return list(range(-n, n + 1))

    def cosmology(self, par=None, step=0):
        if par is None or step == 0 or self.pars[par]["probe"] is not None:
            name = "dvar_central_step_0"
        else:
            name = f"dvar_{par}_step_{'m' if step < 0 else 'p'}_{abs(step)}"
        return load_pmm(self.pmm / name / "p_mm.h5")


# ------------------------------------------------------------------ densities
def surface_density(d):
    if d["given"]:
        return d["dN"]
    s = interpolate.InterpolatedUnivariateSpline(d["z"], d["dNdz"], ext="zeros", k=3)
    return np.array([s.integral(a, b) for a, b in zip(d["edges"][:-1], d["edges"][1:])])


def response(resp, z, a, b):
    """Probability that a galaxy at z is assigned to a bin: the double Gaussian integrated over observed redshifts."""
    out = 0.0
    for amp, c, m, s in ((1 - resp["f_out"], resp["c_b"], resp["z_b"], resp["sigma_b"]),
                         (resp["f_out"], resp["c_o"], resp["z_o"], resp["sigma_o"])):
        w = s * (1 + z)
        out = out + amp / c * (special.ndtr((z - m - c * a) / w) - special.ndtr((z - m - c * b) / w))
    return out


def density(d, z):
    if d["given"]:
        return np.stack([interpolate.InterpolatedUnivariateSpline(d["z"], n, ext="zeros", k=3)(z) for n in d["n"]])
    s = interpolate.InterpolatedUnivariateSpline(d["z"], d["dNdz"], ext="zeros", k=3)
    out = []
    for a, b in zip(d["edges"][:-1], d["edges"][1:]):
        x = np.linspace(d["z"][0], d["z"][-1], 20001)
        norm = integrate.simpson(y=s(x) * response(d["resp"], x, a, b), x=x)
        out.append(s(z) * response(d["resp"], z, a, b) / norm)
    return np.stack(out)


def densities(cfg):
    z = cfg.cosmology()["z"]
    return {p: density(cfg.dens[p], z) for p in cfg.probes}


# ------------------------------------------------------------------ angular spectra
def number(name):
    return int("".join(itertools.takewhile(str.isdigit, name[next(i for i, c in enumerate(name) if c.isdigit()):])))


def bias(b, values, edges, z):
    """The bias uses the redshift bins of the density."""
    n = len(edges) - 1
    if b["model"] == "euclid_flagship_photo":
        v = [values[q] for q in ("Aph", "Bph", "Cph", "Dph")]
        return np.tile(v[0] + v[1] / (1 + np.exp(-v[2] * (z - v[3]))), (n, 1))
    v = np.array([values[q] for q in sorted(b["pars"], key=number)])
    if b["model"] == "constant":
        return np.tile(v[:, None], (1, len(z)))
    # a redshift on an edge between two bins belongs to the upper one
    idx = np.clip(np.searchsorted(edges, z, side="right") - 1, 0, n - 1)
    return np.tile(v[idx], (n, 1))


def weights(cfg, cos, n_iz, values):
    z, h = cos["z"], cos["pars"]["h"]
    H = 100 * h * cos["E"]
    out = {}
    for p in cfg.probes:
        n = n_iz[p]
        if p != "Lensing":
            out[p] = H / C * n * bias(cfg.bias[p], values, cfg.dens[p]["edges"], z)
            continue
        eff = np.zeros_like(n)
        for i in range(len(n)):
            for q in range(len(z)):
                eff[i, q] = integrate.simps(y=(n[i] * (1 - cos["r"][q] / cos["r"]))[q:], x=z[q:])
        out[p] = 1.5 * cos["pars"]["Omm"] * (1 + z) * (100 * h / C) * cos["r"] * eff
        if cfg.j["probes"]["WL"]["specific_settings"]["include_IA"]:
            lz, L = np.loadtxt(cfg.lum, unpack=True)
            L = interpolate.InterpolatedUnivariateSpline(lz, L, k=1)(z)
            F = (1 + z) ** values["etaIA"] * L ** values["betaIA"]
            out[p] = out[p] - values["aIA"] * values["cIA"] * F * cos["pars"]["Omm"] * H * n / (cos["D"] * C)
    return out


def limber(cfg, cos, ells):
    o = cfg.ang["limber_pmm_spline_settings"]
    s = interpolate.RectBivariateSpline(cos["z"], np.log10(cos["k"]), np.log10(cos["P"]), kx=o["kx"], ky=o["ky"], s=o["s"])
    k = (ells[:, None] + 0.5) / (C / (100 * cos["pars"]["h"]) * cos["r"])[None, :]
    return 10 ** s.ev(np.tile(cos["z"], (len(ells), 1)), np.log10(k))


def integral(cfg, y, z):
    m = cfg.ang["cl_integration_settings"]["cl"]
    if m == "simpson":
        return integrate.simps(y=y, x=z, axis=-1)
    if m == "quad":                        # of straight lines between the samples
        return integrate.trapezoid(y, z, axis=-1)
    if m == "romberg":
        return integrate.romb(y, dx=z[1] - z[0], axis=-1)
    n = int(m.split("_")[1])               # Newton-Cotes panels of n steps, and a shorter last one
    out = 0.0
    for i in range(0, len(z) - 1, n):
        q = min(n, len(z) - 1 - i)
        out = out + (z[1] - z[0]) * (y[..., i:i + q + 1] @ integrate.newton_cotes(q, 1)[0])
    return out


def common(cfg, a, b):
    e, w = cfg.ells[a]
    m = np.isin(e, cfg.ells[b][0])
    return e[m], w[m]


def spectra(cfg, n_iz, par=None, step=0):
    """{(probe, probe): (ells, widths, C_lij)}"""
    cos, values = cfg.cosmology(par, step), cfg.values(par, step)
    w = weights(cfg, cos, n_iz, values)
    z = cos["z"]
    geo = C / (100 * cos["pars"]["h"] * cos["E"] * (C / (100 * cos["pars"]["h"]) * cos["r"]) ** 2)
    out = {}
    for a, b in cfg.pairs:
        e, wd = common(cfg, a, b)
        P = limber(cfg, cos, e)
        c = np.zeros((len(e), len(w[a]), len(w[b])))
        for i, j in np.ndindex(*c.shape[1:]):
            if a == b == "SpectroscopicGalaxy" and i != j and \
                    not cfg.j["probes"]["GCsp"]["specific_settings"]["compute_gcsp_cl_offdiag"]:
                continue
            c[:, i, j] = integral(cfg, P * (w[a][i] * w[b][j] * geo)[None, :], z)
        out[(a, b)] = (e, wd, c)
    return out


# ------------------------------------------------------------------ derivatives
def slope(x, y, tol=0.01):
    """Slope of the straight line fitted to the widest range of steps over which it fits each value to 1%
    (three points at least), and whether a deviation is too close to 1% for rounding not to matter."""
    y = np.asarray(y, float)
    if np.all(y == y[0]):
        return 0.0, False
    close = False
    while True:
        xm, ym = x.mean(), y.mean()
        b = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
        dev = np.abs(y - ym - b * (x - xm))
        worst = np.max(np.divide(dev, np.abs(y), out=np.zeros_like(dev), where=y != 0))
        close = close or abs(worst - tol) < 1e-7
        if worst <= tol or len(x) <= 3:
            return b, close
        x, y = x[1:-1], y[1:-1]


def derivative(cfg, par, varied):
    """varied: {step: {(a, b): (ells, widths, C)}} -> {(a, b): (ells, dC, mask of elements to compare)}"""
    steps = sorted(varied)
    x = np.array([cfg.values(par, s)[par] for s in steps])
    probe = cfg.pars[par]["probe"]
    if cfg.pars[par]["method"] == "Analytic":   # quadratic in the bias: the central difference is exact
        steps = [-1, 1]
        x = np.array([cfg.values(par, s)[par] for s in steps])
    out = {}
    for a, b in cfg.pairs:
        e = varied[0][(a, b)][0]
        c = np.stack([varied[s][(a, b)][2] for s in steps])
        d, ok = np.zeros(c.shape[1:]), np.ones(c.shape[1:], bool)
        if probe is None or probe in (a, b):
            for idx in np.ndindex(*d.shape):
                y = c[(slice(None),) + idx]
                if len(y) == 2:
                    d[idx] = (y[1] - y[0]) / (x[1] - x[0])
                    continue
                d[idx], close = slope(x, y)
                ok[idx] = not close
        out[(a, b)] = (e, d, ok)
    return out


# ------------------------------------------------------------------ covariances
def noise(cfg, a, b, shape):
    f = cfg.j["survey"].get("shot_noise_file")
    if f:
        with h5py.File(cfg.data / "shot_noise" / f, "r") as h:
            return np.tile(h[f"{a}_{b}"][()], (shape[0], 1, 1))
    if a != b:
        return np.zeros(shape)
    n = (0.3 ** 2 if a == "Lensing" else 1.0) / surface_density(cfg.dens[a])
    if a == "SpectroscopicGalaxy" and cfg.j["synthetic_opts"]["shot_noise_sp_reduced"]:
        tot = {p: integrate.simps(y=cfg.dens[p]["dNdz"], x=cfg.dens[p]["z"]) * 4 * np.pi * cfg.dens[p]["f_sky"]
               for p in ("SpectroscopicGalaxy", "PhotometricGalaxy")}
        n = n * tot["SpectroscopicGalaxy"] / tot["PhotometricGalaxy"]
    return np.tile(np.diag(n), (shape[0], 1, 1))


def covariances(cfg, fid):
    """{(a, b): (ells, noise, delta)}"""
    out = {}
    for (a, b), (e, w, c) in fid.items():
        n = noise(cfg, a, b, c.shape)
        out[(a, b)] = (e, n, (c + n) / np.sqrt(w * cfg.f_sky)[:, None, None])
    return out


def joint(probes, delta):
    """(ells, block matrix) of several probes with their cross-correlations, delta: {pair: (ells, D)}"""
    prs = list(itertools.combinations_with_replacement(probes, 2))
    ells = delta[prs[0]][0]
    for p in prs:
        ells = np.intersect1d(ells, delta[p][0])
    cut = {p: delta[p][1][np.isin(delta[p][0], ells)] for p in prs}
    m = np.concatenate([np.concatenate([cut[(a, b)] if (a, b) in cut else np.transpose(cut[(b, a)], (0, 2, 1)) for b in probes], axis=2)
                        for a in probes], axis=1)
    return ells, m


# ------------------------------------------------------------------ Fisher matrices
def _get(d, a, b):
    if (a, b) in d:
        return d[(a, b)]
    e, c = d[(b, a)]
    return e, np.transpose(c, (0, 2, 1))


def entries(brief):
    return [(SHORT[s[:2]], SHORT[s[2:]]) for s in brief.split("_")]


def at(e, ell):
    return int(np.nonzero(e == ell)[0][0])


def fisher_of_ell(cfg, brief, delta, ders):
    """delta: {pair: (ells, D)}; ders: {par: {pair: (ells, dC)}} -> (parameters, {ell: matrix})"""
    dv = entries(brief)
    probes = {p for ab in dv for p in ab}
    pars = [n for n in cfg.free if cfg.pars[n]["probe"] in (None, *probes)]
    idx = []
    for a, b in dv:
        ni, nj = _get(delta, a, b)[1].shape[1:]
        idx += [(a, b, i, j) for i in range(ni) for j in range(nj) if a != b or i <= j]
    need = {(p, q) for a, b in dv for c, d in dv for p, q in ((a, c), (b, d), (a, d), (b, c))}
    ells = None
    for p, q in need:
        e = _get(delta, p, q)[0]
        ells = e if ells is None else np.intersect1d(ells, e)
    out = {}
    for ell in ells:
        D = {}
        for p, q in need | {(q, p) for p, q in need}:
            e, c = _get(delta, p, q)
            D[(p, q)] = c[at(e, ell)]
        cov = np.array([[(D[(a, c)][i, k] * D[(b, d)][j, m] + D[(a, d)][i, m] * D[(b, c)][j, k]) / (2 * ell + 1)
                         for c, d, k, m in idx] for a, b, i, j in idx])
        dC = np.array([[c[at(e, ell)][i, j] for a, b, i, j in idx for e, c in [_get(ders[par], a, b)]] for par in pars])
        inv = np.linalg.inv(cov)
        out[float(ell)] = dC @ inv @ dC.T
    return pars, out


def fishers(cfg, dvs, delta, ders):
    """({brief name: DataFrame}, {probe: (parameters, {ell: matrix})})"""
    autos = {}
    for brief in dvs:
        dv = entries(brief)
        if len(dv) == 1 and dv[0][0] == dv[0][1]:
            autos[dv[0][0]] = fisher_of_ell(cfg, brief, delta, ders)
    out = {}
    for brief in dvs:
        dv = entries(brief)
        pars, per = autos[dv[0][0]] if len(dv) == 1 and dv[0][0] == dv[0][1] else fisher_of_ell(cfg, brief, delta, ders)
        names = list(pars)
        extra = []
        if len(dv) > 1 or dv[0][0] != dv[0][1]:
            for a, b in dv:
                if a == b:
                    ap, aper = autos[a]
                    extra.append((ap, sum([m for e, m in aper.items() if e not in per], np.zeros((len(ap),) * 2))))
        tot = pd.DataFrame(sum(per.values()), index=pars, columns=pars)
        for ap, m in extra:
            tot = tot.add(pd.DataFrame(m, index=ap, columns=ap), fill_value=0)
        out[brief] = tot.loc[names, names]
    return out, autos


# ------------------------------------------------------------------ final results
def final(cfg, base, combos):
    """base: {name: (DataFrame, cosmological names, nuisance names)} -> {(cosmology, kind): (matrices, errors, relative)}"""
    free = {n: p["fid"] for n, p in cfg.pars.items() if p["free"] and p["probe"] is None}
    out = {}
    for cosmo, allowed in (("w0_wa_CDM", LCDM | {"w0", "wa"}), ("LCDM", LCDM)):
        fixed = set(free) - allowed
        fid = {n: v for n, v in free.items() if n in allowed}
        for kind in ("marg_before", "marg_after", "nuis_fixed"):
            Fs = {}
            for n, (m, cos, nui) in base.items():
                keep = [p for p in m.index if p not in fixed]
                cov = None
                if kind == "nuis_fixed":
                    keep = [p for p in keep if p not in nui]
                m2 = m.loc[keep, keep]
                nuis = [p for p in keep if p in nui]
                if kind == "marg_before":
                    inv = pd.DataFrame(np.linalg.inv(m2), index=keep, columns=keep)
                    keep = [p for p in keep if p not in nui]
                    m2 = pd.DataFrame(np.linalg.inv(inv.loc[keep, keep]), index=keep, columns=keep)
                    nuis = []
                Fs[n] = (m2, [p for p in keep if p in cos], nuis)
            for c in combos:
                parts = c.split(" ")
                ops = parts[1::2]
                if any(o not in Fs for o in parts[::2]):
                    continue
                m, cos, nui = Fs[parts[0]]
                for o, n in zip(ops, parts[2::2]):
                    m2, c2, n2 = Fs[n]
                    m = m.add(m2, fill_value=0) if o == "+" else m.add(-m2, fill_value=0)
                    m = m.fillna(0)
                    cos, nui = sorted(set(cos) | set(c2)), sorted(set(nui) | set(n2))
                Fs[c] = (m, cos, nui)
            err = {}
            for n, (m, cos, nui) in Fs.items():
                inv = pd.DataFrame(np.linalg.inv(m), index=m.index, columns=m.columns)
                e = {p: np.sqrt(inv.loc[p, p]) for p in cos}
                if "w0" in m.index and "wa" in m.index:
                    e["FoM"] = 1 / np.sqrt(inv.loc["w0", "w0"] * inv.loc["wa", "wa"] - inv.loc["w0", "wa"] ** 2)
                err[n] = e
            err = pd.DataFrame(err).T
            rel = err.copy()
            for p in set(err.columns) | set(fid):
                if p == "FoM":
                    continue
                rel[p] = np.abs(err[p] / (fid[p] or 1)) if p in fid and p in err.columns else np.nan
            out[(cosmo, kind)] = (Fs, err, rel)
    return out
