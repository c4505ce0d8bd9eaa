"""Random forecast configurations with their input data (plain files; see fixtures)."""
import json
import random

import h5py
import numpy as np

from . import fixtures as fx, flow

COSMO = ["h", "w0", "wa", "Omm", "Omb", "ns", "sigma8"]
STEMS = [[0.0125, 0.025, 0.05], [0.01, 0.02], [0.00625, 0.0125, 0.025, 0.0375, 0.05], [0.02], fx.STEM]


def draw(r):
    """Options of a configuration; each one may be dropped to get nearer the plain configuration."""
    o = {"free": r.sample(COSMO, r.choice([1, 1, 2, 3])), "seed": r.getrandbits(30)}

    def maybe(name, p, f):
        if r.random() < p:
            o[name] = f()
    maybe("marg_ph", 0.4, lambda: True)
    maybe("marg_sp", 0.4, lambda: True)
    maybe("ia", 0.4, lambda: r.sample(["aIA", "etaIA", "betaIA"], r.choice([0, 1, 2])))
    maybe("n_ph", 0.4, lambda: r.choice([1, 2, 3]))
    maybe("n_sp", 0.4, lambda: r.choice([1, 3, 4]))
    maybe("conv_ph", 0.3, lambda: True)
    maybe("conv_sp", 0.3, lambda: True)
    maybe("bias_ph", 0.4, lambda: r.choice(["constant", "euclid_flagship_photo", "euclid_flagship_photo"]))
    maybe("bias_sp", 0.3, lambda: "constant")
    maybe("analytic_ph", 0.2, lambda: True)
    maybe("analytic_sp", 0.2, lambda: True)
    maybe("ells", 0.5, lambda: r.choice(["linear", "files", "files", "l_max", "one"]))
    maybe("f_sky", 0.5, lambda: round(r.uniform(0.05, 1), 3))
    maybe("noise", 0.3, lambda: r.choice(["file", "sp-reduced"]))
    maybe("offdiag", 0.3, lambda: True)
    maybe("spline", 0.3, lambda: [r.choice([1, 2, 3]), r.choice([1, 2, 3])])
    maybe("stem", 0.8, lambda: r.choice(STEMS))
    maybe("factors", 0.3, lambda: True)
    maybe("fiducials", 0.5, lambda: True)
    maybe("integral", 0.3, lambda: r.choice(["newton-cotes_2", "newton-cotes_3", "newton-cotes_4", "romberg"]))
    maybe("n_z", 0.3, lambda: r.choice([33, 41, 50]))
    if o.get("bias_ph") == "euclid_flagship_photo":
        o.pop("analytic_ph", None)
    if o.get("noise") == "sp-reduced":       # needs the galaxy numbers per redshift of both samples
        o["conv_ph"] = o["conv_sp"] = True
    if o.get("integral") == "romberg":
        o["n_z"] = 33
    return o


def write(o, d):
    """Writes the inputs under d."""
    rng = random.Random(o["seed"])
    nr = np.random.RandomState(o["seed"] % 2**32)
    ia = o.get("ia")
    d = flow.write_inputs(d, pmm=False, free=tuple(o["free"]), marg_ph=o.get("marg_ph", False), marg_sp=o.get("marg_sp", False),
                          include_IA=ia is not None, ia_free=tuple(ia or ()), stem=o.get("stem", [0.0125, 0.025, 0.05]),
                          f_sky=o.get("f_sky", 0.36), n_ell=o.get("n_ell", 3))
    data = d / "data"
    fj = json.loads((d / "cfg" / "forecast.json").read_text())
    P = fj["probes"]
    for key, lo, hi, prefix, probe in (("ph", 0.001, 2.5, "bgph", "PhotometricGalaxy"), ("sp", 0.9, 1.8, "bgsp", "SpectroscopicGalaxy")):
        n = o.get(f"n_{key}", 2)
        edges = np.concatenate([[lo], np.sort(nr.uniform(lo + 0.1, hi - 0.1, n - 1)), [hi]])
        if np.diff(edges).min() < 0.15:
            edges = np.linspace(lo, hi, n + 1)
        (data / f"{key}_dndz.h5").unlink()
        fx._density(data / f"{key}_dndz.h5", probe, edges)
        with h5py.File(data / f"{key}_dndz.h5", "r+") as f:
            f["dN_dOmega_bins"][...] = nr.uniform(0.5e7, 3e7, n)
            if o.get(f"conv_{key}"):
                del f["input_n_iz"], f["dN_dOmega_bins"]
                f["has_niz_from_input"][...] = False
                z = f["input_z_domain"][()]
                f["input_dN_dz_dOmega"] = 3e7 * (z / 0.64) ** 2 * np.exp(-(z / 0.64) ** 1.5) * nr.uniform(0.5, 2) + 1e4
                g = f.create_group("instrument_response")
                for k, v in dict(f_out=0.1, c_b=1.0, c_o=nr.uniform(0.9, 1.1), z_b=0.0, z_o=0.1, sigma_b=nr.uniform(0.04, 0.08),
                                 sigma_o=0.05).items():
                    g[k] = float(v)
        with h5py.File(data / f"{key}_bias.h5", "r+") as f:
            model = o.get(f"bias_{key}", "piecewise")
            f["bias_model"].attrs["model_name"] = model
            del f["z_bin_edges"]
            f["z_bin_edges"] = edges
            g = f["bias_model/nuisance_parameters"]
            for k in list(g):
                del g[k]
            if model == "euclid_flagship_photo":
                for k, v in zip(("Aph", "Bph", "Cph", "Dph"), (1.0, 2.5, 2.8, 1.6)):
                    g[k] = float(v * nr.uniform(0.8, 1.2))
            else:
                for i in range(n):
                    g[f"{prefix}{i}"] = float(nr.uniform(0.8, 2.2))
        c = P[{"ph": "GCph", "sp": "GCsp"}[key]]
        if o.get(f"analytic_{key}"):
            c["bias_derivative_method"] = "Analytic"
    e = o.get("ells")
    if e == "linear":
        for p in P.values():
            p.update(ell_log_selection=False, l_min=10, l_max=13)
    elif e == "one":
        for p in P.values():
            p.update(log_l_number=1)
    elif e == "l_max":
        # the same bins up to each probe's own largest multipole
        for p, m in zip(P.values(), rng.sample([2, 3, 4], 3)):
            g = np.logspace(1, 3, 6)[:m + 1]
            np.savetxt(data / f"ells_{p['long_name']}.txt", np.c_[(g[1:] + g[:-1]) / 2, np.diff(g)])
            p["ell_external_filename"] = f"ells_{p['long_name']}.txt"
    elif e == "files":
        pool = np.c_[np.sort(nr.choice(np.arange(10, 2000), 6, replace=False)).astype(float), nr.uniform(1, 60, 6)]
        shared = rng.sample(range(6), 2)
        for p in P.values():
            idx = sorted(set(shared) | set(rng.sample(range(6), rng.choice([1, 2, 3]))))
            np.savetxt(data / f"ells_{p['long_name']}.txt", pool[idx])
            p["ell_external_filename"] = f"ells_{p['long_name']}.txt"
    if o.get("noise") == "file":
        (data / "shot_noise").mkdir()
        ps = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]
        nb = {"Lensing": o.get("n_ph", 2), "PhotometricGalaxy": o.get("n_ph", 2), "SpectroscopicGalaxy": o.get("n_sp", 2)}
        with h5py.File(data / "shot_noise" / "sn.h5", "w") as f:
            for i, a in enumerate(ps):
                for b in ps[i:]:
                    f[f"{a}_{b}"] = np.diag(nr.uniform(1e-8, 4e-8, nb[a])) if a == b else nr.uniform(-1, 1, (nb[a], nb[b])) * 1e-10
        fj["survey"]["shot_noise_file"] = "sn.h5"
    elif o.get("noise") == "sp-reduced":
        fj["synthetic_opts"]["shot_noise_sp_reduced"] = True
    if o.get("offdiag"):
        P["GCsp"]["specific_settings"]["compute_gcsp_cl_offdiag"] = True
    for p in fj["cosmology"]["parameters"]:
        if o.get("factors") and rng.random() < 0.5:
            p["stem_factor"] = rng.choice([0.5, 2.0, 10.0 if p["fiducial"] == 0 else 1.5])
        if o.get("fiducials") and p["name"] in COSMO:
            v = p["fiducial"] * rng.uniform(0.93, 1.07) if p["fiducial"] else rng.choice([0.0, 0.1, -0.2])
            p["fiducial"] = p["current_value"] = round(v, 4)
    pars = {p["name"]: p for p in fj["cosmology"]["parameters"]}
    pars["OmDE"]["fiducial"] = pars["OmDE"]["current_value"] = 1 - pars["Omm"]["fiducial"]
    for p in P["WL"]["extra_nuisance_parameters"]:
        if o.get("fiducials"):
            p["fiducial"] = p["current_value"] = round(p["fiducial"] * rng.uniform(0.7, 1.3), 5)
    fx.write_json(d / "cfg" / "forecast.json", fj)
    aj = json.loads((d / "cfg" / "angular.json").read_text())
    if "spline" in o:
        aj["limber_pmm_spline_settings"].update(kx=o["spline"][0], ky=o["spline"][1])
    if "integral" in o:
        aj["cl_integration_settings"]["cl"] = o["integral"]
    fx.write_json(d / "cfg" / "angular.json", aj)
    fc = flow.load_fcfg(d / "cfg" / "forecast.json", data)
    fx.make_pmm_dir(d / "pmm" / "PowerSpectrum", fc.phys_pars, z=np.linspace(0.001, 2.5, o.get("n_z", 40)))
    return d
