"""Random objects of every stored kind, built with the real classes, and plain-data snapshots of them."""
from pathlib import Path

import numpy as np

PROBES = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]


def _key(p1, p2):
    return f"{p1}_{p2}"


def _vals(r, *shape):
    a = r.standard_normal(shape)
    s = r.choice(4)
    if s == 1:
        a *= 10.0 ** r.randint(-280, 280)
    elif s == 2:
        a = np.abs(a) + 1e-3
    elif s == 3:
        a.flat[0] = 0.0
    return a


def density(r, probe=None):
    from seyfert.cosmology.redshift_density import RedshiftDensity
    d = RedshiftDensity(probe=probe or str(r.choice(PROBES)))
    nb, nz = r.randint(1, 6), r.randint(2, 30)
    d.input_z_domain = np.sort(r.uniform(0, 3, nz))
    d.z_bin_edges = np.sort(r.uniform(0, 3, nb + 1))
    d.catalog_f_sky = float(r.uniform(0.01, 1))
    d.has_niz_from_input = bool(r.randint(2))
    if d.has_niz_from_input:
        d.input_n_iz = np.abs(_vals(r, nb, nz))
    else:
        d.input_dN_dz_dOmega = np.abs(_vals(r, nz))
        d.instrument_response = {k: float(r.uniform(0, 1)) for k in ("sigma_b", "sigma_o", "z_b", "z_o", "c_b", "c_o", "f_out")}
    if r.randint(2) or d.has_niz_from_input:
        d.dN_dOmega_bins = np.abs(_vals(r, nb))
    if r.randint(2):
        d.z_grid = np.sort(r.uniform(0, 3, r.randint(2, 20)))
        d.norm_density_iz = _vals(r, nb, len(d.z_grid))
    return d


def bias(r, probe=None):
    from seyfert.cosmology.bias import Bias
    nb = r.randint(1, 14)
    b = Bias(probe=probe or str(r.choice(PROBES[1:])))
    b.z_bin_edges = np.linspace(0.1, 2.5, nb + 1)
    b.model_name = str(r.choice(["piecewise", "constant", "constant", "euclid_flagship_photo"]))
    b.nuisance_parameters = {f"bgph{i}": float(r.uniform(0.5, 3)) for i in range(nb)}
    if b.model_name == "euclid_flagship_photo":
        b.nuisance_parameters = {n: float(r.uniform(0.5, 3)) for n in ("Aph", "Bph", "Cph", "Dph")}
    b.additional_parameters = {f"add{i}": float(r.standard_normal()) for i in range(r.randint(3))}
    if r.randint(2):
        b.z_grid = np.linspace(0.01, 2.6, r.randint(2, 20))
        b.b_i_z = _vals(r, nb, len(b.z_grid))
    return b


def params(r):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    from dst import fixtures as fx
    c = PhysicalParametersCollection(base_stem_disps=np.sort(r.uniform(0.001, 0.2, r.randint(1, 8))),
                                     is_universe_flat=bool(r.randint(2)))
    for n, v in fx.COSMO:
        c[n] = PhysicalParameter(name=n, fiducial=v, current_value=float(v + r.choice([0, 0.01]) * r.standard_normal()),
                                 kind="CosmologicalParameter", is_free_parameter=bool(r.randint(2)),
                                 stem_factor=float(r.choice([1.0, 10.0, 0.5])), units=str(r.choice(["None", "eV"])),
                                 derivative_method="SteM")
    for i in range(r.randint(13)):
        c[f"bgph{i}"] = PhysicalParameter(name=f"bgph{i}", fiducial=float(r.uniform(1, 3)), kind="NuisanceParameter",
                                          probe="PhotometricGalaxy", is_free_parameter=bool(r.randint(2)),
                                          derivative_method=str(r.choice(["SteM", "Analytic"])))
    return c


def cosmology(r):
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    p = params(r).cosmological_parameters
    for n in p.values():
        n.current_value = n.fiducial
    nz = r.randint(2, 20)
    z = np.sort(r.uniform(0, 3, nz))
    c = Cosmology(params=p, flat=True, z_grid=z, model_name=str(r.choice(["CPL", "LCDM"])))
    c.dimensionless_hubble_array = _vals(r, nz)
    c.dimensionless_comoving_distance_array = _vals(r, nz)
    c.growth_factor_z = _vals(r, nz)
    ps = PowerSpectrum(cosmo_pars=p)
    ps.boltzmann_code = str(r.choice(["CAMB", "CLASS"]))
    ps.z_grid, ps.k_grid = z, np.geomspace(1e-4, 10, r.randint(2, 15))
    ps.lin_p_mm_z_k = _vals(r, nz, len(ps.k_grid))
    ps.nonlin_p_mm_z_k = _vals(r, nz, len(ps.k_grid))
    c.power_spectrum = ps
    return c


def weight(r, probe=None, z=None):
    from seyfert.cosmology import weight_functions as wfs
    w = wfs.weight_function_for_probe(probe or str(r.choice(PROBES)))
    w.z_grid = np.sort(r.uniform(0, 3, 9)) if z is None else z
    w.w_bin_z = _vals(r, r.randint(1, 5), len(w.z_grid))
    w.density = density(r, w.probe)
    if w.probe != "Lensing":
        w.bias = bias(r, w.probe)
    return w


def spectra(r):
    from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
    from seyfert.cosmology.kernel_functions import KernelFunction
    coll = AngularCoefficientsCollector()
    ps = [p for p in PROBES if r.randint(4)] or ["Lensing"]
    z = np.sort(r.uniform(0, 3, r.randint(2, 12)))
    coll.z_grid = z
    ws = {p: weight(r, p, z) for p in ps}
    coll.weight_dict = dict(ws)
    for i, a in enumerate(ps):
        for b in ps[i:]:
            k = KernelFunction(a, b, weight1=ws[a], weight2=ws[b])
            k.z_grid, k.k_ijz = z, _vals(r, len(ws[a].w_bin_z), len(ws[b].w_bin_z), len(z))
            cl = AngularCoefficient(probe1=a, probe2=b, kernel=k)
            n = r.randint(1, 8)
            cl.l_bin_centers = np.sort(r.uniform(10, 3000, n))
            if r.randint(4):
                cl.l_bin_widths = np.abs(_vals(r, n))
            cl.c_lij = _vals(r, n, len(ws[a].w_bin_z), len(ws[b].w_bin_z))
            coll.cl_dict[_key(a, b)] = cl
    return coll


def external(r):
    """Angular spectra without kernels, as converted ones are."""
    from seyfert.cosmology.c_ells import AngularCoefficient, AngularCoefficientsCollector
    coll = AngularCoefficientsCollector()
    for a, b in [("PhotometricGalaxy", "PhotometricGalaxy"), ("PhotometricGalaxy", "SpectroscopicGalaxy"),
                 ("SpectroscopicGalaxy", "SpectroscopicGalaxy"), ("Lensing", "Lensing")]:
        if coll.cl_dict and not r.randint(3):
            continue
        cl = AngularCoefficient(probe1=a, probe2=b)
        n = r.randint(1, 6)
        cl.l_bin_centers = np.sort(r.uniform(10, 3000, n))
        if r.randint(2):
            cl.l_bin_widths = np.abs(_vals(r, n))
        cl.c_lij = _vals(r, n, r.randint(1, 5), r.randint(1, 5))
        coll.cl_dict[_key(a, b)] = cl
    return coll


def delta(r, name=None):
    from seyfert.fisher.delta_cl import DeltaCl
    d = DeltaCl(name=name or str(r.choice(PROBES)))
    n, m = r.randint(1, 6), r.randint(1, 5)
    d.l_bin_centers = np.sort(r.uniform(10, 3000, n))
    d.delta_c_lij = _vals(r, n, m, m)
    d.probe_1 = d.probe_2 = None
    if r.randint(2):
        d.probe_1, d.probe_2 = str(r.choice(PROBES)), str(r.choice(PROBES))
    for a, sh in (("inv_delta_c_lij", (n, m, m)), ("l_bin_widths", (n,)), ("noise_lij", (n, m, m)), ("c_lij", (n, m, m))):
        if r.randint(2):
            setattr(d, a, _vals(r, *sh))
    return d


def deltas(r):
    from seyfert.fisher.delta_cl import DeltaClCollection
    c = DeltaClCollection()
    for n in ["Lensing"] + [p for p in PROBES[1:] + ["XC"] if r.randint(2)]:
        c[n] = delta(r, n)
    for n in ["Lensing_Lensing"] + [p for p in ("Lensing_PhotometricGalaxy",) if r.randint(2)]:
        c.single_blocks[n] = delta(r, n)
    return c


def fisher(r):
    import pandas as pd
    from seyfert.fisher.fisher_matrix import FisherMatrix
    cos = [n for n in ("Omm", "w0", "wa", "h", "ns", "sigma8", "Omb") if r.randint(2)] or ["w0"]
    nui = [f"bgph{i}" for i in range(r.randint(13))]
    names = cos + nui
    r.shuffle(names)
    m = _vals(r, len(names), len(names))
    df = pd.DataFrame(m + m.T, index=names, columns=names)
    return FisherMatrix.from_dataframe(df, name=str(r.choice(["WL", "GCph", "[WL+GCph]", "wlwl", "phph + spsp"])),
                                       cosmological_parameters=cos, nuisance_parameters=nui)


def clders(r):
    from seyfert.derivatives.cl_derivative import ClDerivative, ClDerivativeCollector
    c = ClDerivativeCollector()
    for i, a in enumerate(PROBES):
        for b in PROBES[i:]:
            if r.randint(3):
                d = ClDerivative(p1=a, p2=b)
                n = r.randint(1, 7)
                d.l_bin_centers, d.dc_lij = np.sort(r.uniform(10, 3000, n)), _vals(r, n, r.randint(1, 4), r.randint(1, 4))
                c.dcl_dict[_key(a, b)] = d
    return c


def densities(r):
    return {p: density(r, p) for p in PROBES if r.randint(4)} or {"Lensing": density(r, "Lensing")}


def build(kind, seed):
    return globals()[kind](np.random.RandomState(seed))


def _attrs(o, *names):
    return {n: getattr(o, n) for n in names if getattr(o, n, None) is not None}


def snap(kind, o):
    """Everything a user reads from the object, as plain data."""
    if kind == "density":
        d = _attrs(o, "probe", "input_z_domain", "z_bin_edges", "catalog_f_sky", "input_n_iz", "input_dN_dz_dOmega",
                   "dN_dOmega_bins", "z_grid", "norm_density_iz")
        d["has"] = bool(o.has_niz_from_input)
        d["resp"] = {k: float(v) for k, v in (o.instrument_response or {}).items()}
        return d
    if kind == "bias":
        d = _attrs(o, "probe", "model_name", "z_bin_edges", "z_grid", "b_i_z")
        d["nuis"] = {k: float(v) for k, v in o.nuisance_parameters.items()}
        d["add"] = {k: float(v) for k, v in o.additional_parameters.items()}
        o.initBiasModel()
        d["evaluated"] = o.model.computeBias(np.linspace(0.05, 2.6, 23))
        return d
    if kind == "params":
        return {"pars": {n: {k: (v.item() if hasattr(v, "item") else v) for k, v in p.to_dict().items()} for n, p in o.items()},
                "order": list(o.keys()), "flat": bool(o.is_universe_flat), "stem": o.stem_disps,
                "steps": [int(x) for x in o.stem_steps]}
    if kind == "cosmology":
        d = _attrs(o, "model_name", "z_grid", "dimensionless_hubble_array", "dimensionless_comoving_distance_array",
                   "growth_factor_z")
        d["flat"] = bool(o.is_flat)
        d["pars"] = {n: {k: (v.item() if hasattr(v, "item") else v) for k, v in p.to_dict().items()} for n, p in o.params.items()}
        d["ps"] = _attrs(o.power_spectrum, "boltzmann_code", "z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k")
        return d
    if kind == "weight":
        d = _attrs(o, "probe", "z_grid", "w_bin_z")
        d["density"] = snap("density", o.density)
        if o.bias is not None:
            d["bias"] = snap("bias", o.bias)
        return d
    if kind in ("spectra", "external"):
        d = {"z": o.z_grid, "cls": {}, "weights": {p: snap("weight", w) for p, w in o.weight_dict.items()}}
        for k, c in o.cl_dict.items():
            e = _attrs(c, "probe1", "probe2", "c_lij", "l_bin_centers", "l_bin_widths")
            if c.kernel is not None and (kind == "spectra" or c.kernel.k_ijz is not None):
                e["kernel"] = _attrs(c.kernel, "probe1", "probe2", "z_grid", "k_ijz")
                e["w1"], e["w2"] = snap("weight", c.weight1), snap("weight", c.weight2)
            d["cls"][k] = e
        return d
    if kind == "delta":
        return _attrs(o, "name", "probe_1", "probe_2", "l_bin_centers", "delta_c_lij", "inv_delta_c_lij", "l_bin_widths",
                      "noise_lij", "c_lij")
    if kind == "deltas":
        return {"d": {k: snap("delta", v) for k, v in o.items()}, "b": {k: snap("delta", v) for k, v in o.single_blocks.items()}}
    if kind == "fisher":
        return {"name": o.name, "rows": [str(x) for x in o.matrix.index], "cols": [str(x) for x in o.matrix.columns],
                "m": o.matrix.to_numpy(), "cos": sorted(o.cosmological_parameters), "nui": sorted(o.nuisance_parameters)}
    if kind == "clders":
        return {k: _attrs(d, "probe1", "probe2", "l_bin_centers", "dc_lij") for k, d in o.dcl_dict.items()}
    if kind == "densities":
        return {k: snap("density", v) for k, v in o.items()}
    raise KeyError(kind)


# ------------------------------------------------------------------ the store's own calls
GROUPED = ["density", "bias", "delta", "cosmology", "weight"]        # saved under a name in a shared file
WHOLE = ["spectra", "external", "deltas"]                           # one per file, never overwritten
REPLACED = ["fisher", "clders", "densities", "params"]              # one per file, saving again replaces it


def save(kind, o, file, root):
    if kind in GROUPED or kind in WHOLE:
        if kind == "weight":
            from seyfert.cosmology.weight_functions import H5WeightFunction
            return o.saveToHDF5(file, root) if hasattr(o, "saveToHDF5") else H5WeightFunction().save(o, file, root)
        return o.saveToHDF5(file, root)
    if kind == "fisher":
        return o.writeToFile(outfile=file, overwrite=True)
    if kind == "clders":
        return o.writeToFile(file)
    if kind == "params":
        return o.writeJSON(file)
    from seyfert.cosmology.redshift_density import save_densities_to_file
    return save_densities_to_file(densities=o, file=file)


def load(kind, file, root, into=False):
    from seyfert.cosmology.bias import Bias
    from seyfert.cosmology.c_ells import AngularCoefficientsCollector
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.parameter import PhysicalParametersCollection
    from seyfert.cosmology.redshift_density import RedshiftDensity, load_densities_from_file
    from seyfert.cosmology.weight_functions import WeightFunction
    from seyfert.derivatives.cl_derivative import ClDerivativeCollector
    from seyfert.fisher.delta_cl import DeltaCl, DeltaClCollection
    from seyfert.fisher.fisher_matrix import FisherMatrix
    if kind == "densities":
        return load_densities_from_file(file)
    if kind == "params":
        if into:
            c = PhysicalParametersCollection()
            c.readJSON(file)
            return c
        return PhysicalParametersCollection.fromJSON(file)
    if kind == "clders":
        return ClDerivativeCollector.fromHDF5(file)
    if kind == "fisher":
        if into:
            f = FisherMatrix()
            f.loadFromFile(file)
            return f
        return FisherMatrix.fromHDF5(file)
    if kind == "delta" and not into:
        return DeltaCl.fromHDF5(file, name=None, root=root)
    cls = {"density": RedshiftDensity, "bias": Bias, "cosmology": Cosmology, "spectra": AngularCoefficientsCollector,
           "external": AngularCoefficientsCollector,
           "delta": DeltaCl, "deltas": DeltaClCollection, "weight": WeightFunction}[kind]
    if into and kind in ("density", "bias", "spectra", "external", "deltas"):
        o = cls()
        o.loadFromHDF5(file, root)
        return o
    return cls.fromHDF5(file, root) if kind not in ("delta",) else DeltaCl.fromHDF5(file, name=None, root=root)
