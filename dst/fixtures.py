"""Tiny synthetic forecast inputs (no Boltzmann code, analytic spectra).

Everything here is *input* to the system under test; nothing is imported from the
repository except where the real classes are used to lay out input files.
"""
import json
import os
from pathlib import Path

import h5py
import numpy as np

STEM = [0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1]

COSMO = [("h", 0.67), ("w0", -1.0), ("wa", 0.0), ("OmDE", 0.68), ("Omm", 0.32), ("Omb", 0.05),
         ("ns", 0.96), ("sigma8", 0.816), ("mnu", 0.06), ("gamma", 0.55)]


def cosmo_pars(free):
    return [dict(name=n, fiducial=v, current_value=v, kind="CosmologicalParameter", is_free_parameter=n in free,
                 stem_factor=1.0, derivative_method="SteM", units="None") for n, v in COSMO]


def ia_pars(free):
    return [dict(name=n, fiducial=v, current_value=v, kind="NuisanceParameter", is_free_parameter=n in free,
                 stem_factor=1.0, derivative_method="SteM", units="None", probe="Lensing")
            for n, v in (("aIA", 1.72), ("cIA", 0.0134), ("etaIA", -0.41), ("betaIA", 2.17))]


def forecast_config(free=("Omm", "w0"), n_ell=3, n_sp_bins=4, include_IA=False, ia_free=(), marg_ph=False,
                    marg_sp=True, l_max=300, f_sky=0.36, probes=("WL", "GCph", "GCsp"), stem=STEM, extra=None):
    common = dict(ell_external_filename=None, l_min=10, l_max=l_max, ell_log_selection=True, log_l_number=n_ell)
    data = {
        "metadata": {"author": "sim", "creation_date": "2021-01-01T00:00:00", "version": "1.3.7"},
        "synthetic_opts": {"scenario": "optimistic", "n_sp_bins": n_sp_bins, "shot_noise_sp_reduced": False,
                           "gcph_minus_gcsp": False},
        "survey": {"f_sky": f_sky, "shot_noise_file": None},
        "cosmology": {"model_name": "CPL", "flat": True, "parameters": cosmo_pars(set(free))},
        "probes": {
            "WL": dict(common, long_name="Lensing", presence_flag="WL" in probes, density_file="ph_dndz.h5",
                       extra_nuisance_parameters=ia_pars(set(ia_free)), specific_settings={"include_IA": include_IA}),
            "GCph": dict(common, long_name="PhotometricGalaxy", presence_flag="GCph" in probes,
                         density_file="ph_dndz.h5", bias_file="ph_bias.h5", bias_derivative_method="SteM",
                         marginalize_bias_flag=marg_ph, extra_nuisance_parameters=[], specific_settings={}),
            "GCsp": dict(common, long_name="SpectroscopicGalaxy", presence_flag="GCsp" in probes,
                         density_file="sp_dndz.h5", bias_file="sp_bias.h5", bias_derivative_method="SteM",
                         marginalize_bias_flag=marg_sp, extra_nuisance_parameters=[],
                         specific_settings={"compute_gcsp_cl_offdiag": False}),
        },
        "derivative_settings": {"base_stem_disps": list(stem)},
    }
    if extra:
        data["sim_tag"] = extra
    return data


def pmm_config(n_z=40):
    return {"redshift_grid": {"z_min": 0.001, "z_max": 2.5, "n_redshifts": n_z},
            "boltzmann_codes_settings": {"code": "CAMB",
                                         "camb": {"k_max": 50, "k_per_logint": 65,
                                                  "ini_filename": "cosmoist_params_full_withnu.ini"},
                                         "class": {"k_max": 50, "k_min": 1e-5, "n_k": 1000}}}


def angular_config(tag=None):
    d = {"cl_integration_settings": {"lensing_efficiency": "simpson", "cl": "simpson"},
         "limber_pmm_spline_settings": {"kx": 3, "ky": 3, "s": 0}}
    if tag:
        d["sim_tag"] = tag
    return d


def derivative_config(tag=None):
    d = {"dvar": "h", "angular_dir": "None"}
    if tag:
        d["sim_tag"] = tag
    return d


def fisher_config(tag=None):
    d = {"shot_noise_phsp_xc_factor": 0.0, "fisher_formula": "second_order", "cl_derivatives": {}}
    names = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy", "Void"]
    for i, a in enumerate(names):
        for b in names[i:]:
            d["cl_derivatives"][f"{a}_{b}"] = True
    if tag:
        d["sim_tag"] = tag
    return d


def write_json(path, data):
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(json.dumps(data, indent=1))
    return path


def _density(path, probe, edges, nz=60):
    z = np.linspace(0.001, 2.5, nz)
    cen = (edges[:-1] + edges[1:]) / 2
    n_iz = np.stack([np.exp(-0.5 * ((z - c) / 0.22) ** 2) * z for c in cen])
    n_iz /= np.trapz(n_iz, z, axis=1)[:, None]
    with h5py.File(path, "w") as f:
        f.attrs["probe"] = probe
        f["has_niz_from_input"] = np.bool_(True)
        f["input_z_domain"] = z
        f["input_n_iz"] = n_iz
        f["z_bin_edges"] = edges
        f["catalog_f_sky"] = 0.36
        f["dN_dOmega_bins"] = np.linspace(1.0e7, 2.0e7, len(cen))


def _bias(path, probe, edges, prefix):
    cen = (edges[:-1] + edges[1:]) / 2
    with h5py.File(path, "w") as f:
        f.attrs["probe"] = probe
        f["z_bin_edges"] = edges
        g = f.create_group("bias_model")
        g.attrs["model_name"] = "piecewise"
        g.create_group("additional_parameters")
        n = g.create_group("nuisance_parameters")
        for i, c in enumerate(cen):
            n[f"{prefix}{i}"] = float(1.0 + 0.5 * c)


def make_input_data(root):
    root = Path(root)
    root.mkdir(parents=True, exist_ok=True)
    e_ph = np.array([0.001, 0.9, 2.5])
    e_sp = np.array([0.9, 1.3, 1.8])
    _density(root / "ph_dndz.h5", "PhotometricGalaxy", e_ph)
    _density(root / "sp_dndz.h5", "SpectroscopicGalaxy", e_sp)
    _bias(root / "ph_bias.h5", "PhotometricGalaxy", e_ph, "bgph")
    _bias(root / "sp_bias.h5", "SpectroscopicGalaxy", e_sp, "bgsp")
    return root


def analytic_pmm(params, z, k):
    """A smooth parameter-dependent toy spectrum, P(z, k)."""
    p = {n: float(v) for n, v in params.items()}
    D = (1 + z) ** (-(0.8 + 0.3 * p["Omm"] + 0.05 * p["w0"] + 0.03 * p["wa"]))
    kk = k / (p["h"] * p["Omm"] + 0.3 * p["Omb"])
    # the amplitude also shifts the turnover a little, so that it is not degenerate with the bias
    pk = 2e4 * p["sigma8"] ** 2 * (kk / 0.1) ** p["ns"] / (1 + (kk / (0.15 * p["sigma8"] ** 0.3)) ** 2) ** 1.4
    return (D[:, None] ** 2) * pk[None, :]


def write_pmm_file(path, phys_pars, z_grid, n_k=30, k=None, spectra=None):
    """Write a p_mm.h5 for the collection's *current* values, laid out with the real classes."""
    from seyfert.cosmology.cosmology import Cosmology
    from seyfert.cosmology.power_spectrum import PowerSpectrum
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    c = Cosmology(params=phys_pars.cosmological_parameters, flat=bool(phys_pars.is_universe_flat), z_grid=z_grid, model_name="CPL")
    ps = PowerSpectrum(cosmo_pars=phys_pars.cosmological_parameters)
    ps.boltzmann_code = "CAMB"
    k = np.geomspace(1e-4, 60.0, n_k) if k is None else k
    if spectra is None:
        P = analytic_pmm({n: q.current_value for n, q in phys_pars.cosmological_parameters.items()}, z_grid, k)
        spectra = P, P * 1.05
    ps.k_grid, ps.z_grid, ps.lin_p_mm_z_k, ps.nonlin_p_mm_z_k = k, z_grid, *spectra
    c.power_spectrum = ps
    c.dimensionless_hubble_array = c.computeDimensionlessHubbleParameter(z_grid)
    c.dimensionless_comoving_distance_array = c.computeDimensionlessComovingDistance(z_grid)
    c.growth_factor_z = ps.getGrowthFromLinearPowerSpectrum()
    c.saveToHDF5(path)


def make_pmm_dir(pmm_dir, phys_pars, n_z=40, z=None):
    z = np.linspace(0.001, 2.5, n_z) if z is None else z
    pmm_dir = Path(pmm_dir)
    phys_pars.resetPhysicalParametersToFiducial()
    write_pmm_file(pmm_dir / "dvar_central_step_0" / "p_mm.h5", phys_pars, z)
    for name in phys_pars.free_cosmological_parameters:
        for step in [int(s) for s in phys_pars.stem_steps]:
            phys_pars.updatePhysicalParametersForDvarStep(dvar=name, step=step)
            sgn = "m" if step < 0 else "p"
            write_pmm_file(pmm_dir / f"dvar_{name}_step_{sgn}_{abs(step)}" / "p_mm.h5", phys_pars, z)
            phys_pars.resetPhysicalParametersToFiducial()
    return pmm_dir
