"""The plotting functions, drawn into files of the scratch folder."""
import os

import numpy as np

from .subjects import arr, own

DMD_PLOTS = ["eigs", "modes2d", "snap2d", "summary"]


def plots_for(subj, cfg):
    n = subj.name
    if n in ("COSTS",):
        return ["hist", "omega_t", "sep", "recon", "error", "ts"]
    if n == "mrCOSTS":
        return ["l_recon", "l_error", "l_sep", "l_ts"]
    if n == "HAVOK":
        return ["h_summary", "h_threshold"]
    if n == "MrDMD":
        return ["mr_eigs", "modes2d", "snap2d"]
    if n in ("ParametricDMD", "OptDMD", "BOPDMD_econ"):
        return []
    if n == "BOPDMD":
        return DMD_PLOTS + ["mode_uq", "eig_uq"]
    return DMD_PLOTS


def run_plot(subj, m, cfg, name, seed, folder):
    import matplotlib.pyplot as plt

    from pydmd import plotter

    fn = os.path.join(folder, "plot.png")
    try:
        _run(subj, m, cfg, name, seed, fn, plt, plotter)
    finally:
        plt.close("all")


def _run(subj, m, cfg, name, seed, fn, plt, P):
    if name == "eigs":
        P.plot_eigs(m, filename=fn, figsize=own((3, 3)), dpi=30,
                    narrow_view=bool(seed % 2))
    elif name == "mr_eigs":
        P.plot_eigs_mrdmd(m, filename=fn, level=[None, 1][seed % 2],
                          figsize=own((3, 3)))
    elif name in ("modes2d", "snap2d"):
        n = m.modes.shape[0] if name == "modes2d" else m.snapshots.shape[0]
        shape = own([1, n] if n % 2 else [2, n // 2])
        x, y = own(np.arange(shape[0]) * 1.0), own(np.arange(shape[1]) * 1.0)
        idx = own([0])
        f = P.plot_modes_2D if name == "modes2d" else P.plot_snapshots_2D
        f(m, shape, idx, fn, x, y, figsize=own((3, 3)))
    elif name == "summary":
        P.plot_summary(
            m,
            filename=fn,
            index_modes=own([0, 1][: max(1, seed % 3)]),
            tight_layout_kwargs=own({"pad": 0.5}),
            main_colors=own(["r", "b", "g"]),
            dpi=30,
            figsize=own((4, 3)),
            plot_semilogy=bool(seed % 2),
        )
    elif name == "mode_uq":
        m.plot_mode_uq(plot_modes=own([0, 1]), figsize=own((3, 3)), dpi=30)
    elif name == "eig_uq":
        m.plot_eig_uq(eigs_true=own(arr(3, (2,)) * 1j), dpi=30,
                      xlim=own([-1, 1]))
    elif name == "hist":
        m.plot_omega_histogram()
    elif name == "omega_t":
        m.plot_omega_time_series()
    elif name in ("sep", "recon", "error", "ts"):
        n, t = m._n_data_vars, m._n_time_steps
        data = own(arr(5, (n, t)))
        rk = own({"include_means": bool(seed % 2)})
        kw = {"scale_reconstruction_kwargs": rk}
        if name == "sep":
            m.plot_scale_separation(
                data,
                plot_residual=bool(seed % 2),
                fig_kwargs=own({"figsize": (3, 3)}),
                plot_kwargs=own({"cmap": "viridis"}),
                hf_plot_kwargs=own({"vmin": -1.0}),
                **kw,
            )
        elif name == "recon":
            m.plot_reconstructions(
                data,
                plot_residual=bool(seed % 2),
                fig_kwargs=own({"figsize": (3, 3)}),
                plot_kwargs=own({"cmap": "viridis"}),
                hf_plot_kwargs=own({"vmin": -1.0}),
                **kw,
            )
        elif name == "error":
            m.plot_error(data, plot_kwargs=own({"vmin": -1.0}), **kw)
        else:
            m.plot_time_series(0, data, include_residual=bool(seed % 2), **kw)
    elif name.startswith("l_"):
        lv = seed % m.n_decompositions
        c = m.costs_array[0]
        data = own(arr(5, (c._n_data_vars, c._n_time_steps)))
        rk = {"scale_reconstruction_kwargs": own({"include_means": True})}
        if name == "l_recon":
            m.plot_local_reconstructions(
                lv, data=data, kwargs=own({"plot_period": True}), **rk
            )
        elif name == "l_error":
            m.plot_local_error(
                lv, data=data, plot_kwargs=own({"vmin": -1.0}), **rk
            )
        elif name == "l_sep":
            m.plot_local_scale_separation(
                lv, data=data, plot_kwargs=own({"cmap": "viridis"}), **rk
            )
        else:
            m.plot_local_time_series(0, lv, data=data, **rk)
    elif name == "h_summary":
        m.plot_summary(
            filename=fn,
            index_linear=own([0, 1, 2]),
            forcing_threshold=0.01,
            min_jump_dist=2,
            true_switch_indices=own(np.array([3, 9])),
            figsize=own((4, 2)),
            dpi=30,
        )
    elif name == "h_threshold":
        m.compute_threshold(
            p=0.05, bins=10, plot=True,
            plot_kwargs=own({"figsize": (3, 2), "dpi": 30}),
        )
    else:
        raise ValueError(name)
