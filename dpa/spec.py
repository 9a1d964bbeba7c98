"""What the documentation promises, per estimator: attributes, dimensions, units,
row dependence and ranges.  Dimension codes: n cases, p variables, h components,
m new cases; 'ph' is a p by h matrix, 'vn' a vector of length n in any layout."""
from fractions import Fraction

F1 = Fraction(1)
UX = (("X", F1),)
UY = (("y", F1),)
UYX = (("X", -F1), ("y", F1))
U1 = ()

_PLS = {"x_weights_": "ph", "x_loadings_": "ph", "x_Rweights_": "ph", "x_scores_": "nh", "C_": "vh", "x_ev_": "vh", "y_ev_": "vh",
        "coef_": "vp", "coef_scaled_": "vp", "intercept_": "v1", "intercept_scaled_": "v1", "residuals_": "vn", "fitted_": "vn",
        "x_loc_": "vp", "x_sca_": "vp", "y_loc_": "v1", "y_sca_": "v1"}

SHAPES = {
    "sprm": dict(_PLS, x_weights_="qh", x_loadings_="qh", x_Rweights_="qh", coef_="vq", coef_scaled_="vq", x_caseweights_="vn", y_caseweights_="vn", caseweights_="vn"),
    "snipls": _PLS,
    "rm": {"coef_": "vp", "intercept_": "v1", "fitted_": "vn", "residuals_": "vn", "x_caseweights_": "vn", "y_caseweights_": "vn", "caseweights_": "vn", "x_loc_": "vp", "x_sca_": "vp", "y_loc_": "v1", "y_sca_": "v1"},
    "ppdire": {"x_weights_": "ph", "x_loadings_": "ph", "x_Rweights_": "ph", "x_scores_": "nh", "x_ev_": "vh", "crit_values_": "vh", "Maxobjf_": "vh",
               "C_": "vh", "y_ev_": "vh", "coef_": "ph", "coef_scaled_": "ph", "intercept_": "v1", "intercept_scaled_": "v1", "residuals_": "vn", "fitted_": "vn",
               "x_loc_": "vp", "x_sca_": "vp", "y_loc_": "v1", "y_sca_": "v1"},
    "sudire": {"x_loadings_": "ph", "x_scores_": "nh", "x_loc_": "vp", "x_sca_": "vp", "y_loc_": "v1", "y_sca_": "v1"},
    "VersatileScaler": {"col_loc_": "vp", "col_sca_": "vp"},
    "Wrapper": {"col_loc_": "vp", "col_sca_": "vp"},
    "GenSpatialSignPreProcessor": {"gss_pp_": "np"},
    "dicomo": {"moment_": "v1"},
    "capi": {"capi_index_": "v1"},
    "gen_ss_pp": {"result": "np"},
    "gen_ss_covmat": {"result": "pp"},
    "versatile_scale": {"result": "np"},
    "robust_loss": {"result": "v1"},
}

USESHAPE = {
    "sprm": {"yp": "vm", "tn": "mh", "wn": "vm", "vs": "v1", "vw": "v1"},
    "snipls": {"yp": "vm", "tn": "mh"},
    "rm": {"yp": "vm"},
    "ppdire": {"yp": "vm", "tn": "mh"},
    "sudire": {"tn": "mh", "yp": "vm"},
    "VersatileScaler": {"tn": "mp", "pn": "mp", "iv": "mp", "ft": "np"},
    "Wrapper": {"tn": "mp", "pn": "mp", "ft": "np"},
}

DOCATTR = {
    "sprm": {"always": ["x_weights_", "x_loadings_", "C_", "x_scores_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "x_ev_", "y_ev_", "fitted_", "x_Rweights_",
                        "x_caseweights_", "y_caseweights_", "caseweights_", "colret_", "x_loc_", "y_loc_", "x_sca_", "y_sca_", "non_zero_scale_vars_"], "none_ok": ["colret_"]},
    "snipls": {"always": ["x_weights_", "x_loadings_", "C_", "x_scores_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "x_ev_", "y_ev_", "fitted_", "x_Rweights_",
                          "colret_", "x_loc_", "y_loc_", "x_sca_", "y_sca_", "centring_"], "none_ok": ["colret_"]},
    "rm": {"always": ["coef_", "intercept_", "residuals_", "fitted_", "x_caseweights_", "y_caseweights_", "caseweights_", "x_loc_", "y_loc_", "x_sca_", "y_sca_"]},
    "ppdire": {"always": ["x_weights_", "x_loadings_", "x_scores_", "x_ev_", "x_Rweights_", "x_loc_", "x_sca_", "crit_values_", "Maxobjf_"],
               "two": ["C_", "coef_", "intercept_", "coef_scaled_", "intercept_scaled_", "residuals_", "y_ev_", "fitted_", "y_loc_", "y_sca_"],
               "flags": {"whitening_": lambda c: c.opts.get("whiten_data") == "True", "mixing_": lambda c: "mixing=True" in c.fit,
                         "scaling_object_": lambda c: c.opts.get("return_scaling_object", "True") == "True"}},
    "sudire": {"always": ["x_loadings_", "x_scores_", "x_loc_", "x_sca_", "y_loc_", "y_sca_"],
               "flags": {"whitening_": lambda c: c.opts.get("whiten_data") == "True",
                         "scaling_object_": lambda c: c.opts.get("return_scaling_object", "True") == "True" and c.opts.get("center", "'mean'") != "'mean'"
                         and (c.opts.get("center_data", "True") == "True" or c.opts.get("scale_data", "True") == "True" or c.opts.get("whiten_data") == "True")}},
    "VersatileScaler": {"always": ["col_loc_", "col_sca_"]},
    "Wrapper": {"always": ["col_loc_", "col_sca_"]},
    "dicomo": {"always": ["moment_"]},
    "capi": {"always": ["capi_index_"]},
}

_INV = {k: "inv" for k in ("x_weights_", "x_loadings_", "x_Rweights_", "C_", "x_ev_", "y_ev_", "coef_", "coef_scaled_", "intercept_", "intercept_scaled_", "x_loc_", "x_sca_", "y_loc_", "y_sca_", "crit_values_", "Maxobjf_", "col_loc_", "col_sca_", "moment_", "capi_index_")}
_EQ = {k: "equi" for k in ("x_scores_", "residuals_", "fitted_", "x_caseweights_", "y_caseweights_", "caseweights_")}
ROWS = {k: dict(_INV, **_EQ) for k in ("sprm", "snipls", "rm", "ppdire", "sudire", "VersatileScaler", "Wrapper", "dicomo", "capi")}
ROWS["gen_ss_covmat"] = {"result": "inv"}
ROWS["gen_ss_pp"] = {"result": "equi"}
ROWS["versatile_scale"] = {"result": "equi"}
ROWS["robust_loss"] = {"result": "inv"}


def _u_sprm(c):
    if c.opts.get("scale") == "'None'":
        return None
    return {"coef_": UYX, "intercept_": UY, "fitted_": UY, "residuals_": UY, "x_loc_": UX, "x_sca_": UX, "y_loc_": UY, "y_sca_": UY, "x_scores_": U1,
            "caseweights_": U1, "x_caseweights_": U1, "y_caseweights_": U1, "x_ev_": U1, "y_ev_": U1, "coef_scaled_": U1, "x_loadings_": U1, "x_weights_": U1,
            "=yp": UY, "=tn": U1, "=wn": U1}


def _u_snipls(c):
    if c.opts.get("scale", "'None'") == "'None'":
        return None
    d = _u_sprm(c)
    return {k: v for k, v in d.items() if k not in ("=wn",)}


def _u_pp(c):
    if c.opts.get("scale_data") == "False" or c.opts.get("center_data") == "False" or c.opts.get("whiten_data") == "True" or c.opts.get("compression") == "True":
        return None
    return {"coef_": UYX, "intercept_": UY, "fitted_": UY, "residuals_": UY, "x_loc_": UX, "x_sca_": UX, "y_loc_": UY, "y_sca_": UY, "x_scores_": U1, "x_ev_": U1, "y_ev_": U1,
            "intercept_scaled_": U1, "coef_scaled_": U1, "x_weights_": U1, "x_loadings_": U1, "crit_values_": U1, "Maxobjf_": U1, "=yp": UY, "=tn": U1}


def _u_sud(c):
    if c.opts.get("scale_data") == "False" or c.opts.get("center_data") == "False" or c.opts.get("whiten_data") == "True" or c.opts["sudiremeth"] in ("'dcov-sdr'", "'mdd-sdr'"):
        return None
    return {"x_loc_": UX, "x_sca_": UX, "y_loc_": UY, "y_sca_": UY, "=yp": UY}


def _u_sc(c):
    d = {"col_loc_": UX, "col_sca_": UX}
    if c.opts.get("scale") != "'None'":
        d.update({"=tn": U1, "=pn": U1, "=ft": U1})
    else:
        d.update({"=tn": UX, "=pn": UX, "=ft": UX, "col_sca_": U1})
    return d


def _u_di(c):
    """moments scale as the product of what they multiply"""
    if c.opts.get("est") != "'arithmetic'" or c.opts.get("center", "'mean'") != "'mean'":
        return None
    mode = c.opts["mode"].strip("'")
    arg = dict(x.strip().split("=") for x in c.fit.rstrip(")").split(",")[1:] if "=" in x)
    o = int(arg.get("order", 2))
    x = lambda k: (("x", Fraction(k)),)
    xy = lambda a, b: (("x", Fraction(a)), ("y", Fraction(b)))
    op = int(arg.get("option", 1))
    u = {"var": x(2), "std": x(1), "skew": U1, "kurt": U1, "mom": x(o), "cov": xy(1, 1), "corr": U1, "cos": U1, "cok": U1, "M3": xy(3 - op, op), "com": xy(o - op, op) if o > 2 else xy(1, 1), "continuum": None}[mode]
    return None if u is None else {"moment_": u, "=r": u}


def _u_capi(c):
    return {"capi_index_": U1} if c.opts["scaling"] == "True" and c.opts["centring"] == "True" else None


UNITS = {
    "dicomo": _u_di,
    "sprm": _u_sprm, "rm": _u_sprm, "snipls": _u_snipls, "ppdire": _u_pp, "sudire": _u_sud,
    "VersatileScaler": _u_sc,
    "Wrapper": lambda c: {"col_loc_": UX, "col_sca_": UX, "=tn": UX, "=pn": UX},
}

WEIGHTS = {"sprm": ["caseweights_", "x_caseweights_", "y_caseweights_", "=wn"], "rm": ["caseweights_", "x_caseweights_", "y_caseweights_"]}
