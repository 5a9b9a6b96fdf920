"""Reference equations of the shared utilities."""
import numpy as np
from scipy.stats import gaussian_kde
from scipy.optimize import fmin
from misfit.general.general_utils import find_peak_gaussian_KDE_multiD

deg2rad = np.pi / 180.


def spec(*a, **k):
    return lambda f: f


@spec('general.general_utils.linear_fit', 'C16')
def linear_fit(params, xx):
    return params['a'].value * xx + params['b'].value


@spec('general.general_utils.weighted_linear_residual', 'C03 C16 C19 C11')
def weighted_linear_residual(params, xx, data, err, mask):
    resid = (params['a'].value * xx + params['b'].value - data) / err
    resid[np.where(mask == 0)[0]] = 0.
    resid[~np.isfinite(resid)] = 0.
    return resid


@spec('general.general_utils.gaus_simple', 'C16 C14 C15')
def gaus_simple(xx, A, mu, sigma, C=None):
    g = A * np.exp(-(xx - mu) ** 2 / (2. * sigma ** 2)) / np.sqrt(2. * np.pi * sigma)
    if C is not None:
        g = g + C
    return g


def _gaus(xx, A, mu, sigma):
    return A * np.exp(-(xx - mu) ** 2 / (2. * sigma ** 2)) / np.sqrt(2. * np.pi * sigma)


@spec('general.general_utils.gaus_profile', 'C16 C14 C15', inline='*')
def gaus_profile(params, xx):
    g = _gaus(xx, params['A'].value, params['mu'].value, params['sigma'].value)
    if 'C' in params.keys():
        if params['C'].value is not None:
            g = g + params['C'].value
    return g


@spec('general.general_utils.gaus_residual', 'C16 C14 C15 C03', inline='*')
def gaus_residual(params, xx, data, err):
    g = _gaus(xx, params['A'].value, params['mu'].value, params['sigma'].value)
    if 'C' in params.keys():
        if params['C'].value is not None:
            g = g + params['C'].value
    resid = (g - data) / err
    resid[~np.isfinite(resid)] = 0.
    return resid


@spec('general.general_utils.gaus_residual_mask', 'C03 C16 C11 C14 C15 C10', inline='*')
def gaus_residual_mask(params, xx, data, err, wh_not_mask):
    g = _gaus(xx, params['A'].value, params['mu'].value, params['sigma'].value)
    if 'C' in params.keys():
        if params['C'].value is not None:
            g = g + params['C'].value
    resid = (g[wh_not_mask] - data[wh_not_mask]) / err[wh_not_mask]
    resid[~np.isfinite(resid)] = 0.
    return resid


@spec('general.general_utils.vert_triple_gaus_profile', 'C16 C14 C15 C10 C12', inline='*')
def vert_triple(params, xx):
    A = params['A'].value
    s = params['sigma'].value
    prof = np.zeros(len(xx))
    prof = prof + _gaus(xx, A, params['mu'].value, s)
    prof = prof + _gaus(xx, -A, params['mu_l'].value, s)
    prof = prof + _gaus(xx, -A, params['mu_r'].value, s)
    return prof + params['C'].value


@spec('general.general_utils.vert_triple_gaus_residual', 'C16 C14 C15 C03 C10', inline='*')
def vert_triple_resid(params, xx, data, err):
    A = params['A'].value
    s = params['sigma'].value
    prof = np.zeros(len(xx))
    prof = prof + _gaus(xx, A, params['mu'].value, s)
    prof = prof + _gaus(xx, -A, params['mu_l'].value, s)
    prof = prof + _gaus(xx, -A, params['mu_r'].value, s)
    resid = (prof + params['C'].value - data) / err
    resid[~np.isfinite(resid)] = 0.
    return resid


@spec('general.general_utils.wh_continuous', 'C10 C11')
def wh_continuous(wh_arr):
    wh_arrs = []
    arr = []
    for i in range(len(wh_arr)):
        if i < len(wh_arr) - 1:
            if wh_arr[i + 1] - wh_arr[i] == 1:
                arr.append(wh_arr[i])
            else:
                arr.append(wh_arr[i])
                wh_arrs.append(arr)
                arr = []
        else:
            arr.append(wh_arr[i])
            wh_arrs.append(arr)
    return wh_arrs


# ------------------------------------------------------------------ projections
@spec('general.general_utils.y_proj_phys', 'C12 C14 C20')
def y_proj_phys(re, delt_PA, q):
    return q * re / np.sqrt((q * np.cos(delt_PA * deg2rad)) ** 2 + np.sin(delt_PA * deg2rad) ** 2)


@spec('general.general_utils.x_proj_phys', 'C12 C14 C20')
def x_proj_phys(re, delt_PA, q):
    d = (90 - delt_PA) * deg2rad
    return q * re / np.sqrt((q * np.cos(d)) ** 2 + np.sin(d) ** 2)


@spec('general.general_utils.x_proj_major', 'C12 C14 C20')
def x_proj_major(re, delt_PA, q):
    return np.abs(re * np.sin(delt_PA * deg2rad))


@spec('general.general_utils.y_proj_major', 'C12 C14 C20')
def y_proj_major(re, delt_PA):
    return np.abs(re * np.cos(delt_PA * deg2rad))


@spec('general.general_utils.r_unproj_major', 'C12 C14 C20')
def r_unproj_major(y_proj, delt_PA, q):
    return np.abs(y_proj / np.cos(delt_PA * deg2rad))


@spec('general.general_utils.y_proj_major_inslit', 'C12 C14 C20')
def y_inslit(re, delt_PA, slit_width_arcsec=None):
    hw = 0.5 * slit_width_arcsec
    if np.abs(re * np.sin(delt_PA * deg2rad)) <= hw:
        return np.abs(re * np.cos(delt_PA * deg2rad))
    return np.abs(np.abs(hw / np.sin(delt_PA * deg2rad)) * np.cos(delt_PA * deg2rad))


@spec('general.general_utils.inclination_angle', 'C12 C14 C20')
def inclination_angle(q, q0=None):
    return np.arccos(np.sqrt((q ** 2 - q0 ** 2) / (1. - q0 ** 2)))


# ------------------------------------------------------------------ parameter ranges and posterior peaks
@spec('general.general_utils.range_arrs', 'C01 C09 C02')
def range_arrs(fitEmis2D):
    rng, low = [], []
    for j in range(len(fitEmis2D.kinModel.theta_names)):
        if fitEmis2D.kinModel.theta_vary[j]:
            rng.append(max(fitEmis2D.thetaPrior.theta_bounds[j]) - min(fitEmis2D.thetaPrior.theta_bounds[j]))
            low.append(min(fitEmis2D.thetaPrior.theta_bounds[j]))
    return rng, low


@spec('general.general_utils.find_peak_gaussian_KDE', 'C09 C01', obs=['return'])
def peak(flatchain, initval):
    try:
        n = flatchain.shape[1]
    except:
        n = 1
    if n > 1:
        out = np.zeros(n)
        for i in range(n):
            kern = gaussian_kde(flatchain[:, i])
            out[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
        return out
    else:
        kern = gaussian_kde(np.ravel(flatchain))
        return fmin(lambda x: -kern(x), initval, disp=False)


@spec('general.general_utils.find_peak_gaussian_KDE_multiD', 'C09 C01', obs=['return'])
def peak_multi(flatchain, linked_inds, initval):
    kern = gaussian_kde(flatchain[:, linked_inds].T)
    return fmin(lambda x: -kern(x), initval, disp=False)


@spec('general.general_utils.get_bestfit_values_linked', 'C09 C01 C05', obs=['return', 'arg:err_theta'])
def linked(fitEmis2D, err_theta, mcmc_lims_zip, theta_linked_posteriors=None, bins=50):
    chain = fitEmis2D.sampler_dict['flatchain'].copy()
    try:
        if theta_linked_posteriors.strip().lower() == 'all':
            theta_linked_posteriors = range(len(fitEmis2D.mcmc_results.bestfit_theta) - 4)
    except:
        pass
    best = fitEmis2D.mcmc_results.bestfit_theta.copy()
    vals = find_peak_gaussian_KDE_multiD(chain, theta_linked_posteriors,
                                         fitEmis2D.mcmc_results.bestfit_theta[theta_linked_posteriors])
    for k in range(len(theta_linked_posteriors)):
        j = theta_linked_posteriors[k]
        best[j] = vals[k]
        err_theta[j] = np.array([vals[k] - mcmc_lims_zip[j][0], mcmc_lims_zip[j][1] - vals[k]])
    return best, err_theta
