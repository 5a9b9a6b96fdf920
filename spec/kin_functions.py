"""Reference equations: coordinates, line-of-sight collapse, smoothing, aperture dispersions."""
import numpy as np
from scipy.signal import fftconvolve
from scipy.stats import norm
from scipy import integrate
import lmfit
import astropy.constants as const
from misfit.model.kin_functions import (I_simple_collapse, PSF_convolve, lmfit_gaussian, check_slit_illum,
                                        gaus_from_fwhm, r_int_ellip, sigma_profile, I_sersic, disp_square, Igal,
                                        convol_inst, convol_instconstfwhm, gaus_residual_FWHM)

FWHM_PER_SIGMA = 2. * np.sqrt(2. * np.log(2.))
C_KMS = const.c.cgs.value / 1.e5


def spec(*a, **k):
    return lambda f: f


@spec('model.kin_functions._between', 'C01 C02', nan_strict=True, opaque=False)
def between(bounds, value):
    return bounds[0] <= value and value <= bounds[1]


# ------------------------------------------------------------------ coordinates
@spec('model.kin_functions.transform_int_3d', 'C12 C14')
def transform(x, y, z, deltPA, i_rad):
    a = deltPA * np.pi / 180.
    minor = x * np.cos(a) + y * np.sin(a)
    major = y * np.cos(a) - x * np.sin(a)
    return (np.cos(i_rad) * minor + np.sin(i_rad) * z,
            major,
            np.cos(i_rad) * z - np.sin(i_rad) * minor)


@spec('model.kin_functions.sin_i', 'C12 C16 C14 C20')
def sini(q, q0=None):
    return 1. if q < q0 else np.sqrt((1. - q ** 2) / (1. - q0 ** 2))


@spec('model.kin_functions.r_int_ellip', 'C12 C14 C20 C16')
def ellip_radius(x, y, q, delt_PA):
    a = delt_PA * np.pi / 180.
    yp = np.sin(a) * x + np.cos(a) * y
    xp = np.cos(a) * x - np.sin(a) * y
    return np.sqrt(q * yp ** 2 + xp ** 2 / q)


# ------------------------------------------------------------------ laws of the dispersion-only galaxy
@spec('model.kin_functions.sigma_profile', 'C16 C20')
def sigprof(r, re, d=-0.089, r_core=1 / 300.):
    core = r_core * re
    return 1. / np.power((re + core) / re, d) * np.power((r + core) / re, d)


@spec('model.kin_functions.I_sersic', 'C16 C20')
def isersic(r, re, n, Ie, r_core=1 / 300.):
    core = r_core * re
    return Ie * np.exp(-(2. * n - 0.324) * (np.power((r + core) / re, 1. / float(n)) - 1.))


@spec('model.kin_functions.disp_square', 'C20 C16')
def dispsq(x, y, q=None, delt_PA=None, re_mass_arcsec=None, r_core=None, d=-0.089):
    return sigma_profile(r_int_ellip(x, y, q, delt_PA), re_mass_arcsec, d=d, r_core=r_core) ** 2


@spec('model.kin_functions.Igal', 'C20 C16')
def igal(x, y, re_arcsec=None, n=None, q=None, delt_PA=None, r_core=None):
    return I_sersic(r_int_ellip(x, y, q, delt_PA), re_arcsec, n, 1., r_core=r_core)


@spec('model.kin_functions.sigsq_I_circ_nosee_integrand', 'C20 C16')
def sigsq_integrand(r, re, n, Ie, d=-0.089, r_core=1 / 300., re_mass_arcsec=None):
    return sigma_profile(r, re_mass_arcsec, d=d, r_core=r_core) ** 2 * I_sersic(r, re, n, Ie, r_core=r_core) * 2 * np.pi * r


@spec('model.kin_functions.I_circ_nosee_integrand', 'C20 C16')
def i_integrand(r, re, n, Ie, r_core=1 / 300.):
    return I_sersic(r, re, n, Ie, r_core=r_core) * 2 * np.pi * r


@spec('model.kin_functions.sigma_e_dispersion', 'C20 C16', inline=['sigsq_I_circ_nosee_integrand', 'I_circ_nosee_integrand'])
def sigma_e(aperModel1DDisp=None, re_arcsec=None, re_mass_arcsec=None, r_outer=None):
    m = aperModel1DDisp

    def num(r):
        s = sigma_profile(r, re_mass_arcsec, d=m.d, r_core=m.r_core)
        return s ** 2 * I_sersic(r, re_arcsec, m.galaxy.n, m.Ie, r_core=m.r_core) * 2 * np.pi * r

    def den(r):
        return I_sersic(r, re_arcsec, m.galaxy.n, m.Ie, r_core=m.r_core) * 2 * np.pi * r
    return np.sqrt(integrate.quad(num, 0, r_outer)[0] / integrate.quad(den, 0, r_outer)[0])


def _profile_rows(m, nrows):
    sig = (0.5 * m.extraction_width / m.delt_y) / FWHM_PER_SIGMA
    g = norm.pdf(np.array(range(nrows)) - (nrows - 1.) / 2., 0., sig)
    return g / np.sum(g)


@spec('model.kin_functions.sigma_aper_dispersion', 'C20 C15 C13 C17 C14 C05 C16', obs=['return', 'raises'])
def sigma_aper(aperModel1DDisp=None, re_arcsec=None, re_mass_arcsec=None):
    m = aperModel1DDisp
    light = Igal(m.x_arr_full, m.y_arr_full, re_arcsec=re_arcsec, n=m.galaxy.n, q=1., delt_PA=0., r_core=m.r_core)
    moment = disp_square(m.x_arr_full, m.y_arr_full, q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,
                         r_core=m.r_core, d=m.d) * light
    if m.instrument.PSF.PSF_FWHM > 0.:
        moment = fftconvolve(moment, m.instrument.PSF._conv_stamp, mode='same')
        light = fftconvolve(light, m.instrument.PSF._conv_stamp, mode='same')
    lo, hi = m.nPixels + 1, 3 * m.nPixels + 2
    moment = moment[lo:hi, lo:hi]
    light = light[lo:hi, lo:hi]
    if m.extraction_method == 'optimal':
        w = np.tile(np.array([_profile_rows(m, light.shape[0])]).T, (1, light.shape[1]))
    elif m.extraction_method == 'boxcar':
        w = np.ones(light.shape)
    else:
        raise ValueError('extraction method not recognized: ' + m.extraction_method)
    return np.sqrt(np.sum(moment * w * m.delt_x * m.delt_y) / np.sum(light * w * m.delt_x * m.delt_y))


@spec('model.kin_functions.sigma_aper_dispersion_misalign', 'C20 C15 C13 C17 C14 C05 C16 C12', obs=['return', 'raises'], args=False)
def sigma_aper_misalign(aperModel1DDisp=None, re_arcsec=None, re_mass_arcsec=None):
    m = aperModel1DDisp
    light = Igal(m.x_arr_full, m.y_arr_full, re_arcsec=re_arcsec, n=m.galaxy.n, q=m.galaxy.q,
                 delt_PA=m.galaxy.delt_PA, r_core=m.r_core)
    moment = disp_square(m.x_arr_full, m.y_arr_full, q=m.galaxy.q, delt_PA=m.galaxy.delt_PA,
                         re_mass_arcsec=re_mass_arcsec, r_core=m.r_core, d=m.d) * light
    if m.instrument.PSF.PSF_FWHM > 0.:
        moment = fftconvolve(moment, m.instrument.PSF._conv_stamp, mode='same')
        light = fftconvolve(light, m.instrument.PSF._conv_stamp, mode='same')
    nx = int(np.round(0.5 * m.x_aper / m.delt_x - 0.5))
    dx = 0.5 * m.x_aper / (nx + 0.5)
    ny = m.nPixels
    x0, y0 = nx + 1, m.padY
    moment = moment[y0:y0 + 2 * ny + 1, x0:x0 + 2 * nx + 1]
    light = light[y0:y0 + 2 * ny + 1, x0:x0 + 2 * nx + 1]
    if m.extraction_method == 'optimal':
        w = np.tile(np.array([_profile_rows(m, light.shape[0])]).T, (1, light.shape[1]))
    elif m.extraction_method == 'boxcar':
        w = np.ones(light.shape)
    else:
        raise ValueError('extraction method not recognized: ' + m.extraction_method)
    return np.sqrt(np.sum(moment * w * dx * m.delt_y) / np.sum(light * w * dx * m.delt_y))


# ------------------------------------------------------------------ line of sight
@spec('model.kin_functions.add_sigma_collapse_z', 'C14 C15 C16 C17 C18')
def collapse(I_wide, V_wide, sigma_wide, wave_arr, z, restwave_arr, flux_ratio_arr, nWave, nZ, nY, nX,
             delt_z, delt_wave, I_matrix, wave_ref_matrix, spec_type='wave'):
    V = np.tile(V_wide, (nWave, 1, 1, 1))
    out = np.zeros((nWave, nY, nX))
    if spec_type == 'wave':
        for i in range(len(restwave_arr)):
            lam0 = restwave_arr[i] * (1. + z)
            if np.abs(sigma_wide).max() > 0.:
                sig = sigma_wide / C_KMS * lam0
                gaus = np.exp(-(lam0 * (1. + V / C_KMS) - wave_ref_matrix) ** 2 / (2. * sig ** 2)) / (sig * np.sqrt(2. * np.pi))
                line = np.sum(I_matrix * gaus, axis=1) * delt_z
            else:
                line = I_simple_collapse(I_wide, lam0 * (1. + V_wide / C_KMS), wave_arr, nWave, nZ, nY, nX, delt_z, delt_wave)
            out += line * flux_ratio_arr[i]
    elif spec_type == 'velocity':
        if np.abs(sigma_wide).max() > 0.:
            gaus = np.exp(-(V - wave_ref_matrix) ** 2 / (2. * sigma_wide ** 2)) / (sigma_wide * np.sqrt(2. * np.pi))
            out += np.sum(I_matrix * gaus, axis=1) * delt_z
        else:
            out += I_simple_collapse(I_wide, V_wide, wave_arr, nWave, nZ, nY, nX, delt_z, delt_wave)
    else:
        raise ValueError('spectral mode')
    return out


@spec('model.kin_functions.I_simple_collapse', 'C15 C14 C04')
def simple_collapse(I_wide, wave_wide, wave_arr, nWave, nZ, nY, nX, delt_z, delt_wave):
    out = np.zeros((nWave, nY, nX))
    for k in range(int(nX)):
        for j in range(int(nY)):
            for m in range(int(nZ)):
                i = np.argmin(np.abs(wave_wide[m, j, k] - wave_arr))
                out[i, j, k] += I_wide[m, j, k] * delt_z / delt_wave
    return out


# ------------------------------------------------------------------ smoothing
@spec('model.kin_functions.PSF_convolve', 'C15 C13 C20')
def psf_convolve(spectra_cube, PSF):
    if PSF.PSF_FWHM > 0.:
        k = PSF._conv_stamp
        if k.ndim == 2:
            k = np.array([k])
        c = fftconvolve(spectra_cube, k, mode='same')
        return c * np.sum(spectra_cube) / np.sum(c)
    return spectra_cube


@spec('model.kin_functions.PSF_convolve_flat', 'C15 C13 C20')
def psf_convolve_flat(pstamp, PSF):
    if PSF.PSF_FWHM > 0.:
        return fftconvolve(pstamp, PSF._conv_stamp, mode='same')
    return pstamp


@spec('model.kin_functions.rebin', 'C13 C15', pre={'a.shape': ['s0', 's1'], '*args': ['n0', 'n1']}, obs=['return'])
def rebin2(a, *args):
    n0, n1 = args
    f0 = np.array([a.shape[0] / n0, a.shape[1] / n1], dtype=int)[0]
    f1 = np.array([a.shape[0] / n0, a.shape[1] / n1], dtype=int)[1]
    return 1. * a.reshape(n0, f0, n1, f1).sum(1).sum(2)


@spec('model.kin_functions.convol_instconstfwhm', 'C15 C14', nan_strict=True)
def inst_const(model_out, xx, lam_cent, fwhm_wave):
    g = gaus_from_fwhm(xx, fwhm_wave, lam_cent)
    g[~np.isfinite(g)] = 0.
    k = np.zeros(shape=(g.shape[0], 1,))
    k[:, 0] = g
    c = fftconvolve(model_out, k, mode='same')
    return c * np.sum(model_out) / np.sum(c)


@spec('model.kin_functions.convol_inst', 'C17', obs=['raises'])
def inst_variable(model_out, xx, lam_cent, fwhm_array):
    raise ValueError('not available')


@spec('model.kin_functions.inst_convol_complete', 'C14 C15 C13', opaque_also=['model.kin_functions.convol_instconstfwhm', 'model.kin_functions.convol_inst'])
def inst_convol(model_out, wave_arr, inst_disp_wave):
    fwhm_wave = inst_disp_wave * FWHM_PER_SIGMA
    try:
        if len(fwhm_wave) > 0:
            kind = 'variable'
            arr = fwhm_wave
        else:
            kind = 'const'
    except:
        kind = 'const'
    xx = wave_arr[:-1] if len(wave_arr) % 2 == 0 else wave_arr
    centre = np.average(xx)
    if kind == 'variable':
        return convol_inst(model_out, xx, centre, arr)
    return convol_instconstfwhm(model_out, xx, centre, fwhm_wave)


@spec('model.kin_functions.gaus_from_fwhm', 'C14 C15')
def gaus(x, FWHM, x0):
    sig = FWHM / FWHM_PER_SIGMA
    return np.exp(-(x - x0) ** 2 / (2. * sig ** 2))


# ------------------------------------------------------------------ slit illumination
@spec('model.kin_functions.calculate_effective_inst_res_lam_shift', 'C14 C15 C06 C12')
def eff_res(I_wide_3d=None, xarr=None, yarr=None, wh_in_slit_x=None, R=None, slit_width_R_meas=None,
            tot_slit_width=None, lam0=None, PSF=None):
    fwhm = np.zeros(len(yarr))
    mu = np.zeros(len(yarr))
    delx = np.zeros(len(yarr))
    conv = PSF_convolve(np.array([np.sum(I_wide_3d, axis=0)]), PSF)[0, :, :]
    inside = np.zeros(conv.shape)
    inside[:, wh_in_slit_x] = 1.
    conv = conv * inside
    for k in range(len(yarr)):
        amp, mu[k], fwhm[k] = lmfit_gaussian(xarr[wh_in_slit_x], conv[k, wh_in_slit_x])
        delx[k], fwhm[k] = check_slit_illum(xarr, wh_in_slit_x, amp, mu[k], fwhm[k], tot_slit_width)
    Rw = R * slit_width_R_meas
    disp = lam0 / (Rw / fwhm) / FWHM_PER_SIGMA
    dv = delx * ((lam0 / (Rw / tot_slit_width)) / tot_slit_width) / lam0 * C_KMS
    return dv, disp


@spec('model.kin_functions.calculate_effective_inst_res_lam_shift', 'C14 C15 C13 C06 C12',
      obs=['call:PSF_convolve', 'call:lmfit_gaussian', 'call:check_slit_illum'],
      opaque_also=['model.kin_functions.PSF_convolve', 'model.kin_functions.lmfit_gaussian', 'model.kin_functions.check_slit_illum'])
def eff_res_steps(I_wide_3d=None, xarr=None, yarr=None, wh_in_slit_x=None, R=None, slit_width_R_meas=None,
                  tot_slit_width=None, lam0=None, PSF=None):
    fwhm = np.zeros(len(yarr))
    mu = np.zeros(len(yarr))
    delx = np.zeros(len(yarr))
    conv = PSF_convolve(np.array([np.sum(I_wide_3d, axis=0)]), PSF)[0, :, :]
    inside = np.zeros(conv.shape)
    inside[:, wh_in_slit_x] = 1.
    conv = conv * inside
    for k in range(len(yarr)):
        amp, mu[k], fwhm[k] = lmfit_gaussian(xarr[wh_in_slit_x], conv[k, wh_in_slit_x])
        delx[k], fwhm[k] = check_slit_illum(xarr, wh_in_slit_x, amp, mu[k], fwhm[k], tot_slit_width)
    Rw = R * slit_width_R_meas
    disp = lam0 / (Rw / fwhm) / FWHM_PER_SIGMA
    dv = delx * ((lam0 / (Rw / tot_slit_width)) / tot_slit_width) / lam0 * C_KMS
    return dv, disp


@spec('model.kin_functions.lmfit_gaussian', 'C14 C15 C13', obs=['return', 'call:add', 'call:lmfit.minimize'])
def fit_gaussian(x_arr, y_arr, y_err=None):
    params = lmfit.Parameters()
    params.add('mu', value=x_arr[y_arr.argmax()], vary=True)
    params.add('A', value=y_arr.max(), vary=True)
    params.add('FWHM', value=(x_arr.max() - x_arr.min()) / 10., vary=True, min=0.)
    result = lmfit.minimize(gaus_residual_FWHM, params, args=(x_arr, y_arr, y_err))
    return result.params['A'].value, result.params['mu'].value, result.params['FWHM'].value


@spec('model.kin_functions.gaus_residual_FWHM', 'C14 C15 C13')
def residual_gaussian(params, x_arr, y_arr, y_err):
    if y_err is None:
        y_err = np.repeat(0.01 * y_arr.max(), len(y_arr))
    model = params['A'].value * gaus_from_fwhm(x_arr, params['FWHM'].value, params['mu'].value)
    return (model - y_arr) / y_err


@spec('model.kin_functions.check_slit_illum', 'C14 C13 C15 C12', obs=['return'])
def slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_width):
    half = 0.5 * tot_slit_width
    lo = mu_y - 0.5 * FWHM_arcsec
    hi = mu_y + 0.5 * FWHM_arcsec
    cut = False
    if lo < -half:
        lo = -half
        cut = True
    if hi > half:
        hi = half
        cut = True
    if lo > hi:
        if hi < -half:
            hi = -half
            cut = True
        if lo > half:
            lo = half
            cut = True
    centre = mu_y
    if cut:
        model = A_tmp * gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
        mask = np.zeros(len(xarr)) * np.nan
        mask[wh_in_slit_x] = 1.
        model = model * mask
        FWHM_arcsec = hi - lo
        if FWHM_arcsec == 0.:
            m = model[wh_in_slit_x]
            peak = np.argmax(m)
            off = np.abs(m - 0.5 * m.max())
            half_i = np.where(off == off.min())[0]
            FWHM_arcsec = xarr[wh_in_slit_x[peak]] - xarr[wh_in_slit_x[half_i[0]]]
        if centre > half:
            centre = half
        if centre < -half:
            centre = -half
    return centre, FWHM_arcsec


@spec('model.kin_functions.rebin', 'C13 C15', pre={'a.shape': ['s0', 's1'], '*args': ['n0', 'n1']}, obs=['return'], alt=True)
def rebin2_floor(a, *args):
    n0, n1 = args
    return 1. * a.reshape(n0, a.shape[0] // n0, n1, a.shape[1] // n1).sum(1).sum(2)
