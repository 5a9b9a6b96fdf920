"""Reference behaviour of the spectrum preparation: trimming, masking, continuum, weights."""
import os
import numpy as np
import lmfit
from misfit.general import general_utils as utils
from misfit.general import io
from misfit.general.galaxy_utils import (spec_mask_missing, mask_spec2D_from_1D, spec_nan_masking, wh_skylines_1D,
                                         mask_low_snr_rows_2D, mask_skylines_2D, vert_position)


def spec(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ trimming
@spec('general.galaxy_utils.trim_spectrum_1D', 'C05 C10 C14 C17 C18 C11', keep_copies=True, obs=['return', 'heap', 'call:calculate_restwave'])
def trim1d(spec1D, galaxy, trim_restwave_range=None, trim_obswave_range=None, param_restwave_filename=None, linename=None):
    if galaxy.z is None and trim_obswave_range is None:
        return None
    rest = trim_restwave_range
    if rest is None and trim_obswave_range is None:
        table = param_restwave_filename
        if table is None:
            table = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib', 'trim_wavelengths_1D.param')
        rest = io.read_wave_range(table, linename=linename)
    obs = trim_obswave_range
    if obs is None:
        obs = (np.array(rest) * (1. + galaxy.z)).tolist()
    if spec1D is None:
        return None
    new = spec1D.copy()
    new.trim_obswave_range = obs
    new.trim_restwave_range = rest
    inside = np.where((spec1D.obswave >= obs[0]) & (spec1D.obswave <= obs[1]))[0]
    if len(inside) > 0:
        new.wave = spec1D.wave[inside]
        new.flux = spec1D.flux[inside]
        new.flux_err = spec1D.flux_err[inside]
        new.spec_mask = spec1D.spec_mask[inside]
        new.calculate_restwave(galaxy)
    else:
        new.wave = None
        new.flux = None
        new.flux_err = None
        new.spec_mask = None
    return new


@spec('general.galaxy_utils.trim_spectrum_2D_spatial', 'C05 C08 C10 C11 C15 C20', obs=['heap', 'call:vert_position'])
def trimspatial(spec2D, galaxy, instrument):
    m0, shift, snr, lo, hi = vert_position(
        flux=spec2D.flux.copy() * spec2D.mask_sky.copy(), err=spec2D.flux_err.copy() * spec2D.mask_sky.copy(),
        obswave=spec2D.obswave.copy(), obswave_val=spec2D.restwave_arr[0] * (1. + galaxy.z), band=spec2D.band,
        ypos=spec2D.ypos, refit=False, wh_sky=spec2D.wh_sky, debug=galaxy.debug, skip_check=False,
        spatial_pixscale=instrument.pixscale, dither=galaxy.dither)
    rows = np.shape(spec2D.flux)[0]
    a, b = 0, rows - 1
    if galaxy.dither:
        a = max([0, lo])
        b = min([rows - 1, hi])
    spec2D.flux = spec2D.flux[a:b, :]
    spec2D.flux_err = spec2D.flux_err[a:b, :]
    spec2D.flux_incl_cont = spec2D.flux_incl_cont[a:b, :]
    spec2D.cont_model = spec2D.cont_model[a:b, :]
    spec2D.spec_weight = spec2D.spec_weight[a:b, :]
    spec2D.spec_mask = spec2D.spec_mask[a:b, :]
    spec2D.mask_qual = spec2D.mask_qual[a:b, :]
    spec2D.mask_sky = spec2D.mask_sky[a:b, :]
    spec2D.mask_low_snr = spec2D.mask_low_snr[a:b, :]
    spec2D.n_spatial = np.shape(spec2D.flux)[0]
    unused, spec2D.low_snr_row_inds = mask_low_snr_rows_2D(
        flux=spec2D.flux, err=spec2D.flux_err, mask=spec2D.mask_qual.copy(), mask_calc=spec2D.mask_sky,
        snr_cut=spec2D.row_snr_cut, debug=galaxy.debug)
    if galaxy.spec1D is not None:
        if galaxy.spec1D.extraction_spatial_profile is not None:
            galaxy.spec1D.extraction_spatial_profile = galaxy.spec1D.extraction_spatial_profile[a:b]
    spec2D.full_m0 = m0
    spec2D.full_l_ind = a
    spec2D.full_r_ind = b
    spec2D.m0 = m0 - a
    spec2D.m0_shift_fit = shift
    spec2D.m0_peak_snr = snr
    spec2D.m_lims = np.array([0, np.shape(spec2D.flux)[0]])
    if spec2D.ypos is not None:
        spec2D.ypos = spec2D.ypos - a


@spec('general.galaxy_utils.trim_spectrum_2D_wavelength', 'C10 C14 C17 C11 C18', obs=['heap', 'return', 'raises', 'call:calculate_restwave'], fix={'inplace': True})
def trimwave_in(spec2D, galaxy, trim_restwave_range=None, trim_obswave_range=None, param_restwave_filename=None,
                linename=None, inplace=True):
    rest, obs = trim_restwave_range, trim_obswave_range
    if rest is None and obs is None and param_restwave_filename is None and linename is None:
        raise ValueError('no range')
    if rest is not None and obs is not None:
        raise ValueError('two ranges')
    if rest is not None:
        obs = (np.array(rest) * (1. + galaxy.z)).tolist()
    elif obs is not None:
        rest = (np.array(obs) / (1. + galaxy.z)).tolist()
    else:
        table = param_restwave_filename
        if table is None:
            table = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib', 'line_range_restwave_2D.param')
        rest = io.read_wave_range(table, linename=linename)
        obs = (np.array(rest) * (1. + galaxy.z)).tolist()
    if spec2D is not None:
        spec2D.trim_obswave_range = obs
        spec2D.trim_restwave_range = rest
        inside = np.where((spec2D.obswave >= obs[0]) & (spec2D.obswave <= obs[1]))[0]
        if len(inside) > 0:
            spec2D.wave = spec2D.wave[inside]
            spec2D.flux = spec2D.flux[:, inside]
            spec2D.flux_err = spec2D.flux_err[:, inside]
            spec2D.spec_mask = spec2D.spec_mask[:, inside]
            spec2D.spec_weight = spec2D.spec_weight[:, inside]
            try:
                spec2D.flux_incl_cont = spec2D.flux_incl_cont[:, inside]
                spec2D.cont_model = spec2D.cont_model[:, inside]
            except:
                spec2D.flux_incl_cont = None
                spec2D.cont_model = None
            spec2D.calculate_restwave(galaxy)
        else:
            spec2D.wave = None
            spec2D.flux = None
            spec2D.flux_err = None
            spec2D.spec_mask = None
            spec2D.spec_weight = None
    return spec2D


@spec('general.galaxy_utils.trim_spectrum_2D_wavelength', 'C05 C10 C14 C17 C11 C18', keep_copies=True,
      obs=['heap', 'return', 'raises', 'call:calculate_restwave'], fix={'inplace': False})
def trimwave_copy(spec2D, galaxy, trim_restwave_range=None, trim_obswave_range=None, param_restwave_filename=None,
                  linename=None, inplace=True):
    rest, obs = trim_restwave_range, trim_obswave_range
    if rest is None and obs is None and param_restwave_filename is None and linename is None:
        raise ValueError('no range')
    if rest is not None and obs is not None:
        raise ValueError('two ranges')
    if rest is not None:
        obs = (np.array(rest) * (1. + galaxy.z)).tolist()
    elif obs is not None:
        rest = (np.array(obs) / (1. + galaxy.z)).tolist()
    else:
        table = param_restwave_filename
        if table is None:
            table = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib', 'line_range_restwave_2D.param')
        rest = io.read_wave_range(table, linename=linename)
        obs = (np.array(rest) * (1. + galaxy.z)).tolist()
    if spec2D is None:
        return None
    new = spec2D.copy()
    new.trim_obswave_range = obs
    new.trim_restwave_range = rest
    inside = np.where((new.obswave >= obs[0]) & (new.obswave <= obs[1]))[0]
    if len(inside) > 0:
        new.wave = spec2D.wave[inside]
        new.flux = spec2D.flux[:, inside]
        new.flux_err = spec2D.flux_err[:, inside]
        new.spec_mask = spec2D.spec_mask[:, inside]
        new.spec_weight = spec2D.spec_weight[:, inside]
        try:
            new.flux_incl_cont = spec2D.flux_incl_cont[:, inside]
            new.cont_model = spec2D.cont_model[:, inside]
        except:
            new.flux_incl_cont = None
            new.cont_model = None
        new.calculate_restwave(galaxy)
    else:
        new.wave = None
        new.flux = None
        new.flux_err = None
        new.spec_mask = None
        new.spec_weight = None
    return new


# ------------------------------------------------------------------ masks
@spec('general.galaxy_utils.get_skyline_mask_2D', 'C11 C05 C03')
def skymask(spec2D, full=True):
    a, b, c = mask_skylines_2D(flux=spec2D.flux, err=spec2D.flux_err, weight=spec2D.spec_weight,
                               mask=spec2D.mask_qual.copy(), band_cutoff=spec2D.band_cutoff,
                               band_cutoff_units=spec2D.band_cutoff_units, median_err=spec2D.median_flux_error, full=full)
    return a, b, c


@spec('general.galaxy_utils.get_low_snr_mask_2D', 'C11 C03 C05')
def lowsnr(spec2D, snr_cut=None, debug=False):
    a, b = mask_low_snr_rows_2D(flux=spec2D.flux, err=spec2D.flux_err, mask=spec2D.mask_qual.copy(),
                                mask_calc=spec2D.mask_sky, snr_cut=snr_cut, debug=debug)
    return a, b


@spec('general.galaxy_utils.mask_skylines_2D', 'C11 C17 C03 C05', obs=['return', 'raises', 'arg:mask'])
def skylines(flux=None, err=None, weight=None, mask=None, band_cutoff=None, band_cutoff_units='timesMedianErr',
             median_err=None, full=True):
    if band_cutoff_units != 'timesMedianErr':
        raise ValueError('units')
    out = mask.copy()
    column_error = np.sqrt(np.sum((err * out) ** 2, axis=0))
    unused, sky = wh_skylines_1D(column_error, median_err=median_err, cutoff=band_cutoff, full=full)
    out[:, sky] = 0.
    return out, sky, np.setdiff1d(range(np.shape(flux)[1]), sky)


@spec('general.galaxy_utils.wh_skylines_1D', 'C11 C03 C17 C05', obs=['return', 'raises'])
def wh_sky(err_spec, cutoff=None, median_err=None, full=False):
    if median_err is None:
        raise ValueError('median')
    sky = np.where(err_spec >= cutoff * median_err)[0]
    rest = np.where(err_spec < cutoff * median_err)[0]
    if full:
        return rest, sky
    return utils.wh_continuous(rest), utils.wh_continuous(sky)


@spec('general.galaxy_utils.mask_low_snr_rows_2D', 'C11 C03 C05', obs=['return', 'arg:mask'], fix={'debug': False})
def rows(flux=None, err=None, mask=None, mask_calc=None, snr_cut=None, debug=False):
    snr = np.abs(np.sum(flux * mask_calc, axis=1) / np.sqrt(np.sum((err * mask_calc) ** 2, axis=1)))
    high = np.where(snr >= snr_cut)[0]
    n = len(snr)
    groups = utils.wh_continuous(high)
    if len(groups) > 1:
        keep = []
        for g in groups:
            if len(g) > 2:
                keep.extend(g)
        high = np.array(keep)
    low = np.setdiff1d(range(len(snr)), high)
    if len(low) > 0 and len(high) > 0:
        if low.min() < n / 2. and high.min() < low.min():
            i = 0
            first = low.min()
            while i < first:
                low = np.append(low, i)
                i += 1
            low.sort()
        if low.max() > n / 2. and high.max() > low.max():
            i = n - 1
            last = low.max()
            while i > last:
                low = np.append(low, i)
                i -= 1
            low.sort()
    out = mask.copy()
    out[low, :] = 0.
    return out, low


@spec('general.galaxy_utils.mask_edges_1D', 'C11 C03 C05 C10', obs=['return', 'arg:spec_mask'])
def edges(spec=None, spec_err=None, spec_mask=None, num_edge=10):
    on = np.where(spec_mask == 1)[0]
    if len(on) > 0:
        a = on[0]
        b = on[-1]
        if a > 0:
            spec_mask[a:a + num_edge] = 0
        if b < len(spec) - 1:
            spec_mask[max(b - num_edge + 1, 0):b + 1] = 0
    return spec_mask


@spec('general.galaxy_utils.spec_mask_missing', 'C11 C03 C02 C05 C10', obs=['return', 'arg:spec_mask'])
def missing(spec=None, spec_err=None, spec_weight=None, spec_mask=None, nonfinite_only=False):
    if spec_mask is None:
        spec_mask = np.ones(spec.shape, dtype=float)
    if not nonfinite_only and np.abs(spec_err).max() > 0.:
        spec_mask[np.where(spec_err == 0.)] = 0.
    spec_mask[np.invert(np.isfinite(spec))] = 0.
    spec_mask[np.invert(np.isfinite(spec_err))] = 0.
    if spec_weight is not None:
        spec_mask[np.where(spec_weight == 0.)] = 0.
    return spec_mask


@spec('general.galaxy_utils.mask_spec2D_from_1D', 'C11 C03 C05 C10', obs=['return'])
def mask_from_1d(mask2D=None, mask1D=None):
    for w in np.where(mask1D == 0.)[0]:
        mask2D[:, w] = 0.
    return mask2D


@spec('general.galaxy_utils.spec_nan_masking', 'C11 C03 C05 C10', obs=['return'])
def nanfill(flux=None, spec_mask=None, fill_value=-99., mask_zero=False, mask_all_masked=False):
    if mask_all_masked:
        flux[np.where(spec_mask == 0.)] = fill_value
    else:
        flux[np.where(np.invert(np.isfinite(flux)) & (spec_mask == 0.))] = fill_value
    if mask_zero:
        flux[np.where((flux == 0.) & (spec_mask == 0.))] = fill_value
    return flux


# ------------------------------------------------------------------ weights, angles
@spec('general.galaxy_utils.calculate_2D_fit_weights', 'C03 C17 C11 C02 C07 C05 C10', obs=['heap', 'raises'])
def weights(spec2D):
    if spec2D.weighting_type == 'up-edges':
        signal = np.sum(spec2D.flux * spec2D.mask_sky, axis=1)
        noise = np.sqrt(np.sum((spec2D.flux_err * spec2D.mask_sky) ** 2, axis=1))
        w = 1. / np.abs(signal / noise)
        w[spec2D.low_snr_row_inds] = 0.
    elif spec2D.weighting_type == 'none':
        w = np.ones(spec2D.flux.shape[0])
    elif spec2D.weighting_type == 'optimal':
        signal = np.abs(np.sum(spec2D.flux_incl_cont * spec2D.mask_sky, axis=1))
        noise = np.abs(np.sum(spec2D.flux_err * spec2D.mask_sky, axis=1))
        x = np.linspace(0, len(signal), num=len(signal), endpoint=False)
        params = lmfit.Parameters()
        params.add('mu', value=len(signal) / 2.)
        params.add('A', value=signal.max())
        params.add('sigma', value=len(signal) / 4., min=0.)
        result = lmfit.minimize(utils.gaus_residual, params, args=(x, signal, noise))
        w = utils.gaus_profile(result.params, x)
        w[spec2D.low_snr_row_inds] = 0.
    else:
        raise ValueError('weighting')
    total = np.sum(w)
    out = w / total
    if total == 0.:
        out[:] = 0.
    spec2D.fitting_weight_profile = out
    spec2D.fitting_weight_matrix = np.array([out for i in range(spec2D.flux.shape[1])]).T


@spec('general.galaxy_utils.calculate_slit_offset_angles', 'C12 C14 C05 C17', obs=['heap'])
def angles(galaxy):
    if not galaxy.generate_model:
        d = galaxy.sersicPA - (galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA)
        galaxy.delt_PA = np.arctan(np.tan(d * np.pi / 180.)) * 180. / np.pi
    galaxy.delt_PA_abs = np.abs(galaxy.delt_PA)


# ------------------------------------------------------------------ continuum
@spec('general.galaxy_utils.subtract_continuum_2D', 'C05 C10 C11 C14 C18 C03', fix={'no_cont_subtraction': True},
      obs=['call:spec_mask_missing', 'call:spec_nan_masking', 'call:mask_spec2D_from_1D', 'call:wh_skylines_1D',
           'call:mask_edges', 'call:calculate_restwave', 'call:read_wave_range', 'heap'],
      opaque_also=['general.galaxy_utils.spec_mask_missing', 'general.galaxy_utils.spec_nan_masking',
                   'general.galaxy_utils.mask_spec2D_from_1D', 'general.galaxy_utils.wh_skylines_1D',
                   'galaxy.ObsSpectrum1D.mask_edges', 'galaxy.ObsSpectrum.calculate_restwave',
                   'general.general_utils.weighted_linear_residual', 'general.general_utils.linear_fit',
                   'general.io.read_wave_range'])
@spec('general.galaxy_utils.subtract_continuum_2D', 'C10 C11 C14 C06 C03', obs=['heap', 'raises'],
      fix={'no_cont_subtraction': True})
def contsub_off(spec2D, galaxy, fill_value=-99., no_cont_subtraction=False):
    spec2D.spec_mask = spec_mask_missing(spec=spec2D.flux, spec_err=spec2D.flux_err, spec_weight=spec2D.spec_weight,
                                         spec_mask=spec2D.spec_mask, nonfinite_only=True)
    spec2D.flux = spec_nan_masking(flux=spec2D.flux, spec_mask=spec2D.spec_mask, fill_value=fill_value)
    spec2D.flux_err = spec_nan_masking(flux=spec2D.flux_err, spec_mask=spec2D.spec_mask, fill_value=fill_value, mask_zero=True)
    spec2D.median_flux_error = np.median(np.sqrt(np.sum((spec2D.flux_err * spec2D.spec_mask) ** 2, axis=0)))
    lib = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
    if spec2D.wave_full_range_rest is None:
        if spec2D.wave_full_range_rest_param_filename is None:
            spec2D.wave_full_range_rest_param_filename = os.path.join(lib, 'full_range_restwave_2D.param')
        spec2D.wave_full_range_rest = io.read_wave_range(spec2D.wave_full_range_rest_param_filename,
                                                         linename=spec2D.linenames_arr[0])
    if spec2D.wave_line_range_rest is None:
        if spec2D.wave_line_range_rest_param_filename is None:
            spec2D.wave_line_range_rest_param_filename = os.path.join(lib, 'line_range_restwave_2D.param')
        spec2D.wave_line_range_rest = io.read_wave_range(spec2D.wave_line_range_rest_param_filename,
                                                         linename=spec2D.linenames_arr[0])
    if spec2D.mask_lines_wave_range_rest is None:
        if spec2D.mask_lines_wave_range_rest_param_filename is None:
            spec2D.mask_lines_wave_range_rest_param_filename = os.path.join(lib, 'mask_lines_range_restwave_2D.param')
        spec2D.mask_lines_wave_range_rest = io.read_wave_range(spec2D.mask_lines_wave_range_rest_param_filename,
                                                               linename=spec2D.linenames_arr[0])
    spec2D.flux_incl_cont = spec2D.flux.copy()
    spec2D.cont_model = np.zeros(spec2D.flux.shape)
    full = spec2D.wave_full_range_rest * (1. + galaxy.z)
    keep = np.where((spec2D.obswave >= full[0]) & (spec2D.obswave <= full[1]))[0]
    spec2D.wave = spec2D.wave[keep]
    spec2D.flux_incl_cont = spec2D.flux_incl_cont[:, keep]
    spec2D.cont_model = spec2D.cont_model[:, keep]
    spec2D.flux = spec2D.flux[:, keep]
    spec2D.flux_err = spec2D.flux_err[:, keep]
    spec2D.spec_mask = spec2D.spec_mask[:, keep]
    spec2D.spec_weight = spec2D.spec_weight[:, keep]
    spec2D.calculate_restwave(galaxy)


@spec('general.galaxy_utils.subtract_continuum_2D', 'C05 C10 C11 C14 C18 C03', fix={'no_cont_subtraction': False}, pre={'galaxy.debug': False},
      obs=['call:spec_mask_missing', 'call:spec_nan_masking', 'call:mask_spec2D_from_1D', 'call:wh_skylines_1D',
           'call:mask_edges', 'call:calculate_restwave', 'call:read_wave_range', 'call:lmfit.minimize', 'call:linear_fit', 'heap'],
      opaque_also=['general.galaxy_utils.spec_mask_missing', 'general.galaxy_utils.spec_nan_masking',
                   'general.galaxy_utils.mask_spec2D_from_1D', 'general.galaxy_utils.wh_skylines_1D',
                   'galaxy.ObsSpectrum1D.mask_edges', 'galaxy.ObsSpectrum.calculate_restwave',
                   'general.general_utils.weighted_linear_residual', 'general.general_utils.linear_fit',
                   'general.io.read_wave_range'])
@spec('general.galaxy_utils.subtract_continuum_2D', 'C05 C10 C11 C03', keep_copies=True, fix={'no_cont_subtraction': False}, pre={'galaxy.debug': False},
      obs=['spec2D.flux_incl_cont', 'galaxy.spec1D.spec_mask'], args=False,
      opaque_also=['general.galaxy_utils.spec_mask_missing', 'general.galaxy_utils.spec_nan_masking',
                   'general.galaxy_utils.mask_spec2D_from_1D', 'general.galaxy_utils.wh_skylines_1D',
                   'galaxy.ObsSpectrum1D.mask_edges', 'galaxy.ObsSpectrum.calculate_restwave',
                   'general.general_utils.weighted_linear_residual', 'general.general_utils.linear_fit',
                   'general.io.read_wave_range'])
@spec('general.galaxy_utils.subtract_continuum_2D', 'C10 C11 C14 C06 C03', obs=['heap', 'raises'],
      fix={'no_cont_subtraction': False}, pre={'galaxy.debug': False})
def contsub_on(spec2D, galaxy, fill_value=-99., no_cont_subtraction=False):
    line1d = galaxy.spec1D
    spec2D.spec_mask = spec_mask_missing(spec=spec2D.flux, spec_err=spec2D.flux_err, spec_weight=spec2D.spec_weight,
                                         spec_mask=spec2D.spec_mask, nonfinite_only=True)
    line1d.spec_mask = spec_mask_missing(spec=line1d.flux, spec_err=line1d.flux_err, spec_mask=line1d.spec_mask)
    line1d.num_mask_edge = 10
    line1d.mask_edges()
    spec2D.spec_mask = mask_spec2D_from_1D(mask2D=spec2D.spec_mask, mask1D=line1d.spec_mask)
    spec2D.flux = spec_nan_masking(flux=spec2D.flux, spec_mask=spec2D.spec_mask, fill_value=fill_value)
    spec2D.flux_err = spec_nan_masking(flux=spec2D.flux_err, spec_mask=spec2D.spec_mask, fill_value=fill_value, mask_zero=True)
    spec2D.median_flux_error = np.median(np.sqrt(np.sum((spec2D.flux_err * spec2D.spec_mask) ** 2, axis=0)))
    lib = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
    if spec2D.wave_full_range_rest is None:
        if spec2D.wave_full_range_rest_param_filename is None:
            spec2D.wave_full_range_rest_param_filename = os.path.join(lib, 'full_range_restwave_2D.param')
        spec2D.wave_full_range_rest = io.read_wave_range(spec2D.wave_full_range_rest_param_filename,
                                                         linename=spec2D.linenames_arr[0])
    if spec2D.wave_line_range_rest is None:
        if spec2D.wave_line_range_rest_param_filename is None:
            spec2D.wave_line_range_rest_param_filename = os.path.join(lib, 'line_range_restwave_2D.param')
        spec2D.wave_line_range_rest = io.read_wave_range(spec2D.wave_line_range_rest_param_filename,
                                                         linename=spec2D.linenames_arr[0])
    if spec2D.mask_lines_wave_range_rest is None:
        if spec2D.mask_lines_wave_range_rest_param_filename is None:
            spec2D.mask_lines_wave_range_rest_param_filename = os.path.join(lib, 'mask_lines_range_restwave_2D.param')
        spec2D.mask_lines_wave_range_rest = io.read_wave_range(spec2D.mask_lines_wave_range_rest_param_filename,
                                                               linename=spec2D.linenames_arr[0])
    spec2D.flux_incl_cont = spec2D.flux.copy()
    spec2D.cont_model = np.zeros(spec2D.flux.shape)
    full = spec2D.wave_full_range_rest * (1. + galaxy.z)
    line = spec2D.mask_lines_wave_range_rest * (1. + galaxy.z)
    left = np.where((spec2D.obswave >= full[0]) & (spec2D.obswave < line[0]))[0]
    right = np.where((spec2D.obswave <= full[1]) & (spec2D.obswave > line[1]))[0]
    keep = np.where((spec2D.obswave >= full[0]) & (spec2D.obswave <= full[1]))[0]
    x = np.append(spec2D.obswave[left], spec2D.obswave[right])
    error1d = np.sqrt((line1d.flux_err * line1d.spec_mask) ** 2)
    unused, sky = wh_skylines_1D(error1d, median_err=spec2D.median_flux_error, cutoff=spec2D.band_cutoff, full=True)
    good = line1d.spec_mask.copy()
    good[sky] = 0.
    if len(left) > 0. and len(right) > 0.:
        if good[left].max() > 0. and good[right].max() > 0.:
            p = lmfit.Parameters()
            p.add('a', value=0.)
            p.add('b', value=0.)
        else:
            p = lmfit.Parameters()
            p.add('a', value=0., vary=False)
            p.add('b', value=0.)
    else:
        p = lmfit.Parameters()
        p.add('a', value=0., vary=False)
        p.add('b', value=0.)
    y1 = np.append(line1d.flux[left], line1d.flux[right])
    e1 = np.append(line1d.flux_err[left], line1d.flux_err[right])
    m1 = np.append(good[left], good[right])
    fit1 = lmfit.minimize(utils.weighted_linear_residual, p, args=(x, y1, e1, m1))
    slope = fit1.params['a'].value
    for i in range(np.shape(spec2D.flux)[0]):
        q = lmfit.Parameters()
        q.add('a', value=slope, vary=False)
        q.add('b', value=fit1.params['b'].value)
        y = np.append(spec2D.flux_incl_cont[i, left], spec2D.flux_incl_cont[i, right])
        e = np.append(spec2D.flux_err[i, left], spec2D.flux_err[i, right])
        m = np.append(spec2D.spec_mask[i, left], spec2D.spec_mask[i, right])
        fit = lmfit.minimize(utils.weighted_linear_residual, q, args=(x, y, e, m))
        cont = utils.linear_fit(fit.params, spec2D.wave)
        spec2D.cont_model[i, :] = cont
        if np.isfinite(cont.max()):
            spec2D.flux[i, :] = spec2D.flux_incl_cont[i, :] - cont
        else:
            raise ValueError('continuum')
    spec2D.wave = spec2D.wave[keep]
    spec2D.flux_incl_cont = spec2D.flux_incl_cont[:, keep]
    spec2D.cont_model = spec2D.cont_model[:, keep]
    spec2D.flux = spec2D.flux[:, keep]
    spec2D.flux_err = spec2D.flux_err[:, keep]
    spec2D.spec_mask = spec2D.spec_mask[:, keep]
    spec2D.spec_weight = spec2D.spec_weight[:, keep]
    line1d.wave = line1d.wave[keep]
    line1d.flux = line1d.flux[keep]
    line1d.flux_err = line1d.flux_err[keep]
    line1d.spec_mask = line1d.spec_mask[keep]
    spec2D.calculate_restwave(galaxy)
    galaxy.spec1D.calculate_restwave(galaxy)


def _emission_params(spec2D, pixscale, y, prof, n, top):
    p = lmfit.Parameters()
    p.add('mu', value=spec2D.ypos * pixscale, min=y.min(), max=y.max())
    p.add('A', value=prof.max())
    if top is None:
        p.add('sigma', value=n / 4., min=0.)
    else:
        p.add('sigma', value=n / 4., min=0., max=top)
    return p


@spec('general.galaxy_utils.fit_emission_y_profile', 'C14 C09 C03 C11 C12 C10 C05', obs=['heap'], fix={'filename_plot': None, 'plot': False})
def emission(spec2D, gal, inst, filename_plot=None, plot=False, num_MC=500):
    signal = spec2D.flux * spec2D.mask_sky
    noise = spec2D.flux_err * spec2D.mask_sky
    n = spec2D.flux.shape[0]
    prof = np.sum(signal, axis=1)
    prof_err = np.sqrt(np.sum(noise ** 2, axis=1))
    y = np.linspace(spec2D.m_lims[0] * inst.pixscale, spec2D.m_lims[1] * inst.pixscale,
                    num=(spec2D.m_lims[1] - spec2D.m_lims[0]), endpoint=False)
    rows = np.setdiff1d(range(len(y)), spec2D.low_snr_row_inds)
    if len(rows) > 0:
        fwhm = 2. * np.sqrt(2. * np.log(2.))
        top = (y.max() - y.min()) / fwhm
        p = _emission_params(spec2D, inst.pixscale, y, prof, n, None)
        try:
            if len(rows) * inst.pixscale / inst.PSF.PSF_FWHM < 0.8:
                raise ValueError
            fit = lmfit.minimize(utils.gaus_residual_mask, p, args=(y, prof, prof_err, rows))
            if fit.params['sigma'].value > top:
                p = _emission_params(spec2D, inst.pixscale, y, prof, n, top)
                fit = lmfit.minimize(utils.gaus_residual_mask, p, args=(y, prof, prof_err, rows))
            spec2D.sigma_y_emis_obs = fit.params['sigma'].value
            spec2D.sigma_y_emis_int = np.sqrt(spec2D.sigma_y_emis_obs ** 2 - (inst.PSF.PSF_FWHM / fwhm) ** 2)
            if not np.isfinite(spec2D.sigma_y_emis_int):
                spec2D.sigma_y_emis_int = 0.
            spec2D.D50 = spec2D.sigma_y_emis_int * fwhm
            best = np.array([spec2D.sigma_y_emis_obs, spec2D.sigma_y_emis_int, spec2D.D50])
            table = np.zeros((num_MC, len(best)))
            for i in range(num_MC):
                trial = prof.copy()
                kicks = np.random.randn(len(trial))
                trial += prof_err * kicks
                q = _emission_params(spec2D, inst.pixscale, y, prof, n, None)
                mc = lmfit.minimize(utils.gaus_residual_mask, q, args=(y, trial, prof_err, rows))
                if mc.params['sigma'].value > top:
                    q = _emission_params(spec2D, inst.pixscale, y, prof, n, top)
                    mc = lmfit.minimize(utils.gaus_residual_mask, q, args=(y, trial, prof_err, rows))
                table[i, 0] = mc.params['sigma'].value
                table[i, 1] = np.sqrt(table[i, 0] ** 2 - (inst.PSF.PSF_FWHM / fwhm) ** 2)
                if not np.isfinite(table[i, 1]):
                    table[i, 1] = 0.
                table[i, 2] = table[i, 1] * fwhm
            err = np.zeros((len(best), 2))
            lims = np.percentile(table, [15.865, 84.135], axis=0).T
            err[:, 0] = best[:] - lims[:, 0]
            err[:, 1] = lims[:, 1] - best[:]
            spec2D.sigma_y_emis_obs_err = err[0, :]
            spec2D.sigma_y_emis_int_err = err[1, :]
            spec2D.D50_err = err[2, :]
        except:
            spec2D.D50 = -99.
            spec2D.D50_err = np.array([-99., -99.])
            spec2D.sigma_y_emis_obs = -99.
            spec2D.sigma_y_emis_obs_err = np.array([-99., -99.])
            spec2D.sigma_y_emis_int = -99.
            spec2D.sigma_y_emis_int_err = np.array([-99., -99.])
    else:
        spec2D.D50 = -99.
        spec2D.D50_err = np.array([-99., -99.])
        spec2D.sigma_y_emis_obs = -99.
        spec2D.sigma_y_emis_obs_err = np.array([-99., -99.])
        spec2D.sigma_y_emis_int = -99.
        spec2D.sigma_y_emis_int_err = np.array([-99., -99.])


@spec('general.galaxy_utils.get_m0_lam0_pos_2D', 'C14 C03 C11 C10 C13 C05', obs=['heap'], pre={'galaxy.debug': False})
def m0_lam0(spec2D, galaxy):
    shift = spec2D.m0_shift_fit
    signal = spec2D.flux * spec2D.mask_sky * spec2D.mask_low_snr
    noise = spec2D.flux_err * spec2D.mask_sky * spec2D.mask_low_snr
    yprof = np.sum(signal, axis=1)
    yerr = np.sqrt(np.sum(noise ** 2, axis=1))
    y = np.linspace(spec2D.m_lims[0], spec2D.m_lims[1], num=(spec2D.m_lims[1] - spec2D.m_lims[0]), endpoint=False)
    rows = np.setdiff1d(range(len(y)), spec2D.low_snr_row_inds)
    lprof = np.sum(signal, axis=0)
    lerr = np.sqrt(np.sum(noise ** 2, axis=0))
    lam = spec2D.wave.copy()
    cols = spec2D.wh_nosky.copy()
    n = spec2D.flux.shape[0]
    if len(rows) > 0 and len(cols) > 0:
        p = lmfit.Parameters()
        p.add('mu', value=spec2D.ypos, min=y.min(), max=y.max())
        p.add('A', value=yprof.max())
        p.add('sigma', value=n / 4., min=0.)
        try:
            fit = lmfit.minimize(utils.gaus_residual_mask, p, args=(y, yprof, yerr, rows))
            if fit.params['mu'].value >= y.min() and fit.params['mu'].value <= y.max():
                if np.abs(spec2D.ypos - fit.params['mu'].value) <= 2.:
                    shift = fit.params['mu'].value - spec2D.m0
                elif (np.abs(spec2D.m0 - fit.params['mu'].value) <= 2. and np.abs(spec2D.m0_shift_fit) <= 1.
                        and spec2D.m0_peak_snr >= 3.):
                    shift = fit.params['mu'].value - spec2D.m0
                else:
                    shift = 0.
            else:
                shift = 0.
        except:
            shift = 0.
        p = lmfit.Parameters()
        span = lam.max() - lam.min()
        first = spec2D.lam0
        spec2D.lam0_init = first
        p.add('mu', value=first, min=lam.min() + span / 4., max=lam.max() - span / 4.)
        p.add('A', value=lprof.max())
        p.add('sigma', value=len(lam) / 4., min=0.)
        try:
            fit = lmfit.minimize(utils.gaus_residual_mask, p, args=(lam, lprof, lerr, cols))
            if fit.params['mu'].value >= lam.min() + span / 4. and fit.params['mu'].value <= lam.max() - span / 4.:
                if np.abs(first - fit.params['mu'].value) <= span / 4.:
                    lam0 = fit.params['mu'].value
                else:
                    lam0 = first
            else:
                lam0 = first
        except:
            lam0 = first
    else:
        shift = 0.
        lam0 = spec2D.lam0
    spec2D.m0_shift = shift
    spec2D.lam0 = lam0


def _fit_peak(params, x, signal, noise, dither):
    if dither:
        return lmfit.minimize(utils.vert_triple_gaus_residual, params, args=(x, signal, noise))
    return lmfit.minimize(utils.gaus_residual, params, args=(x, signal, noise))


def _half_cut(result, m0, offset, pixscale, dither):
    if dither:
        m1 = int(np.round(result.params['mu_l'].value)) + offset
        m2 = int(np.round(result.params['mu_r'].value)) + offset
        return int(np.ceil((abs(m0 - m1) + abs(m0 - m2)) / 2. / 2.))
    return int(np.ceil(1.5 / pixscale / 2.))


def _side_images(p, top, dither):
    if dither:
        p.add('deltl', value=16., min=1., max=top)
        p.add('mu_l', expr='mu-deltl')
        p.add('deltr', expr='deltl')
        p.add('mu_r', expr='mu+deltr')


@spec('general.galaxy_utils.vert_position', 'C10 C14 C13 C12', obs=['return'], fix={'debug': False, 'refit': False, 'skip_check': False})
def vertical(flux=None, err=None, obswave=None, obswave_val=None, band=None, ypos=None, refit=False, wh_sky=None,
             debug=False, skip_check=False, spatial_pixscale=None, dither=True, fill_value=-99.):
    err[err == fill_value] = np.median(err) * 3.
    signal = np.sum(flux, axis=1)
    noise = np.sqrt(np.sum(err ** 2, axis=1))
    snr = np.abs(signal / noise)
    snr[~np.isfinite(snr)] = 0.
    sp = signal.copy()
    if snr.argmax() == 0:
        sp[0] = 0.
    elif snr.argmax() == len(sp) - 1:
        sp[-1] = 0.
    if ypos is None:
        start = 0.5 * (len(sp) - 1.)
    else:
        start = ypos

    p = lmfit.Parameters()
    p.add('mu', value=start, min=0, max=len(sp) - 1)
    _side_images(p, len(sp) - 1, dither)
    p.add('A', value=sp.max())
    p.add('C', value=0.)
    p.add('sigma', value=10., min=0.)
    x = np.array(range(len(sp)))
    fit = _fit_peak(p, x, sp, noise, dither)
    m0 = int(np.round(fit.params['mu'].value))
    near = m0
    if m0 > len(snr) - 1:
        near = len(snr) - 1
    elif m0 < 0:
        near = 0
    shift = fit.params['mu'].value - m0
    peak = snr[near]
    cut = _half_cut(fit, m0, 0, spatial_pixscale, dither)
    lo, hi = m0 - cut, m0 + cut

    if ypos is not None:
        if np.abs(ypos - m0) > 2.:
            p = lmfit.Parameters()
            p.add('mu', value=ypos, vary=False)
            _side_images(p, len(sp) - 1, dither)
            p.add('A', value=sp.max())
            p.add('C', value=0.)
            p.add('sigma', value=10., min=0.)
            x = np.array(range(len(sp)))
            fit = _fit_peak(p, x, sp, noise, dither)
            m0 = int(np.round(fit.params['mu'].value))
            near = m0
            if m0 > len(snr) - 1:
                near = len(snr) - 1
            elif m0 < 0:
                near = 0
            shift = fit.params['mu'].value - m0
            peak = snr[near]
            cut = _half_cut(fit, m0, 0, spatial_pixscale, dither)
            lo, hi = m0 - cut, m0 + cut
        if (hi - lo) * spatial_pixscale > 4. or hi - lo < 5:
            sp = sp[5:-5]
            noise = noise[5:-5]
            snr = snr[5:-5]
            p = lmfit.Parameters()
            p.add('mu', value=ypos - 5, vary=False)
            _side_images(p, (len(sp) - 1) / 2., dither)
            try:
                p.add('A', value=sp.max(), min=0., max=10. * sp.max())
            except:
                p.add('A', value=sp.max(), min=0.)
            p.add('C', value=0.)
            p.add('sigma', value=5., min=0.)
            x = np.array(range(len(sp)))
            fit = _fit_peak(p, x, sp, noise, dither)
            m0 = int(np.round(fit.params['mu'].value)) + 5
            near = m0 - 5
            if m0 - 5 > len(snr) - 1:
                near = len(snr) - 1
            elif m0 - 5 < 0:
                near = 0
            shift = fit.params['mu'].value + 5 - m0
            peak = snr[near]
            cut = _half_cut(fit, m0, 5, spatial_pixscale, dither)
            lo, hi = m0 - cut, m0 + cut
    elif hi - lo > len(sp) - 5 or hi - lo < 5:
        sp = sp[5:-5]
        noise = noise[5:-5]
        snr = snr[5:-5]
        p = lmfit.Parameters()
        p.add('mu', value=start - 5, min=0, max=len(sp) - 1)
        _side_images(p, (len(sp) - 1) / 2., dither)
        p.add('A', value=sp.max(), min=0., max=10 * sp.max())
        p.add('C', value=0.)
        p.add('sigma', value=5., min=0.)
        x = np.array(range(len(sp)))
        fit = _fit_peak(p, x, sp, noise, dither)
        m0 = int(np.round(fit.params['mu'].value)) + 5
        shift = fit.params['mu'].value + 5 - m0
        peak = snr[m0 - 5]
        cut = _half_cut(fit, m0, 5, spatial_pixscale, dither)
        lo, hi = m0 - cut, m0 + cut
    return m0, shift, peak, lo, hi
