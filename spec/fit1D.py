"""Reference behaviour of the 1D emission-line fit."""
import os
import pickle
import numpy as np
import lmfit
import misfit.general.io as io
from misfit.model.emission_lines_model import EmissionLinesSpectrum1DModel


def spec(*a, **k):
    return lambda f: f


@spec('fit.fit1D.FitEmissionLines1D.setAttr', 'C06 C17 C18 C19', opaque_also=['general.io.read_restwave', 'general.io.read_line_names'],
      obs=['raises', 'self.z', 'self.linenames_arr', 'self.restwave_arr'])
def set_attr(self, **kwargs):
    self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if key in self.__dict__]))
    self.z = self.galaxy.z
    if self.shape1D != 'gaussian':
        raise ValueError('unsupported shape')
    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
    if self.linenames_arr is None:
        names = []
        for name in self.names_arr:
            names.append(io.read_line_names(os.path.join(d, 'line_names_cat.dat'), name=name))
        self.linenames_arr = names
    if (self.linenames_arr is not None) & (self.restwave_arr is None):
        waves = []
        for linenames in self.linenames_arr:
            w = []
            for linename in linenames:
                w.append(io.read_restwave(os.path.join(d, 'line_wavelengths_ratios.dat'), linename=linename))
            waves.append(w)
        self.restwave_arr = waves


@spec('fit.fit1D.FitEmissionLines1D.setup_spectrum', 'C06 C10 C11 C19 C05', obs=['self.galaxy.spec1D_trim', 'self.galaxy.spec1D', 'call:trim_spectrum_wavelength', 'call:mask_edges'],
      keep_copies=True, opaque_also=['galaxy.ObsSpectrum1D.trim_spectrum_wavelength', 'galaxy.ObsSpectrum1D.mask_edges'])
def setup_spectrum(self):
    if (self.trim_restwave_range is None) and (self.trim_wave_paramfile is None):
        d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
        f = os.path.join(d, 'trim_wavelengths_1D.param')
    else:
        f = self.trim_wave_paramfile
    self.galaxy.spec1D_trim = self.galaxy.spec1D.trim_spectrum_wavelength(
        self.galaxy, param_restwave_filename=f, trim_restwave_range=self.trim_restwave_range,
        linename=self.names_arr[0])
    self.galaxy.spec1D_trim.mask_edges()


@spec('fit.fit1D.FitEmissionLines1D.make_params', 'C19 C14 C05', obs=['return', 'call:add', 'state'])
def make_params(self, flux_bound=False, vel_disp_bound=False):
    params = lmfit.Parameters()
    dz = self.del_obs_lam / self.restwave_arr[0][0]
    params.add('z', value=self.z, min=self.galaxy.z - dz, max=self.galaxy.z + dz)
    if vel_disp_bound:
        params.add('vel_disp', value=self.vel_disp, min=0.)
    else:
        params.add('vel_disp', value=self.vel_disp)
    if flux_bound:
        for i in range(len(self.names_arr)):
            params.add('flux' + str(i), value=self.flux_arr[i], min=0.)
    else:
        for i in range(len(self.names_arr)):
            params.add('flux' + str(i), value=self.flux_arr[i])
    for i in range(self.cont_order + 1):
        params.add('cont_coeff' + str(i), value=self.cont_coeff[i])
    return params


def _minimise(self, model, params):
    g = self.galaxy.spec1D_trim
    return lmfit.minimize(model.residual1DProfile, params, args=(g.obswave, g.flux, g.flux_err, g.spec_mask))


_FITATTRS = ['raises', 'self.z', 'self.vel_disp', 'self.flux_arr', 'self.cont_coeff', 'self.final_model',
             'self.lmfit_result', 'self.z_err', 'self.vel_disp_err', 'self.flux_arr_err', 'self.cont_coeff_err']


@spec('fit.fit1D.FitEmissionLines1D.fit', 'C19 C17 C09 C03 C22 C05 C14 C10', fix={'noPlot': True},
      obs=['raises', 'self.z', 'self.vel_disp', 'self.flux_arr', 'self.cont_coeff', 'self.final_model',
           'self.lmfit_result', 'self.z_err', 'self.vel_disp_err', 'self.flux_arr_err', 'self.cont_coeff_err',
           'call:save_mc_sim_matrix', 'call:load_mc_sim_matrix'],
      opaque_also=['fit.fit1D.FitEmissionLines1D.make_params', 'fit.fit1D.FitEmissionLines1D.save_mc_sim_matrix',
                   'fit.fit1D.FitEmissionLines1D.load_mc_sim_matrix',
                   'model.emission_lines_model.EmissionLinesSpectrum1DModel.make1DProfile'])
def fit(self, reload_errors=False, noErrors=False, noPlot=False, plot_filename=None, err_filename=None, reload=False):
    if self.instrument.instrument_resolution < 0.:
        raise ValueError
    if self.cont_coeff is None:
        c = np.array([])
        for i in range(self.cont_order + 1):
            c = np.append(c, 0.)
        self.cont_coeff = c
    params = self.make_params()
    model = EmissionLinesSpectrum1DModel(names_arr=self.names_arr, cont_order=self.cont_order, shape1D=self.shape1D)
    result = _minimise(self, model, params)
    if (result.params['vel_disp'].value < 0.) & (result.params['flux0'].value < 0.):
        params = self.make_params(vel_disp_bound=True, flux_bound=True)
        result = _minimise(self, model, params)
    elif result.params['vel_disp'].value < 0.:
        params = self.make_params(vel_disp_bound=True)
        result = _minimise(self, model, params)
    elif result.params['flux0'].value < 0.:
        params = self.make_params(flux_bound=True)
        result = _minimise(self, model, params)
    self.lmfit_result = result
    self.final_model = model.make1DProfile(self.lmfit_result.params, self.galaxy.spec1D_trim.obswave)
    self.z = self.lmfit_result.params['z'].value
    self.vel_disp = self.lmfit_result.params['vel_disp'].value
    c = np.array([])
    for i in range(self.cont_order + 1):
        c = np.append(c, self.lmfit_result.params['cont_coeff' + str(i)].value)
    self.cont_coeff = c
    fl = np.array([])
    for i in range(len(self.names_arr)):
        fl = np.append(fl, self.lmfit_result.params['flux' + str(i)].value)
    self.flux_arr = fl
    best = np.array([self.z, self.vel_disp])
    best = np.append(best, self.flux_arr)
    best = np.append(best, self.cont_coeff)
    n = len(self.names_arr)
    if not noErrors:
        if reload_errors:
            m = self.load_mc_sim_matrix(line=self.names_arr[0], err_filename=err_filename)
        else:
            m = np.zeros((self.num_MC, len(self.lmfit_result.params)))
            for i in range(self.num_MC):
                g = self.galaxy.spec1D_trim
                noisy = g.flux.copy()
                noisy += g.flux_err * np.random.randn(len(noisy))
                p = lmfit.Parameters()
                dz = self.del_obs_lam / self.restwave_arr[0][0]
                p.add('z', value=self.z, min=self.galaxy.z - dz, max=self.galaxy.z + dz)
                p.add('vel_disp', value=self.vel_disp)
                for jj in range(len(self.names_arr)):
                    p.add('flux' + str(jj), value=self.flux_arr[jj])
                for jj in range(self.cont_order + 1):
                    p.add('cont_coeff' + str(jj), value=self.cont_coeff[jj])
                r = lmfit.minimize(model.residual1DProfile, p, args=(g.obswave, noisy, g.flux_err, g.spec_mask))
                m[i, 0] = r.params['z'].value
                m[i, 1] = r.params['vel_disp'].value
                jj = 1
                for j in range(len(self.names_arr)):
                    jj += 1
                    m[i, jj] = r.params['flux' + str(j)].value
                for j in range(self.cont_order + 1):
                    jj += 1
                    m[i, jj] = r.params['cont_coeff' + str(j)].value
            self.save_mc_sim_matrix(m, line=self.names_arr[0], err_filename=err_filename)
        err = np.zeros((len(self.lmfit_result.params), 2))
        lim = np.percentile(m, [15.865, 84.135], axis=0).T
        err[:, 0] = best[:] - lim[:, 0]
        err[:, 1] = lim[:, 1] - best[:]
        self.z_err = err[0, :]
        self.vel_disp_err = err[1, :]
        self.flux_arr_err = err[2:n + 2, :]
        self.cont_coeff_err = err[n + 2:n + 2 + self.cont_order + 1, :]
    else:
        self.z_err = np.zeros(2)
        self.vel_disp_err = np.zeros(2)
        self.flux_arr_err = np.zeros((n, 2))
        self.cont_coeff_err = np.zeros((self.cont_order + 1, 2))


@spec('fit.fit1D.FitEmissionLines1D.calculate_inst_corr_vel_disp', 'C19 C17 C09',
      obs=['raises', 'self.vel_disp_inst_corr', 'self.vel_disp_inst_corr_err', 'call:load_mc_sim_matrix'])
def inst_corr(self, noErrors=False, err_filename=None):
    R = self.instrument.instrument_resolution
    if R is None:
        return
    if np.abs(self.vel_disp) > np.abs(R):
        self.vel_disp_inst_corr = np.sqrt(self.vel_disp ** 2 - R ** 2)
    else:
        self.vel_disp_inst_corr = 0.
    if not noErrors:
        if err_filename is None:
            raise ValueError("no file")
        m = self.load_mc_sim_matrix(line=self.names_arr[0], err_filename=err_filename)
        v = np.sqrt(m[:, 1] ** 2 - R ** 2)
        v[~np.isfinite(v)] = 0.
        lim = np.percentile(v, [15.865, 84.135])
        e = np.zeros(2)
        e[0] = self.vel_disp_inst_corr - lim[0]
        e[1] = lim[1] - self.vel_disp_inst_corr
        if ~np.isfinite(np.average(lim)):
            raise ValueError('limits')
        self.vel_disp_inst_corr_err = e
    else:
        self.vel_disp_inst_corr_err = np.zeros(2)


@spec('fit.fit1D.FitEmissionLines1D.save_mc_sim_matrix', 'C22 C17 C19 C21', obs=['raises', 'call:pickle.dump', 'call:open'])
def save_mc(self, value_matrix, line='none', err_filename=None):
    if err_filename is None:
        raise ValueError("no file")
    with open(err_filename, "wb") as f:
        pickle.dump(value_matrix, f)


@spec('fit.fit1D.FitEmissionLines1D.load_mc_sim_matrix', 'C22 C17 C19 C21', obs=['return', 'raises', 'call:open'])
def load_mc(self, line='none', err_filename=None):
    if err_filename is None:
        raise ValueError("no file")
    with open(err_filename, "rb") as f:
        m = pickle.load(f)
    return m
