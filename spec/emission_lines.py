"""Reference behaviour of the 1D emission-line models."""
import os
import numpy as np
from scipy.stats import norm
import misfit.general.io as io
from misfit.model.emission_lines_model import gaussian_line, EmissionLines1DModel, EmissionLinesSpectrum1DModel
import astropy.constants as constants

c_kms = constants.c.cgs.value * 1.e-5


def spec(*a, **k):
    return lambda f: f


@spec('model.emission_lines_model.gaussian_line', 'C14 C15 C19 C16')
def gaussian_line_ref(x, mu, vel_sig, flux):
    return flux * norm.pdf(x, mu, vel_sig / c_kms * mu)


@spec('model.emission_lines_model.EmissionLines1DModel.make1DProfile', 'C14 C15 C19 C18 C06')
def make_set(self, obswave_arr, z, vel_disp, flux):
    self.obswave_arr = obswave_arr
    self.z = z
    self.vel_disp = vel_disp
    self.flux = flux
    profile = np.zeros(len(obswave_arr))
    for i in range(len(self.linenames_arr)):
        profile = profile + self.profile_func(obswave_arr, self.restwave_arr[i] * (1. + z), vel_disp,
                                              flux * self.flux_ratio_arr[i])
    self.profile = profile


@spec('model.emission_lines_model.EmissionLines1DModel.setAttr', 'C18 C06 C19', opaque_also=['general.io.read_restwave', 'general.io.read_line_names', 'general.io.read_line_ratio'],
      obs=['self.linenames_arr', 'self.restwave_arr', 'self.flux_ratio_arr'])
def set_attr(self, **kwargs):
    self.__dict__.update(kwargs)
    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
    if self.linenames_arr is None:
        self.linenames_arr = io.read_line_names(os.path.join(d, 'line_names_cat.dat'), name=self.name)
    if (self.linenames_arr is not None) & ((self.restwave_arr is None) | (self.flux_ratio_arr is None)):
        wf = os.path.join(d, 'line_wavelengths_ratios.dat')
        w, r = [], []
        for linename in self.linenames_arr:
            w.append(io.read_restwave(wf, linename=linename))
            r.append(io.read_line_ratio(wf, linename=linename))
        self.restwave_arr = np.array(w)
        self.flux_ratio_arr = np.array(r)


@spec('model.emission_lines_model.EmissionLinesSpectrum1DModel.setAttr', 'C17 C06', obs=['raises', 'self.shape1D'])
def spectrum_set_attr(self, **kwargs):
    self.__dict__.update(kwargs)
    if self.shape1D != 'gaussian':
        raise ValueError('unsupported shape')


@spec('model.emission_lines_model.EmissionLinesSpectrum1DModel.make1DProfile', 'C19 C18 C06', obs=['return', 'self', 'call:EmissionLines1DModel.make1DProfile'])
def make_spectrum(self, params, obswave_arr):
    cont = np.array([])
    for i in range(self.cont_order + 1):
        cont = np.append(cont, params['cont_coeff' + str(i)].value * 1.e-18)
    flux = np.array([])
    for i in range(len(self.names_arr)):
        flux = np.append(flux, params['flux' + str(i)].value)
    z = params['z'].value
    vel_disp = params['vel_disp'].value
    self.obswave_arr = obswave_arr
    self.z = z
    self.vel_disp = vel_disp
    self.cont_coeff = cont
    self.flux_arr = flux
    profile = np.zeros(len(obswave_arr))
    for i in range(len(self.names_arr)):
        m = EmissionLines1DModel(name=self.names_arr[i])
        m.make1DProfile(obswave_arr, z, vel_disp, flux[i])
        profile = profile + m.profile
    for i in range(self.cont_order + 1):
        profile = profile + cont[i] * np.power(obswave_arr, i)
    return profile


@spec('model.emission_lines_model.EmissionLinesSpectrum1DModel.residual1DProfile', 'C03 C19 C05 C11', obs=['return'])
def residual(self, params, obswave_arr, data, err, mask):
    good = np.where(mask == 1)[0]
    resid = (self.make1DProfile(params, obswave_arr[good]) - data[good]) / err[good]
    resid[~np.isfinite(resid)] = 0.
    return resid
