"""Reference behaviour of the data containers."""
import os
import numpy as np
from misfit.general import io, galaxy_utils


def spec(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ rest frame
@spec('galaxy.ObsSpectrum.calculate_restwave', 'C14 C10 C06')
def restwave(self, galaxy):
    self.obswave = self.wave
    self.restwave = self.wave / (1. + galaxy.z)


@spec('galaxy.ObsSpectrum1D.load_basic_defaults', 'C14 C06 C11 C10', inline='*')
def load_1d(self, galaxy, **kwargs):
    self.setAttr(**kwargs)
    if (galaxy.z is not None) and (self.wave is not None) and (self.spec_type == 'wave'):
        self.obswave = self.wave
        self.restwave = self.wave / (1. + galaxy.z)
    if self.spec_mask is None:
        self.spec_mask = np.ones(len(self.wave))


@spec('galaxy.ObsSpectrum.load_basic_defaults', 'C14 C06 C11 C10', inline='*')
def load_base(self, galaxy, **kwargs):
    if (galaxy.z is not None) and (self.wave is not None) and (self.spec_type == 'wave'):
        self.obswave = self.wave
        self.restwave = self.wave / (1. + galaxy.z)
    if self.spec_mask is None:
        self.spec_mask = np.ones(len(self.wave))


@spec('galaxy.ObsSpectrum2DBasic.load_basic_defaults', 'C14 C06 C11 C10', inline='*')
def load_2d(self, galaxy, **kwargs):
    self.setAttr(**kwargs)
    if (galaxy.z is not None) and (self.wave is not None) and (self.spec_type == 'wave'):
        self.obswave = self.wave
        self.restwave = self.wave / (1. + galaxy.z)
    if (self.spec_mask is None) and (self.flux is not None):
        self.spec_mask = np.ones(self.flux.shape)


@spec('galaxy.GalaxyBasic.set_spectrum_2D', 'C06 C14', obs=['self.spec2D', 'call:load_basic_defaults'])
def set_2d_basic(self, obsSpectrum2DBasic):
    self.spec2D = obsSpectrum2DBasic
    self.spec2D.load_basic_defaults(self)


@spec('galaxy.Galaxy.set_spectrum_2D', 'C06 C14', obs=['self.spec2D', 'call:load_basic_defaults'])
def set_2d(self, obsSpectrum2D):
    self.spec2D = obsSpectrum2D
    self.spec2D.load_basic_defaults(self)


@spec('galaxy.Galaxy.set_spectrum_1D', 'C06 C14', obs=['self.spec1D', 'call:load_basic_defaults'])
def set_1d(self, obsSpectrum1D):
    self.spec1D = obsSpectrum1D
    self.spec1D.load_basic_defaults(self)


@spec('galaxy.Galaxy.calculate_slit_object_delta_PA', 'C12 C06 C14 C05', obs=['call:calculate_slit_offset_angles'], keep_copies=True, inline='*')
def delta_pa(self):
    galaxy_utils.calculate_slit_offset_angles(self)


@spec('galaxy.Galaxy.set_pstamp', 'C06')
def set_pstamp(self, pstamp):
    self.pstamp = pstamp


@spec('galaxy.ObsSpectrum1D.mask_edges', 'C11 C06 C10 C05')
def mask_edges(self):
    self.spec_mask = galaxy_utils.mask_edges_1D(spec=self.flux, spec_err=self.flux_err, spec_mask=self.spec_mask,
                                                num_edge=self.num_mask_edge)


# ------------------------------------------------------------------ preparing the 2D spectrum
@spec('galaxy.ObsSpectrum2D._ensure_mask_weight', 'C11 C03 C10 C05')
def ensure(self):
    if self.spec_weight is None:
        self.spec_weight = np.ones(self.flux.shape)
    if self.spec_mask is None:
        self.spec_mask = np.ones(self.flux.shape)


@spec('galaxy.ObsSpectrum2D.initialize_derived_variables', 'C14 C06 C12 C10')
def derived(self, galaxy):
    self.dlam = np.average(self.wave[1:] - self.wave[:-1])
    if self.lam0 is None and self.spec_type == 'wave':
        self.lam0 = self.restwave_arr[0] * (1. + galaxy.z)


@spec('galaxy.ObsSpectrum2D.initialize_lineset', 'C18 C06 C04 C17', opaque_also=['general.io.read_line_names', 'general.io.read_restwave', 'general.io.read_line_ratio'], skip=['linenames_param_filename', 'restwave_param_filename'])
def lineset(self):
    lib = os.path.join(os.path.dirname(__file__), 'lib')
    if self.linenames_arr is None:
        names = self.linenames_param_filename
        if names is None:
            names = os.path.join(lib, 'line_names_cat.dat')
        self.linenames_arr = io.read_line_names(names, name=self.linegroup_name)
    table = self.restwave_param_filename
    if table is None:
        table = os.path.join(lib, 'line_wavelengths_ratios.dat')
    if self.linenames_arr is not None and self.restwave_arr is None:
        self.restwave_arr = np.array([io.read_restwave(table, linename=n) for n in self.linenames_arr])
    if self.linenames_arr is not None and self.flux_ratio_arr is None:
        self.flux_ratio_arr = np.array([io.read_line_ratio(table, linename=n) for n in self.linenames_arr])


@spec('galaxy.ObsSpectrum2D.initialize_skylevels', 'C18 C11 C06 C17 C14', skip=['band_cutoff_param_filename'])
def skylevels(self):
    if self.band_cutoff is None:
        f = self.band_cutoff_param_filename
        if f is None:
            f = os.path.join(os.path.dirname(__file__), 'lib', 'band_sky_cutoff_mosfire.dat')
        self.band_cutoff, self.band_cutoff_units = io.read_skyline_band_cutoff(f, band=self.band)


@spec('galaxy.ObsSpectrum2D.get_skyline_mask', 'C11 C05 C03', keep_copies=True)
def skymask(self, full=True):
    if self.mask_qual is None:
        self.mask_qual = self.spec_mask.copy()
    self.mask_sky, self.wh_sky, self.wh_nosky = galaxy_utils.get_skyline_mask_2D(self, full=full)
    self.wh_sky_fit = []


@spec('galaxy.ObsSpectrum2D.get_low_snr_mask', 'C11 C05 C06 C03', keep_copies=True)
def lowsnr(self, debug=False):
    if self.mask_qual is None:
        self.mask_qual = self.spec_mask.copy()
    self.mask_low_snr, self.low_snr_row_inds = galaxy_utils.get_low_snr_mask_2D(self, snr_cut=self.row_snr_cut, debug=debug)


@spec('galaxy.ObsSpectrum2D.trim_spectrum_wavelength', 'C10 C06')
def trimwave(self, galaxy, trim_restwave_range=None, trim_obswave_range=None, param_restwave_filename=None,
             linename=None, inplace=False):
    return galaxy_utils.trim_spectrum_2D_wavelength(
        self, galaxy, trim_restwave_range=trim_restwave_range, trim_obswave_range=trim_obswave_range,
        param_restwave_filename=param_restwave_filename, linename=linename, inplace=inplace)


@spec('galaxy.ObsSpectrum1D.trim_spectrum_wavelength', 'C10 C06')
def trimwave1(self, galaxy, trim_restwave_range=None, trim_obswave_range=None, param_restwave_filename=None, linename=None):
    return galaxy_utils.trim_spectrum_1D(
        self, galaxy, trim_restwave_range=trim_restwave_range, trim_obswave_range=trim_obswave_range,
        param_restwave_filename=param_restwave_filename, linename=linename)


@spec('galaxy.ObsSpectrum2D.fit_prep_calcs', 'C03 C05 C06 C10 C11 C12 C14 C18', frame=False,
      obs=['call:initialize_lineset', 'call:initialize_skylevels', 'call:initialize_derived_variables', 'call:_ensure_mask_weight',
           'call:subtract_continuum', 'call:trim_spectrum_wavelength', 'call:get_skyline_mask', 'call:get_low_snr_mask',
           'call:trim_spectrum_spatial', 'call:calculate_fit_weights', 'call:calculate_slit_object_delta_PA', 'call:get_m0_lam0_pos',
           'order:initialize_lineset,initialize_derived_variables', 'order:initialize_lineset,trim_spectrum_wavelength',
           'order:initialize_lineset,subtract_continuum', 'order:_ensure_mask_weight,subtract_continuum',
           'order:subtract_continuum,trim_spectrum_wavelength', 'order:trim_spectrum_wavelength,get_skyline_mask',
           'order:get_skyline_mask,get_low_snr_mask', 'order:get_low_snr_mask,trim_spectrum_spatial',
           'order:initialize_skylevels,get_skyline_mask', 'order:trim_spectrum_spatial,calculate_fit_weights',
           'order:trim_spectrum_spatial,get_m0_lam0_pos', 'self.prepared_for_fitting', 'galaxy.spec2D'],
      opaque_also=[
          'galaxy.ObsSpectrum2D.initialize_lineset', 'galaxy.ObsSpectrum2D.initialize_skylevels',
          'galaxy.ObsSpectrum2D.initialize_derived_variables', 'galaxy.ObsSpectrum2D._ensure_mask_weight',
          'galaxy.ObsSpectrum2D.subtract_continuum', 'galaxy.ObsSpectrum2D.trim_spectrum_wavelength',
          'galaxy.ObsSpectrum2D.get_skyline_mask', 'galaxy.ObsSpectrum2D.get_low_snr_mask',
          'galaxy.ObsSpectrum2D.trim_spectrum_spatial', 'galaxy.ObsSpectrum2D.calculate_fit_weights',
          'galaxy.ObsSpectrum2D.get_m0_lam0_pos', 'galaxy.Galaxy.calculate_slit_object_delta_PA'])
@spec('galaxy.ObsSpectrum2D.fit_prep_calcs', 'C06 C10 C11 C14',
      obs=['self.spec_mask', 'self.prepared_for_fitting', 'self.flux', 'self.flux_err', 'self.spec_weight', 'self.lam0',
           'self.fitting_weight_matrix', 'galaxy.spec2D', 'self.m0', 'self.mask_sky', 'self.mask_low_snr'])
def prep(self, galaxy, instrument, **kwargs):
    self.setAttr(**kwargs)
    if not self.prepared_for_fitting:
        self.initialize_lineset()
        self.initialize_skylevels()
        self.initialize_derived_variables(galaxy)
        self._ensure_mask_weight()
        self.subtract_continuum(galaxy, no_cont_subtraction=self.no_continuum_subtraction)
        self.trim_spectrum_wavelength(galaxy, trim_restwave_range=self.wave_line_range_rest,
                                      param_restwave_filename=self.wave_line_range_rest_param_filename,
                                      linename=self.linenames_arr[0], inplace=True)
        self.get_skyline_mask(full=True)
        self.get_low_snr_mask(debug=galaxy.debug)
        self.spec_mask *= self.mask_low_snr
        self.trim_spectrum_spatial(galaxy, instrument)
        self.calculate_fit_weights()
        if galaxy.delt_PA is None:
            galaxy.calculate_slit_object_delta_PA()
        self.get_m0_lam0_pos(galaxy)
        self.prepared_for_fitting = True
    galaxy.spec2D = self


@spec('galaxy.ObsSpectrum2D.fit_emission_y_profile', 'C17 C06 C10 C05 C14 C12', obs=['raises', 'call:galaxy_utils.fit_emission_y_profile'])
def yprofile(self, galaxy, instrument, filename_plot=None, plot=False):
    if not self.prepared_for_fitting:
        raise ValueError('not prepared')
    galaxy_utils.fit_emission_y_profile(self, galaxy, instrument, filename_plot=filename_plot, plot=plot)
