"""Reference behaviour of the constructors: defaults, then the caller's settings; objects made fresh for each."""
import copy
import numpy as np
from misfit.instrument import PSFGaussian, PSFMoffat
from misfit.model.emission_lines_model import gaussian_line
from misfit.model.kin_classes import (KinProfileFiducial, IntensityProfileFiducial, VelArctanProfile, DispConstProfile,
                                      IntProfileSersic, IntProfileExpZ, IntProfileExpZScale, Theta2DSettingsFiducial)
from misfit.model.kin_model import KinModel2DOptions
from misfit.fit.fit_core import MCMC2DOptions, MCMCResults


def spec(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ instruments
@spec('instrument.PSFBase.__init__', 'C06 C05', obs=['self'])
def psfbase(self, **kwargs):
    self.PSF_type = 'plain'
    self.PSF_FWHM = None
    self.yspace_dither_arc = None
    self._conv_stamp = None
    self.setAttr(**kwargs)


@spec('instrument.PSFGaussian.__init__', 'C06 C05', obs=['self'])
def psfgauss(self, **kwargs):
    self.PSF_type = 'Gaussian'
    self.PSF_FWHM = None
    self.yspace_dither_arc = None
    self._conv_stamp = None
    self.setAttr(**kwargs)


@spec('instrument.PSFMoffat.__init__', 'C06 C05', obs=['self'])
def psfmoffat(self, PSF_beta=2.5, **kwargs):
    self.PSF_type = 'Moffat'
    self.PSF_FWHM = None
    self.yspace_dither_arc = None
    self._conv_stamp = None
    self.PSF_beta = PSF_beta
    self.setAttr(**kwargs)


def _psf(kwargs):
    kind = str(kwargs.get('PSF_type', 'Gaussian')).strip().lower()
    if kind == 'moffat':
        return PSFMoffat(**kwargs)
    return PSFGaussian(**kwargs)


@spec('instrument.Instrument.__init__', 'C06 C05 C17', obs=['self'])
def instrument(self, **kwargs):
    self.instrument_name = None
    self.band = None
    self.pixscale = None
    self.PSF = _psf(kwargs)
    self.setAttr(**kwargs)


@spec('instrument.Imager.__init__', 'C06 C05', obs=['self'])
def imager(self, **kwargs):
    self.instrument_name = None
    self.band = None
    self.pixscale = None
    self.PSF = _psf(kwargs)
    self.setAttr(**kwargs)


@spec('instrument.Spectrograph.__init__', 'C06 C05', obs=['self'])
def spectrograph(self, **kwargs):
    self.instrument_name = None
    self.band = None
    self.pixscale = None
    self.PSF = _psf(kwargs)
    self.slit_width = None
    self.slit_length = None
    self.instrument_resolution = None
    self.conv_sigma = None
    self.slit_mask = None
    self.setAttr(**kwargs)


# ------------------------------------------------------------------ galaxy, spectra
@spec('galaxy.GalaxyBasic.__init__', 'C06 C05', obs=['self'])
def galbasic(self, **kwargs):
    for a in ('z', 'n', 're_arcsec', 'q', 're_mass_arcsec', 'q_mass', 'delt_PA', 'spec2D'):
        setattr(self, a, None)
    self.q0 = 0.19
    self.generate_model = False
    self.setAttr(**kwargs)


@spec('galaxy.Galaxy.__init__', 'C06 C05', obs=['self'])
def gal(self, **kwargs):
    for a in ('z', 'n', 're_arcsec', 'q', 're_mass_arcsec', 'q_mass', 'delt_PA', 'spec2D', 'field', 'maskname', 'ID', 'RA', 'DEC',
              'Av', 'lmass', 'lage', 'ltau', 'lsfr', 'Av_neb', 'sersicRA', 'sersicDEC', 'sersicPA', 'spec1D', 'pstamp'):
        setattr(self, a, None)
    self.q0 = 0.19
    self.generate_model = False
    self.dither = True
    self.debug = False
    self.setAttr(**kwargs)


@spec('galaxy.Spectrum.__init__', 'C06 C05', obs=['self'])
def spectrum(self, **kwargs):
    for a in ('wave', 'flux', 'flux_err', 'spec_mask'):
        setattr(self, a, None)
    self.units_wave = 'angstroms'
    self.units_flux = 'flam'
    self.spec_type = 'wave'
    self.setAttr(**kwargs)


@spec('galaxy.ObsSpectrum.__init__', 'C06 C05', obs=['self'])
def obsspectrum(self, **kwargs):
    for a in ('wave', 'flux', 'flux_err', 'spec_mask', 'band', 'slit_PA'):
        setattr(self, a, None)
    self.units_wave = 'angstroms'
    self.units_flux = 'flam'
    self.spec_type = 'wave'
    self.setAttr(**kwargs)


@spec('galaxy.ObsSpectrum1D.__init__', 'C06 C05', obs=['self'])
def obsspectrum1d(self, **kwargs):
    for a in ('wave', 'flux', 'flux_err', 'spec_mask', 'band', 'slit_PA', 'extraction_spatial_profile', 'trim_obswave_range',
              'trim_restwave_range'):
        setattr(self, a, None)
    self.units_wave = 'angstroms'
    self.units_flux = 'flam'
    self.spec_type = 'wave'
    self.extraction_method = 'optimal'
    self.units_spatial = 'arcsec'
    self.num_mask_edge = 10
    self.setAttr(**kwargs)


@spec('galaxy.ObsSpectrum2DBasic.__init__', 'C06 C05', obs=['self'])
def obsspectrum2db(self, **kwargs):
    for a in ('wave', 'flux', 'flux_err', 'spec_mask', 'band', 'slit_PA'):
        setattr(self, a, None)
    self.units_wave = 'angstroms'
    self.units_flux = 'flam'
    self.spec_type = 'wave'
    self.setAttr(**kwargs)


@spec('galaxy.ObsSpectrum2D.__init__', 'C06 C05 C10 C11', obs=['self'])
def obsspectrum2d(self, **kwargs):
    for a in ('wave', 'flux', 'flux_err', 'spec_mask', 'band', 'slit_PA', 'ypos', 'y_width', 'spec_weight', 'median_flux_error',
              'band_cutoff', 'band_cutoff_param_filename', 'wh_sky', 'wh_nosky', 'wh_sky_fit', 'low_snr_row_inds', 'mask_qual',
              'mask_sky', 'mask_low_snr', 'fitting_weight_profile', 'fitting_weight_matrix', 'linegroup_name', 'linenames_arr',
              'restwave_arr', 'flux_ratio_arr', 'trim_obswave_range', 'trim_restwave_range', 'wave_full_range_rest',
              'wave_line_range_rest', 'mask_lines_wave_range_rest', 'linenames_param_filename', 'restwave_param_filename',
              'wave_full_range_rest_param_filename', 'wave_line_range_rest_param_filename',
              'mask_lines_wave_range_rest_param_filename', 'm0', 'lam0', 'dlam', 'm_lims'):
        setattr(self, a, None)
    self.units_wave = 'angstroms'
    self.units_flux = 'flam'
    self.spec_type = 'wave'
    self.yoffset = 0.
    self.band_cutoff_units = 'timesMedianErr'
    self.prepared_for_fitting = False
    self.no_continuum_subtraction = False
    self.row_snr_cut = 2.
    self.weighting_type = 'up-edges'
    self.setAttr(**kwargs)


@spec('galaxy.Pstamp.__init__', 'C06 C05', obs=['self'])
def pstamp(self, **kwargs):
    for a in ('pstamp', 'pstamp_hdr', 'img_PA'):
        setattr(self, a, None)
    self.setAttr(**kwargs)


# ------------------------------------------------------------------ profiles, settings
@spec('model.kin_classes.VelProfile.__init__', 'C06 C05', obs=['self'])
def velprofile(self, **kwargs):
    self.theta = None
    self.name = None
    self.setAttr(**kwargs)


@spec('model.kin_classes.DispProfile.__init__', 'C06 C05', obs=['self'])
def dispprofile(self, **kwargs):
    self.theta = None
    self.name = None
    self.setAttr(**kwargs)


@spec('model.kin_classes.VelArctanProfile.__init__', 'C06 C05 C01', obs=['self'])
def velarctan(self, **kwargs):
    self.theta = np.array([0., 0.])
    self.name = 'VelArctanProfile'
    self.setAttr(**kwargs)


@spec('model.kin_classes.DispConstProfile.__init__', 'C06 C05 C01', obs=['self'])
def dispconst(self, **kwargs):
    self.theta = np.array([0.])
    self.name = 'DispConstProfile'
    self.setAttr(**kwargs)


@spec('model.kin_classes.KinProfile.__init__', 'C06 C05 C01', obs=['self', 'call:setup_profiles'],
      opaque_also=['model.kin_classes.KinProfile.setup_profiles'])
def kinprofile(self, theta=None, name=None, theta_names=None, theta_names_nice=None, velProfile=None, dispProfile=None, **kwargs):
    self.theta = theta
    self.name = name
    self.theta_names = theta_names
    self.theta_names_nice = theta_names_nice
    self.velProfile = velProfile
    self.dispProfile = dispProfile
    self.setAttr(**kwargs)
    self.setup_profiles()


@spec('model.kin_classes.KinProfileFiducial.__init__', 'C06 C05 C01', obs=['self'],
      opaque_also=['model.kin_classes.KinProfile.setup_profiles'])
def kinprofilefid(self, **kwargs):
    self.theta = None
    self.theta_names = None
    self.theta_names_nice = None
    self.name = 'VelArctanDispConstProfile'
    self.velProfile = VelArctanProfile()
    self.dispProfile = DispConstProfile()
    self.setAttr(**kwargs)
    self.setup_profiles()


@spec('model.kin_classes.IntensityProfile.__init__', 'C06 C05', obs=['self'])
def intprofile(self, galaxy, intProfile_r=None, intProfile_z=None, **kwargs):
    self.intProfile_r = intProfile_r
    self.intProfile_z = intProfile_z
    self.setAttr(**kwargs)


@spec('model.kin_classes.IntensityProfileFiducial.__init__', 'C06 C05 C16', obs=['self', 'call:update_values'],
      opaque_also=['model.kin_classes.IntensityProfile.update_values'])
def intprofilefid(self, galaxy, **kwargs):
    self.intProfile_r = IntProfileSersic(galaxy)
    self.intProfile_z = IntProfileExpZ(galaxy)
    self.setAttr(**kwargs)
    self.update_values(galaxy)


@spec('model.kin_classes.IntensityProfileSersicExpScale.__init__', 'C06 C05 C16', obs=['self', 'call:update_values'],
      opaque_also=['model.kin_classes.IntensityProfile.update_values'])
def intprofilescale(self, galaxy, **kwargs):
    self.intProfile_r = IntProfileSersic(galaxy)
    self.intProfile_z = IntProfileExpZScale(galaxy)
    self.setAttr(**kwargs)
    self.update_values(galaxy)


@spec('model.kin_classes.Theta2DSettings.__init__', 'C06 C05 C01', obs=['self'])
def thetasettings(self, theta=None, theta_vary=None, theta_names=None, theta_names_nice=None, theta_bounds=None,
                  theta_linked_posteriors=None, **kwargs):
    self.theta = theta
    self.theta_vary = theta_vary
    self.theta_names = theta_names
    self.theta_names_nice = theta_names_nice
    self.theta_bounds = theta_bounds
    self.theta_linked_posteriors = theta_linked_posteriors
    self.setAttr(**kwargs)


@spec('model.kin_classes.Theta2DSettingsFiducial.__init__', 'C06 C05 C01', obs=['self'])
def thetasettingsfid(self, usetex=True, **kwargs):
    self.theta = np.zeros(5)
    self.theta_vary = np.array([True, True, True, False, False])
    self.theta_names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
    self.theta_names_nice = [r'$V_a$', r'$r_t$', r'$\sigma_0$', r'$m_{0,shift}$', r'$z$'] if usetex else [
        'Va', 'rt', 'sigma0', 'm0shift', 'z']
    self.theta_bounds = None
    self.theta_linked_posteriors = None
    self.setAttr(**kwargs)


@spec('model.kin_model.KinModel2DOptions.__init__', 'C06 C05', obs=['self'])
def modeloptions(self, nSubpixels=2, pad_factor=0.5, do_position_wave_shift=False, do_inst_res_conv_effective=False,
                 absvalsigma=False, adaptive_upsample_wave=True, adaptive_upsample_factor=3., sigma_floor=True, **kwargs):
    self.nSubpixels = nSubpixels
    self.pad_factor = pad_factor
    self.do_position_wave_shift = do_position_wave_shift
    self.do_inst_res_conv_effective = do_inst_res_conv_effective
    self.absvalsigma = absvalsigma
    self.adaptive_upsample_wave = adaptive_upsample_wave
    self.adaptive_upsample_factor = adaptive_upsample_factor
    self.sigma_floor = sigma_floor
    self.setAttr(**kwargs)


@spec('model.kin_model.KinModel2D.__init__', 'C01 C04 C05 C06', keep_copies=True, obs=['self', 'heap', 'call:update_theta', 'call:update_values'],
      opaque_also=['model.kin_model.KinModel2D.update_profiles'])
def kinmodel(self, galaxy, thetaSettings=None, kinProfile=None, intensityProfile=None, kinModelOptions=None,
             do_position_wave_shift=False, do_inst_res_conv_effective=False, **kwargs):
    if thetaSettings is None:
        thetaSettings = Theta2DSettingsFiducial()
    self.theta = copy.deepcopy(thetaSettings.theta)
    self.theta_vary = copy.deepcopy(thetaSettings.theta_vary)
    self.theta_names = thetaSettings.theta_names
    self.theta_names_nice = thetaSettings.theta_names_nice
    self.theta_init = None
    self.kinProfile = KinProfileFiducial() if kinProfile is None else kinProfile
    self.intensityProfile = IntensityProfileFiducial(galaxy) if intensityProfile is None else intensityProfile
    self.kinProfile.update_theta(theta=self.theta)
    self.intensityProfile.update_values(galaxy=galaxy)
    self.spec_type = 'wave'
    self.do_position_wave_shift = do_position_wave_shift
    self.do_inst_res_conv_effective = do_inst_res_conv_effective
    self.no_scale = False
    if kinModelOptions is None:
        kinModelOptions = KinModel2DOptions()
    self.kinModelOptions = kinModelOptions.copy()
    if do_position_wave_shift:
        self.kinModelOptions.do_position_wave_shift = True
    if do_inst_res_conv_effective:
        self.kinModelOptions.do_inst_res_conv_effective = True
    self.model = None
    self.bestfit = None
    self.aperModel = None
    self.debug = False
    self.setAttr(**kwargs)


# ------------------------------------------------------------------ fits
@spec('fit.fit_core.MCMC2DOptions.__init__', 'C06 C05', obs=['self'])
def mcmcoptions(self, **kwargs):
    for a in ('nCPUs', 'filename_log', 'filename_sampler', 'filename_sampler_h5', 'filename_bestfit_model',
              'filename_plot_trace_burnin', 'filename_plot_trace', 'filename_plot_param_corner', 'filename_plot_bestfit'):
        setattr(self, a, None)
    self.cpuFrac = 0.75
    self.nWalkers = 2000
    self.nSteps = 100
    self.nBurn = 50
    self.scale_param_a = 3.0
    self.nEff = 10
    self.minAF = 0.2
    self.maxAF = 0.5
    self.NoThread = False
    self.runAllSteps = False
    self.overwrite = True
    self.setAttr(**kwargs)


@spec('fit.fit_core.MCMCResults.__init__', 'C06 C05', obs=['self'])
def mcmcresults(self, **kwargs):
    for a in ('bestfit_theta', 'err_theta_1sig', 'err_theta_2sig', 'percent_oppsign'):
        setattr(self, a, None)
    self.setAttr(**kwargs)


@spec('fit.fit_core.FitEmissionLines2DBasic.__init__', 'C06 C05 C07', obs=['self'])
def fitbasic(self, **kwargs):
    self.kinModel = None
    self.kinModelOptions = KinModel2DOptions()
    self.thetaPrior = None
    self.thetaSettings = None
    self.usetex = True
    self.setAttr(**kwargs)


@spec('fit.fit_core.FitEmissionLines2DResults.__init__', 'C06 C05 C22', obs=['self'])
def fitresults(self, galaxy=None, instrument=None, instrument_img=None, **kwargs):
    self.galaxy = galaxy
    self.instrument = instrument
    self.instrument_img = instrument_img
    for a in ('linegroup_name', 'linenames_arr', 'restwave_arr', 'flux_ratio_arr', 'thetaPrior', 'thetaSettings',
              'theta_linked_posteriors'):
        setattr(self, a, None)
    self.kinProfile = KinProfileFiducial()
    self.intensityProfile = IntensityProfileFiducial(galaxy=galaxy)
    self.kinModelOptions = KinModel2DOptions()
    self.mcmcOptions = MCMC2DOptions()
    self.mcmc_results = MCMCResults()
    self.setAttr(**kwargs)


@spec('fit.fit2D.FitEmissionLines2D.__init__', 'C06 C05', obs=['self', 'call:update_values', 'call:setup'],
      opaque_also=['fit.fit2D.FitEmissionLines2D.setup'])
def fit2d(self, galaxy=None, instrument=None, instrument_img=None, linegroup_name=None, linenames_arr=None, restwave_arr=None,
          flux_ratio_arr=None, kinProfile=None, intensityProfile=None, kinModelOptions=None, thetaPrior=None, thetaSettings=None,
          mcmcOptions=None, theta_linked_posteriors=None, mcmc_results=None, usetex=True, **kwargs):
    self.galaxy = galaxy
    self.instrument = instrument
    self.instrument_img = instrument_img
    self.linegroup_name = linegroup_name
    self.linenames_arr = linenames_arr
    self.restwave_arr = restwave_arr
    self.flux_ratio_arr = flux_ratio_arr
    self.kinProfile = KinProfileFiducial() if kinProfile is None else kinProfile
    self.intensityProfile = IntensityProfileFiducial(galaxy) if intensityProfile is None else intensityProfile
    self.intensityProfile.update_values(galaxy=galaxy)
    self.kinModelOptions = KinModel2DOptions() if kinModelOptions is None else kinModelOptions
    self.thetaPrior = thetaPrior
    self.thetaSettings = thetaSettings
    self.mcmcOptions = MCMC2DOptions() if mcmcOptions is None else mcmcOptions
    self.theta_linked_posteriors = theta_linked_posteriors
    self.mcmc_results = MCMCResults() if mcmc_results is None else mcmc_results
    self.kinModel = None
    self.sampler_dict = None
    self.skip_fit_prep_calcs = False
    self.usetex = usetex
    self.setAttr(**kwargs)
    self.setup()


@spec('fit.fit1D.FitEmissionLines1D.__init__', 'C06 C05 C19', obs=['self', 'call:setup_spectrum'],
      skip=['z', 'linenames_arr', 'restwave_arr'],
      opaque_also=['fit.fit1D.FitEmissionLines1D.setup_spectrum'])
def fit1d(self, **kwargs):
    for a in ('galaxy', 'instrument', 'z', 'names_arr', 'flux_arr', 'vel_disp', 'cont_coeff', 'trim_wave_paramfile',
              'trim_restwave_range', 'linenames_arr', 'restwave_arr'):
        setattr(self, a, None)
    self.shape1D = 'gaussian'
    self.cont_order = 1
    self.del_obs_lam = 20.
    self.num_MC = 500
    self.setAttr(**kwargs)
    self.setup_spectrum()


# ------------------------------------------------------------------ apertures, lines
@spec('model.aper_model.AperModel1DBase.__init__', 'C06 C05', obs=['self'])
def aper1d(self, **kwargs):
    for a in ('galaxy', 'instrument', 'extraction_width', 'disp_aper_radius_arcsec', 'disp_aper_ratio'):
        setattr(self, a, None)
    self.nPixels = 201
    self.extraction_method = 'optimal'
    self.xc = 0.
    self.yc = 0.
    self.setAttr(**kwargs)


@spec('model.aper_model.AperModel1DDispBase.__init__', 'C06 C05 C20', obs=['self'])
def aper1ddispbase(self, **kwargs):
    for a in ('galaxy', 'instrument', 'extraction_width', 'disp_aper_radius_arcsec', 'disp_aper_ratio'):
        setattr(self, a, None)
    self.nPixels = 100
    self.extraction_method = 'optimal'
    self.xc = 0.
    self.yc = 0.
    self.r_core = 1. / 300.
    self.d = -0.089
    self.Ie = 1.
    self.setAttr(**kwargs)


@spec('model.aper_model.AperModel1DDisp.__init__', 'C06 C05 C20', obs=['order:setup_calcs,calc_aper_correction', 'self.nPixels',
                                                                       'self.d', 'self.xc'], frame=False,
      opaque_also=['model.aper_model.AperModel1DDisp.setup_calcs', 'model.aper_model.AperModel1DDisp.calc_aper_correction'])
def aper1ddisp(self, **kwargs):
    for a in ('galaxy', 'instrument', 'extraction_width', 'disp_aper_radius_arcsec', 'disp_aper_ratio'):
        setattr(self, a, None)
    self.nPixels = 100
    self.extraction_method = 'optimal'
    self.xc = 0.
    self.yc = 0.
    self.r_core = 1. / 300.
    self.d = -0.089
    self.Ie = 1.
    self.setAttr(**kwargs)
    self.setup_calcs()
    self.calc_aper_correction()


@spec('model.aper_model.AperModel1DDispMisalign.__init__', 'C06 C05 C20', obs=['order:setup_calcs,calc_aper_correction', 'self.nPixels',
                                                                               'self.d', 'self.xc'], frame=False,
      opaque_also=['model.aper_model.AperModel1DDispMisalign.setup_calcs',
                   'model.aper_model.AperModel1DDispMisalign.calc_aper_correction'])
def aper1ddispm(self, **kwargs):
    for a in ('galaxy', 'instrument', 'extraction_width', 'disp_aper_radius_arcsec', 'disp_aper_ratio'):
        setattr(self, a, None)
    self.nPixels = 100
    self.extraction_method = 'optimal'
    self.xc = 0.
    self.yc = 0.
    self.r_core = 1. / 300.
    self.d = -0.089
    self.Ie = 1.
    self.setAttr(**kwargs)
    self.setup_calcs()
    self.calc_aper_correction()


@spec('model.aper_model.AperModel1DRot.__init__', 'C06 C05 C20', obs=['self', 'order:setup_calcs,calc_aper_correction'],
      opaque_also=['model.aper_model.AperModel1DRot.setup_calcs', 'model.aper_model.AperModel1DRot.calc_aper_correction'])
def aper1drot(self, **kwargs):
    for a in ('galaxy', 'instrument', 'extraction_width', 'disp_aper_radius_arcsec', 'disp_aper_ratio', 'theta', 'kinProfile',
              'intensityProfile', 'delta_position_velspace', 'inst_disp_vel', 'I_wide'):
        setattr(self, a, None)
    self.nPixels = 201
    self.extraction_method = 'optimal'
    self.xc = 0.
    self.yc = 0.
    self.do_position_wave_shift = False
    self.do_inst_res_conv_effective = False
    self.pad_factor = 0.5
    self.setAttr(**kwargs)
    self.setup_calcs()
    self.calc_aper_correction()


@spec('model.aper_model.AperModel2D.__init__', 'C06 C05 C04', obs=['self', 'call:make_model'],
      opaque_also=['model.aper_model.AperModel2D.make_model'])
def aper2d(self, **kwargs):
    for a in ('galaxy', 'instrument', 'theta', 'kinProfile', 'intensityProfile', 'model', 'delta_position_velspace',
              'inst_disp_wave', 'I_wide', 'sigma_floor_value', 'sigma_upsample_value'):
        setattr(self, a, None)
    self.nSubpixels = 1
    self.pad_factor = 0.5
    self.rebin_output = True
    self.do_position_wave_shift = False
    self.do_inst_res_conv_effective = False
    self.xc = 0.
    self.yc = 0.
    self.debug = False
    self.spec_type = 'wave'
    self.absvalsigma = False
    self.adaptive_upsample_wave = True
    self.adaptive_upsample_factor = 3.
    self.sigma_floor = True
    self.setAttr(**kwargs)
    self.make_model()


@spec('model.emission_lines_model.EmissionLinesSpectrum1DModel.__init__', 'C06 C05', obs=['self'])
def lines1d(self, **kwargs):
    for a in ('names_arr', 'vel_disp', 'z', 'flux_arr', 'cont_coeff', 'cont_order', 'obswave_arr'):
        setattr(self, a, None)
    self.shape1D = 'gaussian'
    self.setAttr(**kwargs)


@spec('model.emission_lines_model.EmissionLines.__init__', 'C06 C18', obs=['self'])
def lines(self, name, linenames_arr, restwave_arr, flux_ratio_arr):
    self.name = name
    self.linenames_arr = linenames_arr
    self.restwave_arr = restwave_arr
    self.flux_ratio_arr = flux_ratio_arr


@spec('model.emission_lines_model.EmissionLines1DModel.__init__', 'C06 C18 C19', obs=['self'],
      skip=['linenames_arr', 'restwave_arr', 'flux_ratio_arr'])
def lines1dmodel(self, profile_function=None, **kwargs):
    for a in ('name', 'vel_disp', 'z', 'flux', 'obswave_arr', 'profile'):
        setattr(self, a, None)
    self.profile_func = profile_function or gaussian_line
    self.setAttr(**kwargs)


# ------------------------------------------------------------------ copies
@spec('galaxy.GalaxyBasic.copy', 'C05 C22 C04 C07', keep_copies=True, obs=['return'])
@spec('galaxy.Spectrum.copy', 'C05 C22 C04 C07', keep_copies=True, obs=['return'])
@spec('instrument.Instrument.copy', 'C05 C22 C04 C07', keep_copies=True, obs=['return'])
@spec('fit.fit2D.FitEmissionLines2D.copy', 'C05 C22', keep_copies=True, obs=['return'])
@spec('fit.fit_core.FitEmissionLines2DResults.copy', 'C05 C22', keep_copies=True, obs=['return'])
@spec('fit.fit_core.FitEmissionLines2DBasic.copy', 'C05 C22 C07 C04', keep_copies=True, obs=['return'])
@spec('fit.fit_core.MCMC2DOptions.copy', 'C05 C22 C07', keep_copies=True, obs=['return'])
@spec('model.kin_model.KinModel2DOptions.copy', 'C05 C22 C07', keep_copies=True, obs=['return'])
@spec('model.kin_model.KinModel2D.copy', 'C05 C22 C04 C07', keep_copies=True, obs=['return'])
def copy_(self):
    return copy.deepcopy(self)
