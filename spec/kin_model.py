"""Reference behaviour of the kinematic model: parameter packing, scaling, fit statistics, option forwarding."""
import copy
import numpy as np
from misfit.model import AperModel2D
from misfit.model import kin_functions as kfuncs
from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, Theta2DSettingsFiducial
from misfit.model.kin_model import KinModel2DOptions, _model_chisq, _model_chisq_no_weight, _model_llike


def spec(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ parameters
@spec('model.kin_model.KinModel2D.update_parameters', 'C01 C04', obs=['self.theta'])
def update_parameters(self, theta_fitting):
    j = 0
    for i in range(len(self.theta)):
        if self.theta_vary[i]:
            self.theta[i] = theta_fitting[j]
            j += 1


@spec('model.kin_model.KinModel2D.update_profiles', 'C01 C04', obs=['call:update_theta'])
def update_profiles(self):
    self.kinProfile.update_theta(self.theta)


@spec('model.kin_model.KinModel2D.setAttr', 'C01 C06', obs=['self.n_free_param', 'self.theta_init', 'call:update_profiles'])
def setattr_(self, **kwargs):
    self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if key in self.__dict__]))
    if self.theta_init is None:
        try:
            self.theta_init = self.theta.copy()
        except:
            self.theta_init = self.theta
    self.n_free_param = len(np.where(self.theta_vary)[0])
    self.update_profiles()


# ------------------------------------------------------------------ building and updating
def _aper(self, galaxy, instrument):
    o = self.kinModelOptions
    return AperModel2D(galaxy=galaxy, instrument=instrument, theta=self.theta, spec_type=self.spec_type,
                       kinProfile=self.kinProfile, intensityProfile=self.intensityProfile, nSubpixels=o.nSubpixels,
                       pad_factor=o.pad_factor, do_position_wave_shift=o.do_position_wave_shift,
                       do_inst_res_conv_effective=o.do_inst_res_conv_effective, absvalsigma=o.absvalsigma,
                       adaptive_upsample_wave=o.adaptive_upsample_wave,
                       adaptive_upsample_factor=o.adaptive_upsample_factor, sigma_floor=o.sigma_floor)


@spec('model.kin_model.KinModel2D.make_model', 'C01 C04 C06 C17 C05',
      obs=['raises', 'self.model', 'self.aperModel', 'call:update_parameters', 'call:update_profiles', 'call:scale_model',
           'call:AperModel2D', 'call:AperModel2D.update_model'])
def make_model(self, galaxy=None, instrument=None, theta_fitting=None):
    if len(theta_fitting) != self.n_free_param:
        raise ValueError('number of parameters')
    self.update_parameters(theta_fitting)
    self.update_profiles()
    if self.aperModel is None:
        self.aperModel = _aper(self, galaxy, instrument)
    else:
        self.aperModel.update_model(theta=self.theta)
    self.model = self.aperModel.model.copy()
    if not self.no_scale:
        self.scale_model(self.aperModel.galaxy)


@spec('model.kin_model.KinModel2D.update_model', 'C01 C04 C17 C05',
      obs=['raises', 'self.model', 'call:update_parameters', 'call:scale_model', 'call:AperModel2D.update_model'])
def update_model(self, theta_fitting=None):
    if len(theta_fitting) != self.n_free_param:
        raise ValueError('number of parameters')
    self.update_parameters(theta_fitting)
    self.aperModel.update_model(theta=self.theta)
    self.model = self.aperModel.model.copy()
    if not self.no_scale:
        self.scale_model(self.aperModel.galaxy)


@spec('model.kin_model.KinModel2D.make_3D_int_model', 'C01 C04 C05 C06 C13 C14 C17',
      obs=['raises', 'self.aperModel', 'call:update_parameters', 'call:update_profiles', 'call:AperModel2D',
           'call:set_model_cube', 'call:AperModel2D.update_model', 'arg:instrument'], keep_copies=True)
def make_3d(self, galaxy=None, instrument=None, theta_fitting=None):
    if len(theta_fitting) != self.n_free_param:
        raise ValueError('number of parameters')
    self.update_parameters(theta_fitting)
    self.update_profiles()
    if self.aperModel is None:
        if not galaxy.generate_model:
            rows = galaxy.spec2D.flux.shape[0]
        else:
            rows = galaxy.spec2D.shape[0]
        instrument = instrument.copy()
        instrument.slit_width = rows * instrument.pixscale
        o = self.kinModelOptions
        self.aperModel = AperModel2D(galaxy=galaxy, instrument=instrument, theta=self.theta, spec_type=self.spec_type,
                                     kinProfile=self.kinProfile, intensityProfile=self.intensityProfile,
                                     nSubpixels=o.nSubpixels, pad_factor=o.pad_factor,
                                     do_position_wave_shift=o.do_position_wave_shift,
                                     do_inst_res_conv_effective=o.do_inst_res_conv_effective, absvalsigma=o.absvalsigma,
                                     adaptive_upsample_wave=o.adaptive_upsample_wave,
                                     adaptive_upsample_factor=o.adaptive_upsample_factor, sigma_floor=o.sigma_floor,
                                     debug=self.debug)
    else:
        self.aperModel.update_model(theta=self.theta)
    self.set_model_cube()
    if self.debug:
        self.I_wide = self.trim_rebin_3D(self.aperModel.I_wide)
        self.V_wide = self.trim_rebin_3D(self.aperModel.V_wide)
        self.I_Vsq_wide = self.trim_rebin_3D(self.aperModel.I_Vsq_wide)


@spec('model.kin_model.KinModel2D.update_3D_int_model', 'C01 C04 C17 C14 C05 C06 C13',
      obs=['raises', 'call:update_parameters', 'call:set_model_cube', 'call:AperModel2D.update_model'])
def update_3d(self, theta_fitting=None):
    if len(theta_fitting) != self.n_free_param:
        raise ValueError('number of parameters')
    self.update_parameters(theta_fitting)
    self.aperModel.update_model(theta=self.theta)
    self.set_model_cube()


@spec('model.kin_model.KinModel2D.set_model_cube', 'C13 C15 C04 C14')
def cube(self):
    am = self.aperModel
    n = am.nWave
    out = kfuncs.rebin(am.spectra_cube_conv, n, am.n_pix_y // am.nSubpixels, am.n_pix_x // am.nSubpixels)
    self.model_cube = out * (float(n) / am.spectra_cube_conv.shape[0])


@spec('model.kin_model.KinModel2D.trim_rebin_3D', 'C13 C15')
def trim3d(self, arr):
    am = self.aperModel
    inner = arr[:, am.padY:am.n_pix_y + am.padY, am.padX:am.n_pix_x + am.padX]
    return kfuncs.rebin(inner, am.n_pix_z // am.nSubpixels, am.n_pix_y // am.nSubpixels, am.n_pix_x // am.nSubpixels)


# ------------------------------------------------------------------ statistics
@spec('model.kin_model.KinModel2D.scale_model', 'C03 C04 C02 C05 C11', obs=['self.model'])
def scale(self, galaxy):
    cols = galaxy.spec2D.wh_nosky.copy()
    w = galaxy.spec2D.flux_err[:, cols] ** 2
    num = np.sum(galaxy.spec2D.flux[:, cols] * self.model[:, cols] / w, axis=1)
    den = np.sum(self.model[:, cols] ** 2 / w, axis=1)
    num[~np.isfinite(num)] = 0.
    num[np.abs(den) == 0.] = 0.
    den[np.abs(den) == 0.] = -99.
    self.model *= np.tile(np.array([num / den]).T, (1, self.model.shape[1]))


@spec('model.kin_model._model_llike', 'C03 C02 C07 C11', opaque=False)
def llike(kinModel, model=None):
    s = kinModel.aperModel.galaxy.spec2D
    if model is None:
        model = kinModel.model
    chi = s.fitting_weight_matrix * ((s.flux - model) / s.flux_err) ** 2
    return -0.5 * (s.spec_mask * (chi + np.log10(2. * np.pi * s.flux_err ** 2))).sum()


@spec('model.kin_model._model_chisq', 'C03 C11', opaque=False)
def chisq(kinModel, model=None):
    s = kinModel.aperModel.galaxy.spec2D
    if model is None:
        model = kinModel.model
    return (((s.flux - model) * s.spec_mask / s.flux_err) ** 2 * s.fitting_weight_matrix).sum()


@spec('model.kin_model._model_chisq_no_weight', 'C03 C11', opaque=False)
def chisq_nw(kinModel, model=None):
    s = kinModel.aperModel.galaxy.spec2D
    if model is None:
        model = kinModel.model
    return (((s.flux - model) * s.spec_mask / s.flux_err) ** 2).sum()


@spec('model.kin_model.KinModel2D.model_llike', 'C03 C02 C07 C11')
def m_llike(self):
    return _model_llike(self)


@spec('model.kin_model.KinModel2D.model_chisq', 'C03 C11')
def m_chisq(self):
    return _model_chisq(self)


@spec('model.kin_model.KinModel2D.model_redchisq', 'C03 C09 C11 C01')
def m_red(self):
    free = len(np.where(self.aperModel.galaxy.spec2D.spec_mask == 1)[0]) - self.n_free_param
    return _model_chisq(self) / float(free)


@spec('model.kin_model.KinModel2D.model_redchisq_no_weight', 'C03 C09 C11 C01')
def m_red_nw(self):
    free = len(np.where(self.aperModel.galaxy.spec2D.spec_mask == 1)[0]) - self.n_free_param
    return _model_chisq_no_weight(self) / float(free)


@spec('model.kin_model.KinModel2D.model_redchisq_weight_ref', 'C03 C09 C11 C01')
def m_red_ref(self):
    free = len(np.where(self.aperModel.galaxy.spec2D.spec_mask == 1)[0]) - self.n_free_param
    return self.aperModel.galaxy.spec2D.fitting_weight_matrix.sum() / float(free)
