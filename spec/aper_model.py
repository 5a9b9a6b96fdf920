"""Reference behaviour of the aperture models: grids, kernels, cubes, aperture sums."""
import numpy as np
from scipy.stats import norm
import astropy.constants as const
from misfit.general import general_utils as utils
from misfit.model import kin_functions as kfuncs

C_KMS = const.c.cgs.value / 1.e5
FWHM_PER_SIGMA = 2. * np.sqrt(2. * np.log(2.))


def spec(*a, **k):
    return lambda f: f


def _aperture_width(re, q, pa, fwhm):
    conv = 0.5 * np.sqrt((2. * re) ** 2 + fwhm ** 2)
    qc = 0.5 * np.sqrt((2. * q * re) ** 2 + fwhm ** 2) / conv
    half = utils.y_proj_major(conv, pa)
    if half < conv * qc:
        half = conv * qc
    return 4. * half


# ------------------------------------------------------------------ dispersion-only apertures
@spec('model.aper_model.AperModel1DDispBase.setup_model_grid', 'C13 C14 C20 C15 C06', opaque=False,
      obs=['self.nX', 'self.nY', 'self.padX', 'self.padY', 'self.extraction_width', 'self.x_aper', 'self.delt_x',
           'self.delt_y', 'self.x_arr', 'self.y_arr', 'self.x_arr_full', 'self.y_arr_full', 'self.nPixels'])
def dispgrid(self, re_arcsec=None, q=None, delt_PA=None):
    if re_arcsec <= 0.1:
        self.nPixels *= 2
    n = self.nPixels
    self.nX = 4 * n + 3
    self.nY = 4 * n + 3
    self.padX = n + 1
    self.padY = n + 1
    if self.extraction_width is None:
        self.extraction_width = _aperture_width(re_arcsec, q, delt_PA, self.instrument.PSF.PSF_FWHM)
    self.x_aper = self.instrument.slit_width
    self.delt_x = self.x_aper / (2 * n + 1.)
    self.delt_y = self.extraction_width / (2 * n + 1.)
    self.x_arr = np.linspace(-(2. * n + 1.) * self.delt_x, (2. * n + 1.) * self.delt_x, num=self.nX) - self.xc
    self.y_arr = np.linspace(-(2. * n + 1.) * self.delt_y, (2. * n + 1.) * self.delt_y, num=self.nY) - self.yc
    self.x_arr_full = np.tile(self.x_arr, (self.nY, 1))
    self.y_arr_full = np.tile(np.array([self.y_arr]).T, (1, self.nX))


@spec('model.aper_model.AperModel1DDisp.setup_calcs', 'C20 C15 C05 C13 C06 C04 C12 C14 C16', keep_copies=True, opaque_also=['model.aper_model.AperModel1DDispBase.setup_model_grid'],
      obs=['call:setup_model_grid', 'call:generate_conv_stamp', 'call:set_conv_stamp', 'self.disp_aper_radius_arcsec',
           'self.instrument', 'heap'])
def disp_setup(self):
    self.galaxy.re_arcsec_circ = self.galaxy.re_arcsec * np.sqrt(self.galaxy.q)
    self.galaxy.re_mass_arcsec_circ = self.galaxy.re_mass_arcsec * np.sqrt(self.galaxy.q_mass)
    if self.disp_aper_radius_arcsec is None:
        self.disp_aper_radius_arcsec = self.galaxy.re_arcsec_circ
    self.setup_model_grid(re_arcsec=self.galaxy.re_arcsec_circ, q=1., delt_PA=0.)
    stamp = self.instrument.PSF.generate_conv_stamp(self.x_arr - np.mean(self.x_arr), self.y_arr - np.mean(self.y_arr))
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(stamp)


@spec('model.aper_model.AperModel1DDispMisalign.setup_calcs', 'C20 C15 C05 C13 C06 C04 C12 C14 C16', keep_copies=True, opaque_also=['model.aper_model.AperModel1DDispBase.setup_model_grid'],
      obs=['call:setup_model_grid', 'call:generate_conv_stamp', 'call:set_conv_stamp', 'self.disp_aper_radius_arcsec',
           'self.instrument', 'heap'])
def mis_setup(self):
    self.galaxy.re_arcsec_circ = self.galaxy.re_arcsec * np.sqrt(self.galaxy.q)
    self.galaxy.re_mass_arcsec_circ = self.galaxy.re_mass_arcsec * np.sqrt(self.galaxy.q_mass)
    if self.disp_aper_radius_arcsec is None:
        self.disp_aper_radius_arcsec = self.galaxy.re_arcsec_circ
    self.setup_model_grid(re_arcsec=self.galaxy.re_arcsec, q=self.galaxy.q, delt_PA=self.galaxy.delt_PA)
    stamp = self.instrument.PSF.generate_conv_stamp(self.x_arr - np.mean(self.x_arr), self.y_arr - np.mean(self.y_arr))
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(stamp)


@spec('model.aper_model.AperModel1DDisp.calc_aper_correction', 'C20 C15 C06 C14 C05 C16')
def disp_corr(self):
    self.sigma_ap = kfuncs.sigma_aper_dispersion(aperModel1DDisp=self, re_arcsec=self.galaxy.re_arcsec_circ,
                                                 re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
    self.sigma_e = kfuncs.sigma_e_dispersion(aperModel1DDisp=self, re_arcsec=self.galaxy.re_arcsec_circ,
                                             re_mass_arcsec=self.galaxy.re_mass_arcsec_circ,
                                             r_outer=self.disp_aper_radius_arcsec)
    self.disp_aper_ratio = self.sigma_ap / self.sigma_e


@spec('model.aper_model.AperModel1DDispMisalign.calc_aper_correction', 'C20 C15 C06 C14 C05 C16')
def mis_corr(self):
    self.sigma_ap = kfuncs.sigma_aper_dispersion_misalign(aperModel1DDisp=self, re_arcsec=self.galaxy.re_arcsec_circ,
                                                          re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)
    self.sigma_e = kfuncs.sigma_e_dispersion(aperModel1DDisp=self, re_arcsec=self.galaxy.re_arcsec_circ,
                                             re_mass_arcsec=self.galaxy.re_mass_arcsec_circ,
                                             r_outer=self.disp_aper_radius_arcsec)
    self.disp_aper_ratio = self.sigma_ap / self.sigma_e


# ------------------------------------------------------------------ rotating galaxy, 1D aperture
@spec('model.aper_model.AperModel1DRot.setup_model_grid', 'C13 C14 C20 C12 C16 C15 C06', opaque=False,
      obs=['self.extraction_width', 'self.y_aper', 'self.n_pix_y', 'self.delt_y', 'self.n_pix_x', 'self.delt_x',
           'self.n_pix_z', 'self.delt_z', 'self.padX', 'self.padY', 'self.nX', 'self.nY', 'self.nZ', 'self.x_arr',
           'self.y_arr', 'self.z_arr', 'self.x_arr_full', 'self.y_arr_full', 'self.z_arr_full', 'self.sini', 'self.i_rad',
           'self.xint', 'self.yint', 'self.zint', 'self.r', 'self.I_wide', 'self.z', 'self.lam0_primary'])
def rotgrid(self):
    g = self.galaxy
    if self.extraction_width is None:
        self.extraction_width = _aperture_width(g.re_arcsec, g.q, g.delt_PA, self.instrument.PSF.PSF_FWHM)
    self.sini = kfuncs.sin_i(g.q, q0=g.q0)
    self.i_rad = np.arcsin(self.sini)
    self.y_aper = self.extraction_width
    self.n_pix_y = self.nPixels
    self.delt_y = self.y_aper / self.n_pix_y
    self.n_pix_x = int(np.ceil(self.instrument.slit_width / self.delt_y))
    self.delt_x = self.instrument.slit_width / self.n_pix_x
    self.n_pix_z = self.n_pix_y
    self.delt_z = self.delt_y
    pad = self.instrument.PSF.PSF_FWHM * self.pad_factor
    self.padY = int(np.round(pad / self.delt_y))
    self.padX = int(np.round(pad / self.delt_x))
    self.nX = self.n_pix_x + 2 * self.padX
    self.nY = self.n_pix_y + 2 * self.padY
    self.nZ = self.n_pix_z
    hx = (self.nX - 1) / 2. * self.delt_x
    hy = (self.nY - 1) / 2. * self.delt_y
    hz = (self.nZ - 1) / 2. * self.delt_z
    self.x_arr = np.linspace(-hx, hx, num=self.nX) - self.xc
    self.y_arr = np.linspace(-hy, hy, num=self.nY) - self.yc
    self.z_arr = np.linspace(-hz, hz, num=self.nZ)
    self.x_arr_full = np.tile(self.x_arr, (self.nZ, self.nY, 1))
    self.y_arr_full = np.tile(np.array([self.y_arr]).T, (self.nZ, 1, self.nX))
    self.z_arr_full = np.repeat(self.z_arr, self.nY * self.nX).reshape((self.nZ, self.nY, self.nX))
    self.xint, self.yint, self.zint = kfuncs.transform_int_3d(self.x_arr_full, self.y_arr_full, self.z_arr_full,
                                                             g.delt_PA, self.i_rad)
    self.r = np.sqrt(self.xint ** 2 + self.yint ** 2)
    self.I_wide = self.intensityProfile.int(self.r, self.zint)
    self.z = g.z
    self.lam0_primary = g.spec2D.restwave_arr[0] * (1. + self.z)


@spec('model.aper_model.AperModel1DRot.setup_calcs', 'C05 C20 C15 C13 C06 C04 C12 C14', keep_copies=True, opaque_also=['model.aper_model.AperModel1DRot.setup_model_grid'],
      obs=['self.disp_aper_radius_arcsec', 'self.instrument', 'call:setup_model_grid', 'call:generate_conv_stamp',
           'call:set_conv_stamp'])
def rot_setup(self):
    if self.disp_aper_radius_arcsec is None:
        self.disp_aper_radius_arcsec = self.galaxy.re_arcsec
    self.setup_model_grid()
    x = self.x_arr
    y = self.y_arr
    fwhm = self.instrument.PSF.PSF_FWHM
    xc = np.average(x)
    yc = np.average(y)
    stamp = self.instrument.PSF.generate_conv_stamp(x[np.abs(x - xc) <= fwhm] - xc, y[np.abs(y - yc) <= fwhm] - yc)
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(stamp)


@spec('model.aper_model.AperModel1DRot.calc_aper_correction', 'C20 C04 C16 C01 C12 C05 C06',
      obs=['self.V_RMS_aper', 'self.disp_aper_ratio', 'call:update_kinProfile', 'call:calculate_kin_cube',
           'call:convolve_kin_arr_PSF', 'call:trim_sum_aperture'])
def rot_corr(self, recalc=False):
    self.update_kinProfile()
    self.calculate_kin_cube()
    self.convolve_kin_arr_PSF()
    self.trim_sum_aperture()
    v = self.kinProfile.vel(self.disp_aper_radius_arcsec, 0.)
    s = self.kinProfile.sigma(self.disp_aper_radius_arcsec, 0.)
    self.V_RMS_aper = np.sqrt(v ** 2 + s ** 2)
    self.disp_aper_ratio = self.sigma_aper / self.V_RMS_aper


@spec('model.aper_model.AperModel1DRot.update_kinProfile', 'C20 C01', obs=['call:update_theta', 'call:vel'])
def rot_kin(self):
    if self.theta[0] is not None:
        first = np.array([self.theta[1], self.theta[2], None])
    else:
        first = np.array([self.theta[1], self.theta[2], 0.])
    self.kinProfile.update_theta(first)
    if self.theta[0] is not None:
        if self.theta[0] != 0.:
            v = self.kinProfile.vel(self.disp_aper_radius_arcsec, 0.)
            self.kinProfile.update_theta(np.array([self.theta[1], self.theta[2], v / self.theta[0]]))
        else:
            self.kinProfile.update_theta(np.array([0., self.theta[2], self.theta[1]]))


@spec('model.aper_model.AperModel1DRot.calculate_kin_cube', 'C12 C14 C20 C16 C13 C15 C06 C04 C05',
      obs=['self.RMS_sq_wide', 'self.sigsq_I_coll', 'self.I_coll', 'self.delta_position_velspace', 'self.inst_disp_vel'])
def rot_cube(self):
    light = self.I_wide
    cosphi = self.yint / self.r
    cosphi[self.r == 0.] = 0.
    v = self.kinProfile.vel(self.r, self.zint) * cosphi * self.sini
    s = self.kinProfile.sigma(self.r, self.zint)
    if self.do_position_wave_shift or self.do_inst_res_conv_effective:
        if self.delta_position_velspace is None or self.inst_disp_vel is None:
            inslit = np.array(range(self.padX, self.n_pix_x + self.padX))
            power = C_KMS / (self.instrument.instrument_resolution * FWHM_PER_SIGMA)
            self.delta_position_velspace, wave = kfuncs.calculate_effective_inst_res_lam_shift(
                I_wide_3d=light, xarr=self.x_arr, yarr=self.y_arr, wh_in_slit_x=inslit, R=power,
                slit_width_R_meas=self.instrument.slit_width, tot_slit_width=self.instrument.slit_width,
                lam0=self.lam0_primary, PSF=self.instrument.PSF)
            self.inst_disp_vel = wave / self.lam0_primary * C_KMS
    if self.do_position_wave_shift:
        for i in range(self.nY):
            v[:, i, :] += self.delta_position_velspace[i]
    self.RMS_sq_wide = v ** 2 + s ** 2
    self.sigsq_I_coll = np.sum(self.RMS_sq_wide * light, axis=0) * self.delt_z
    self.I_coll = np.sum(light, axis=0) * self.delt_z


@spec('model.aper_model.AperModel1DRot.convolve_kin_arr_PSF', 'C20 C15 C14 C06', obs=['self.sigsq_I_conv_wide', 'self.I_conv_wide'])
def rot_conv(self):
    self.sigsq_I_conv_wide = kfuncs.PSF_convolve_flat(self.sigsq_I_coll, self.instrument.PSF)
    self.I_conv_wide = kfuncs.PSF_convolve_flat(self.I_coll, self.instrument.PSF)


@spec('model.aper_model.AperModel1DRot.trim_sum_aperture', 'C13 C17 C20 C15 C06', obs=['raises', 'self.sigma_aper', 'self.sigmasq_aper'])
def rot_sum(self):
    light = self.I_conv_wide[self.padY:self.n_pix_y + self.padY, self.padX:self.n_pix_x + self.padX]
    moment = self.sigsq_I_conv_wide[self.padY:self.n_pix_y + self.padY, self.padX:self.n_pix_x + self.padX]
    if self.extraction_method == 'optimal':
        width = (0.5 * self.y_aper / self.delt_y) / FWHM_PER_SIGMA
        rows = light.shape[0]
        g = norm.pdf(np.array(range(rows)) - (rows - 1.) / 2., 0., width)
        w = np.tile(np.array([g / np.sum(g)]).transpose(), (1, light.shape[1]))
    elif self.extraction_method == 'boxcar':
        w = np.ones(light.shape)
    else:
        raise ValueError('method')
    self.sigmasq_aper = np.sum(moment * w * self.delt_x * self.delt_y) / np.sum(light * w * self.delt_x * self.delt_y)
    self.sigma_aper = np.sqrt(self.sigmasq_aper)


# ------------------------------------------------------------------ 2D model
@spec('model.aper_model.AperModel2D.setup_model_grid', 'C13 C14 C12 C16 C04 C01 C06 C15', opaque=False,
      obs=['self.sini', 'self.i_rad', 'self.n_pix_y_whole', 'self.n_pix_y', 'self.delt_y', 'self.y_aper', 'self.n_pix_x',
           'self.delt_x', 'self.n_pix_z', 'self.delt_z', 'self.padX', 'self.padY', 'self.nX', 'self.nY', 'self.nZ',
           'self.x_arr', 'self.y_arr', 'self.z_arr', 'self.z', 'self.m0_fit', 'self.lam0_primary', 'self.x_arr_full',
           'self.y_arr_full', 'self.z_arr_full', 'self.xint', 'self.yint', 'self.zint', 'self.r', 'self.wave_arr',
           'self.nWave', 'self.delt_wave', 'self.I_wide', 'self.I_matrix', 'self.wave_ref_matrix'])
def grid2d(self):
    g = self.galaxy
    self.sini = kfuncs.sin_i(g.q, q0=g.q0)
    self.i_rad = np.arcsin(self.sini)
    if not g.generate_model:
        self.n_pix_y_whole = g.spec2D.flux.shape[0]
    else:
        self.n_pix_y_whole = g.spec2D.shape[0]
    n = self.nSubpixels
    self.n_pix_y = int(self.n_pix_y_whole * n)
    self.delt_y = self.instrument.pixscale / n
    self.y_aper = self.n_pix_y * self.delt_y
    self.n_pix_x = int(np.ceil(self.instrument.slit_width / self.delt_y))
    if self.y_aper == self.instrument.slit_width:
        self.n_pix_x = self.n_pix_y
    self.delt_x = self.instrument.slit_width / self.n_pix_x
    self.n_pix_z = self.n_pix_y
    self.delt_z = self.delt_y
    pad = self.instrument.PSF.PSF_FWHM * self.pad_factor
    self.padY = int(np.round(pad / self.delt_y))
    self.padX = int(np.round(pad / self.delt_x))
    self.nX = self.n_pix_x + 2 * self.padX
    self.nY = self.n_pix_y + 2 * self.padY
    self.nZ = self.n_pix_z
    hx = (self.nX - 1) / 2. * self.delt_x
    hz = (self.nZ - 1) / 2. * self.delt_z
    self.x_arr = np.linspace(-hx, hx, num=self.nX) - self.xc
    self.z_arr = np.linspace(-hz, hz, num=self.nZ)
    self.z = self.theta[-1]
    self.m0_fit = g.spec2D.m0 + self.theta[-2]
    if self.spec_type == 'wave':
        self.lam0_primary = g.spec2D.restwave_arr[0] * (1. + self.z)
    else:
        self.lam0_primary = 1.
    # row k of the data covers sub-rows k*n .. k*n+n-1, centred on the row; row m0_fit is at zero
    half = 0.5 * (n - 1)
    low = -(self.padY + half) * self.delt_y
    high = ((self.n_pix_y_whole - 1) * n + self.padY + half) * self.delt_y
    self.y_arr = np.linspace(low, high, num=self.nY) - self.m0_fit * n * self.delt_y
    self.x_arr_full = np.tile(self.x_arr, (self.nZ, self.nY, 1))
    self.y_arr_full = np.tile(np.array([self.y_arr]).T, (self.nZ, 1, self.nX))
    self.z_arr_full = np.repeat(self.z_arr, self.nY * self.nX).reshape((self.nZ, self.nY, self.nX))
    self.xint, self.yint, self.zint = kfuncs.transform_int_3d(self.x_arr_full, self.y_arr_full, self.z_arr_full,
                                                             g.delt_PA, self.i_rad)
    self.r = np.sqrt(self.xint ** 2 + self.yint ** 2)
    self.wave_arr = g.spec2D.wave.copy()
    self.nWave = len(self.wave_arr)
    self.delt_wave = np.average(self.wave_arr[1:] - self.wave_arr[:-1])
    self.I_wide = self.intensityProfile.int(self.r, self.zint)
    self.I_matrix = np.tile(self.I_wide, (self.nWave, 1, 1, 1))
    self.wave_ref_matrix = np.repeat(self.wave_arr, self.nZ * self.nY * self.nX).reshape(
        (self.nWave, self.nZ, self.nY, self.nX))


@spec('model.aper_model.AperModel2D.setup_calcs', 'C04 C05 C14 C15 C06 C13 C16', keep_copies=True, opaque_also=['model.aper_model.AperModel2D.setup_model_grid'],
      obs=['self.sigma_floor_value', 'self.sigma_upsample_value', 'self.wave_arr_real', 'self.nWave_real',
           'self.delt_wave_real', 'self.I_matrix_real', 'self.wave_ref_matrix_real', 'self.instrument',
           'call:setup_model_grid', 'call:generate_conv_stamp', 'call:set_conv_stamp'])
def setup2d(self):
    self.setup_model_grid()
    if self.adaptive_upsample_wave:
        self.wave_arr_real = self.wave_arr.copy()
        self.nWave_real = self.nWave
        self.delt_wave_real = self.delt_wave
        self.I_matrix_real = self.I_matrix.copy()
        self.wave_ref_matrix_real = self.wave_ref_matrix.copy()
        if self.spec_type == 'wave':
            self.sigma_upsample_value = self.delt_wave / self.lam0_primary * C_KMS / 2.35
        elif self.spec_type == 'velocity':
            self.sigma_upsample_value = self.delt_wave / 2.35
        if self.sigma_floor:
            if self.spec_type == 'wave':
                self.sigma_floor_value = 0.75 * self.delt_wave / self.adaptive_upsample_factor / self.lam0_primary * C_KMS / 2.35
            elif self.spec_type == 'velocity':
                self.sigma_floor_value = 0.75 * self.delt_wave / self.adaptive_upsample_factor / 2.35
    elif self.sigma_floor:
        if self.spec_type == 'wave':
            self.sigma_floor_value = self.delt_wave / self.lam0_primary * C_KMS / 2.35
        elif self.spec_type == 'velocity':
            self.sigma_floor_value = self.delt_wave / 2.35
    nx = int(np.floor(self.instrument.PSF.PSF_FWHM / self.delt_x))
    ny = int(np.floor(self.instrument.PSF.PSF_FWHM / self.delt_y))
    stamp = self.instrument.PSF.generate_conv_stamp(np.arange(-nx, nx + 1) * self.delt_x, np.arange(-ny, ny + 1) * self.delt_y)
    kernel = np.zeros(shape=(1, stamp.shape[0], stamp.shape[1]))
    kernel[0, :, :] = stamp
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(kernel)


@spec('model.aper_model.AperModel2D.make_model', 'C04 C05 C06 C01', obs=['call:setup_calcs', 'call:do_model_calcs'])
def make2d(self):
    self.setup_calcs()
    self.do_model_calcs()


@spec('model.aper_model.AperModel2D.update_model', 'C04 C01 C06 C13',
      obs=['call:setAttr', 'call:setup_calcs', 'call:do_model_calcs', 'self.delta_position_velspace', 'self.inst_disp_wave'])
def update2d(self, **kwargs):
    self.setAttr(**kwargs)
    if self.theta[-1] != self.z or self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit:
        self.delta_position_velspace = None
        self.inst_disp_wave = None
        self.setup_calcs()
    self.do_model_calcs()


@spec('model.aper_model.AperModel2D.do_model_calcs', 'C04 C15 C01 C06 C05',
      obs=['self.model', 'call:update_theta', 'call:check_do_upsample_wave', 'call:calculate_spectral_cube',
           'call:convolve_spectral_cube_PSF', 'call:trim_downsample_spectral_cube', 'call:convolve_instrument_resolution',
           'call:downsample_to_real_wave'])
def calcs2d(self):
    self.kinProfile.update_theta(self.theta)
    if self.adaptive_upsample_wave:
        self.check_do_upsample_wave()
    self.calculate_spectral_cube()
    self.convolve_spectral_cube_PSF()
    self.trim_downsample_spectral_cube()
    self.convolve_instrument_resolution()
    if self.adaptive_upsample_wave:
        self.downsample_to_real_wave()
    self.model = self.model_out.T


@spec('model.aper_model.AperModel2D.check_do_upsample_wave', 'C04 C15 C13 C06 C14')
def upsample(self):
    if np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value:
        self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
        edge = 0.5 * (self.delt_wave_real - self.delt_wave)
        lo = self.wave_arr.min() - edge
        hi = self.wave_arr.max() + edge
        self.wave_arr = np.linspace(lo, hi, num=int(np.round((hi - lo) / self.delt_wave + 1)))
        self.nWave = len(self.wave_arr)
        self.I_matrix = np.tile(self.I_wide, (self.nWave, 1, 1, 1))
        self.wave_ref_matrix = np.repeat(self.wave_arr, self.nZ * self.nY * self.nX).reshape(
            (self.nWave, self.nZ, self.nY, self.nX))


@spec('model.aper_model.AperModel2D.calculate_spectral_cube', 'C12 C14 C16 C06 C04 C15 C13 C05 C17',
      obs=['self.spectra_cube', 'self.delta_position_velspace', 'self.inst_disp_wave', 'self.kinProfile.dispProfile.theta'])
def cube2d(self):
    light = self.I_wide
    cosphi = self.yint / self.r
    cosphi[self.r == 0.] = 0.
    v = self.kinProfile.vel(self.r, self.zint) * cosphi * self.sini
    if self.absvalsigma:
        self.kinProfile.dispProfile.theta = np.abs(self.kinProfile.dispProfile.theta)
    if self.sigma_floor:
        if np.abs(self.kinProfile.dispProfile.theta) < self.sigma_floor_value:
            self.kinProfile.dispProfile.theta = np.array([self.sigma_floor_value])
    s = self.kinProfile.sigma(self.r, self.zint)
    if self.do_position_wave_shift or self.do_inst_res_conv_effective:
        if self.delta_position_velspace is None or self.inst_disp_wave is None:
            inslit = np.array(range(self.padX, self.n_pix_x + self.padX))
            power = C_KMS / (self.instrument.instrument_resolution * FWHM_PER_SIGMA)
            self.delta_position_velspace, self.inst_disp_wave = kfuncs.calculate_effective_inst_res_lam_shift(
                I_wide_3d=light, xarr=self.x_arr, yarr=self.y_arr, wh_in_slit_x=inslit, R=power,
                slit_width_R_meas=self.instrument.slit_width, tot_slit_width=self.instrument.slit_width,
                lam0=self.lam0_primary, PSF=self.instrument.PSF)
    if self.do_position_wave_shift:
        for i in range(self.nY):
            v[:, i, :] += self.delta_position_velspace[i]
    self.spectra_cube = kfuncs.add_sigma_collapse_z(
        light, v, s, self.wave_arr, self.z, self.galaxy.spec2D.restwave_arr, self.galaxy.spec2D.flux_ratio_arr,
        self.nWave, self.nZ, self.nY, self.nX, self.delt_z, self.delt_wave, self.I_matrix, self.wave_ref_matrix,
        spec_type=self.spec_type)


@spec('model.aper_model.AperModel2D.convolve_spectral_cube_PSF', 'C15 C04 C13')
def conv2d(self):
    self.spectra_cube_conv = kfuncs.PSF_convolve(self.spectra_cube, self.instrument.PSF)


@spec('model.aper_model.AperModel2D.trim_downsample_spectral_cube', 'C13 C15 C17 C06 C04', obs=['raises', 'self.spectra_cube_conv', 'self.model_out'])
def trim2d(self):
    if self.instrument.slit_mask is not None:
        raise ValueError('slit mask')
    self.spectra_cube_conv = self.spectra_cube_conv[:, self.padY:self.n_pix_y + self.padY, self.padX:self.n_pix_x + self.padX]
    out = np.sum(self.spectra_cube_conv, axis=2) * self.delt_x
    if self.rebin_output:
        self.model_out = kfuncs.rebin(out, self.nWave, self.n_pix_y_whole)
    else:
        self.model_out = out


@spec('model.aper_model.AperModel2D.convolve_instrument_resolution', 'C14 C15 C17 C06 C04', obs=['raises', 'self.model_out', 'self.inst_disp_wave'])
def inst2d(self):
    if self.do_position_wave_shift:
        if self.spec_type == 'velocity':
            raise ValueError('unsupported')
        if not self.do_inst_res_conv_effective:
            self.inst_disp_wave = self.instrument.instrument_resolution / C_KMS * self.lam0_primary
        if self.inst_disp_wave.min() > 0.:
            self.model_out = kfuncs.inst_convol_complete(self.model_out, self.wave_arr, self.inst_disp_wave)
    else:
        if self.spec_type == 'wave':
            self.inst_disp_wave = self.instrument.instrument_resolution / C_KMS * self.lam0_primary
        else:
            self.inst_disp_wave = self.instrument.instrument_resolution
        if self.inst_disp_wave > 0.:
            self.model_out = kfuncs.inst_convol_complete(self.model_out, self.wave_arr, self.inst_disp_wave)


@spec('model.aper_model.AperModel2D.downsample_to_real_wave', 'C04 C15 C13 C06')
def downsample(self):
    self.model_out = kfuncs.rebin(self.model_out, self.nWave_real, self.model_out.shape[1]) * (float(self.nWave_real) / self.nWave)
    self.wave_arr = self.wave_arr_real.copy()
    self.nWave = self.nWave_real
    self.delt_wave = self.delt_wave_real
    self.I_matrix = self.I_matrix_real.copy()
    self.wave_ref_matrix = self.wave_ref_matrix_real.copy()
