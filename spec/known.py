"""Repaired forms (alternatives to today's) and today's form of the two defects kept in known_findings.txt."""
import numpy as np


def spec(*a, **k):
    return lambda f: f


# the sky ellipse is rotated clockwise while transform_int_3d rotates counter-clockwise
@spec('model.kin_functions.r_int_ellip', 'C12', args=False, opaque=False,
      known='the sky ellipse is rotated clockwise by delt_PA, transform_int_3d rotates counter-clockwise')
def ellip_radius_cw(x, y, q, delt_PA):
    a = delt_PA * np.pi / 180.
    yp = np.sin(a) * x + np.cos(a) * y
    xp = np.cos(a) * x - np.sin(a) * y
    return np.sqrt(q * yp ** 2 + xp ** 2 / q)


@spec('model.kin_functions.r_int_ellip', 'C12', alt=True, opaque=False)
def ellip_radius_ccw(x, y, q, delt_PA):
    a = delt_PA * np.pi / 180.
    yp = np.cos(a) * y - np.sin(a) * x
    xp = np.cos(a) * x + np.sin(a) * y
    return np.sqrt(q * yp ** 2 + xp ** 2 / q)


# the kernel of the 1D rotating model is sampled on the model grid, which can have an even number of cells
@spec('model.aper_model.AperModel1DRot.setup_calcs', 'C15', args=False, opaque=False, keep_copies=True,
      opaque_also=['model.aper_model.AperModel1DRot.setup_model_grid'], obs=['call:generate_conv_stamp'],
      known='the kernel is sampled on the model grid about its average, half a cell off centre when the grid has an even number of cells')
def rot_setup_even(self):
    if self.disp_aper_radius_arcsec is None:
        self.disp_aper_radius_arcsec = self.galaxy.re_arcsec
    self.setup_model_grid()
    x = self.x_arr
    y = self.y_arr
    fwhm = self.instrument.PSF.PSF_FWHM
    xc = np.average(x)
    yc = np.average(y)
    stamp = self.instrument.PSF.generate_conv_stamp(x[np.abs(x - xc) <= fwhm] - xc, y[np.abs(y - yc) <= fwhm] - yc)
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(stamp)


@spec('model.aper_model.AperModel1DRot.setup_calcs', 'C15', alt=True, opaque=False, keep_copies=True,
      opaque_also=['model.aper_model.AperModel1DRot.setup_model_grid'],
      obs=['self.disp_aper_radius_arcsec', 'self.instrument', 'call:setup_model_grid', 'call:generate_conv_stamp',
           'call:set_conv_stamp'])
def rot_setup_odd(self):
    if self.disp_aper_radius_arcsec is None:
        self.disp_aper_radius_arcsec = self.galaxy.re_arcsec
    self.setup_model_grid()
    nx = int(np.floor(self.instrument.PSF.PSF_FWHM / self.delt_x))
    ny = int(np.floor(self.instrument.PSF.PSF_FWHM / self.delt_y))
    stamp = self.instrument.PSF.generate_conv_stamp(np.arange(-nx, nx + 1) * self.delt_x, np.arange(-ny, ny + 1) * self.delt_y)
    self.instrument = self.instrument.copy()
    self.instrument.PSF.set_conv_stamp(stamp)


@spec('plot.plot_image_slit.box_integrate', 'C15', known='pixels on the edge of a new pixel are counted twice, and '
      'pixels beyond the image give negative flux')
def boxint_inclusive(x, y, x_new, debug=False):
    delt_x_new = np.average(x_new[1:] - x_new[:-1])
    delt_x = np.average(x[1:] - x[:-1])
    x_low = x - delt_x / 2.
    x_high = x + delt_x / 2.
    y_new = np.zeros(len(x_new))
    for i in range(len(x_new)):
        low = x_new[i] - delt_x_new / 2.
        high = x_new[i] + delt_x_new / 2.
        int_y = 0.
        try:
            c_l = np.where(x_low >= low)[0]
            c_r = np.where(x_high <= high)[0]
            ind_c = np.array(list(set(c_l) & set(c_r)))
            ind_c.sort()
            int_y += np.sum(y[ind_c]) * delt_x
        except:
            ind_c = 'None'
        try:
            ind_l = np.where(x_low <= low)[0].max()
            int_y += y[ind_l] * (x_high[ind_l] - low)
        except:
            ind_l = 'None'
        try:
            ind_r = np.where(x_high >= high)[0].min()
            int_y += y[ind_r] * (high - x_low[ind_r])
        except:
            ind_r = 'None'
        y_new[i] = int_y / delt_x_new
    return y_new
