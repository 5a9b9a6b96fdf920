"""References for the geometry and resampling helpers of the plotting modules."""
import numpy as np
from scipy.ndimage.interpolation import rotate as scipyrotate
from scipy.signal import fftconvolve
from astropy.wcs import WCS
from misfit.plot.plot_utils import (rotate_pstamp, rot_object_center, rot_corner_coords, rot_coord_angle,
                                    sign_from_pos_angle)
from misfit.plot.plot_image_slit import box_integrate


def spec(*a, **k):
    return lambda f: f


@spec('plot.plot_utils.pstamp_position_angle', 'C12')
def pstamp_pa(pstamp_hdr):
    try:
        a = pstamp_hdr['CD2_1']
    except:
        a = 0.
    try:
        b = pstamp_hdr['CD2_2']
    except:
        b = 0.
    if a == 0. and b == 0.:
        return 0.
    if b == 0.:
        return 90.
    return np.arctan2(a, b) * 180. / np.pi


@spec('plot.plot_utils.pos_angle', 'C12 C14 C17', obs=['return', 'raises'])
def pos_angle(pos1, pos2, units='degrees'):
    d = pos1.ra.rad - pos2.ra.rad
    pa = np.arctan2(-np.sin(d), np.cos(pos1.dec.rad) * np.tan(pos2.dec.rad) - np.sin(pos1.dec.rad) * np.cos(d))
    if units == 'degrees':
        return pa * 180. / np.pi
    if units == 'radians':
        return pa
    raise ValueError('units')


@spec('plot.plot_utils.y_sign_pos_angle', 'C12', opaque_also=['plot.plot_utils.sign_from_pos_angle'])
def y_sign(pos_angle):
    return sign_from_pos_angle(pos_angle)


@spec('plot.plot_utils.x_sign_pos_angle', 'C12', opaque_also=['plot.plot_utils.sign_from_pos_angle'])
def x_sign(pos_angle):
    return sign_from_pos_angle(pos_angle - 90.)


@spec('plot.plot_utils.rotate_pstamp', 'C12')
def rotate(galaxy):
    try:
        ang = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
    except:
        ang = galaxy.spec1D.slit_PA - galaxy.pstamp.img_PA
    return scipyrotate(galaxy.pstamp.pstamp, ang, axes=(1, 0), reshape=False, order=5)


@spec('plot.plot_utils.rot_coord_angle', 'C12')
def rot(arr, th, x0=0., y0=0.):
    dx, dy = arr[0] - x0, arr[1] - y0
    return dx * np.cos(th) - dy * np.sin(th) + x0, dx * np.sin(th) + dy * np.cos(th) + y0


@spec('plot.plot_utils.rot_object_center', 'C12', opaque_also=['plot.plot_utils.rot_corner_coords'])
def rotcent(x0, y0, cent_pix, angle):
    return rot_corner_coords([[x0, y0]], angle, x0=cent_pix[0], y0=cent_pix[1])


@spec('plot.plot_utils.convolve_rot_gal', 'C12 C14 C15 C05 C16', opaque_also=[
    'plot.plot_utils.rotate_pstamp', 'plot.plot_utils.rot_object_center'])
def convrot(galaxy=None, instrument=None, instrument_img=None, conv_sigma=None, verbose=False):
    p = galaxy.pstamp.pstamp
    w = WCS(galaxy.pstamp.pstamp_hdr)
    w.sip = None
    ny, nx = np.shape(p)[0], np.shape(p)[1]
    x0, y0 = w.wcs_world2pix(galaxy.RA, galaxy.DEC, 1)
    try:
        pa = galaxy.spec2D.slit_PA
    except:
        pa = galaxy.spec1D.slit_PA
    xr, yr = rot_object_center(x0 - 1., y0 - 1., np.array([(nx - 1) / 2., (ny - 1) / 2.]), -1. * pa * (np.pi / 180.))
    im = rotate_pstamp(galaxy)
    my, mx = np.shape(im)[0], np.shape(im)[1]
    x = (np.linspace(0, mx, num=mx, endpoint=False) - xr) * instrument_img.pixscale
    y = (np.linspace(0, my, num=my, endpoint=False) - yr) * instrument_img.pixscale
    k = instrument.PSF.generate_conv_stamp(x, y, PSF_FWHM=conv_sigma * (2. * np.sqrt(2. * np.log(2.))))
    out = fftconvolve(im, k, mode='same')
    return out * (np.sum(im) / np.sum(out))


@spec('plot.plot_image_slit.box_integrate', 'C15 C13')
def boxint(x, y, x_new, debug=False):
    dn = np.average(x_new[1:] - x_new[:-1])
    d = np.average(x[1:] - x[:-1])
    out = np.zeros(len(x_new))
    for i in range(len(x_new)):
        over = np.clip(np.minimum(x + d / 2., x_new[i] + dn / 2.) - np.maximum(x - d / 2., x_new[i] - dn / 2.), 0., None)
        out[i] = np.sum(y * over) / dn
    return out


@spec('plot.plot_image_slit.box_integrate_pstamp', 'C15 C13', opaque_also=['plot.plot_image_slit.box_integrate'])
def boxpstamp(pstamp_trim_orig, xarc_orig, yarc_orig, xarc_new, yarc_new):
    tmp = np.zeros((len(yarc_new), len(xarc_orig)))
    for i in range(len(xarc_orig)):
        tmp[:, i] = box_integrate(yarc_orig, pstamp_trim_orig[:, i], yarc_new)
    out = np.zeros((len(yarc_new), len(xarc_new)))
    for j in range(len(yarc_new)):
        out[j, :] = box_integrate(xarc_orig, tmp[j, :], xarc_new)
    return out


@spec('plot.plot_utils.sign_from_pos_angle', 'C12')
def sign(pos_angle):
    if pos_angle < 0.:
        pos_angle = pos_angle + 360.
    if pos_angle > 180.:
        pos_angle = 360. - pos_angle
    if pos_angle > 90.:
        return -1.
    if pos_angle < 90.:
        return 1.
    if pos_angle == 90.:
        return 0.


@spec('plot.plot_utils.rot_corner_coords', 'C12', opaque_also=['plot.plot_utils.rot_coord_angle'])
def corners(coords, th, x0=0., y0=0.):
    out = np.array([])
    for c in coords:
        cx, cy = rot_coord_angle(c, th, x0=x0, y0=y0)
        if np.shape(out)[0] == 0:
            out = np.array([cx, cy]).flatten()
        else:
            out = np.vstack((out, np.array([cx, cy]).flatten()))
    out = np.array(out)
    return out.T[0], out.T[1]
