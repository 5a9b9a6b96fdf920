"""Reference equations: point-spread kernels and instrument containers."""
import numpy as np
from misfit.instrument import PSF_stamp_gauss, PSF_stamp_moffat


def spec(*a, **k):
    return lambda f: f


@spec('instrument.PSF_stamp_gauss', 'C14 C15 C16 C13 C20')
def stamp_gauss(x, y, PSF_FWHM=None, yspace_dither_arc=None):
    s = PSF_FWHM / (2. * np.sqrt(2. * np.log(2.)))
    X = np.tile(x, (len(y), 1))
    Y = np.tile(np.array([y]).T, (1, len(x)))
    k = np.exp(-(X ** 2 + Y ** 2) / (2. * s ** 2))
    if yspace_dither_arc is not None:
        lo = np.exp(-(X ** 2 + (Y + yspace_dither_arc) ** 2) / (2. * s ** 2))
        up = np.exp(-(X ** 2 + (Y - yspace_dither_arc) ** 2) / (2. * s ** 2))
        k = k - 0.5 * (lo + up)
    return k


@spec('instrument.PSF_stamp_moffat', 'C14 C15 C16 C13 C20')
def stamp_moffat(x, y, alpha=None, beta=None, yspace_dither_arc=None):
    X = np.tile(x, (len(y), 1))
    Y = np.tile(np.array([y]).T, (1, len(x)))
    c = (beta - 1) / (np.pi * alpha ** 2)
    k = c * np.power(1. + (X ** 2 + Y ** 2) / alpha ** 2, -beta)
    if yspace_dither_arc is not None:
        lo = c * np.power(1. + (X ** 2 + (Y + yspace_dither_arc) ** 2) / alpha ** 2, -beta)
        up = c * np.power(1. + (X ** 2 + (Y - yspace_dither_arc) ** 2) / alpha ** 2, -beta)
        k = k - 0.5 * (lo + up)
    return k


@spec('instrument.PSFGaussian.generate_conv_stamp', 'C14 C15 C06 C16')
def gauss_stamp(self, x, y, PSF_FWHM=None):
    if PSF_FWHM is None:
        PSF_FWHM = self.PSF_FWHM
    return PSF_stamp_gauss(x, y, PSF_FWHM=PSF_FWHM, yspace_dither_arc=self.yspace_dither_arc)


@spec('instrument.PSFMoffat.generate_conv_stamp', 'C14 C15 C06 C16')
def moffat_stamp(self, x, y, PSF_FWHM=None):
    if PSF_FWHM is None:
        PSF_FWHM = self.PSF_FWHM
    alpha = PSF_FWHM / (2. * np.sqrt(np.power(2., 1. / self.PSF_beta) - 1))
    return PSF_stamp_moffat(x, y, alpha=alpha, beta=self.PSF_beta, yspace_dither_arc=self.yspace_dither_arc)


@spec('instrument.PSFBase.set_conv_stamp', 'C15')
def set_stamp(self, conv_stamp):
    self._conv_stamp = conv_stamp
