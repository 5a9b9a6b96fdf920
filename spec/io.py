"""Reference readers of the shipped line and band tables."""
import os
import numpy as np
from astropy.io import ascii as _ascii


def spec(*a, **k):
    return lambda f: f


def _row(table, column, key):
    wh = np.where(table[column] == key)[0]
    if len(wh) == 0:
        raise ValueError('unknown name')
    return wh[0]


@spec('general.io.read_line_names', 'C18 C17 C06')
def line_names(param_filename, name=None):
    d = _ascii.read(param_filename, format='commented_header')
    return d['lineset'][_row(d, 'name', name)].split(',')


@spec('general.io.read_restwave', 'C18 C17')
def restwave(param_filename, linename=None):
    d = _ascii.read(param_filename, format='commented_header')
    return d['restwave'][_row(d, 'linename', linename)]


@spec('general.io.read_line_ratio', 'C18 C17')
def ratio(param_filename, linename=None):
    d = _ascii.read(param_filename, format='commented_header')
    return d['strength'][_row(d, 'linename', linename)]


@spec('general.io.read_wave_range', 'C18 C17')
def wave_range(param_filename, linename=None):
    d = _ascii.read(param_filename, format='commented_header')
    i = _row(d, 'linename', linename)
    return np.array([d['wave_l'][i], d['wave_u'][i]])


@spec('general.io.read_skyline_band_cutoff', 'C18 C17')
def band_cutoff(param_filename, band=None):
    d = _ascii.read(param_filename, format='commented_header')
    i = _row(d, 'band', band)
    return d['sn_cutoff'][i], d['units'][i]


@spec('general.io.get_param_filename', 'C18 C21')
def param_filename(filename):
    return os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib', filename)
