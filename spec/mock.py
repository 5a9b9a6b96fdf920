"""Reference behaviour of the mock observation generator."""
import numpy as np
from misfit.galaxy import Galaxy, ObsSpectrum2D
from misfit.instrument import Spectrograph
from misfit.model.kin_model import KinModel2DOptions, KinModel2D
from misfit.model.kin_classes import Theta2DSettingsFiducial, KinProfileFiducial, IntensityProfileFiducial
from misfit.mock.generate_basic import generate_mock_basis


def spec(*a, **k):
    return lambda f: f


@spec('mock.generate_basic.generate_mock_basis', 'C06 C13 C01 C05 C16 C14', obs=[
    'return', 'call:Spectrograph', 'call:Galaxy', 'call:ObsSpectrum2D', 'call:set_spectrum_2D',
    'call:initialize_lineset', 'call:update_values', 'call:KinModel2DOptions', 'call:Theta2DSettingsFiducial',
    'call:KinModel2D', 'call:IntensityProfileFiducial', 'heap'],
      opaque_also=['galaxy.ObsSpectrum2D.initialize_lineset', 'model.kin_model.KinModel2D.__init__',
                   'galaxy.Galaxy.__init__', 'galaxy.ObsSpectrum2D.__init__', 'instrument.Spectrograph.__init__'])
def basis(z=None, ID=None, Va=None, rt=None, sigma0=None, yshift=None, n=None, re_arcsec=None, q=None, q0=0.19,
          delt_PA=None, dither=False, wave=None, instrument_name=None, pixscale=None, instrument_resolution=None,
          slit_width=None, slit_length=None, nymin=13, PSF_FWHM=None, PSF_type=None, band=None, line_primary=None,
          linegroup_name=None, spec_type='wave', nSubpixels=2, pad_factor=0.5, do_position_wave_shift=False,
          do_inst_res_conv_effective=False, kinProfile=None, intensityProfile=None, debug=False, **kwargs):
    if slit_length < nymin * pixscale:
        slit_length = nymin * pixscale
    instrument = Spectrograph(instrument_name=instrument_name, PSF_FWHM=PSF_FWHM, PSF_type=PSF_type,
                              yspace_dither_arc=None, pixscale=pixscale, slit_width=slit_width,
                              slit_length=slit_length)
    instrument.instrument_resolution = instrument_resolution
    instrument.band = band
    galaxy = Galaxy(z=z, ID=ID, n=n, re_arcsec=re_arcsec, delt_PA=delt_PA, q=q, q0=q0, dither=dither,
                    generate_model=True)
    spec2D = ObsSpectrum2D(band=band, wave=wave, line_primary=line_primary, linegroup_name=linegroup_name,
                           no_continuum_subtraction=True, spec_type=spec_type)
    spec2D.shape = [int(np.ceil(instrument.slit_length / instrument.pixscale)), len(wave)]
    if spec_type == 'wave':
        spec2D.initialize_lineset()
    # the object sits on the centre of the ny pixels
    spec2D.m0 = np.ceil(instrument.slit_length / instrument.pixscale) / 2. - 0.5
    spec2D.ypos = spec2D.m0
    galaxy.set_spectrum_2D(spec2D)
    galaxy.namebase = str(ID)
    if kinProfile is None:
        kinProfile = KinProfileFiducial()
    if intensityProfile is None:
        intensityProfile = IntensityProfileFiducial(galaxy)
    intensityProfile.update_values(galaxy=galaxy)
    opts = KinModel2DOptions(nSubpixels=nSubpixels, pad_factor=pad_factor,
                             do_position_wave_shift=do_position_wave_shift,
                             do_inst_res_conv_effective=do_inst_res_conv_effective)
    settings = Theta2DSettingsFiducial(theta=np.array([Va, rt, sigma0, yshift, galaxy.z]),
                                       theta_vary=np.array([False, False, False, False, False]),
                                       theta_bounds=np.array([None, None, None, None, None]),
                                       theta_linked_posteriors=None)
    model = KinModel2D(galaxy, thetaSettings=settings, kinProfile=kinProfile, intensityProfile=intensityProfile,
                       kinModelOptions=opts, spec_type=spec_type, no_scale=True, debug=debug)
    return model, galaxy, instrument


@spec('mock.generate_basic.generate_mock_IFU_cube', 'C06 C13 C14 C05 C04 C16', obs=['return', 'call:make_3D_int_model'])
def cube(debug=False, **kwargs):
    model, galaxy, instrument = generate_mock_basis(debug=debug, **kwargs)
    model.make_3D_int_model(galaxy=galaxy, instrument=instrument, theta_fitting=[])
    if debug:
        return model.model_cube, model.I_wide, model.V_wide, model.I_Vsq_wide
    return model.model_cube


@spec('mock.generate_basic.generate_mock_slit_obs', 'C06 C13 C14 C05 C04 C16', obs=['return', 'call:make_model'])
def slit(**kwargs):
    model, galaxy, instrument = generate_mock_basis(**kwargs)
    model.make_model(galaxy=galaxy, instrument=instrument, theta_fitting=[])
    return model.model
