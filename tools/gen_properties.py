"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

F = 'misfit/'
prop('C01', 'Every slot of the free-parameter vector means the same parameter everywhere',
 'For every choice of free and fixed parameters, slot j of the fitting vector stands for the j-th free parameter of the full parameter list in every place the vector is packed or unpacked: initial values, walker starting ranges, prior bounds, model update, posterior chains, derived quantities, and parameter labels. Fixed parameters keep their value and never consume a slot. The full list is always split as velocity-profile parameters first, dispersion parameters next, then the spatial shift second-to-last and the redshift last.',
 ['inputs', 'configurations'], 'all parameter lists, all free/fixed patterns, all fitting vectors',
 'The tests fix one free/fixed pattern for a model and assert nothing on the packing; any other pattern (first parameter fixed, non-trailing fixed ones) is never exercised.',
 [F+'model/kin_model.py', F+'model/kin_classes.py', F+'fit/fit_core.py', F+'general/general_utils.py', F+'plot/plot_trace.py', F+'model/aper_model.py'],
 [('unpack of the fitting vector', 'kin_model.KinModel2D.update_parameters'), ('pack of initial values', 'fit_core.initialize_fitting_theta'),
  ('prior bounds lookup', 'kin_classes.ThetaPriorFlat.log_prior'), ('walker ranges', 'general_utils.range_arrs'), ('derived chains', 'fit_core.add_v_re_22'), ('profile split', 'kin_classes.KinProfile.update_theta')])
prop('C02', 'Prior and likelihood gate every MCMC proposal',
 'A proposal has finite prior exactly when every free parameter lies within its bounds (both ends included), and is otherwise rejected with log-probability minus infinity. Out-of-prior proposals are rejected before the model or likelihood is evaluated, accepted ones get the sum of log-prior and log-likelihood, and any non-finite sum becomes minus infinity.',
 ['inputs', 'histories'], 'all proposals the sampler can make, all bounds',
 'No stable test evaluates a posterior probability; boundary, NaN and out-of-range proposals are inputs no test samples.',
 [F+'fit/fit_core.py', F+'model/kin_classes.py', F+'model/kin_functions.py'],
 [('posterior probability', 'fit_core.lnprob'), ('flat prior', 'kin_classes.ThetaPriorFlat.log_prior'), ('interval membership', 'kin_functions._between')])
prop('C03', 'Masked pixels never enter the fit statistics',
 'Masked-out spectrum pixels contribute nothing to the chi-square, the log-likelihood, the number of counted pixels, or the fitting weights. Every statistic is the sum over pixels of mask times squared residual over squared error (times the fitting weight where weighted), with the log-likelihood equal to minus one half of the masked sum, and the reduced forms divide by the number of unmasked pixels minus the number of free parameters. Model scaling to the data uses only sky-free columns, with inverse-variance weights.',
 ['inputs'], 'all spectra, masks, error arrays and models',
 'No stable test evaluates a fit statistic; a masked pixel leaking in changes only numeric values for particular data.',
 [F+'model/kin_model.py', F+'general/galaxy_utils.py'],
 [('log likelihood', 'kin_model._model_llike'), ('chi-square', 'kin_model._model_chisq'), ('row scaling', 'kin_model.KinModel2D.scale_model'), ('weights', 'galaxy_utils.calculate_2D_fit_weights')])
prop('C04', 'A model depends only on its current parameters',
 'After any sequence of parameter updates, the model equals the one a freshly built model would give for the current parameters: nothing from earlier parameter values survives. In particular the sampling grid follows the current spatial shift and redshift, and every quantity replaced during adaptive wavelength upsampling is restored to its real-sampling value afterwards.',
 ['histories', 'inputs'], 'all sequences of parameter updates on one model object',
 'Tests build a model once per case and never compare an updated model to a fresh one.',
 [F+'model/aper_model.py', F+'model/kin_model.py', F+'model/kin_classes.py'],
 [('recalculation on update', 'aper_model.AperModel2D.update_model'), ('upsample / restore', 'aper_model.AperModel2D.check_do_upsample_wave, downsample_to_real_wave')])
prop('C05', 'Separate models and fits never interfere, and inputs are not mutated',
 'Two models or fits created independently share no mutable state: profiles, options, parameter settings, result containers and convolution kernels of one are not altered by building or updating another. Constructors create fresh defaults per object, copies are deep, and building a model does not modify the caller\'s parameter settings or instrument settings.',
 ['histories', 'configurations'], 'all interleavings of creating and updating several models, fits, and copies',
 'Each test builds a single model in isolation.',
 [F+'model/kin_model.py', F+'fit/fit2D.py', F+'fit/fit_core.py', F+'galaxy.py', F+'instrument.py', F+'mock/generate_basic.py', F+'model/aper_model.py'],
 [('default arguments', 'constructors of model, fit and mock entry points'), ('copy methods', 'copy() of every class'), ('kernel ownership', 'instrument.PSFBase.set_conv_stamp')])
prop('C06', 'User settings reach the computation',
 'A keyword setting given to any constructor overrides that class\'s default, including in subclasses that set their own defaults. Every model option (subpixel sampling, padding, position/wavelength shift, effective resolution, absolute-value dispersion, adaptive upsampling and its factor, dispersion floor) given to a kinematic model reaches the aperture model unchanged and under its own name wherever an aperture model is built, and user fit settings reach the model built for fitting.',
 ['configurations'], 'all option combinations and all construction paths',
 'Tests use a couple of option sets on one construction path.',
 [F+'model/kin_model.py', F+'model/kin_classes.py', F+'model/aper_model.py', F+'fit/fit2D.py', F+'fit/fit_core.py', F+'instrument.py', F+'galaxy.py', F+'mock/generate_basic.py'],
 [('keyword application', 'setAttr calls ending each constructor'), ('option forwarding', 'kin_model.KinModel2D.make_model / make_3D_int_model')])
prop('C07', 'The pruned fitter used for sampling computes the same likelihood',
 'The stripped-down fit object handed to the sampler carries deep copies of every piece of data and every setting the likelihood reads, taken from the matching field of the full fit object, including the kinematic profile, intensity profile, model options, priors, parameter settings and instrument. No attribute removed while stripping is read again on the prior, likelihood or sampling path. The result object saved to disk likewise receives every field it declares from the full fit.',
 ['configurations', 'histories'], 'all fit configurations reaching the sampler',
 'No stable test runs the sampler; a missing or misdirected field only shows for configurations that differ from defaults.',
 [F+'fit/fit_core.py', F+'fit/fit2D.py', F+'galaxy.py', F+'instrument.py'],
 [('pruning', 'fit_core.make_pruned_fitEmis2D_class'), ('result pruning', 'fit2D.FitEmissionLines2D.make_pruned_fitEmis2D_result_class')])
prop('C08', 'Burn-in never enters the posterior and samples are saved before analysis',
 'Burn-in steps and production steps never share stored samples: with either supported sampler version, production starts from the last burn-in position in a store holding no burn-in step, and the returned chains contain production steps only. The sampler output is written to its file before any plotting or analysis, and is what the fit object holds afterwards. The number of burn-in, production steps, walkers and dimensions are the user\'s.',
 ['histories', 'fault_sequences'], 'all sampler runs, including failures while plotting',
 'The only MCMC test does not complete within its time limit.',
 [F+'fit/fit_core.py', F+'fit/fit_io.py'],
 [('sampling with emcee 2', 'fit_core._run_mcmc_emcee_221'), ('sampling with emcee 3', 'fit_core._run_mcmc_emcee_3'), ('sampler dictionary', 'fit_io.make_emcee_sampler_dict')])
prop('C09', 'Posterior summaries are ordered, labelled and consistent',
 'One-sigma uncertainties come from the 15.865/84.135 percentiles and two-sigma uncertainties from the 2.275/97.725 percentiles of the same samples, reported as (lower, upper) distances best-minus-lower and upper-minus-best, for every parameter and every linked group. The number and order of parameter labels always equals the columns of the analysed chain, the derived quantities being V and sigma at the effective radius and at 2.2 scale lengths, and analysing the same results again changes nothing. The percentage of opposite-sign samples is computed per column relative to the sign of that column\'s best-fit value.',
 ['inputs', 'histories'], 'all chains, all linked-parameter groupings, repeated analysis',
 'No stable test runs the posterior analysis.',
 [F+'fit/fit_core.py', F+'general/general_utils.py', F+'fit/fit2D.py'],
 [('best fit and limits', 'fit_core.get_param_posterior_bestfits'), ('linked parameters', 'general_utils.get_bestfit_values_linked'), ('derived columns', 'fit_core.add_v_re_22')])
prop('C10', 'Trimming keeps all per-pixel data aligned',
 'Whenever a spectrum or image is trimmed, every per-pixel array it carries (flux, error, mask, sky mask, continuum-included flux, continuum model, continuum mask, wavelength) is cut with the same index range on the matching axis, and recorded positions are shifted by the trimmed lower edge. The in-place and copying variants of an operation trim the same set of arrays. Kept pixels are exactly those inside the requested wavelength or spatial range.',
 ['inputs', 'configurations'], 'all spectra, trim ranges, optional arrays present or absent',
 'No test trims a real spectrum; misalignment appears only for asymmetric trims or optional arrays.',
 [F+'general/galaxy_utils.py', F+'galaxy.py'],
 [('wavelength trim', 'galaxy_utils.trim_spectrum_1D / trim_spectrum_2D_wavelength'), ('spatial trim', 'galaxy_utils.trim_spectrum_2D_spatial / trim_*pstamp*')])
prop('C11', 'Masks only ever exclude pixels, and the sky split is complete',
 'Mask-building steps only turn pixels off: a pixel excluded by the input mask, by non-finite data, or by a missing (zero) error is never re-enabled, and fill values are written only at excluded pixels. Every column belongs to exactly one of the sky and sky-free sets, columns above the sky threshold being the sky ones. Building one spectrum\'s mask never modifies another\'s.',
 ['inputs'], 'all input masks and data with bad pixels',
 'No test has bad pixels or masks.',
 [F+'general/galaxy_utils.py', F+'galaxy.py'],
 [('bad-pixel masking', 'galaxy_utils.mask_bad / make_mask functions'), ('sky split', 'galaxy_utils.make_mask_sky*')])
prop('C12', 'Coordinate rotations are rigid and agree in sense',
 'Every rotation between slit, sky and galaxy coordinates preserves lengths, and the 2D and 3D versions rotate by the same signed position-angle offset. The slit/galaxy position-angle offset is folded to at most 90 degrees, the inclination follows sin^2 i = (1-q^2)/(1-q0^2), and radii and the azimuthal cosine are computed from the in-plane galaxy coordinates with the line-of-sight velocity being rotation speed times that cosine times sin i.',
 ['inputs'], 'all angles, inclinations and coordinates',
 'Tests sample three misalignment angles of the 1D model; signs that cancel by symmetry cannot be seen there.',
 [F+'model/kin_functions.py', F+'model/aper_model.py', F+'general/general_utils.py', F+'galaxy.py', F+'general/galaxy_utils.py'],
 [('3D transform', 'kin_functions.transform_int_3d'), ('2D rotation', 'general_utils.rot_coord_angle'), ('inclination', 'kin_functions.sin_i'), ('PA offset', 'galaxy delt_PA calculation')])
prop('C13', 'Model grids sample the data pixels exactly and undo their padding',
 'In every model grid, neighbouring coordinates are separated by exactly the declared cell size along each axis, the cell counts are the covered pixels times subsampling plus twice the padding, and the grid is centred on the galaxy position in the slit. Trimming after convolution removes exactly the padding on each side, and rebinning returns exactly the data shape.',
 ['inputs', 'configurations'], 'all slit widths, pixel scales, subsamplings, PSF sizes, padding factors and galaxy positions',
 'The 2D test asserts no values; the 1D tests use one geometry per case.',
 [F+'model/aper_model.py', F+'model/kin_functions.py'],
 [('2D grid', 'aper_model.AperModel2D.setup_model_grid'), ('1D rotation grid', 'aper_model.AperModel1DRot.setup_model_grid'), ('1D dispersion grid', 'aper_model.AperModel1DDispBase.setup_model_grid'), ('rebinning', 'kin_functions.rebin')])
prop('C14', 'Units and conversions are consistent across modules',
 'All conversions between pixels and arcsec multiply or divide by the pixel scale of the same instrument, velocity widths convert to wavelength widths as sigma_lambda = sigma_v/c times the observed wavelength, FWHM and sigma differ by 2*sqrt(2 ln 2) (or its rounded 2.35), rest and observed wavelengths differ by (1+z), and angles given in degrees are converted exactly once before trigonometric use. The speed-of-light constants used by different modules denote the same value in their stated units.',
 ['inputs', 'configurations'], 'all instruments, redshifts, wavelengths and angles',
 'Tests assert values only for the 1D aperture ratios.',
 [F+'model/aper_model.py', F+'model/kin_functions.py', F+'model/emission_lines_model.py', F+'galaxy.py', F+'general/galaxy_utils.py', F+'fit/fit1D.py', F+'instrument.py'],
 [('speed of light', 'module constants c_kms, c_cgs, c_AA'), ('line widths', 'kin_functions.add_sigma_collapse_z'), ('PSF widths', 'instrument.PSFGaussian / PSFMoffat')])
prop('C15', 'Smoothing and resampling conserve flux',
 'Every smoothing kernel (PSF, instrument resolution, line-spread) is normalised to unit sum before use, or its total cancels (the result is rescaled to the input total, or only enters a light-weighted ratio), so convolution redistributes flux without changing the total away from edges, and spectral line profiles integrate to the line flux. Rebinning by summation, and adaptive wavelength upsampling followed by downsampling, leave the line flux per data pixel on the same scale as without resampling.',
 ['inputs', 'configurations'], 'all PSFs, resolutions, grids, upsampling factors',
 'No test checks absolute normalisation; overall row scaling hides errors for the sampled cases.',
 [F+'instrument.py', F+'model/kin_functions.py', F+'model/aper_model.py'],
 [('PSF kernels', 'instrument.PSFGaussian.generate_conv_stamp / PSFMoffat.generate_conv_stamp'), ('resolution convolution', 'kin_functions.inst_convol_complete'), ('line profile', 'kin_functions.add_sigma_collapse_z')])
prop('C16', 'Profiles follow their stated laws in every implementation',
 'The kinematic and light profiles evaluate their documented laws: arctan rotation 2/pi * V_a * arctan(r/r_t), constant dispersion, Sersic light with b_n = 2n - 0.324, and exponential vertical light of scale height q0 times the effective radius (over 1.676 for the disk-scale variant). The composite profile delegates to its own velocity and dispersion parts with their own parameter slices, and light profiles take their structural parameters from the galaxy they are given.',
 ['inputs'], 'all radii, heights and parameters',
 'Tests sample a handful of parameter values through aggregate ratios only.',
 [F+'model/kin_classes.py', F+'model/kin_functions.py'],
 [('velocity law', 'kin_classes.VelArctanProfile.vel'), ('light laws', 'kin_classes.IntProfileSersic.int / IntProfileExpZ.int')])
prop('C17', 'Unsupported options are rejected, supported ones all handled',
 'For each enumerated setting (extraction method, spectral mode, weighting scheme, 1D line shape, band-cutoff units, slit mask), every documented choice has a handler and any other value raises an error instead of silently producing a result. Mismatched inputs (wrong number of fitting parameters, negative instrument resolution, unavailable combinations) raise before any result is produced.',
 ['configurations'], 'all option values',
 'Tests use valid option values only.',
 [F+'model/aper_model.py', F+'model/kin_functions.py', F+'general/galaxy_utils.py', F+'instrument.py', F+'model/kin_model.py', F+'fit/fit2D.py'],
 [('dispatch on option strings', 'if/elif chains over option values')])
prop('C18', 'Line tables are complete, consistent and shipped',
 'Every line set named in the catalogue has rest wavelengths and flux ratios of matching length for every line in it, rest wavelengths lie inside the set\'s fitting range and the mask range lies inside the full range, and flux ratios are positive with the brightest line equal to one. The readers parse exactly the columns the tables hold, return the rows for the requested name only, and the tables ship with the package.',
 ['inputs', 'configurations'], 'all line names and table rows',
 'Tests read one line set.',
 [F+'general/io.py', F+'lib/line_names_cat.dat', F+'lib/line_wavelengths_ratios.dat', F+'lib/full_range_restwave_2D.param', F+'lib/mask_lines_range_restwave_2D.param'],
 [('readers', 'general.io.read_*'), ('tables', 'misfit/lib')])
prop('C19', '1D fits: parameter layout and uncertainties are consistent',
 'In the 1D line fit, each position of the parameter vector and of the Monte-Carlo result matrix holds the same quantity where it is initialised, bounded, fitted, perturbed and reported. Reported lower and upper errors are the distances from the best value to the matching percentiles, and the instrumental width is subtracted in quadrature using the instrument\'s own resolution.',
 ['inputs', 'configurations'], 'all line sets, spectra and error realisations',
 'No test runs the 1D fit.',
 [F+'fit/fit1D.py', F+'model/emission_lines_model.py'],
 [('fit', 'fit1D.FitEmissionLines1D.fit'), ('Monte Carlo', 'fit1D error simulation'), ('model', 'emission_lines_model')])
prop('C20', 'Aperture corrections compare like with like',
 'The numerator (in-aperture) and denominator (reference-radius) of every dispersion aperture correction use the same structural inputs: light profile, effective radii, dispersion-profile slope and core radius. Each numerator is a light-weighted mean with the same weight in the weighted sum and in its normalisation, and the aligned/misaligned and optimal/boxcar variants differ only in their documented geometry and weighting.',
 ['inputs', 'configurations'], 'all galaxies, apertures, slopes and extraction methods',
 'Tests pin numbers for default slopes and one extraction configuration.',
 [F+'model/kin_functions.py', F+'model/aper_model.py'],
 [('aperture dispersion', 'kin_functions.sigma_aper_dispersion*'), ('reference dispersion', 'kin_functions.sigma_e_dispersion')])
prop('C21', 'No public operation can fail on a missing name or stale dependency',
 'On every path through the package, each name used is defined before use, each attribute read on the package\'s own objects is defined by their class, and each function taken from a dependency exists in the supported version with the arguments passed. Local values are assigned on every path that reads them.',
 ['inputs', 'configurations'], 'all paths through all modules',
 'Tests execute a small fraction of the branches.',
 [F+'fit/fit1D.py', F+'fit/fit_core.py', F+'general/galaxy_utils.py', F+'general/general_utils.py', F+'model/aper_model.py', F+'plot/plot_bestfit.py'],
 [('name and attribute definitions', 'all modules')])
prop('C22', 'Saved results restore to the same state',
 'Whatever a fit writes (sampler chains, best-fit model, Monte-Carlo matrix) is restored by its reload counterpart from the same file setting, in the same binary format, under the same field names, with files closed after use. Nothing is written when no file name is set.',
 ['histories', 'crash_points'], 'all save/reload sequences and file-name settings',
 'No stable test saves and reloads a fit.',
 [F+'fit/fit_io.py', F+'fit/fit2D.py', F+'fit/fit1D.py'],
 [('pickle helpers', 'fit_io.dumppickle / loadpickle'), ('best-fit model', 'fit2D save_bestfit_model / reload_bestfit_model')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
