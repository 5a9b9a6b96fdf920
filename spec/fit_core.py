"""Reference behaviour of the MCMC driver."""
import copy
import numpy as np
import emcee
import psutil
from multiprocessing import Pool
import misfit.general.general_utils as utils
import misfit.plot as misfit_plot
from misfit import GalaxyBasic, ObsSpectrum2DBasic
from misfit.model import KinModel2D
from misfit.fit import fit_io
from misfit.fit.fit_core import (lnprob, lnlike, initialize_fitting_theta, make_pruned_fitEmis2D_class, init_walker_pos,
                                 add_v_re_22, get_param_posterior_bestfits, FitEmissionLines2DBasic,
                                 _run_mcmc_emcee_3, _run_mcmc_emcee_221)


def spec(*a, **k):
    return lambda f: f


@spec('fit.fit_core.FitEmissionLines2DBasic.update_model', 'C02 C07', obs=['call:update_model'])
def basic_update(self, theta_fitting=None):
    self.kinModel.update_model(theta_fitting=theta_fitting)


@spec('fit.fit_core.FitEmissionLines2DBasic.make_model', 'C07', obs=['call:make_model'])
def basic_make(self, galaxy=None, instrument=None, theta_fitting=None):
    self.kinModel.make_model(galaxy=galaxy, instrument=instrument, theta_fitting=theta_fitting)


@spec('fit.fit_core.initialize_fitting_theta', 'C01 C04 C05')
def init_fit_theta(theta, theta_vary):
    out = np.array([])
    for i in range(len(theta)):
        if theta_vary[i]:
            out = np.append(out, theta[i])
    return out


@spec('fit.fit_core.lnlike', 'C02 C07 C04 C03', obs=['return', 'call:update_model'])
def lnlike_ref(theta_fitting, fitEmis2D):
    fitEmis2D.update_model(theta_fitting=theta_fitting)
    return fitEmis2D.kinModel.model_llike()


@spec('fit.fit_core.lnprob', 'C02 C07', obs=['return', 'call:lnlike'], nan_strict=True, opaque_also=['fit.fit_core.lnlike'])
def lnprob_ref(theta_fitting, fitEmis2D):
    prior = fitEmis2D.thetaPrior.log_prior(theta_fitting=theta_fitting)
    if not np.isfinite(prior):
        return -np.inf
    total = prior + lnlike(theta_fitting, fitEmis2D)
    if not np.isfinite(total):
        return -np.inf
    return total


@spec('fit.fit_core.init_walker_pos', 'C01 C02 C08 C06')
def walkers(fitEmis2D, ndim=None, nwalkers=200):
    rng, low = utils.range_arrs(fitEmis2D)
    return [np.random.random_sample(ndim) * rng + low for i in range(nwalkers)]


@spec('fit.fit_core.get_chain_results', 'C09 C01 C08')
def chain_results(fitEmis2D):
    fitEmis2D = add_v_re_22(fitEmis2D)
    return get_param_posterior_bestfits(fitEmis2D)


@spec('fit.fit_core.add_v_re_22', 'C01 C09 C14 C05', obs=['return', 'raises', 'fitEmis2D.sampler_dict', 'fitEmis2D.mcmc_results.theta_names',
                                                  'fitEmis2D.mcmc_results.theta_names_nice', 'call:update_theta'])
def add_derived(fitEmis2D):
    km = fitEmis2D.kinModel
    sd = fitEmis2D.sampler_dict
    if fitEmis2D.kinModelOptions.absvalsigma:
        if km.kinProfile.dispProfile.n_params == 1:
            j = 0
            free = []
            for i in range(len(km.theta)):
                if km.theta_vary[i]:
                    free.append(j)
                    j += 1
                else:
                    free.append(None)
            ind = free[km.kinProfile.velProfile.n_params]
            if ind is not None:
                sd['flatchain'][:, ind] = np.abs(sd['flatchain'][:, ind])
                sd['chain'][:, :, ind] = np.abs(sd['chain'][:, :, ind])
        else:
            raise ValueError
    k = 0
    n = sd['flatchain'].shape[0]
    for i in range(len(km.theta)):
        if km.theta_vary[i]:
            row = np.array([sd['flatchain'].T[k]])
            if i > 0:
                theta_chain = np.append(theta_chain, row, axis=0)
            else:
                theta_chain = row
            k += 1
        else:
            row = np.array([np.repeat(km.theta[i], n)])
            if i > 0:
                theta_chain = np.append(theta_chain, row, axis=0)
            else:
                theta_chain = row
    fitEmis2D.kinProfile.update_theta(theta_chain)
    re = fitEmis2D.galaxy.re_mass_arcsec
    r22 = 2.2 / 1.676 * re
    chain = sd['flatchain'][:, :km.n_free_param]
    chain = np.append(chain.T, np.array([fitEmis2D.kinProfile.vel(re, 0.)]), axis=0).T
    chain = np.append(chain.T, np.array([fitEmis2D.kinProfile.vel(r22, 0.)]), axis=0).T
    chain = np.append(chain.T, np.array([fitEmis2D.kinProfile.sigma(re, 0.)]), axis=0).T
    chain = np.append(chain.T, np.array([fitEmis2D.kinProfile.sigma(r22, 0.)]), axis=0).T
    fitEmis2D.sampler_dict['flatchain'] = chain
    names, nice = [], []
    for i in range(len(km.theta_names)):
        if km.theta_vary[i]:
            names.append(km.theta_names[i])
            nice.append(km.theta_names_nice[i])
    names.append('V_RE')
    names.append('V_22')
    names.append('sigma_RE')
    names.append('sigma_22')
    if fitEmis2D.usetex:
        nice.append(r'$V(R_E)$')
        nice.append(r'$V_{2.2}$')
        nice.append(r'$\sigma(R_E)$')
        nice.append(r'$\sigma_{2.2}$')
    else:
        nice.append('VRE')
        nice.append('V22')
        nice.append('sigmaRE')
        nice.append('sigma22')
    fitEmis2D.mcmc_results.theta_names = names
    fitEmis2D.mcmc_results.theta_names_nice = nice
    return fitEmis2D


@spec('fit.fit_core.get_param_posterior_bestfits', 'C09 C01 C05',
      obs=['return', 'fitEmis2D.mcmc_results.bestfit_theta', 'fitEmis2D.mcmc_results.err_theta_1sig',
           'fitEmis2D.mcmc_results.err_theta_2sig', 'fitEmis2D.mcmc_results.percent_oppsign',
           'fitEmis2D.mcmc_results.bestfit_theta_fitting', 'call:get_bestfit_values_linked', 'call:find_peak_gaussian_KDE'])
def posterior(fitEmis2D):
    res = fitEmis2D.mcmc_results
    samples = fitEmis2D.sampler_dict['flatchain'].copy()
    lim1 = np.percentile(samples, [15.865, 84.135], axis=0)
    lim2 = np.percentile(samples, [2.275, 97.725], axis=0)
    guess = np.zeros(samples.shape[1])
    for i in range(samples.shape[1]):
        yb, xb = np.histogram(samples[:, i], bins=50)
        pk = np.where(yb == yb.max())[0][0]
        guess[i] = np.average([xb[pk], xb[pk + 1]])
        q50 = np.percentile(samples[:, i], 50.)
        if np.abs(guess[i] - q50) / (samples[:, i].max() - samples[:, i].min()) > 0.15:
            guess[i] = q50
    peak = utils.find_peak_gaussian_KDE(fitEmis2D.sampler_dict['flatchain'], guess)
    res.bestfit_theta = peak
    s1 = np.concatenate(([peak], lim1), axis=0)
    e1 = np.array(list(map(lambda v: (v[0] - v[1], v[2] - v[0]), list(zip(*s1)))))
    s2 = np.concatenate(([peak], lim2), axis=0)
    e2 = np.array(list(map(lambda v: (v[0] - v[1], v[2] - v[0]), list(zip(*s2)))))
    res.err_theta_1sig = e1
    res.err_theta_2sig = e2
    if fitEmis2D.theta_linked_posteriors is not None:
        z1 = list(zip(*lim1))
        z2 = list(zip(*lim2))
        for i in range(len(fitEmis2D.theta_linked_posteriors)):
            pk, e1 = utils.get_bestfit_values_linked(fitEmis2D, e1, z1,
                                                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i])
            res.bestfit_theta = pk
            res.err_theta_1sig = e1
            pk, e2 = utils.get_bestfit_values_linked(fitEmis2D, e2, z2,
                                                     theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i])
            res.err_theta_2sig = e2
    opp = np.sign(res.bestfit_theta) * fitEmis2D.sampler_dict['flatchain'].copy()
    pct = np.array([])
    for i in range(len(res.bestfit_theta)):
        pct = np.append(pct, len(np.where(opp[:, i] < 0.)[0]) / float(len(opp[:, i])) * 100.)
    res.percent_oppsign = pct
    res.bestfit_theta_fitting = res.bestfit_theta[:fitEmis2D.kinModel.n_free_param]
    return fitEmis2D


@spec('fit.fit_core.run_mcmc', 'C08 C21 C06 C22 C05 C01', obs=['return', 'call:_run_mcmc_emcee_3', 'call:_run_mcmc_emcee_221'],
      opaque_also=['fit.fit_core._run_mcmc_emcee_3', 'fit.fit_core._run_mcmc_emcee_221'])
def run(fitEmis2D, fitEmis2D_fit=None):
    if int(emcee.__version__[0]) >= 3:
        return _run_mcmc_emcee_3(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)
    else:
        return _run_mcmc_emcee_221(fitEmis2D, fitEmis2D_fit=fitEmis2D_fit)


@spec('fit.fit_core.make_pruned_fitEmis2D_class', 'C07 C05 C06 C03', keep_copies=True,
      obs=['return', 'call:KinModel2D', 'call:make_model', 'call:set_spectrum_2D', 'attrstores'], inline=['set_spectrum_2D'],
      opaque_also=['fit.fit_core.FitEmissionLines2DBasic.make_model'])
def pruned(fitEmis2D):
    galaxy = GalaxyBasic()
    s = ObsSpectrum2DBasic()
    s.flux_ratio_arr = None
    s.lam0 = None
    s.m0 = None
    s.wh_nosky = None
    s.restwave_arr = None
    s.wave = None
    s.fitting_weight_matrix = None
    del s.units_flux
    del s.units_wave
    del s.band
    del s.slit_PA
    galaxy.set_spectrum_2D(s)
    instrument = fitEmis2D.instrument.copy()
    del instrument.instrument_name
    del instrument.band
    fit = FitEmissionLines2DBasic()
    for key in galaxy.__dict__.keys():
        if key != 'spec2D':
            galaxy.__dict__[key] = copy.deepcopy(fitEmis2D.galaxy.__dict__[key])
    for key in galaxy.spec2D.__dict__.keys():
        galaxy.spec2D.__dict__[key] = copy.deepcopy(fitEmis2D.galaxy.spec2D.__dict__[key])
    fit.kinModelOptions = copy.deepcopy(fitEmis2D.kinModelOptions)
    fit.thetaPrior = copy.deepcopy(fitEmis2D.thetaPrior)
    fit.thetaSettings = copy.deepcopy(fitEmis2D.thetaSettings)
    fit.kinModel = KinModel2D(galaxy, thetaSettings=fit.thetaSettings, kinProfile=copy.deepcopy(fitEmis2D.kinProfile),
                              intensityProfile=copy.deepcopy(fitEmis2D.intensityProfile),
                              kinModelOptions=fit.kinModelOptions)
    t0 = initialize_fitting_theta(fit.kinModel.theta_init, fit.kinModel.theta_vary)
    fit.make_model(galaxy=galaxy, instrument=instrument, theta_fitting=t0)
    return fit
