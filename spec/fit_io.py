"""Reference behaviour of the sampler and model files."""
import copy
import pickle
import numpy as np


def spec(*a, **k):
    return lambda f: f


@spec('fit.fit_io.make_emcee_sampler_dict', 'C08 C22 C07 C05 C21 C09', obs=['return', 'heap'], keep_copies=True)
def sampler_dict(sampler, fitEmis2D=None, nBurn=0):
    try:
        nDim = sampler.ndim
    except:
        nDim = sampler.dim
    samples = sampler.chain[:, nBurn:, :].reshape((-1, nDim))
    probs = sampler.lnprobability[:, nBurn:].reshape((-1))
    try:
        ff = sampler.args[0].copy()
    except:
        ff = sampler.log_prob_fn.args[0].copy()
    am = ff.kinModel.aperModel
    ff.galaxy = copy.deepcopy(am.galaxy)
    ff.instrument = copy.deepcopy(am.instrument)
    ff.intensityProfile = copy.deepcopy(am.intensityProfile)
    ff.kinProfile = copy.deepcopy(am.kinProfile)
    ff.mcmcOptions = copy.deepcopy(fitEmis2D.mcmcOptions)
    ff.kinModelOptions = copy.deepcopy(fitEmis2D.kinModelOptions)
    ff.thetaSettings = copy.deepcopy(fitEmis2D.thetaSettings)
    del ff.kinModel.aperModel
    try:
        acor = sampler.get_autocorr_time(tol=10, quiet=True)
    except:
        try:
            acor = sampler.get_autocorr_time(low=5, c=10)
        except:
            acor = np.nan
    try:
        nDim = sampler.ndim
    except:
        nDim = sampler.dim
    try:
        nWalkers = sampler.nwalkers
    except:
        nWalkers = len(sampler.chain)
    try:
        nCPUs = sampler.threads
    except:
        try:
            nCPUs = sampler.pool._processes
        except:
            nCPUs = 1
    try:
        nIter = sampler.iteration
    except:
        nIter = sampler.iterations
    return {'fitEmis2D': ff, 'chain': sampler.chain[:, nBurn:, :], 'lnprobability': sampler.lnprobability[:, nBurn:],
            'flatchain': samples, 'flatlnprobability': probs, 'nIter': nIter, 'nParam': nDim, 'nCPU': nCPUs,
            'nWalkers': nWalkers, 'acceptance_fraction': sampler.acceptance_fraction, 'acor_time': acor}


@spec('fit.fit_io.loadpickle', 'C22 C21', obs=['return', 'call:open'])
def load(filename):
    with open(filename, "rb") as f:
        return pickle.load(f)


@spec('fit.fit_io.dumppickle', 'C22 C21', obs=['call:open', 'call:pickle.dump'])
def dump(data, filename=None):
    with open(filename, "wb") as f:
        pickle.dump(data, f)
