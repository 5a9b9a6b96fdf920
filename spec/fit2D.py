"""Reference behaviour of the 2D fit object."""
import copy
import os
import pickle
import numpy as np
import misfit.general.io as io
import misfit.plot as misfit_plot
from misfit.fit import fit_core, fit_io
from misfit.fit.fit_core import MCMC2DOptions, MCMCResults, FitEmissionLines2DResults
from misfit.model import KinModel2D, KinModel2DOptions
from misfit.model.kin_classes import KinProfileFiducial, IntensityProfileFiducial, ThetaPriorFlat


def spec(*a, **k):
    return lambda f: f


@spec('fit.fit2D.FitEmissionLines2D.setup', 'C06 C18 C14 C21 C05 C10',
      obs=['self.linenames_arr', 'self.restwave_arr', 'self.flux_ratio_arr', 'self.galaxy.spec2D.linenames_arr',
           'self.galaxy.spec2D.restwave_arr', 'self.galaxy.spec2D.flux_ratio_arr', 'call:fit_prep_calcs'])
def setup(self):
    s = self.galaxy.spec2D
    d = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'lib')
    wf = os.path.join(d, 'line_wavelengths_ratios.dat')
    if self.linenames_arr is None:
        if s.linenames_arr is None:
            self.linenames_arr = io.read_line_names(os.path.join(d, 'line_names_cat.dat'), name=self.linegroup_name)
            s.linenames_arr = self.linenames_arr
        else:
            self.linenames_arr = s.linenames_arr
    if (self.linenames_arr is not None) & (self.restwave_arr is None):
        if (s.linenames_arr is not None) & (s.restwave_arr is None):
            w = []
            for linename in self.linenames_arr:
                w.append(io.read_restwave(wf, linename=linename))
            self.restwave_arr = np.array(w)
            s.restwave_arr = self.restwave_arr
        else:
            self.restwave_arr = s.restwave_arr
    if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):
        if (s.linenames_arr is not None) & (s.flux_ratio_arr is None):
            r = []
            for linename in self.linenames_arr:
                r.append(io.read_line_ratio(wf, linename=linename))
            self.flux_ratio_arr = np.array(r)
            s.flux_ratio_arr = self.flux_ratio_arr
        else:
            self.flux_ratio_arr = s.flux_ratio_arr
    if not self.skip_fit_prep_calcs:
        s.fit_prep_calcs(self.galaxy, self.instrument)


@spec('fit.fit2D.FitEmissionLines2D.fit', 'C06 C08 C17 C22 C02',
     
      obs=['raises', 'call:settings', 'call:setup_model', 'call:run_mcmc', 'call:analyze_results', 'call:save_bestfit_model', 'call:plot_results',
           'order:settings,setup_model,run_mcmc,analyze_results,save_bestfit_model,plot_results'])
def fit(self, **kwargs):
    self.setAttr(**kwargs)
    if self.instrument.instrument_resolution < 0.:
        raise ValueError
    self.setup_model()
    self.run_mcmc()
    self.analyze_results()
    self.save_bestfit_model()
    self.plot_results()


@spec('fit.fit2D.FitEmissionLines2D.reload_results', 'C06 C22 C05',
      obs=['call:settings', 'order:settings,setup_model,analyze_results', 'call:setup_model', 'call:analyze_results', 'call:save_bestfit_model', 'call:plot_results'])
def reload(self, doPlot=False, resave_bestfit=False, **kwargs):
    self.setAttr(**kwargs)
    if self.kinModel is None:
        self.setup_model()
    self.analyze_results()
    if resave_bestfit:
        self.save_bestfit_model()
    if doPlot:
        self.plot_results()


@spec('fit.fit2D.FitEmissionLines2D.analyze_results', 'C09 C22 C08', obs=['call:reload_sampler', 'call:get_chain_results', 'call:set_bestfit',
                                                                                    'order:reload_sampler,get_chain_results,set_bestfit'],
      opaque_also=['fit.fit2D.FitEmissionLines2D.reload_sampler', 'fit.fit2D.FitEmissionLines2D.get_chain_results',
                   'fit.fit2D.FitEmissionLines2D.set_bestfit', 'fit.fit_core.get_chain_results'])
def analyze(self):
    if self.sampler_dict is None:
        self.reload_sampler()
    self.get_chain_results()
    self.set_bestfit(self.mcmc_results.bestfit_theta_fitting)


@spec('fit.fit2D.FitEmissionLines2D.plot_results', 'C08 C22 C06', obs=['call:plot_param_corner', 'call:plot_bestfit_model'])
def plots(self):
    self.plot_param_corner()
    self.plot_bestfit_model()


@spec('fit.fit2D.FitEmissionLines2D.make_model', 'C01 C06 C04 C17', obs=['call:make_model'])
def make_model(self, theta_fitting=None):
    self.kinModel.make_model(galaxy=self.galaxy, instrument=self.instrument, theta_fitting=theta_fitting)


@spec('fit.fit2D.FitEmissionLines2D.update_model', 'C01 C04 C17', obs=['call:update_model'])
def update_model(self, theta_fitting=None):
    self.kinModel.update_model(theta_fitting=theta_fitting)


@spec('fit.fit2D.FitEmissionLines2D.setup_model', 'C01 C05 C06 C02 C09 C04', keep_copies=True,
      obs=['self.kinModel', 'self.thetaPrior', 'self.theta_linked_posteriors', 'self.thetaPrior.theta', 'self.thetaPrior.theta_vary',
           'self.thetaPrior.theta_bounds', 'call:make_model'])
def setup_model(self):
    self.kinModel = KinModel2D(self.galaxy, thetaSettings=copy.deepcopy(self.thetaSettings), kinProfile=self.kinProfile,
                               intensityProfile=self.intensityProfile, kinModelOptions=self.kinModelOptions)
    if self.thetaPrior is None:
        self.thetaPrior = ThetaPriorFlat(theta=copy.deepcopy(self.kinModel.theta),
                                         theta_vary=copy.deepcopy(self.kinModel.theta_vary),
                                         theta_bounds=copy.deepcopy(self.thetaSettings.theta_bounds))
    if (self.thetaPrior.name == 'ThetaPriorFlat') & (self.thetaSettings.theta_bounds is not None):
        self.thetaPrior.theta = copy.deepcopy(self.kinModel.theta)
        self.thetaPrior.theta_vary = copy.deepcopy(self.kinModel.theta_vary)
        self.thetaPrior.theta_bounds = copy.deepcopy(self.thetaSettings.theta_bounds)
    t0 = fit_core.initialize_fitting_theta(self.kinModel.theta_init, self.kinModel.theta_vary)
    self.theta_linked_posteriors = self.thetaSettings.theta_linked_posteriors
    self.make_model(theta_fitting=t0)


@spec('fit.fit2D.FitEmissionLines2D.run_mcmc', 'C08 C06 C22', obs=['call:fit_core.run_mcmc'])
def run_mcmc(self):
    fit_core.run_mcmc(self)


@spec('fit.fit2D.FitEmissionLines2D.get_chain_results', 'C09 C01 C22', obs=['call:fit_core.get_chain_results'])
def get_chain(self):
    fit_core.get_chain_results(self)


@spec('fit.fit2D.FitEmissionLines2D.set_bestfit', 'C01 C04 C09 C22 C05', keep_copies=True, obs=['call:make_model', 'self.kinModel.bestfit'])
def set_bestfit(self, theta_fitting):
    self.make_model(theta_fitting)
    self.kinModel.bestfit = self.kinModel.copy()


@spec('fit.fit2D.FitEmissionLines2D.save_bestfit_model', 'C22 C05 C07', obs=['call:open', 'call:pickle.dump'])
def save_best(self):
    res = self.make_pruned_fitEmis2D_result_class()
    if self.mcmcOptions.filename_bestfit_model is not None:
        with open(self.mcmcOptions.filename_bestfit_model, "wb") as f:
            pickle.dump(res, f)


@spec('fit.fit2D.FitEmissionLines2D.reload_sampler', 'C22 C06', obs=['self.sampler_dict', 'call:fit_io.loadpickle'])
def reload_sampler(self):
    if self.mcmcOptions.filename_sampler is not None:
        self.sampler_dict = fit_io.loadpickle(self.mcmcOptions.filename_sampler)


@spec('fit.fit2D.FitEmissionLines2D.plot_bestfit_model', 'C06 C22', obs=['call:plot_bestfit_model'])
def plot_best(self):
    misfit_plot.plot_bestfit_model(self, fileout=self.mcmcOptions.filename_plot_bestfit, verbose=False, usetex=self.usetex)


@spec('fit.fit2D.FitEmissionLines2D.plot_param_corner', 'C06 C22', obs=['call:plot_param_corner'])
def plot_corner(self):
    misfit_plot.plot_param_corner(self, fileout=self.mcmcOptions.filename_plot_param_corner, verbose=False, usetex=self.usetex)


@spec('fit.fit2D.FitEmissionLines2D.make_pruned_fitEmis2D_result_class', 'C22 C07 C05', keep_copies=True, obs=['return', 'heap', 'attrstores'])
def results_class(self):
    img = None
    if self.instrument_img is not None:
        img = self.instrument_img.copy()
    out = FitEmissionLines2DResults(galaxy=self.galaxy.copy(), instrument=self.instrument.copy(), instrument_img=img)
    for key in out.__dict__.keys():
        out.__dict__[key] = copy.deepcopy(self.__dict__[key])
    del out.galaxy.pstamp
    if 'spec_hdr' in out.galaxy.spec2D.__dict__.keys():
        del out.galaxy.spec2D.spec_hdr
    return out


@spec('fit.fit2D.FitEmissionLines2D.reload_bestfit_model', 'C22', obs=['self', 'call:open', 'call:pickle.load', 'attrstores'])
def reload_best(self):
    if self.mcmcOptions.filename_bestfit_model is not None:
        with open(self.mcmcOptions.filename_bestfit_model, "rb") as f:
            res = pickle.load(f)
        for k in res.__dict__.keys():
            self.__dict__[k] = res.__dict__[k]
