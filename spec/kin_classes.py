"""Reference equations: kinematic / light profiles, parameter settings, flat prior."""
import numpy as np


def spec(*a, **k):
    return lambda f: f


# ------------------------------------------------------------------ profile laws
@spec('model.kin_classes.VelArctanProfile.vel', 'C16 C01')
def vel_arctan(self, r, z):
    return (2. / np.pi) * self.theta[0] * np.arctan(r / self.theta[1])


@spec('model.kin_classes.DispConstProfile.sigma', 'C16 C01')
def sigma_const(self, r, z):
    return 0. * r + self.theta[0]


@spec('model.kin_classes.VelProfile.vel', 'C16')
def vel_none(self, r, z):
    return 0. * r


@spec('model.kin_classes.DispProfile.sigma', 'C16')
def sigma_none(self, r, z):
    return 0. * r


@spec('model.kin_classes.KinProfile.vel', 'C16 C01')
def kin_vel(self, r, z):
    return self.velProfile.vel(r, z)


@spec('model.kin_classes.KinProfile.sigma', 'C16 C01')
def kin_sigma(self, r, z):
    return self.dispProfile.sigma(r, z)


@spec('model.kin_classes.IntensityProfile.int', 'C16')
def light(self, r_perp, z):
    return self.intProfile_r.int(r_perp) * self.intProfile_z.int(z)


@spec('model.kin_classes.IntensityProfile.update_values', 'C16 C05 C04', obs=['state'])
def light_update(self, galaxy):
    self.intProfile_r.update_values(galaxy)
    self.intProfile_z.update_values(galaxy)


@spec('model.kin_classes.IntProfileSersic.int', 'C16')
def sersic(self, r):
    bn = 2. * self.n - 0.324
    return self.Ie * np.exp(-bn * ((r / self.re_arcsec) ** (1. / self.n) - 1.))


@spec('model.kin_classes.IntProfileExpZ.int', 'C16')
def expz(self, z):
    return np.exp(-np.abs(z) / self.z0)


@spec('model.kin_classes.IntProfileExpZScale.int', 'C16')
def expzscale(self, z):
    return np.exp(-np.abs(z) / self.z0)


@spec('model.kin_classes.IntProfileCompBase.get_gal_params', 'C16 C04 C05')
def gal_params(self, galaxy):
    self.n = galaxy.n
    self.re_arcsec = galaxy.re_arcsec
    self.q0 = galaxy.q0


@spec('model.kin_classes.IntProfileCompBase.update_values', 'C16 C04 C05', inline=['get_gal_params'])
def base_update(self, galaxy):
    self.n = galaxy.n
    self.re_arcsec = galaxy.re_arcsec
    self.q0 = galaxy.q0


@spec('model.kin_classes.IntProfileExpZ.update_values', 'C16 C04 C05', inline=['get_gal_params'])
def expz_update(self, galaxy):
    self.n = galaxy.n
    self.re_arcsec = galaxy.re_arcsec
    self.q0 = galaxy.q0
    self.z0 = galaxy.q0 * galaxy.re_arcsec


@spec('model.kin_classes.IntProfileExpZScale.update_values', 'C16 C04 C05', inline=['get_gal_params'])
def expzscale_update(self, galaxy):
    self.n = galaxy.n
    self.re_arcsec = galaxy.re_arcsec
    self.q0 = galaxy.q0
    self.z0 = galaxy.q0 * galaxy.re_arcsec / 1.676


# ------------------------------------------------------------------ parameter slices
@spec('model.kin_classes.KinProfile.update_theta', 'C01 C16 C04 C05', obs=['self.theta', 'self.velProfile.theta', 'self.dispProfile.theta'])
def kin_update_theta(self, theta):
    self.theta = theta
    if self.velProfile is not None:
        self.velProfile.theta = theta[:self.velProfile.n_params]
    if self.dispProfile is not None:
        nv = self.velProfile.n_params
        self.dispProfile.theta = theta[nv:nv + self.dispProfile.n_params]


@spec('model.kin_classes.KinProfile.setup_profiles', 'C01 C05 C16', obs=['self.velProfile.n_params', 'self.dispProfile.n_params'])
def kin_setup_profiles(self):
    if self.velProfile is not None:
        self.velProfile.n_params = len(self.velProfile.theta)
    if self.dispProfile is not None:
        self.dispProfile.n_params = len(self.dispProfile.theta)


# ------------------------------------------------------------------ prior
@spec('model.kin_classes.ThetaPriorFlat.log_prior', 'C01 C02 C07', nan_strict=True,
      same_len=[['self.theta', 'self.theta_vary', 'self.theta_bounds']])
def log_prior(self, theta_fitting=None):
    free = 0
    inside = True
    for i in range(len(self.theta)):
        if self.theta_vary[i]:
            lo, hi = self.theta_bounds[i][0], self.theta_bounds[i][1]
            inside = inside and (lo <= theta_fitting[free]) and (theta_fitting[free] <= hi)
            free += 1
    return 0. if inside else -np.inf


@spec('model.kin_classes.ThetaPriorFlat.__init__', 'C01 C02 C06 C05')
def prior_init(self, theta=None, theta_vary=None, theta_bounds=None, **kwargs):
    self.name = 'ThetaPriorFlat'
    self.theta = theta
    self.theta_vary = theta_vary
    self.theta_bounds = theta_bounds
