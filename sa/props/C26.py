from ..check import Obl

DRIVER = '''
import sympy
from symfit.distributions import Gaussian, BivariateGaussian, Exp


def gauss(x, mu, sig):
    return sympy.exp(-((x - mu) / sig)**2 / 2) / (sig * sympy.sqrt(2 * sympy.pi))


def gaussian_got():
    x, mu, sig = spec_var('x'), spec_par('mu'), spec_par('sig')
    return Gaussian(x, mu, sig)


def gaussian_want():
    x, mu, sig = spec_var('x'), spec_par('mu'), spec_par('sig')
    return sympy.exp(-(x - mu)**2 / (2 * sig**2)) / sympy.sqrt(2 * sympy.pi * sig**2)


def names():
    return (spec_var('x'), spec_var('y'), spec_par('mu_x'), spec_par('mu_y'),
            spec_par('sig_x'), spec_par('sig_y'), spec_par('rho'))


def bivariate_got():
    return BivariateGaussian(*names())


def bivariate_kw_got():
    x, y, a, b, c, d, r = names()
    return BivariateGaussian(rho=r, sig_y=d, sig_x=c, mu_y=b, mu_x=a, y=y, x=x)


def bivariate_want():
    x, y, mu_x, mu_y, sig_x, sig_y, rho = names()
    z = (x - mu_x)**2 / sig_x**2 + (y - mu_y)**2 / sig_y**2 - \\
        2 * rho * (x - mu_x) * (y - mu_y) / (sig_x * sig_y)
    return sympy.exp(-z / (2 * (1 - rho**2))) / (
        2 * sympy.pi * sig_x * sig_y * sympy.sqrt(1 - rho**2))


def exponential_got():
    return Exp(spec_var('x'), spec_par('l'))


def exponential_want():
    x, l = spec_var('x'), spec_par('l')
    return l * sympy.exp(-x * l)
'''

M = 'symfit.distributions.'
KW = dict(raises=True)
OBLIGATIONS = [
    Obl('Gaussian', 'gaussian_got', 'gaussian_want', 'is the normal density', M + 'Gaussian', **KW),
    Obl('bivariate Gaussian', 'bivariate_got', 'bivariate_want', 'is the normal density',
        M + 'BivariateGaussian', **KW),
    Obl('bivariate Gaussian by name', 'bivariate_kw_got', 'bivariate_want',
        'is the normal density', M + 'BivariateGaussian', **KW),
    Obl('exponential', 'exponential_got', 'exponential_want', 'is the exponential density',
        M + 'Exp', **KW),
]
