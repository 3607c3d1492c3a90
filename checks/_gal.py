"""Published relations of the built-in galaxy models, written out independently of the code."""
import numpy as np
from vsx import sym
from vsx.spec import obj

F32 = 3e-5          # some published tables are kept in single precision


def ten(ctx, x):
    return 10 ** x if not isinstance(x, sym.Sym) else sym.power(10.0, x)


def lg(ctx, x):
    return ctx.np.log10(x)


CO_NU = [115.27120180, 230.538, 345.7959899, 461.0407682, 576.2679305, 691.4730763, 806.651806, 921.7997, 1036.912393, 1151.985452, 1267.014486, 1381.995105, 1496.922909]

DELOOZE = {('[CII]', None): (1.01, -6.99, .42), ('[CII]', 'DGS'): (.84, -5.29, .40), ('[CII]', 'dwarfs'): (.80, -5.73, .37), ('[CII]', 'starbursts'): (1.00, -7.06, .27),
           ('[CII]', 'comp/AGN'): (.90, -6.09, .37), ('[CII]', 'high z'): (1.18, -8.52, .40),
           ('[OI]', None): (1.00, -6.79, .42), ('[OI]', 'DGS'): (.94, -6.37, .25), ('[OI]', 'dwarfs'): (.91, -6.23, .27), ('[OI]', 'starbursts'): (.89, -6.05, .20), ('[OI]', 'comp/AGN'): (.76, -5.08, .35),
           ('[OIII]', None): (1.12, -7.48, .66), ('[OIII]', 'DGS'): (.92, -6.71, .30), ('[OIII]', 'dwarfs'): (.92, -6.71, .30), ('[OIII]', 'starbursts'): (.69, -3.89, .23), ('[OIII]', 'comp/AGN'): (.87, -5.46, .35)}

UZGIL = {'[CII]': (.89, 2.44), '[NII]': (1.01, 3.54), '[OI]': (.98, 2.70), '[OIII]88um': (.98, 2.86), '[OIII]52um': (.88, 2.54), '[SiII]': (1.04, 3.15), '[SIII]33um': (.99, 3.21), '[SIII]19um': (.97, 3.47),
         '[NeII]': (.99, 3.26), '[NeIII]': (1.10, 3.72)}
SPINOGLIO = {'[CII]': (.89, 2.67), '[NII]': (1.01, 3.80), '[OI]': (.98, 2.95), '[OIII]88um': (.98, 3.11), '[OIII]52um': (.88, 2.76), '[SiII]': (1.04, 3.42), '[SIII]33um': (.99, 3.46), '[SIII]19um': (.97, 3.72),
             '[NeII]': (.99, 2.94), '[NeIII]': (1.10, 4.00)}
SCHAERER = {'ALPINE-uvir': (1.00, 7.00), 'ALPINE-sed': (.84, 7.09), 'ALPINE-uvirx': (1.17, 6.61), 'high z-uvirx': (1.28, 6.43)}

KAM = dict(all=([1.27, 1.11, 1.18, 1.09, 1.05, 1.04, 0.98, 1.00, 1.03, 1.01, 1.06, 0.99, 1.12], [-1.0, 0.6, 0.1, 1.2, 1.8, 2.2, 2.9, 3.0, 2.9, 3.2, 3.1, 3.7, 2.9]),
           ulirg=([1.15, 0.66, 0.94, 0.68, 0.96, 1.02, 0.92, 0.91, 0.92, 0.83, 0.86, 0.79, 0.85], [0.2, 4.9, 2.3, 4.9, 2.7, 2.4, 3.5, 3.7, 3.8, 4.7, 4.7, 5.3, 5.0]),
           rest=([1.05, 1.12, 1.05, 1.09, 1.01, 1.01, 1.00, 1.07, 1.06, 1.12, 1.10, 1.03, 1.23], [0.8, 0.4, 0.9, 1.2, 2.1, 2.3, 2.8, 2.5, 2.7, 2.5, 2.7, 3.4, 2.2]))

LSUN = 3.828e26


def delooze14(ctx, sfr, line='[CII]', set=None):
    m, b, _ = DELOOZE[line, set]
    return ten(ctx, (lg(ctx, sfr) - b) / m)


def cgs41(ctx, sfr, d_mf, A, B):
    """fits of 10^41 erg/s against 10^41 erg/s"""
    u = LSUN * 1e-34
    return ten(ctx, A * lg(ctx, sfr / d_mf * 1e10 * u) - B) / u


def uzgil14(ctx, sfr, line='[CII]', d_mf=1.0):
    return cgs41(ctx, sfr, d_mf, *UZGIL[line])


def spinoglio12(ctx, sfr, line='[CII]', d_mf=1.0):
    return cgs41(ctx, sfr, d_mf, *SPINOGLIO[line])


def schaerer20(ctx, sfr, set='ALPINE-uvirx'):
    m, b = SCHAERER[set or 'ALPINE-uvirx']
    return ten(ctx, m * lg(ctx, sfr) + b)


def zhao13(ctx, sfr, d_mf=1.0):
    return ten(ctx, (lg(ctx, sfr * 1e10 / d_mf) - 4.51) / 0.95)


def padmanabhan19(ctx, mass, redshift, m1=2.39e-5, b=0.49, n1=4.19e11, a=1.79):
    g = sym_pow(ctx, 1 + redshift, 2.7) / (1 + sym_pow(ctx, (1 + redshift) / 2.9, 5.6))
    return sym_pow(ctx, mass / m1, b) * ctx.np.exp(-n1 / mass) * sym_pow(ctx, g, a)


def sym_pow(ctx, x, p):
    return x ** p if not isinstance(x, sym.Sym) and not isinstance(p, sym.Sym) else sym.power(x, p)


def li16(ctx, sfr, d_mf=1.0, a=1.37, b=-1.74, nu_rest=CO_NU[0] * 1e9):
    r = nu_rest / (CO_NU[0] * 1e9)
    return 4.9e-5 * r * r * r * ten(ctx, (lg(ctx, sfr / d_mf * 1e10) - b) / a)


def hcn_gao(ctx, sfr, d_mf=1.0, a=1.0, b=2.9, nu_rest=88.63e9):
    r = nu_rest / 88.63e9
    return 2.2e-5 * r * r * r * ten(ctx, (lg(ctx, sfr / d_mf * 1e10) - b) / a)


def keating16(ctx, mass, m_min=1e10, A=6.3e-7):
    return 0.0 if mass < m_min else A * mass


def lidz11(ctx, mass):
    return 2.8e3 * (mass / 1e8)


def pullen13(ctx, mass):
    return 1e6 * (mass / 5e11)


def hcn_breysse(ctx, mass):
    return 1.7e-15 * sym_pow(ctx, mass, 1.67)


def kamenetzky16(ctx, sfr, j, d_mf=1.0, fircor=0.6, break_ulirgs=False):
    ir = sfr / d_mf * 1e10
    a, b = KAM['all' if not break_ulirgs else 'ulirg' if ir > 6e10 else 'rest']
    r = CO_NU[j - 1] / CO_NU[0]
    return 4.9e-5 * r ** 3 * ten(ctx, (lg(ctx, ir * fircor) - b[j - 1]) / a[j - 1])


# Yang et al. 2022: per line, per redshift interval
def _lin(a, b):
    return lambda c, z: a + b * z


def _quad(a, b, d):
    return lambda c, z: a + b * z + d * z * z


def _exp(a, b, d):
    return lambda c, z: a * c.np.exp(-z / b) + d


YCO = {}
for _i, _l in enumerate(['CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']):
    def _p(*v):
        return v[_i]
    YCO[_l] = dict(
        m1=(_lin(_p(12.13, 12.12, 12.1, 12.09, 12.12), _p(-0.1678, -0.1704, -0.171, -0.1662, -0.1796)),
            _lin(_p(11.75, 11.74, 11.74, 11.73, 11.73), _p(-0.06833, -0.07050, -0.07228, -0.07457, -0.07789)),
            _lin(_p(11.63, 11.63, 11.62, 11.6, 11.58), _p(-0.04943, -0.05266, -0.0550, -0.0529, -0.05359))),
        n=(_quad(_p(-6.855, -5.95, -5.53, -5.35, -5.37), _p(0.2366, 0.278, 0.329, 0.404, 0.515), _p(-0.05013, -0.0521, -0.0570, -0.0657, -0.0802)),
           _quad(_p(-6.554, -5.57, -5.06, -4.784, -3.81), _p(-0.03725, -0.0250, -0.0150, 0, -0.359), _p(0, 0, 0, 0, 0.0419)),
           _lin(_p(-6.274, -5.26, -4.72, -4.40, -4.21), _p(-0.09087, -0.0849, -0.0808, -0.0744, -0.0674))),
        a=(_quad(_p(1.642, 1.69, 1.843, 2.24, 2.14), _p(0.1663, 0.126, 0.08405, -0.0891, 0.110), _p(-0.03238, -0.0280, -0.02485, 0, -0.0371)),
           _quad(_p(3.73, 4.557, 5.253, 5.74, 6.12), _p(-0.833, -1.215, -1.502, -1.67, -1.77), _p(0.0884, 0.1300, 0.1609, 0.178, 0.188)),
           _quad(_p(2.56, 2.47, 2.53, 2.59, 2.87), _p(-0.223, -0.210, -0.220, -0.206, -0.257), _p(0.0142, 0.0132, 0.0139, 0.0120, 0.0157))),
        b=(_exp(_p(1.77, 1.80, 1.88, 2.017, 2.39), _p(2.72, 2.76, 2.74, 2.870, 2.55), _p(-0.0827, -0.0678, -0.0623, -0.1127, -0.0890)),
           _lin(_p(0.598, 0.657, 0.707, 0.762, 0.846), _p(-0.0710, -0.0794, -0.0879, -0.0984, -0.115)),
           _exp(_p(33.4, 38.3, 31.5, 41.6, 21.8), _p(0.846, 0.841, 0.879, 0.843, 0.957), _p(0.160, 0.169, 0.170, 0.172, 0.168))),
        sig=_quad(_p(0.357, 0.36, 0.40, 0.42, 0.44), _p(-0.0701, -0.072, -0.083, -0.091, -0.085), _p(0.00621, 0.0064, 0.0070, 0.0079, 0.0063)))
for _i, _l in enumerate(['CI1-0', 'CI2-1']):
    def _p(*v):
        return v[_i]
    YCO[_l] = dict(
        m1=(_exp(_p(1.026, 1.135), _p(2.346, 2.616), _p(11.20, 11.13)), _quad(_p(8.54, 8.823), _p(1.33, 1.206), _p(-0.157, -0.1445)), _exp(_p(4.294, 4.37), _p(2.479, 2.38), _p(10.68, 10.7))),
        n=(_exp(_p(-1.451, -2.03), _p(1.893, 1.80), _p(-5.046, -4.44)), _quad(_p(-6.96, -4.906), _p(0.750, 0.05632), _p(-0.0807, 0)), _exp(_p(1.89, 1.48), _p(5.73, 6.14), _p(-6.03, -5.31))),
        a=(_exp(_p(-0.741, -1.16), _p(0.739, 0.706), _p(1.86, 2.00)), _quad(_p(8.42, 9.275), _p(-2.91, -3.225), _p(0.320, 0.3543)), _lin(_p(1.04, 1.17), _p(0.165, 0.169))),
        b=(_lin(_p(1.26, 1.54), _p(-0.198, -0.259)), _lin(_p(0.837, 0.94), _p(-0.103, -0.12)), _exp(_p(2090, 3960), _p(0.520, 0.487), _p(0.204, 0.221))),
        sig=_quad(_p(0.39, 0.46), _p(-0.076, -0.096), _p(0.0063, 0.0079)))
YCO['CII'] = dict(
    m1=(lambda c, z: 12.11 * sym_pow(c, z, -0.04105) if z > 0 else 12.11, _quad(8.69, 1.26, -0.143), _lin(11.92, -0.1068)),
    n=(_exp(-0.907, 0.867, -3.04), _quad(-5.467, 1.056, -0.1133), _lin(-2.37, -0.130)),
    a=(_quad(1.35, 0.450, -0.0805), _quad(6.135, -1.786, 0.1837), _quad(2.82, -0.298, 0.0196)),
    b=(_exp(2.57, 1.55, 0.0575), _lin(0.443, -0.0521), _exp(1760, 0.520, 0.0782)),
    sig=_exp(0.32, 1.5, 0.18))


def yang22(ctx, mass, redshift, line='CII'):
    """(mean luminosity, scatter in dex, fraction that is on)"""
    T = YCO[line]
    i = 0 if redshift < 4 else 1 if redshift < 5 else 2
    m1, n, a, b = (T[k][i](ctx, redshift) for k in ('m1', 'n', 'a', 'b'))
    x = mass / ten(ctx, m1)
    L = 2 * ten(ctx, n) * mass / (sym_pow(ctx, x, -a) + sym_pow(ctx, x, b))
    f = 1.0
    if i == 0:
        g = 1.37 - 0.190 * redshift + 0.0215 * redshift * redshift
        f = 1 / (1 + sym_pow(ctx, mass / ten(ctx, 11.73 + 0.6634 * redshift), g))
    return L, T['sig'](ctx, redshift), f


def scattered(ctx, L, dex, draw, keep_mean):
    r = L * ten(ctx, dex * draw)
    return r / ten(ctx, dex * dex * (np.log(10) / 2)) if keep_mean else r
