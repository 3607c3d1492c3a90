"""A stand-in for astropy's cosmology and units, used in both modes.

The code under test treats the cosmology as a black box (monotonic functions of redshift),
so its functions are replaced by ones the solver can invert: comoving distance is concave and
piecewise linear in redshift, age is T0/(1+z).  Every cosmological parameter given changes the
result, so passing the wrong one is visible.
"""
import operator
import types


class Quantity:
    """a number with a unit (units themselves are not modelled: all are 1)"""
    __array_ufunc__ = None

    def __init__(self, v):
        self.value = v

    def to(self, *a, **k):
        return self

    def to_value(self, *a, **k):
        return self.value

    def __float__(self):
        return float(self.value)

    def __getitem__(self, i):
        return Quantity(self.value[i])

    def __len__(self):
        return len(self.value)

    def __neg__(self):
        return Quantity(-self.value)

    def __abs__(self):
        return Quantity(abs(self.value))

    def __bool__(self):
        return bool(self.value)

    __hash__ = None


def _bare(x):
    return x.value if isinstance(x, Quantity) else x


def _op(name, wrap):
    f = getattr(operator, name.strip('_'))

    def g(self, o):
        r = f(self.value, _bare(o))
        return Quantity(r) if wrap else r

    def h(self, o):
        return Quantity(f(_bare(o), self.value))
    setattr(Quantity, '__%s__' % name, g)
    if wrap:
        setattr(Quantity, '__r%s__' % name, h)


for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv'):
    _op(_n, True)
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _op(_n, False)


class Cosmo:
    """FlatLambdaCDM"""

    def __init__(self, H0, Om0, Tcmb0=0.0, Neff=3.04, m_nu=0.0, Ob0=None, np=None, **k):
        self._np = np
        self.h = H0 / 100
        self.Om0, self.Ob0, self.Tcmb0 = Om0, Ob0, Tcmb0
        self._c = 3000 / self.h * (1 - Om0 / 4 - (0 if Ob0 is None else Ob0) / 8 + (Tcmb0 - 2.7255) / 16)

    def __eq__(self, o):
        return isinstance(o, Cosmo) and (self.h, self.Om0, self.Ob0, self.Tcmb0) == (o.h, o.Om0, o.Ob0, o.Tcmb0)

    __hash__ = object.__hash__

    def D(self, z):
        z = _bare(z)
        m = self._np.minimum
        return self._c * m(m(z * 1.0, z / 2 + 0.25), z / 4 + 0.75)

    def Dinv(self, d):
        g = d / self._c
        m = self._np.maximum
        return m(m(g * 1.0, 2 * g - 0.5), 4 * g - 3)

    def comoving_distance(self, z):
        return Quantity(self.D(z))

    comoving_transverse_distance = comoving_distance

    def luminosity_distance(self, z):
        return Quantity(self.D(z) * (1 + _bare(z)))

    def comoving_volume(self, z):
        d = self.D(z)
        return Quantity(d * d * d * (4 * self._np.pi / 3))

    def differential_comoving_volume(self, z):
        d = self.D(z)
        return Quantity(d * d * self._c)

    def age(self, z):
        return Quantity(10 / self.h / (1 + _bare(z)))


def z_at_value(func, fval, **k):
    c, n = func.__self__, func.__name__
    fval = _bare(fval)
    if n == 'age':
        return 10 / c.h / fval - 1
    if n == 'comoving_distance':
        return c.Dinv(fval)
    raise NotImplementedError(n)


def install(ctx):
    top, co, un = (types.ModuleType(n) for n in ('astropy', 'astropy.cosmology', 'astropy.units'))
    np = ctx.np
    co.FlatLambdaCDM = lambda H0, Om0, Tcmb0=0.0, Neff=3.04, m_nu=0.0, Ob0=None, **k: Cosmo(H0, Om0, Tcmb0, Neff, m_nu, Ob0, np=np)
    co.z_at_value = z_at_value
    for n in ('km', 's', 'Mpc', 'K', 'Gyr'):
        setattr(un, n, 1.0)
    top.cosmology, top.units = co, un
    ctx.env.overrides.update({'astropy': top, 'astropy.cosmology': co, 'astropy.units': un})
    return co.FlatLambdaCDM
