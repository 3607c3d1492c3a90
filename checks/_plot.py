"""Records what would be drawn, in place of matplotlib.pyplot and matplotlib.animation."""
import numpy as np
from vsx.spec import obj


class Any:
    """does nothing, whatever it is asked"""

    def __call__(self, *a, **k):
        return Any()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __iter__(self):
        return iter(())


class Image(Any):
    def __init__(self, x, y, z, k):
        self.x, self.y, self.z, self.k = obj(x).copy(), obj(y).copy(), obj(z).copy(), k
        if self.x.ndim == 1:
            assert self.z.ndim == 2 and self.z.shape == (len(self.y) - 1, len(self.x) - 1), 'image of %s for %d x %d edges' % (self.z.shape, len(self.y), len(self.x))

    def set_array(self, a):
        a = obj(a).copy()
        assert a.size == self.z.size
        self.z = a.reshape(self.z.shape)


class Line(Any):
    def __init__(self, x, y, k):
        self.k = k
        self.set_data(x, y)

    def set_data(self, x, y):
        self.x, self.y = (obj(getattr(v, 'value', v)).copy() for v in (x, y))
        assert self.x.shape == self.y.shape


class Dots(Line):
    def __init__(self, x, y, s, k):
        super().__init__(x, y, k)
        self.set_sizes(s)

    def set_sizes(self, s):
        self.s = obj(s).copy()


class Bars(Any):
    def __init__(self, x, k):
        self.x, self.k = obj(x).copy(), k


class Axes(Any):
    def __init__(self):
        self.items, self.title = [], ''

    def _add(self, i):
        self.items.append(i)
        return i

    def plot(self, x, y, *a, **k):
        if a:
            k = dict(k, fmt=a[0])
        return [self._add(Line(x, y, k))]

    def pcolor(self, x, y, z, **k):
        return self._add(Image(x, y, z, k))

    pcolormesh = pcolor

    def scatter(self, x, y, s=None, **k):
        return self._add(Dots(x, y, [] if s is None else s, k))

    def hist(self, x, *a, **k):
        return self._add(Bars(x, k))

    def set_title(self, t, *a, **k):
        self.title = t

    def set(self, *a, **k):
        self.title = k.get('title', self.title)

    def of(self, kind):
        return [i for i in self.items if type(i) is kind]


class Plt(Any):
    def __init__(self):
        self.axes, self.saved, self.shown = [], [], 0

    def ax(self):
        self.axes.append(Axes())
        return self.axes[-1]

    def subplots(self, *a, **k):
        n = (a[0] if a else k.get('nrows', 1)) * (a[1] if len(a) > 1 else k.get('ncols', 1))
        ax = np.empty(n, dtype=object)
        for i in range(n):
            ax[i] = self.ax()
        return Any(), ax[0] if n == 1 else ax

    def subplot(self, *a, **k):
        return self.ax()

    def gca(self):
        return self.axes[-1] if self.axes else self.ax()

    def savefig(self, f, *a, **k):
        self.saved.append(f)

    def show(self, *a, **k):
        self.shown += 1

    def all(self, kind):
        return [i for a in self.axes for i in a.of(kind)]


class Movie:
    """stands for matplotlib.animation"""

    def __init__(self):
        self.made = []

    def FuncAnimation(self, fig, func, *a, **k):
        m = Film(func, k)
        self.made.append(m)
        return m


class Film(Any):
    def __init__(self, func, k):
        f = k.get('frames')
        self.func, self.saved = func, []
        self.frames = list(range(int(f))) if not hasattr(f, '__iter__') else list(f)

    def save(self, f, *a, **k):
        self.saved.append(f)
