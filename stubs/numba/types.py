"""Type objects: only shapes good enough to write signatures with."""


class _Type:
    def __init__(self, name):
        self.name = name

    def __call__(self, *args, **kw):
        # scalar constructor when called with a number, signature otherwise
        import numpy as np
        if len(args) == 1 and not isinstance(args[0], (_Type, tuple, list)) and not kw:
            try:
                return np.dtype(self.name).type(args[0])
            except TypeError:
                pass
        return _Type('%s(%s)' % (self.name, ', '.join(map(str, args))))

    def __getitem__(self, item):
        return _Type('%s[]' % self.name)

    def __repr__(self):
        return self.name


def Array(dtype, ndim, layout, readonly=False, **kw):
    return _Type('array(%s,%d,%s)' % (dtype, ndim, layout))


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Type(name)
