class _Any:
    def __getattr__(self, n):
        return _Any()
    def __call__(self, *a, **k):
        return _Any()
    def __iter__(self):
        return iter((_Any(), _Any()))
    def __getitem__(self, i):
        return _Any()
def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Any()


class Circle:
    """Keeps what it was given."""

    def __init__(self, xy, radius=5, **kwargs):
        self.xy, self.radius = tuple(xy), radius
        self.color = kwargs.get('color', kwargs.get('facecolor', kwargs.get('fc')))
