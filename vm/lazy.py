"""Deferred module access: check modules are also imported for listing units, without phyem."""
import importlib


class Lazy:
    def __init__(self, name):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_m', None)

    def __getattr__(self, a):
        if object.__getattribute__(self, '_m') is None:
            object.__setattr__(self, '_m', importlib.import_module(object.__getattribute__(self, '_n')))
        return getattr(object.__getattribute__(self, '_m'), a)


class LazyPh:
    """The phyem package itself."""
    def __getattr__(self, a):
        from vm import boot
        return getattr(boot.ph, a)


S = Lazy('vm.setups')
ph = LazyPh()
