CHECKS = {}
def check(prop):
    def d(f):
        CHECKS[prop] = f
        return f
    return d
from . import transforms, generator, schema, impls, derive, globals, builds, wellformed, panics
