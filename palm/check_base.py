"""Registry of the checks."""
CHECKS = {}


def check(prop, level, rule, floors=None, assumptions=()):
    def deco(f):
        CHECKS[prop] = (level, rule, floors, assumptions, f)
        return f
    return deco
