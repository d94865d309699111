"""The checks of all properties."""
CHECKS = {}


def check(prop, level, technique, note, assumptions=()):
    def reg(f):
        CHECKS[prop] = dict(run=f, level=level, technique=technique, note=note, assumptions=assumptions)
        return f
    return reg


from . import lookup, physics, transport, library, structures, numerics, tools, total  # noqa
