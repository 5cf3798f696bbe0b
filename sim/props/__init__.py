from . import compare, conc, lookups, runner, trace

PROPS = {}
for _m in (trace, compare, conc, lookups, runner):
    for _c in vars(_m).values():
        if isinstance(_c, type) and getattr(_c, "ID", None):
            PROPS[_c.ID] = _c()
PROPS = dict(sorted(PROPS.items()))
