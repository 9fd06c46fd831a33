"""Bounded exhaustive search over operation histories on the real objects."""
import copy


def explore(out, start, ops, canon, visit, depth, observe=None):
    """start: (real object, model)   ops: list of (name, enabled(obj, model), apply(obj, model) -> (obj, model))
    every history of enabled ops up to `depth` is executed on copies of the real object, unless the canonical state it
    extends was already expanded at this depth or lower. visit(history, obj, model, key) evaluates the invariant; it
    returns False to stop below that state."""
    seen = {}
    obj, model = start
    k0 = canon(obj, model)
    out.state(k0)
    seen[k0] = 0
    frontier = [((), obj, model)]
    visit((), obj, model)
    for n in range(depth):
        nxt = []
        for hist, obj, model in frontier:
            for op in ops:
                name, enabled, apply = op
                if enabled is not None and not enabled(obj, model):
                    continue
                o2, m2 = copy.deepcopy(obj), model
                h2 = hist + (name,)
                out.step()
                ok, r = out.attempt('op:' + opclass(name), apply, o2, m2)
                if not ok:
                    out.viol[-1] = (out.viol[-1][0], 'history %s\n%s' % (list(h2), out.viol[-1][1])) if out.viol else None
                    continue
                o2, m2 = r
                out.trace()
                if visit(h2, o2, m2) is False:
                    continue
                k = canon(o2, m2)
                out.state(k)
                if k not in seen:
                    seen[k] = n + 1
                    nxt.append((h2, o2, m2))
        frontier = nxt
        if not frontier:
            break
    return len(seen)


def opclass(name):
    """op name without its arguments: violations of one operation share a key"""
    return name.split('(')[0]


def replay(start_builder, ops, hist):
    obj, model = start_builder()
    d = {o[0]: o for o in ops}
    for h in hist:
        obj, model = d[h][2](obj, model)
    return obj, model
