"""C10: interconnector flows stay within limits, losses follow the loss model, one link at a time."""
import mkt
import refmarket as rm
from core import check

ID = 'C10'
RULE = ('hypothesis draws 2-3 region markets with interconnectors (parallel ones, one-directional link pairs, loss '
        'factors, loss functions with linear, quadratic and asymmetric terms, uneven break points, loss shares, '
        'negative prices that reward burning energy in losses); reported losses are recomputed by interpolating the '
        'loss function at the reported flow.  Non-trivial: some interconnector carries flow and has losses or limits '
        'that bind')
ASSUMPTIONS = []


def interp(l, flow):
    fn = rm.loss_fn(l)
    pts = sorted(l['breaks'])
    for a, b in zip(pts, pts[1:]):
        if a - 1e-6 <= flow <= b + 1e-6:
            w = min(max((flow - a) / (b - a), 0.0), 1.0)
            return fn(a) + (fn(b) - fn(a)) * w
    return None


def extra(S, m, ref, out):
    used = {}
    for k in S.get('inter') or []:
        key = (k['name'], k['link'])
        f = out.flow[key]
        check(k['min'] - 1e-4 <= f <= k['max'] + 1e-4, 'flow %.4f of %s outside [%s, %s]', f, key, k['min'], k['max'])
        if k['name'] != k['link'] and abs(f) > 1e-3:
            used.setdefault(k['name'], []).append(k['link'])
    for n, ls in used.items():
        check(len(ls) <= 1, 'links %s of %s carry flow at the same time', ls, n)
    for l in S.get('losses') or []:
        key = (l['name'], l['link'])
        want = interp(l, out.flow[key])
        check(want is not None, 'flow %.4f of %s outside its break points', out.flow[key], key)
        check(abs(want - out.loss[key]) < 1e-3, 'losses of %s are %.5f at flow %.4f, loss model gives %.5f', key,
              out.loss[key], out.flow[key], want)
    have = set(out.flow)
    want = {(k['name'], k['link']) for k in S.get('inter') or []}
    check(have == want, 'flows reported for %s, market has %s', sorted(have), sorted(want))
    return []


def nontrivial(S, ref, out):
    if out is None or not S.get('inter'):
        return False
    return any(abs(f) > 1e-3 for f in out.flow.values()) and (
        any(abs(x) > 1e-6 for x in out.loss.values()) or
        any(min(abs(out.flow[(k['name'], k['link'])] - k['max']), abs(out.flow[(k['name'], k['link'])] - k['min']))
            < 1e-4 for k in S['inter']))


def parts():
    base = dict(regions=(2, 3), units=(2, 5), inter=1.0, losses=0.9, links=0.0, narrow=0.4, demand_cost=0.7, soft=0.6,
                fcas=0.0, generic=0.1, uigf=0.0, fast_start=0.0, ramp=0.1)
    return [
        mkt.agree_part('lossy', 700, 20000, dict(base, neg_price=0.3), nontrivial, extra),
        mkt.agree_part('links', 500, 15000, dict(base, links=0.7, inter_lf=0.7, neg_price=0.3), nontrivial, extra),
        mkt.agree_part('many_breaks', 300, 10000, dict(base, even=0.2, lf=0.0, units=(1, 3), asym=0.8, neg_price=0.4,
                                                       links=0.2), nontrivial, extra),
    ]
