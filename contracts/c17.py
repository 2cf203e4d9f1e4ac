"""C17: class invariant and step contracts on inspecting_client.ExponentialRandomBackoff."""
from .common import *          # noqa

MODULES = ['inspecting_client']
UNDER_CONTRACT = ['inspecting_client.ExponentialRandomBackoff.__init__', '..._validate_parameters', '..._update_delay',
                  '...failed', '...success', '...delay']
ASSUMPTIONS = ['floats are treated as mathematical reals', 'random.random() is in [0, 1)', 'assert statements are enabled']
CLS = 'katcp.inspecting_client:ExponentialRandomBackoff'


def valid(i, m, f, r):
    return z3.And(0 <= i, i <= m, 0 <= r, r <= 1, f > 1)


def params(cx):
    return [cx.real(n) for n in ('delay_initial', 'delay_max', 'exp_fac', 'randomicity')]


def in_band(cx, o, i, m, f, r, step, tag):
    ip = cx.interp
    d = t(ip.getattr(o, 'delay'))
    cx.prove('delay is at most the current step and the maximum (%s)' % tag, z3.And(d <= step, d <= m))
    cx.prove('delay is never negative (%s)' % tag, d >= 0)
    cx.prove('delay is at least the guaranteed fraction of the step (%s)' % tag, d >= (1 - r) * step)


def c_init(cx):
    ip = cx.interp
    i, m, f, r = params(cx)
    st, o = attempt(ip, ip.get(CLS), i, m, f, r)
    ok = valid(i.t, m.t, f.t, r.t)
    if st == 'raise':
        cx.cover('refused')
        cx.prove('only invalid settings are refused', z3.Not(ok))
        cx.prove('refused with an assertion or value error', is_exc(ip, o, AssertionError) or is_exc(ip, o, ValueError))
        return
    cx.cover('accepted')
    cx.prove('invalid settings are refused', ok)
    in_band(cx, o, i.t, m.t, f.t, r.t, i.t, 'new')
    need(o, '_base_delay')
    cx.prove('the first step is the initial delay', t(ip.getattr(o, '_base_delay')) == i.t)


def arbitrary(cx):
    """any object satisfying the invariant: valid settings, initial <= step <= max."""
    ip = cx.interp
    i, m, f, r = params(cx)
    cx.assume(valid(i.t, m.t, f.t, r.t))
    o = ip.call(ip.get(CLS), [i, m, f, r])
    need(o, '_base_delay', '_delay')
    b, d = cx.real('step'), cx.real('old_delay')
    cx.assume(z3.And(i.t <= b.t, b.t <= m.t, d.t <= b.t, d.t >= (1 - r.t) * b.t))
    o.attrs['_base_delay'] = b
    o.attrs['_delay'] = d
    return o, i.t, m.t, f.t, r.t, b.t


def c_failed(cx):
    ip = cx.interp
    o, i, m, f, r, b = arbitrary(cx)
    st, x = attempt(ip, ip.getattr(o, 'failed'))
    cx.prove('failed() never raises', st == 'ok')
    new = t(ip.getattr(o, '_base_delay'))
    cx.prove('the step grows by the factor up to the maximum', new == z3.If(b * f <= m, b * f, m))
    cx.prove('the step never shrinks on failure', new >= b)
    cx.prove('the step stays within its bounds', z3.And(new >= i, new <= m))
    in_band(cx, o, i, m, f, r, new, 'after a failure')


def c_success(cx):
    ip = cx.interp
    o, i, m, f, r, b = arbitrary(cx)
    st, x = attempt(ip, ip.getattr(o, 'success'))
    cx.prove('success() never raises', st == 'ok')
    new = t(ip.getattr(o, '_base_delay'))
    cx.prove('success resets the step', new == i)
    in_band(cx, o, i, m, f, r, new, 'after a success')


def c_defaults(cx):
    ip = cx.interp
    st, o = attempt(ip, ip.get(CLS))
    cx.prove('the default settings are valid', st == 'ok')


def c_invalid_later(cx):
    """settings changed to invalid ones later: success() refuses them; failed() leaves a usable delay."""
    ip = cx.interp
    o, i, m, f, r, b = arbitrary(cx)
    before = t(ip.getattr(o, 'delay'))
    which = cx.pick('changed', ['delay_max', 'exp_fac', 'randomicity', 'delay_initial'])
    v = cx.real('bad')
    new = {'delay_initial': i, 'delay_max': m, 'exp_fac': f, 'randomicity': r}
    new[which] = v.t
    cx.assume(z3.Not(valid(new['delay_initial'], new['delay_max'], new['exp_fac'], new['randomicity'])))
    ip.setattr(o, which, v)
    st, x = attempt(ip, ip.getattr(o, 'failed'))
    cx.prove('failed() with invalid settings does not raise', st == 'ok')
    cx.prove('failed() with invalid settings keeps the delay', t(ip.getattr(o, 'delay')) == before)


CONTRACTS = {'constructor': (c_init, {'expect': ['refused', 'accepted']}), 'failed': (c_failed, {}),
             'success': (c_success, {}), 'defaults': (c_defaults, {}), 'invalid later': (c_invalid_later, {})}
