"""Rules about random numbers: reproducibility, resampling, progress display, posterior predictive."""
from ..checker import *
from ..interp import UNDEF
from .parser import B, READERS, Traj, P_inputs, PARSER, GET_DISPS, GET_DISP, GET_TI, staged
from .diffusion import KINDS, BOOT, D_, Obs, kwargs, check_arr, dist_seq
from .gls import Fit, near

DIST = 'uravu.distribution.Distribution'
SUN = BOOT + '.sample_until_normal'


# ------------------------------------------------------------------ helpers
def nodes(x, pred, limit=6):
    """nodes of a term satisfying pred"""
    seen, out = set(), []

    def go(x):
        if len(out) >= limit:
            return
        if isinstance(x, Poly):
            for m, _ in x.terms:
                for a, _ in m:
                    go(a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Node):
            if x in seen:
                return
            seen.add(x)
            if pred(x):
                out.append(x)
                return
            for y in x.args:
                go(y)
    go(x)
    return out


UNREPEATABLE = ('time.', 'uuid.', 'os.urandom', 'secrets.', 'random.', 'os.getpid', 'datetime.', 'threading.', 'socket.')


def entropy(t):
    """sources of a value that a caller cannot repeat: process entropy, clock, identity"""
    def bad(x):
        if x.kind in ('sym', 'fn') and x.args and isinstance(x.args[0], str):
            s = x.args[0]
            if s.startswith('global-rng-entropy'):
                return True
            s = s.lstrip('?')
            for p in ('ext:', 'call:', 'builtins.'):
                s = s[len(p):] if s.startswith(p) else s
            return s.startswith(UNREPEATABLE) or s in ('id', 'hash')
        return False
    return nodes(t, bad)


def obj_values(I, o):
    """stored values of an object: {attribute: frozen value}, without iteration helpers and callables"""
    v = I.freeze(o, I.st)
    if isinstance(v, FObj):
        return {k: x for k, x in v.attrs.items() if not (isinstance(x, XObj) and x.kind == 'tqdm') and not isinstance(x, (RangeV, FuncV, BoundV))}
    return {'value': v}


def unwrap(v):
    """samples of a distribution, otherwise the value"""
    if isinstance(v, XObj) and v.kind == 'dist':
        return v.f['samples']
    return v


def same_value(ck, name, a, b, at, assume=TRUE):
    a, b = unwrap(a), unwrap(b)
    if a is b:
        return ck.add(name, EQ, at, 'identical')
    for p, q in ((a, b), (b, a)):
        if p is NONE or p is UNDEF:
            return ck.flag(name, False if isinstance(q, (Num, Arr, Seq, Str, BoolV)) else None, at, repr(a)[:300], repr(b)[:300])
    if isinstance(a, FObj) and isinstance(b, FObj) and a.cls is b.cls and a.attrs.keys() == b.attrs.keys():
        for k in sorted(a.attrs):
            same_value(ck, '%s.%s' % (name, k), a.attrs[k], b.attrs[k], at, assume)
        return None
    try:
        if ck.I.term(a) is ck.I.term(b):
            return ck.add(name, EQ, at, 'canonical')
    except Exception:
        pass
    return ck.eq(name, a, b, at, assume=assume)


def rstate(I, name='rs0'):
    return XObj('rs', cell=I.alloc_raw(RngC(sym(name))))


def resampled(I, args, kw):
    """stand-in for the resampling loop (analysed on its own): samples named by everything passed in, drawn from the given generator"""
    d = dict(zip(('array', 'n_samples', 'n_resamples', 'max_resamples', 'alpha', 'random_state'), args))
    d.update(kw)
    rs = d.pop('random_state', NONE)
    cell = rs.f['cell'] if isinstance(rs, XObj) and rs.kind == 'rs' else (I.rng if rs is NONE else None)
    if cell is None:
        raise Unsupported('random state %r' % (rs,))
    cell = cell.id if isinstance(cell, Ref) else cell
    p = I.st.heap[cell].p
    ts = [I.term(I.freeze(d[k], I.st)) if k in d else mk('none') for k in ('array', 'n_samples', 'n_resamples', 'max_resamples', 'alpha')]
    h = mk('head', 'resampled', p, *ts)
    I.st.heap[cell] = RngC(fn('rngnext', p, mk('strc', 'resampled'), *ts))
    n = mk_fn('len', h)
    return I.call(ExtV(DIST), [I.new_arr(Arr([n], lambda k: el(h, k)))], {})


# ------------------------------------------------------------------ C18
def c18(ck):
    """Every stored result of a run with a random state is traced back to its sources: none may be the process-global generator in an
    unknown state, fresh entropy, the clock or object identity. A second run after arbitrary use of the global generator, with an equal
    state, must give the same terms."""
    C, I = ck.C, ck.I

    def twice(text, at, go, results):
        with ck.config(text, at):
            C.reset()
            out = []
            for k in range(2):
                if k:
                    # arbitrary earlier use of the global generator
                    I.st.heap[I.rng] = RngC(sym('global-rng-entropy2'))
                r, v = go(k)
                if not ck.ran(r, at):
                    return
                out.append(results(r, v))
            for k in sorted(out[0]):
                v = unwrap(out[0][k])
                try:
                    t = I.term(v)
                except Exception as e:
                    ck.undecided('%s is repeatable' % k, at, str(e))
                    continue
                bad = entropy(t)
                if bad:
                    ck.flag('%s is repeatable' % k, False, at, 'depends on %s' % show(bad[0]), 'depends on the random state and the input only')
                elif has_opaque(t):
                    ck.flag('%s is repeatable' % k, None, at)
                else:
                    ck.flag('%s is repeatable' % k, True, at)
                if not bad and k in out[1]:
                    same_value(ck, '%s equal in a second run' % k, out[1][k], out[0][k], at)
    for kind in KINDS:
        o = []

        def build(k, kind=kind):
            if not k:
                o[:] = [Obs(ck, kind)]
            r = C.run(KINDS[kind], o[0].args, kwargs(o[0], bootstrap=B(True), random_state=rstate(I), n_resamples=num('nr', True, 8), max_resamples=num('mx', True, 8)), cuts={SUN: resampled})
            return r, r.value
        twice('%s with resampling' % kind, KINDS[kind], build, lambda r, v: obj_values(I, v))
    for method, args, kind in (('diffusion', [], 'MSD'), ('jump_diffusion', [], 'MSTD'), ('conductivity', ['T', 'V'], 'MSCD')):
        for icpt in (True, False):
            f = []

            def fit(k, method=method, args=args, kind=kind, icpt=icpt):
                if not k:
                    f[:] = [Fit(ck, kind)]
                r = f[0].run(method, [Num(f[0].start)] + [num(x, lo=1) for x in args], fit_intercept=B(icpt), random_state=rstate(I))
                return r, f[0].b
            twice('%s, intercept %s' % (method, icpt), BOOT + '.' + method, fit, lambda r, v: obj_values(I, v))
    for fn_ in ('_bootstrap', '_bayesian_bootstrap'):
        if C.resolve(D_ + fn_) is None:
            continue

        def boot(k, fn_=fn_):
            a = arr(I, 'A', [sym('na', True, 3)])
            r = C.run(D_ + fn_, [a, num('ns', True, 2), num('nr', True, 8), rstate(I)])
            return r, r.value
        twice(fn_, D_ + fn_, boot, lambda r, v: {'samples': I.freeze(v, I.st)})

    def loop(k):
        a = arr(I, 'A', [sym('na', True, 3)])
        r = C.run(SUN, [a, num('ns', True, 2), num('nr', True, 8), num('mx', True, 8)], dict(random_state=rstate(I)))
        return r, r.value
    if C.resolve(SUN) is not None:
        twice('resampling loop', SUN, loop, lambda r, v: {'samples': I.freeze(v, I.st)})


# ------------------------------------------------------------------ C27
REFERENCE = '''
import numpy as np
from scipy.stats import normaltest
from sklearn.utils import resample

def means(array, n_samples, n_resamples, random_state):
    return [np.mean(resample(array.flatten(), n_samples=int(n_samples), random_state=random_state)) for j in range(n_resamples)]

def until_normal(array, n_samples, n_resamples, max_resamples, alpha, random_state):
    values = means(array, n_samples, n_resamples, random_state)
    while normaltest(values)[1] < alpha and len(values) < max_resamples:
        values = values + means(array, n_samples, 100, random_state)
    return np.array(values)
'''


def c27(ck):
    """The resampling loop is summarised as (number of completed rounds, samples after that many rounds) and compared with the reference:
    the first batch, then batches of 100 until the normality test passes or the limit is reached. The continuation condition must imply
    that the number of samples is below the limit and every round must add a constant positive number of them, so the loop is bounded;
    the warning must be issued exactly when the limit is reached. The observations and counts each constructor hands to the loop, and the
    moments it records of the result, are compared with their definitions interval by interval."""
    C, I = ck.C, ck.I
    at = SUN
    for alpha in (None, 'alpha'):
        for nd in (1, 2):
            for seeded in (True, False):
                with ck.config('resampling, alpha %s, %d-d data, %s' % (alpha or 'default', nd, 'random state' if seeded else 'no random state'), at):
                    C.reset()
                    n1, n2 = sym('n1', True, 3), sym('n2', True, 2)
                    a = arr(I, 'A', [n1, n2][:nd])
                    ns, nr, mx = num('ns', True, 1), num('nr', True, 8), num('mx', True, 8)
                    al = num(alpha, lo=0) if alpha else Num(Fraction(1, 1000))
                    s0 = I.st.copy()
                    r = C.run(at, [a, ns, nr, mx], dict(random_state=rstate(I) if seeded else NONE, **({'alpha': al} if alpha else {})))
                    if not ck.ran(r, at):
                        continue
                    ck.no_raise(r, at)
                    got = unwrap(I.freeze(r.value, I.st))
                    bounded(ck, r, at)
                    s1 = I.st
                    I.st = s0
                    ref = C.run(I.load_text('kv.reference', REFERENCE)['until_normal'], [a, ns, nr, mx, al, rstate(I) if seeded else NONE])
                    want = I.freeze(ref.value, I.st)
                    ck.eq('resampled means', got, want, at)
                    n = I.lib.as_arr(I, want).shape[0]
                    w = FALSE
                    for e in r.events:
                        if e.kind == 'warn':
                            w = c_or(w, e.pc)
                    ck.eq('warning exactly at the limit', BoolV(w), BoolV(c_le(mx.p, n)), at)
                    if C.resolve(D_ + '_bootstrap') is not None and not alpha:
                        C.reset()
                        a = arr(I, 'A', [n1, n2][:nd])
                        r = C.run(D_ + '_bootstrap', [a, num('x', lo=1), nr, rstate(I) if seeded else NONE])
                        s1 = I.freeze(r.value, I.st) if r.value is not None else None
                        C.reset()
                        a = arr(I, 'A', [n1, n2][:nd])
                        ref = C.run(I.load_text('kv.reference', REFERENCE)['means'], [a, num('x', lo=1), nr, rstate(I) if seeded else NONE])
                        if ck.ran(r, D_ + '_bootstrap'):
                            ck.eq('resampled means of one batch', s1, I.freeze(ref.value, I.st), D_ + '_bootstrap')
    moments(ck)


def observed(I, args, kw):
    """stand-in for the resampling loop whatever the generator: samples named by the flattened observations and the numbers asked for"""
    d = dict(zip(('array', 'n_samples', 'n_resamples', 'max_resamples', 'alpha', 'random_state'), args))
    d.update(kw)
    h = sample_head(I, I.call(I.get_attr(d['array'], 'flatten'), [], {}), *[d.get(k, NONE) for k in ('n_samples', 'n_resamples', 'max_resamples', 'alpha')])
    return I.call(ExtV(DIST), [I.new_arr(Arr([mk_fn('len', h)], lambda k: el(h, k)))], {})


def sample_head(I, a, ns, nr, mx, alpha):
    ns = I.call(ExtV('builtins.int'), [ns], {})
    return mk('head', 'resampled', *[I.term(I.freeze(x, I.st)) for x in (a, ns, nr, mx, alpha)])


def moments(ck):
    """what the constructors ask of the resampling loop and what they record of its result, interval by interval"""
    C, I = ck.C, ck.I
    for kind, dim, sub, charge in (('MSD', 'xyz', None, None), ('MSD', 'xz', 'k', None), ('MSTD', 'xyz', None, None), ('MSTD', 'y', 'k', None), ('MSCD', 'xyz', None, 'scalar'), ('MSCD', 'xyz', None, 'array'), ('MSCD', 'yz', 'k', 'scalar')):
        at = KINDS[kind]
        with ck.config('%s statistics with resampling, dimension=%s%s%s' % (kind, dim, ' sub_sample_dt' if sub else '', ' charge:' + charge if charge else ''), at):
            C.reset()
            o = Obs(ck, kind, dim, sym('k', True, 1) if sub else None, charge)
            nr, mx, al = num('nr', True, 8), num('mx', True, 8), num('alpha', lo=0)
            r = staged(ck, KINDS[kind], o.args, kwargs(o, bootstrap=B(True), n_resamples=nr, max_resamples=mx, alpha=al), {SUN: observed})
            if not ck.ran(r, at):
                continue
            K = o.count()

            def head(i):
                sz, f = o.obs(i)
                a = Arr([o.size(i)], f) if len(sz) == 1 else Arr([o.size(i)], lambda j: f(div_(j, sz[1]), mod_(j, sz[1])))
                return sample_head(I, I.new_arr(a), Num(o.independent(i)), nr, mx, al)

            def mean(i):
                h = head(i)
                return sum_over(mk_fn('len', h), lambda k: el(h, k)) / mk_fn('len', h)

            def var(i):
                h, m = head(i), mean(i)
                return sum_over(mk_fn('len', h), lambda k: (el(h, k) - m)**2) / (mk_fn('len', h) - 1)
            check_arr(ck, r, 'mean of the resampled means', '_n_bootstrap', Arr([K], mean), at)
            check_arr(ck, r, 'variance of the resampled means', '_v_bootstrap', Arr([K], var), at)
            check_arr(ck, r, 'standard deviation of the resampled means', '_s_bootstrap', Arr([K], lambda i: var(i).power(Fraction(1, 2))), at)
            d = C.attr(r.value, '_distributions').value
            if d is not None:
                want = Seq([Seg(K, lambda i: [Item(Arr([mk_fn('len', head(i))], lambda j: el(head(i), j)))])], 'list')
                ck.eq('recorded samples', dist_seq(I, d), want, at)


def bounded(ck, r, at):
    """every while loop met on the way has a measure that grows by a constant each round and bounds the condition"""
    for e in r.events:
        if e.kind == 'while-unresolved':
            ck.undecided('loop is bounded', at, 'loop not summarised: %s' % (e.data[0],))
        if e.kind != 'while':
            continue
        going, rounds, loc = e.data
        ia = rounds.single_atom().args[1].args[0][0] if False else None
        ok = None
        found = False
        for v in sorted(loop_index(going), key=lambda n: n.id):
            for a in c_atoms(going):
                if a.kind == 'lt' and lin_pos(a.args[0], v):
                    found = True
                    if implied(going, a):
                        ok = True
        if not found and ok is None and loop_index(going):
            ok = False
        ck.flag('loop is bounded', ok, loc_at(loc, at), 'continues while %s' % show(going)[:400], 'a bound on the number of rounds')


def loc_at(loc, at):
    return (loc[0], loc[1], loc[2]) if isinstance(loc, tuple) and len(loc) == 3 else at


def loop_index(c):
    return {a for a in free(c) if a.kind == 'sym' and a.args[0].startswith('i~')}


def lin_pos(p, v):
    """p is linear in v with a positive constant coefficient"""
    c = None
    for m, k in p.terms:
        if any(a is v for a, _ in m):
            if len(m) == 1 and m[0][1] == 1 and k > 0:
                c = k
            else:
                return False
        elif any(v in free(a) for a, _ in m):
            return False
    return c is not None


def implied(c, a):
    """c => a"""
    return Facts().simplify(c_restrict_all(c, a)) is FALSE


def c_restrict_all(c, a):
    return c_and(c, c_not(catom(a)))


# ------------------------------------------------------------------ C28
def c28(ck):
    """Two abstract runs of every entry point that has a progress option, one with the display on and one with it off, must leave equal
    values in every attribute, equal return values and equal exception conditions."""
    C, I = ck.C, ck.I

    def both(text, at, go):
        with ck.config(text, at):
            out = []
            for on in (False, True):
                C.reset()
                r, vals = go(B(on))
                out.append((r, vals))
            (r0, v0), (r1, v1) = out
            if r0.raised != r1.raised:
                ck.flag('completes with the display on as with it off', False if not any(has_opaque(e.state.pc) for e in r0.excs + r1.excs) else None, at,
                        'display on: %s' % ('raises' if r1.raised else 'returns'), 'display off: %s' % ('raises' if r0.raised else 'returns'))
                return
            for k in sorted(v0.keys() | v1.keys()):
                if k not in v0 or k not in v1:
                    ck.undecided('%s' % k, at, 'present in one run only')
                    continue
                same_value(ck, '%s unaffected by the display' % k, v1[k], v0[k], at)
            for cls in ('ValueError', 'MemoryError', 'TypeError', 'KeyError', 'IndexError'):
                ck.eq('%s raised under the same condition' % cls, BoolV(r1.exc_conds(cls)), BoolV(r0.exc_conds(cls)), at)
    for samp in ('multi-origin', 'single-origin', 'other'):
        def parse(on, samp=samp):
            p = P_inputs(ck)
            m = sym('m', True, 1)
            tau = tensor('tau', int_=True, pos=True)
            r = C.run(PARSER, p['args'], dict(progress=on, sampling=Str(samp)), cuts={GET_TI: lambda I, a, k: I.new_arr(Arr([m], lambda k: el(tau, k), 'int'))})
            return r, obj_values(I, r.value) if r.value is not None else {}
        both('windows, %s' % samp, GET_DISPS, parse)
    for kind in READERS:
        def read(on, kind=kind):
            tr = Traj(ck, kind)
            st = {}
            dd = tensor('fd')

            def cut(I, a, k):
                st.update({'coords': I.freeze(a[0], I.st), 'latt': I.freeze(a[1], I.st)})
                return I.new_arr(Arr([tr.n_read(), tr.frames(), 3], lambda a, t, x: el(dd, a, t, x)))
            r = C.run(tr.cls, [tr.value, clist(I, [Str('Li')]), tr.ts, tr.ss], dict(sub_sample_traj=Num(tr.sub, 'int'), progress=on),
                      cuts={GET_DISP: cut, GET_DISPS: lambda I, a, k: Tup([Num(sym('delta_t?')), Num(sym('disp?')), Num(sym('n_o?'))])})
            d = obj_values(I, r.value) if r.value is not None else {}
            d.update(st)
            return r, d
        both('%s reader' % kind, READERS[kind], read)
    for kind in KINDS:
        for bs in (False, True):
            def stat(on, kind=kind, bs=bs):
                o = Obs(ck, kind)
                kw = kwargs(o)
                kw['progress'] = on
                if bs:
                    kw.update(bootstrap=B(True), random_state=rstate(I))
                r = C.run(KINDS[kind], o.args, kw, cuts={SUN: resampled})
                return r, obj_values(I, r.value) if r.value is not None else {}
            both('%s statistics%s' % (kind, ' with resampling' if bs else ''), KINDS[kind], stat)
    for icpt in (True, False):
        def fit(on, icpt=icpt):
            f = Fit(ck)
            r = f.run(fit_intercept=B(icpt), progress=on)
            return r, obj_values(I, f.b)
        both('fit, intercept %s' % icpt, BOOT + '.bootstrap_GLS', fit)

        def pred(on, icpt=icpt):
            f = fitted(ck, icpt)
            r = C.run(I.get_attr(f.b, 'posterior_predictive'), [num('np_', True, 1), num('nq', True, 1)], dict(progress=on))
            d = obj_values(I, f.b)
            if r.value is not None:
                d['return value'] = I.freeze(r.value, I.st)
            return r, d
        both('posterior predictive, intercept %s' % icpt, BOOT + '.posterior_predictive', pred)


# ------------------------------------------------------------------ C29
WRAPPERS = {'DiffusionAnalyzer': 'MSD', 'JumpDiffusionAnalyzer': 'MSTD', 'ConductivityAnalyzer': 'MSCD'}


def fitted(ck, icpt, refit=False, before=None, via=None):
    """an object after a fit, with arbitrary posterior samples and covariance; optionally inside an analyzer, optionally with an earlier
    fit (from another start, other settings) and a prediction from it"""
    an = None
    if via:
        from .analyzers import wrapped
        f, an, _ = wrapped(ck, via)
    else:
        f = Fit(ck)
    f.an = an
    if refit:
        start, f.start = f.start, sym('start0')
        f.run(fit_intercept=B(not icpt))
        f.start = start
        before(f, an)
    r = f.run(fit_intercept=B(icpt))
    if r.raised or r.value is None:
        raise Unsupported('fit raises')
    I = f.I
    f.S = sym('S', True, 2)
    f.g, f.b0 = tensor('gs'), tensor('bs')
    mkd = lambda h: I.call(ExtV(DIST), [I.new_arr(Arr([f.S], lambda k: el(h, k)))], {})
    replace(f, 'gradient', mkd(f.g))
    if icpt:
        replace(f, 'intercept', mkd(f.b0))
    f.covh = tensor('COV')
    replace(f, 'covariance_matrix', I.new_arr(Arr([f.size, f.size], lambda i, j: ite(c_le(i, j), el(f.covh, i, j), el(f.covh, j, i)))))
    return f


def replace(f, acc, new):
    """every attribute holding the accessor's value gets the new one"""
    I = f.I
    old = f.get(acc)
    hit = False
    for a, v in list(I.content(f.b).attrs.items()):
        if v is old or (isinstance(v, Ref) and isinstance(old, Ref) and v.id == old.id):
            I.set_attr(f.b, a, new)
            hit = True
    if not hit:
        raise Unsupported('%s is not a stored value' % acc)


def c29(ck):
    """The array returned is matched as multivariate normal draws: covariance and mean of the draw behind every element are compared with
    the reported covariance and the line of the posterior sample selected by a uniform draw over all samples; shape and indexing must give
    every requested draw once. Also for one draw per line, a single line, a second prediction, a prediction after a refit, and through
    every analyzer."""
    C, I = ck.C, ck.I
    at = BOOT + '.posterior_predictive'
    def predict(f, npost, nq, via=None, **kw):
        kw.update(progress=B(False), n_predictive_samples=Num(nq, 'int'))
        if npost is not None:
            kw['n_posterior_samples'] = Num(npost, 'int')
        if via is None:
            return C.run(I.get_attr(f.b, 'posterior_predictive'), [], kw)
        return C.run(I.get_attr(via, 'posterior_predictive'), [cdict(I, kw)])

    one = const(1)
    cases = [(i, g, None, None) for i in (True, False) for g in ('given', 'default')] + [(True, 'given', h, None) for h in ('one draw per line', 'one line', 'a second prediction', 'a second prediction after a refit')]
    cases += [(i, 'given', None, n) for n in WRAPPERS for i in (True,)] + [(False, 'given', 'a second prediction after a refit', n) for n in list(WRAPPERS)[:1]]
    for icpt, given, hist, via in cases:
            with ck.config('intercept %s, %s number of posterior samples%s%s' % (icpt, given, ', ' + hist if hist else '', ', through %s' % via if via else ''), at):
                f = fitted(ck, icpt, refit=hist and 'refit' in hist, before=lambda f, an: predict(f, sym('np_', True, 1), sym('nq', True, 1), an), via=via)
                if hist == 'a second prediction':
                    predict(f, sym('np1', True, 1), sym('nq1', True, 1), f.an)
                npost, nq = (sym('np_', True, 1) if given == 'given' else f.S), sym('nq', True, 1)
                if hist == 'one draw per line':
                    nq = one
                if hist == 'one line':
                    npost = one
                r = predict(f, npost if given == 'given' else None, nq, f.an)
                if not ck.ran(r, at):
                    continue
                ck.no_raise(r, at, assume=f.some)
                a = I.lib.as_arr(I, r.value)
                if a is None or a.ndim != 2:
                    ck.flag('predictive samples', None if a is None else False, at, 'shape %s' % (a.shape if a is not None else None,), 'two-dimensional')
                    continue
                ck.eq('number of predictive samples', Num(a.shape[0]), Num(npost * nq), at, assume=f.some)
                ck.eq('number of intervals', Num(a.shape[1]), Num(f.size), at, assume=f.some)
                rr, cc = fresh('e', ub=npost * nq), fresh('e', ub=f.size)
                x = a.fn(rr, cc)
                x = Facts().with_cond(f.some).simp(x) if not is_bool(x) else x
                h = x.single_atom()
                shift = ZERO
                mvns = [n for n in set(nodes(x, lambda n: n.kind == 'el' and n.args[0].kind == 'head' and n.args[0].args[0] == 'draw' and n.args[0].args[1].args[0] == 'mvn', 9))]
                if (h is None or h.kind != 'el') and len(mvns) == 1:
                    rest = x - atom(mvns[0])
                    if not nodes(rest, lambda n: n is mvns[0], 1):
                        # a draw moved by something that does not depend on it
                        h, shift = mvns[0], rest
                    elif not has_opaque(x):
                        # neither the draw nor the draw moved: its distribution is another one
                        ck.flag('drawn from a normal distribution', False, at, show(x)[:300], 'multivariate normal draw')
                        continue
                if h is None or h.kind != 'el' or h.args[0].args[0] != 'draw' or h.args[0].args[1].args[0] != 'mvn':
                    dr = nodes(x, lambda n: n.kind == 'head' and n.args[0] == 'draw' and n.args[1].args[0] == 'mvn')
                    ck.flag('drawn from a normal distribution', None, at, show(x)[:300], 'multivariate normal draw')
                    continue
                mean, cov = h.args[0].args[3], h.args[0].args[4]
                # a generator restarted for every line would give every line the same deviations
                gen = h.args[0].args[2]
                same_gen = bool(nodes(gen, lambda n: n.kind == 'fn' and n.args[0] == 'rngseed', 2)) and not nodes(gen, lambda n: n.kind == 'fn' and n.args[0] in ('rngnext', 'rngiter'))
                ck.flag('lines are drawn independently', False if same_gen else True, at, 'generator state %s' % show(gen)[:200], 'continues from line to line')
                ck.eq('covariance of the draw', TV(cov), TV(I.term(I.freeze(f.get('covariance_matrix'), I.st))), at)
                sel = [n for n in nodes((mean, shift), lambda n: n.kind == 'el' and n.args[0].kind == 'head' and n.args[0].args[0] == 'draw' and n.args[0].args[1].args[0] != 'mvn', 9)]
                if len(set(sel)) != 1:
                    ck.flag('one posterior sample per line', False if len(set(sel)) > 1 else (False if not has_opaque(mean) else None), at, 'selected by %s' % [show(s) for s in sel[:3]], 'one random selection')
                    continue
                D = sel[0]
                lo, hi = (D.args[0].args[3], D.args[0].args[4]) if D.args[0].args[1].args[0] == 'randint' else (None, None)
                if lo is None:
                    ck.flag('uniform selection over all posterior samples', None, at, show(D))
                else:
                    ck.eq('uniform selection over all posterior samples', Tup([Num(P(lo)), Num(P(hi))]), Tup([Num(0), Num(f.S)]), at)
                j = D.args[1][0]
                line = Arr([f.size], lambda c: el(f.g, atom(D)) * f.t(f.reg + c) + (el(f.b0, atom(D)) if icpt else ZERO))
                if shift is ZERO:
                    ck.eq('mean of the draw', TV(mean), TV(I.term(line)), at, assume=f.some)
                else:
                    if getattr(mean, 'kind', None) != 'arrT' or len(mean.args[0]) != 1:
                        ck.undecided('mean of the draw', at, show(mean)[:200])
                    else:
                        ck.eq('mean of the draw', Num(P(subst(mean.args[1][0] if isinstance(mean.args[1], tuple) else mean.args[1], {mean.args[0][0]: cc})) + shift), Num(line.fn(cc)), at, assume=f.some)
                ck.eq('posterior sample of each draw', Num(P(j)), Num(mk_fn('div', rr, nq)), at)
                ck.eq('draws are not repeated', Tup([Num(P(y)) for y in h.args[1]]), Tup([Num(mk_fn('mod', rr, nq)), Num(cc)]), at)


RULES = {'C18': c18, 'C27': c27, 'C28': c28, 'C29': c29}
