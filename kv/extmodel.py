"""Models of the third-party packages kinisi calls (uravu, scipy, emcee, sklearn, statsmodels, h5py, tqdm, os) and of
the trajectory objects users hand in (ASE, pymatgen, MDAnalysis).  Everything else is opaque."""
from .terms import *
from .values import *
from . import interp as _interp
from . import library as L
from . import npmodel as N
from .library import num, numf, asint, cint, scalar, wrap, as_arr, elt
from .npmodel import Args, shape_of

_k = Fraction('1.380649e-23')
_e = Fraction('1.602176634e-19')
_NA = Fraction('6.02214076e23')


def _c(x):
    return Num(const(Fraction(x)), 'float')


CONSTANTS = {}
for _n, _v in {'k': _k, 'Boltzmann': _k, 'e': _e, 'elementary_charge': _e, 'eV': _e, 'electron_volt': _e, 'N_A': _NA,
               'Avogadro': _NA, 'R': _NA * _k, 'gas_constant': _NA * _k, 'angstrom': Fraction(1, 10**10), 'pico': Fraction(1, 10**12),
               'femto': Fraction(1, 10**15), 'nano': Fraction(1, 10**9), 'micro': Fraction(1, 10**6), 'milli': Fraction(1, 10**3),
               'centi': Fraction(1, 100), 'kilo': Fraction(1000), 'mega': Fraction(10**6), 'giga': Fraction(10**9),
               'h': Fraction('6.62607015e-34'), 'c': Fraction(299792458), 'zero_Celsius': Fraction('273.15')}.items():
    CONSTANTS['scipy.constants.' + _n] = _c(_v)
CONSTANTS['scipy.constants.pi'] = Num(PI, 'float')
CONSTANTS['numpy.s_'] = XObj('index_exp')
CONSTANTS['numpy.index_exp'] = XObj('index_exp')
CONSTANTS['sys.maxsize'] = Num(2**63 - 1, 'int')


def T(I, v):
    return I.term(I.freeze(v, I.st))


def opq(I, q, *args):
    return I.opaque('ext:' + q, *args)


# ---------------------------------------------------------------- uravu
def mk_dist(I, samples, name=None):
    a = I.arrval(samples)
    if a is None:
        a = as_arr(I, samples)
    if a is None:
        if isinstance(samples, TV):
            s = samples
        else:
            s = I.opaque('samples', samples)
        return XObj('dist', samples=s, name=name or Str('Distribution'))
    if isinstance(a, Seq):
        x = L.seq_to_arr(I, a)
        a = x if x is not None else Seq(a.segs, 'array')
    if isinstance(a, Arr):
        a = Arr(a.shape, a.fn, a.dtype)
    return XObj('dist', samples=a, name=name or Str('Distribution'))


def dist_attr(I, o, name):
    s = o.f['samples']
    if name == 'samples':
        if isinstance(s, Arr):
            return I.new_arr(Arr(s.shape, s.fn, s.dtype, frozenset(['samples of a distribution'])))
        return I.new_arr(s) if isinstance(s, Seq) else s
    if name == 'name':
        return o.f['name']
    if name == 'size':
        if isinstance(s, Arr):
            return Num(s.size(), 'int')
        if isinstance(s, Seq):
            return Num(L.seq_len(s), 'int')
        return I.opaque('size', s)
    if name in ('n', 's', 'v', 'min', 'max', 'median', 'mode'):
        return Num(fn('dist.' + name, I.term(s)))
    if name in ('con_int', 'ci_points', 'normal', 'pdf', 'logpdf', 'normalise'):
        return TV(mk('fn', 'dist.' + name, I.term(s)))
    if name in ('to_dict', 'add_samples', 'check_normality', 'negative_only'):
        return MethV(o, name)
    return None


def dist_from_dict(I, d):
    c = I.content(d) if isinstance(d, Ref) else None
    if isinstance(c, DictC):
        s = I.get_item(d, Str('samples'))
        n = I.get_item(d, Str('name'))
        return mk_dist(I, s, n)
    if isinstance(d, FDict):
        return dist_from_dict(I, I.thaw(d))
    if isinstance(d, TV):
        return XObj('dist', samples=TV(mk('fn', 'item', d.t, mk('strc', 'samples'))), name=TV(mk('fn', 'item', d.t, mk('strc', 'name'))))
    return I.opaque('Distribution.from_dict', d)


# ---------------------------------------------------------------- functions
def theta(n):
    h = tensor('theta')
    return Arr([n], lambda k: el(h, P(k)))


def closure(I, f, n):
    try:
        return L.closure_term(I, f, [I.new_arr(theta(n))])
    except (_interp.Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError):
        import os
        if os.environ.get('KV_DEBUG'):
            raise
        return mk('sym', '?closure')


def kwt(I, kw, skip=()):
    return tuple(mk('kw', k, T(I, v)) for k, v in sorted(kw.items()) if k not in skip and v is not NONE)


def f_minimize(I, q, args, kw):
    A = Args(I, q, ['fun', 'x0', 'args', 'method'], args, kw)
    x0 = as_arr(I, A.get('x0'))
    if x0 is None:
        return opq(I, q, *args)
    if x0.ndim == 0:
        y = x0
        x0 = Arr([ONE], lambda k: y.fn())
    t = closure(I, A.get('fun'), x0.shape[0])
    I.event('minimize', (t,))
    h = mk('head', 'minimize', t, I.arr_term(x0), *[mk('kw', k, T(I, A.get(k))) for k in sorted(A.d) if k not in ('fun', 'x0') and A.get(k) is not NONE])
    I.event('minimum', (h, x0.shape[0]))
    return XObj('optres', x=Arr(x0.shape, lambda k: el(h, P(k))))


def f_curve_fit(I, q, args, kw):
    A = Args(I, q, ['f', 'xdata', 'ydata', 'p0', 'sigma', 'absolute_sigma'], args, kw)
    f = A.get('f')
    fv = f.func if isinstance(f, BoundV) else f
    if not isinstance(fv, FuncV):
        return opq(I, q, *args)
    na = fv.node.args
    m = len(na.args) + len(na.posonlyargs) - 1 - (1 if isinstance(f, BoundV) else 0)
    x = A.get('xdata')
    th = theta(const(m))
    ps = [Num(th.fn(const(k))) for k in range(m)]
    try:
        t = L.closure_term(I, f, [x] + ps)
    except (_interp.Unsupported, KeyError, IndexError, TypeError, AttributeError, ValueError):
        t = mk('sym', '?closure')
    ex = [mk('kw', k, T(I, A.get(k))) for k in sorted(A.d) if k not in ('f', 'xdata', 'ydata') and A.get(k) is not NONE]
    h = mk('head', 'curve_fit', t, T(I, A.get('ydata')), *ex)
    hc = mk('head', 'curve_fit_cov', t, T(I, A.get('ydata')), *ex)
    return Tup([I.new_arr(Arr([const(m)], lambda k: el(h, P(k)))), I.new_arr(Arr([const(m), const(m)], lambda i, j: el(hc, P(i), P(j))))])


def f_linregress(I, q, args, kw):
    A = Args(I, q, ['x', 'y'], args, kw)
    return XObj('linreg', x=TVt(T(I, A.get('x'))), y=TVt(T(I, A.get('y'))))


def TVt(t):
    if isinstance(t, Poly):
        return Num(t)
    return TV(t)


def f_normaltest(I, q, args, kw):
    return XObj('nt', x=TVt(T(I, args[0])))


# ---------------------------------------------------------------- pyblock
BLOCK_FIELDS = ('block', 'ndata', 'mean', 'cov', 'std_err', 'std_err_err')
INT_FNS.update(['nblocks', 'optblock'])


def f_reblock(I, q, args, kw):
    """Blocking levels of one-dimensional data: their statistics are functions of the data and the level."""
    A = Args(I, q, ['data', 'rowvar', 'ddof', 'weights'], args, kw)
    a = as_arr(I, A.get('data'))
    if a is None or a.ndim != 1 or A.unknown or A.has('weights'):
        return opq(I, q, *args, *kw.values())
    ex = (mk('kw', 'ddof', T(I, A.get('ddof'))),) if A.has('ddof') and A.get('ddof') is not NONE and num(A.get('ddof')).cval() != 1 else ()
    return XObj('blocks', t=TVt(mk('tup', I.arr_term(a), *ex)))


def f_optblock(I, q, args, kw):
    A = Args(I, q, ['ndata', 'stats', 'check'], args, kw)
    o = A.get('stats')
    if not (isinstance(o, XObj) and o.kind == 'blocks') or A.has('check') or A.unknown:
        return opq(I, q, *args, *kw.values())
    return XObj('optblock', n=Num(numf(I, A.get('ndata'))), t=o.f['t'])


def block_found(o):
    return c_lt(0, fn('optblock_found', o.f['n'].p, o.f['t'].t))


def block_at(I, o, k):
    if isinstance(k, XObj) and k.kind == 'optindex':
        def none():
            I.raise_exc('TypeError')
        return I.split(block_found(k), lambda: XObj('block', t=o.f['t'], k=Num(fn('optblock', k.f['n'].p, k.f['t'].t), 'int')), none)
    p = numf(I, k)
    if L.prove_neg(I, p):
        p = fn('nblocks', o.f['t'].t) + 1 + p
    return XObj('block', t=o.f['t'], k=Num(p, 'int'))


def block_field(o, name):
    if name == 'block':
        return o.f['k']
    return Num(el(mk('head', 'block.' + name, o.f['t'].t), o.f['k'].p))


NONNEG_TENSORS.update(['block.cov', 'block.std_err', 'block.std_err_err', 'block.ndata'])


MAT1_DEFAULTS = {('cov_nearest', 'threshold'): Fraction(1, 10**15), ('cov_nearest', 'n_fact'): 100}
MAT1_ARGS = {'cov_nearest': ('method', 'threshold', 'n_fact'), 'pinvh': ('atol', 'rtol', 'lower', 'return_rank', 'check_finite')}


def f_mat1(name):
    def f(I, q, args, kw):
        a = as_arr(I, args[0])
        if a is None or a.ndim != 2:
            return opq(I, q, *args)
        t = I.arr_term(a)
        kw = dict(zip(MAT1_ARGS.get(q.rsplit('.', 1)[-1], ()), args[1:]), **kw)
        if len(args) - 1 > len(MAT1_ARGS.get(q.rsplit('.', 1)[-1], ())) or any(v is not NONE and k not in MAT1_ARGS.get(name, ()) and k not in ('check_finite', 'lower', 'atol', 'rtol', 'hermitian') for k, v in kw.items()):
            return opq(I, q, *args, *kw.values())
        ex = tuple(mk('kw', k, T(I, v)) for k, v in sorted(kw.items()) if v is not NONE and k in ('atol', 'rtol', 'method', 'threshold', 'n_fact')
                   and not (isinstance(v, Str) and v.s == 'clipped') and not (isinstance(v, Num) and v.p.cval() == MAT1_DEFAULTS.get((name, k), -1)))
        h = mk('head', name, t, *ex)
        return I.new_arr(Arr(a.shape, lambda i, j: el(h, P(i), P(j))))
    return f


def rs_cell(I, v):
    """Heap cell of the generator a random_state argument denotes."""
    if v is NONE or v is None:
        return I.rng
    if isinstance(v, XObj) and v.kind == 'rs':
        return v.f['cell']
    if isinstance(v, Num):
        return I.alloc_raw(RngC(fn('rngseed', v.p)))
    return None


def with_rs(I, v, f):
    if isinstance(v, IteV):
        return I.split(v.c, lambda: with_rs(I, v.a, f), lambda: with_rs(I, v.b, f))
    c = rs_cell(I, v)
    if c is None:
        return I.opaque('random_state', v)
    return f(c)


def f_resample(I, q, args, kw):
    a = I.arrval(args[0])
    if a is None:
        a = as_arr(I, args[0])
    if a is None or len(args) != 1:
        return opq(I, q, *args)
    n = kw.get('n_samples', NONE)
    x = as_arr(I, a)
    if x is None:
        return opq(I, q, *args)
    size = x.shape[0] if n is NONE else numf(I, n)
    ex = kwt(I, kw, ('random_state', 'n_samples'))
    ex = tuple(e for e in ex if not (e.args[0] == 'replace' and e.args[1] is TRUE))

    def go(cell):
        w = N.draw(I, cell, 'resample', [x.shape[0], size] + list(ex), [size], 'int')
        wa = as_arr(I, w)
        return I.new_arr(Arr([size] + list(x.shape[1:]), lambda k, *ix: x.fn(wa.fn(k), *ix), x.dtype))
    return with_rs(I, kw.get('random_state', NONE), go)


INT_TENSORS.add('draw_int')


def f_mvn(I, q, args, kw):
    A = Args(I, q, ['mean', 'cov', 'allow_singular', 'seed'], args, kw)
    return XObj('mvn', mean=I.freeze(A.get('mean'), I.st), cov=I.freeze(A.get('cov'), I.st),
                opts=TV(mk('tup', *[mk('kw', k, T(I, A.get(k))) for k in ('allow_singular',) if A.has(k)])), seed=A.get('seed'))


def mvn_method(I, o, name, args, kw):
    mean, cov = o.f['mean'], o.f['cov']
    m = as_arr(I, mean)
    if m is None or m.ndim != 1:
        return I.opaque('mvn', mean, cov)
    d = m.shape[0]
    if name == 'rvs':
        A = Args(I, name, ['size', 'random_state'], args, kw)
        sz = A.get('size') if A.has('size') else Num(1)
        shape = shape_of(I, sz)

        def go(cell):
            full = list(shape) + [d]
            r = N.draw(I, cell, 'mvn', [I.term(mean), I.term(cov), tuple(full)], full)
            return r
        return with_rs(I, A.get('random_state') if A.has('random_state') else o.f['seed'], go)
    if name in ('logpdf', 'pdf'):
        x = as_arr(I, args[0])
        if x is None or x.ndim != 1:
            return I.opaque('mvn.' + name, mean, cov)
        lp = mvn_logpdf(I, x, m, cov)
        if lp is None:
            return I.opaque('mvn.' + name, mean, cov)
        return Num(lp if name == 'logpdf' else mk_fn('exp', lp))
    return I.opaque('mvn.' + name, mean, cov)


def mvn_logpdf(I, x, m, cov):
    c = as_arr(I, cov)
    if c is None or c.ndim != 2:
        return None
    n = m.shape[0]
    t = I.arr_term(c)
    h = mk('head', 'pinvh', t)
    det = fn('det', t)
    q = sum_over(n, lambda i: sum_over(n, lambda j: (x.fn(i) - m.fn(i)) * el(h, P(i), P(j)) * (x.fn(j) - m.fn(j))))
    ld = mk_fn('log', mk_fn('abs', det))
    return (q + ld + n * mk_fn('log', 2 * PI)) * const(Fraction(-1, 2))


# ---------------------------------------------------------------- emcee
def f_sampler(I, q, args, kw):
    A = Args(I, q, ['nwalkers', 'ndim', 'log_prob_fn'], args, kw)
    n = numf(I, A.get('ndim'))
    t = closure(I, A.get('log_prob_fn'), n)
    I.event('sampler', (t, n))
    ex = tuple(mk('kw', k, T(I, A.get(k))) for k in sorted(A.d) if k not in ('nwalkers', 'ndim', 'log_prob_fn', 'pool', 'threads'))
    ref = I.alloc(DictC({'rng': Num(N.rng_state(I, I.rng)), 'pos': NONE, 'n': Num(0, 'int')}))
    return XObj('sampler', nwalkers=Num(numf(I, A.get('nwalkers'))), ndim=Num(n), lp=TVt(t), opts=TV(mk('tup', *ex)), cell=ref.id)


def sampler_method(I, o, name, args, kw):
    cell = o.f['cell']
    c = I.st.heap[cell]
    if name == 'run_mcmc':
        A = Args(I, name, ['initial_state', 'nsteps'], args, kw)
        ex = [mk('kw', k, T(I, A.get(k))) for k in sorted(A.d) if k not in ('initial_state', 'nsteps', 'progress', 'progress_kwargs', 'skip_initial_state_check', 'store')]
        d = dict(c.d)
        d['pos'] = TVt(mk('mcmc', T(I, d['pos']), T(I, d['n']), T(I, A.get('initial_state')), *ex))
        d['n'] = Num(numf(I, d['n']) + numf(I, A.get('nsteps')), 'int')
        I.st.heap[cell] = DictC(d)
        return I.opaque('mcmc-state', o)
    if name == 'reset':
        I.st.heap[cell] = DictC(dict(c.d, n=Num(0, 'int')))
        return NONE
    if name in ('get_chain', 'get_log_prob', 'flatchain'):
        A = Args(I, name, [], [], kw)
        thin = numf(I, kw.get('thin', Num(1)))
        disc = numf(I, kw.get('discard', Num(0)))
        flat = A.flag('flat')
        nst = numf(I, c.d['n'])
        nw, nd = o.f['nwalkers'].p, o.f['ndim'].p
        steps = L.gated2(div_, nst - disc, thin)
        h = mk('head', 'emcee' if name != 'get_log_prob' else 'emcee_lp', T(I, o.f['lp']), T(I, c.d['pos']), c.d['rng'].p, T(I, o.f['opts']), nst, nw)
        st = lambda k: disc + thin - 1 + thin * k
        tail = [] if name == 'get_log_prob' else [nd]
        if flat:
            return I.new_arr(Arr([steps * nw] + tail, lambda k, *ix: el(h, st(L.gated2(div_, P(k), nw)), L.gated2(mod_, P(k), nw), *ix)))
        return I.new_arr(Arr([steps, nw] + tail, lambda k, w, *ix: el(h, st(P(k)), w, *ix)))
    return I.opaque('sampler.' + name, o)


# ---------------------------------------------------------------- h5py
def store_ref(I, path):
    t = T(I, path)
    if t not in I.stores:
        i = I.next_id[0]
        I.next_id[0] += 1
        I.stores[t] = i
    i = I.stores[t]
    if i not in I.st.heap:
        I.st.heap[i] = DictC({})
    return i


def f_h5file(I, q, args, kw):
    A = Args(I, q, ['name', 'mode'], args, kw)
    p = A.get('name')
    m = A.get('mode')
    mode = m.s if isinstance(m, Str) else ('r' if m is NONE else '?')
    i = store_ref(I, p)
    I.event('h5open', (T(I, p), mode))
    if mode in ('w', 'w-', 'x'):
        I.st.heap[i] = DictC({})
    return XObj('h5file', cell=i, path=Str('/'), fname=TVt(T(I, p)))


def h5_norm(p):
    return '/'.join(x for x in p.split('/') if x)


def h5_get(I, o, k):
    if isinstance(k, Tup) and not k.items or k is ELLIPSIS:
        # dataset read
        if o.kind == 'h5ds':
            return h5_read(I, o)
    if not isinstance(k, Str):
        if o.kind == 'h5ds':
            return I.get_item(h5_read(I, o), k)
        return I.opaque('h5item', k)
    base = h5_norm(o.f['path'].s)
    s = k.s if isinstance(k.s, str) else k.s.decode()
    p = h5_norm(s if s.startswith('/') else base + '/' + s)
    c = I.st.heap[o.f['cell']]
    if p in c.d and c.d[p] is not UNDEF:
        return XObj('h5ds', cell=o.f['cell'], path=Str(p))
    if any(x.startswith(p + '/') for x in c.d) or p == '':
        return XObj('h5grp', cell=o.f['cell'], path=Str(p))
    I.raise_exc('KeyError')


def h5_read(I, o):
    v = I.st.heap[o.f['cell']].d[o.f['path'].s]
    return h5_decode(I, v)


def h5_decode(I, v):
    if isinstance(v, IteV):
        return I.split(v.c, lambda: h5_decode(I, v.a), lambda: h5_decode(I, v.b))
    if isinstance(v, Str):
        return Str(v.s.encode()) if isinstance(v.s, str) else v
    if isinstance(v, Num):
        return Num(v.p, 'npint' if v.kind in ('int', 'npint') else None)
    if isinstance(v, (Arr, Seq)):
        return I.new_arr(v)
    return v


def h5_set(I, o, k, v):
    if not isinstance(k, Str):
        I.opaque('h5set', k)
        I.note('h5 store with symbolic key')
        return
    base = h5_norm(o.f['path'].s)
    p = h5_norm(k.s if k.s.startswith('/') else base + '/' + k.s)
    c = I.st.heap[o.f['cell']]
    if p in c.d:
        I.raise_exc('OSError')
    fv = I.freeze(v, I.st)
    if isinstance(fv, (FDict, FObj)) or fv is NONE or isinstance(fv, XObj):
        I.raise_exc('TypeError')
    if isinstance(fv, (Seq, Tup)) and not (isinstance(fv, Seq) and fv.kind == 'array'):
        a = as_arr(I, fv)
        if a is None:
            I.raise_exc('TypeError')
        fv = a
    d = dict(c.d)
    d[p] = fv
    I.st.heap[o.f['cell']] = DictC(d)


def h5_children(I, o):
    c = I.st.heap[o.f['cell']]
    base = h5_norm(o.f['path'].s)
    pre = base + '/' if base else ''
    out = sorted({x[len(pre):].split('/')[0] for x in c.d if x.startswith(pre)})
    return out


def h5_method(I, o, name, args, kw):
    if name == 'items':
        ks = h5_children(I, o)
        return I.new_list([Tup([Str(k), h5_get(I, o, Str(k))]) for k in ks])
    if name == 'keys':
        return I.new_list([Str(k) for k in h5_children(I, o)])
    if name == 'values':
        return I.new_list([h5_get(I, o, Str(k)) for k in h5_children(I, o)])
    if name in ('__enter__',):
        return o
    if name in ('close', 'flush', '__exit__'):
        return NONE
    if name == 'create_dataset':
        A = Args(I, name, ['name', 'shape', 'dtype', 'data'], args, kw)
        h5_set(I, o, A.get('name'), N.narrowed(I, A.get('data'), A.d.get('dtype')))
        return NONE
    if name in ('create_group', 'require_group'):
        base = h5_norm(o.f['path'].s)
        return XObj('h5grp', cell=o.f['cell'], path=Str(h5_norm(base + '/' + args[0].s)))
    if name == 'get':
        return h5_get(I, o, args[0])
    if name in ('asstr',):
        return I.opaque('h5.asstr', o)
    return I.opaque('h5.' + name, o)


# ---------------------------------------------------------------- trajectory objects
# sizes and element tensors are named by symbols of the rule that builds them
def site(kind, i, info):
    return XObj(kind, i=Num(i, 'int'), info=info)


def ase_frame(k, n, traj='0'):
    """One ase.Atoms object: frame k (Poly) of trajectory label."""
    return XObj('ase', k=Num(k, 'int'), n=Num(n, 'int'), tr=Str(traj))


def pmg_frame(k, n, traj='0'):
    return XObj('pmg', k=Num(k, 'int'), n=Num(n, 'int'), tr=Str(traj))


def frame_arr(I, o, name, cols=3, rows=None):
    h = mk('head', name, mk('strc', o.f['tr'].s))
    k = o.f['k'].p
    rows = o.f['n'].p if rows is None else rows
    return I.new_arr(Arr([rows, const(cols)], lambda i, d: el(h, k, P(i), P(d)), 'float', frozenset({'input:trajectory'})))


def cell_arr(I, o, name):
    return frame_arr(I, o, name, 3, const(3))


def ase_attr(I, o, name):
    if name == 'cell':
        return XObj('asecell', frozenset({'input:trajectory'}), **o.f)
    if name == 'positions':
        return frame_arr(I, o, 'ase.positions')
    if name in ('get_scaled_positions', 'get_positions', 'get_volume', 'get_cell', 'get_chemical_symbols', 'get_global_number_of_atoms', 'get_masses', 'copy', 'wrap',
                '__len__', '__iter__', 'get_pbc', 'set_positions', 'set_scaled_positions', 'set_cell', 'center', 'translate', 'repeat'):
        return MethV(o, name)
    if name == 'symbols':
        return types_list(I, o)
    if name == 'arrays':
        return I.opaque('ase.arrays', o)
    return I.opaque('ase.' + name, o)


def type_of(o, i):
    return TV(mk('fn', 'type', mk('strc', o.f['tr'].s), P(i)), 'str')


def types_list(I, o):
    return I.alloc(ListC([Seg(n_of(o), lambda i: [Item(type_of(o, aidx(o, i)))])]))


def n_of(o):
    return o.f['n'].p


def aidx(o, i):
    if o.kind == 'ag':
        return o.f['a'].p + o.f['s'].p * P(i)
    return P(i)


def ase_method(I, o, name, args, kw):
    if name == 'get_scaled_positions':
        w = args[0] if args else kw.get('wrap')
        nw = w is not None and not (isinstance(w, BoolV) and w.c is TRUE)
        r = frame_arr(I, o, 'ase.scaled_unwrapped' if nw else 'ase.scaled')
        a = I.content(r).v
        return I.new_arr(Arr(a.shape, a.fn, a.dtype))
    if name == 'get_positions':
        if args or kw:
            return I.opaque('ase.get_positions', o)
        a = I.content(frame_arr(I, o, 'ase.positions')).v
        return I.new_arr(Arr(a.shape, a.fn, a.dtype))
    if name == 'get_volume':
        return Num(fn('volume', mk('strc', o.f['tr'].s), o.f['k'].p), 'float')
    if name == 'get_cell':
        return XObj('asecell', **o.f)
    if name == 'get_chemical_symbols':
        return types_list(I, o)
    if name in ('get_global_number_of_atoms', '__len__'):
        return Num(n_of(o), 'int')
    if name == 'copy':
        return XObj(o.kind, **o.f)
    if name in ('wrap', 'set_positions', 'set_scaled_positions', 'set_cell', 'center', 'translate'):
        I.event('mutate', (('input:trajectory',), 'ase.' + name))
        return NONE
    return I.opaque('ase.' + name, o, *args)


def pmg_attr(I, o, name):
    if name == 'frac_coords':
        return frame_arr(I, o, 'pmg.frac')
    if name == 'cart_coords':
        return frame_arr(I, o, 'pmg.cart')
    if name == 'lattice':
        return XObj('pmglatt', **o.f)
    if name == 'volume':
        return Num(fn('volume', mk('strc', o.f['tr'].s), o.f['k'].p), 'float')
    if name in ('sites',):
        return I.alloc(ListC([Seg(n_of(o), lambda i: [Item(site('pmgsite', P(i), o))])]))
    if name == 'num_sites':
        return Num(n_of(o), 'int')
    if name in ('species', 'labels'):
        return I.alloc(ListC([Seg(n_of(o), lambda i: [Item(XObj('pmgspecie', i=Num(P(i)), info=o))])]))
    return MethV(o, name)


def pmg_method(I, o, name, args, kw):
    if name in ('__len__',):
        return Num(n_of(o), 'int')
    if name == 'copy':
        return XObj(o.kind, **o.f)
    if name in ('translate_sites', 'remove_sites', 'append', 'sort', 'replace'):
        I.event('mutate', (('input:trajectory',), 'pymatgen.' + name))
        return NONE
    return I.opaque('pmg.' + name, o, *args)


def universe(I, n_frames, n_atoms, traj='0'):
    cell = I.alloc_raw(RngC(ZERO))
    return XObj('mdu', T=Num(n_frames, 'int'), n=Num(n_atoms, 'int'), tr=Str(traj), cell=cell)


def mdu_attr(I, o, name):
    f = o.f
    if name == 'trajectory':
        return XObj('mdtraj', a=Num(0, 'int'), s=Num(1, 'int'), len=f['T'], T=f['T'], n=f['n'], tr=f['tr'], cell=f['cell'])
    if name == 'atoms':
        return XObj('ag', a=Num(0, 'int'), s=Num(1, 'int'), n=f['n'], tr=f['tr'], cell=f['cell'])
    if name == 'dimensions':
        return mdu_dims(I, o)
    return MethV(o, name)


def mdu_dims(I, o):
    h = mk('head', 'md.dimensions', mk('strc', o.f['tr'].s))
    k = cur_frame(I, o)
    return I.new_arr(Arr([const(6)], lambda i: el(h, k, P(i))))


def cur_frame(I, o):
    if 'frame' in o.f:
        return o.f['frame'].p
    return I.st.heap[o.f['cell']].p


def ag_attr(I, o, name):
    if name == 'positions':
        h = mk('head', 'md.pos', mk('strc', o.f['tr'].s))
        k = cur_frame(I, o)
        a, s = o.f['a'].p, o.f['s'].p
        return I.new_arr(Arr([n_of(o), const(3)], lambda i, d: el(h, k, a + s * P(i), P(d)), 'float'))
    if name in ('types', 'names', 'elements'):
        if name != 'types':
            return I.opaque('md.' + name, o)
        return types_list(I, o)
    if name == 'n_atoms':
        return Num(n_of(o), 'int')
    if name in ('indices', 'ix'):
        a, s = o.f['a'].p, o.f['s'].p
        return I.new_arr(Arr([n_of(o)], lambda i: a + s * P(i), 'int'))
    if name == 'masses':
        h = mk('head', 'md.masses')
        return I.new_arr(Arr([n_of(o)], lambda i: el(h, o.f['a'].p + o.f['s'].p * P(i))))
    return MethV(o, name)


def slice_obj(I, o, k, n):
    st, ln, sp = L.slice_spec(I, k, n)
    a, s = o.f['a'].p, o.f['s'].p
    f = dict(o.f)
    f['a'] = Num(a + s * st, 'int')
    f['s'] = Num(s * sp, 'int')
    return f, ln


def ts_obj(o, frame):
    return XObj('mdts', frame=Num(frame, 'int'), tr=o.f['tr'], n=o.f['n'], cell=o.f['cell'])


def ts_attr(I, o, name):
    tr = mk('strc', o.f['tr'].s)
    k = o.f['frame'].p
    if name in ('frame',):
        return o.f['frame']
    if name == 'volume':
        return Num(fn('volume', tr, k), 'float')
    if name == 'triclinic_dimensions':
        h = mk('head', 'md.cell', tr)
        return I.new_arr(Arr([const(3), const(3)], lambda i, j: el(h, k, P(i), P(j))))
    if name == 'dimensions':
        h = mk('head', 'md.dimensions', tr)
        return I.new_arr(Arr([const(6)], lambda i: el(h, k, P(i))))
    if name == 'positions':
        h = mk('head', 'md.pos', tr)
        return I.new_arr(Arr([o.f['n'].p, const(3)], lambda i, d: el(h, k, P(i), P(d))))
    if name == 'n_atoms':
        return o.f['n']
    return I.opaque('md.ts.' + name, o)


# ---------------------------------------------------------------- dispatch
def x_chunks(I, o):
    k = o.kind
    if k in ('ase', 'pmg', 'ag'):
        sk = {'ase': 'asesite', 'pmg': 'pmgsite', 'ag': 'mdatom'}[k]
        return [('seg', n_of(o), lambda i: (TRUE, site(sk, aidx(o, i), o)))]
    if k == 'mdtraj':
        a, s = o.f['a'].p, o.f['s'].p
        cell = o.f['cell']

        def step(i):
            fr = a + s * P(i)
            I.st.heap[cell] = RngC(fr)
            return (TRUE, ts_obj(o, fr))
        return [('seg', o.f['len'].p, step)]
    if k == 'enumerate':
        out = []
        pos = o.f['start'].p
        for ch in L.chunks(I, o.f['it']):
            if ch[0] == 'item':
                out.append(('item', ch[1], Tup([Num(pos, 'int'), ch[2]])))
                pos = pos + ite(ch[1], ONE, ZERO)
            else:
                def f(i, ch=ch, pos=pos):
                    g, v = ch[2](i)
                    if g is not TRUE:
                        raise _interp.Unsupported('enumerate guarded')
                    return g, Tup([Num(pos + P(i), 'int'), v])
                out.append((ch[0], ch[1], f))
                pos = pos + ch[1]
        return out
    if k == 'zip':
        cs = [L.chunks(I, x) for x in o.f['its'].items]
        if all(len(c) == 1 and c[0][0] != 'item' for c in cs):
            n = cs[0][0][1]
            for c in cs[1:]:
                n = n if n == c[0][1] else L.mini(n, c[0][1])

            def f(i):
                rs = [c[0][2](i) for c in cs]
                g = TRUE
                for r in rs:
                    g = c_and(g, r[0])
                return g, Tup([r[1] for r in rs])
            return [('seg', n, f)]
        raise _interp.Unsupported('zip over objects')
    if k in ('h5file', 'h5grp'):
        return [('item', TRUE, Str(c)) for c in h5_children(I, o)]
    if k == 'star':
        return L.chunks(I, o.f['seq'])
    if k == 'blocks':
        return [('seg', fn('nblocks', o.f['t'].t) + 1, lambda i: (TRUE, XObj('block', t=o.f['t'], k=Num(i, 'int'))))]
    if k == 'optblock':
        return [('item', TRUE, XObj('optindex', **o.f))]
    if k == 'block':
        return [('item', TRUE, block_field(o, n)) for n in BLOCK_FIELDS]
    if k in ('nt',):
        return [('item', TRUE, x_get_item(I, o, Num(j))) for j in (0, 1)]
    if k == 'asecell':
        return L.chunks(I, cell_arr(I, o, 'ase.cell'))
    raise _interp.Unsupported('iterate X:%s' % k)


def x_as_arr(I, o):
    if o.kind == 'asecell':
        return as_arr(I, cell_arr(I, o, 'ase.cell'))
    if o.kind == 'dist':
        return None
    if o.kind == 'h5ds':
        return as_arr(I, h5_read(I, o))
    if o.kind in ('zip', 'enumerate'):
        return None
    return None


def x_get_item(I, o, k):
    if o.kind == 'index_exp':
        return k
    if o.kind == 'asecell':
        return I.get_item(cell_arr(I, o, 'ase.cell'), k)
    if o.kind in ('h5file', 'h5grp', 'h5ds'):
        return h5_get(I, o, k)
    if o.kind == 'mdtraj':
        if isinstance(k, SliceV):
            f, ln = slice_obj(I, o, k, o.f['len'].p)
            f['len'] = Num(ln, 'int')
            return XObj('mdtraj', **f)
        p = numf(I, k)
        if L.prove_neg(I, p):
            p = p + o.f['len'].p
        fr = o.f['a'].p + o.f['s'].p * p
        I.st.heap[o.f['cell']] = RngC(fr)
        return ts_obj(o, fr)
    if o.kind == 'ag':
        if isinstance(k, SliceV):
            f, ln = slice_obj(I, o, k, n_of(o))
            f['n'] = Num(ln, 'int')
            return XObj('ag', **f)
        if isinstance(k, Num):
            return site('mdatom', aidx(o, k.p), o)
        return I.opaque('ag-index', o, k)
    if o.kind in ('ase', 'pmg') and isinstance(k, Num):
        return site('asesite' if o.kind == 'ase' else 'pmgsite', k.p, o)
    if o.kind == 'blocks' and not isinstance(k, SliceV):
        return block_at(I, o, k)
    if o.kind == 'optblock' and asint(k) in (0, -1):
        return XObj('optindex', **o.f)
    if o.kind == 'block' and asint(k) is not None:
        return block_field(o, BLOCK_FIELDS[asint(k)])
    if o.kind == 'nt':
        j = asint(k)
        return Num(fn('normaltest_p' if j == 1 else 'normaltest_stat', T(I, o.f['x'])))
    if o.kind == 'linreg':
        j = asint(k)
        return x_get_attr(I, o, ['slope', 'intercept', 'rvalue', 'pvalue', 'stderr'][j], None)
    if o.kind == 'optres' and isinstance(k, Str):
        return x_get_attr(I, o, k.s, None)
    if isinstance(k, Str) and k.s == 'slope' and o.kind == 'linreg':
        return x_get_attr(I, o, 'slope', None)
    if o.kind == 'type':
        return o
    return I.opaque('getitem:' + o.kind, o, k)


def x_set_item(I, o, k, v):
    if o.kind in ('h5file', 'h5grp'):
        h5_set(I, o, k, v)
        return
    if o.kind in ('asecell',):
        I.event('mutate', (('input:trajectory',), 'cell store'))
        return
    I.note('store into X:%s' % o.kind)


def x_get_attr(I, o, name, default=None):
    k = o.kind
    if k == 'dist':
        r = dist_attr(I, o, name)
        if r is None:
            if default is not None:
                return default
            I.raise_exc('AttributeError')
        return r
    if k == 'xdatcar':
        if name == 'structures':
            v = I.stores.get('xdatcar', {}).get(o.f['name'].s)
            if v is not None:
                return v
        return I.opaque('xdatcar.' + name, o)
    if k == 'ase':
        return ase_attr(I, o, name)
    if k == 'pmg':
        return pmg_attr(I, o, name)
    if k == 'mdu':
        return mdu_attr(I, o, name)
    if k == 'ag':
        return ag_attr(I, o, name)
    if k == 'mdts':
        return ts_attr(I, o, name)
    if k == 'mdtraj':
        if name in ('n_frames',):
            return o.f['T']
        if name in ('ts',):
            return ts_obj(o, I.st.heap[o.f['cell']].p)
        return MethV(o, name)
    if k == 'asesite':
        if name == 'symbol':
            return type_of(o.f['info'], o.f['i'].p)
        if name == 'index':
            return o.f['i']
        return I.opaque('ase.site.' + name, o)
    if k == 'pmgsite':
        if name == 'specie':
            return XObj('pmgspecie', i=o.f['i'], info=o.f['info'])
        if name == 'species_string':
            return type_of(o.f['info'], o.f['i'].p)
        if name == 'frac_coords':
            a = frame_arr(I, o.f['info'], 'pmg.frac')
            return I.get_item(a, o.f['i'])
        return I.opaque('pmg.site.' + name, o)
    if k == 'pmgspecie':
        if name == 'symbol':
            return TV(mk('fn', 'symbol', type_of(o.f['info'], o.f['i'].p).t), 'str')
        return MethV(o, name)
    if k == 'pmglatt':
        if name == 'matrix':
            return cell_arr(I, o, 'pmg.cell')
        if name == 'volume':
            return Num(fn('volume', mk('strc', o.f['tr'].s), o.f['k'].p), 'float')
        return I.opaque('pmg.lattice.' + name, o)
    if k == 'asecell':
        if name == 'array':
            return cell_arr(I, o, 'ase.cell')
        if name == 'volume':
            return Num(fn('volume', mk('strc', o.f['tr'].s), o.f['k'].p), 'float')
        return MethV(o, name)
    if k == 'mdatom':
        if name == 'type':
            return type_of(o.f['info'], o.f['i'].p)
        if name in ('index', 'ix'):
            return o.f['i']
        if name == 'position':
            return I.get_item(ag_attr(I, XObj('ag', a=Num(0), s=Num(1), n=o.f['info'].f['n'], tr=o.f['info'].f['tr'], cell=o.f['info'].f['cell']), 'positions'), o.f['i'])
        return I.opaque('md.atom.' + name, o)
    if k == 'optres':
        if name == 'x':
            return I.new_arr(o.f['x'])
        return TV(mk('fn', 'optres.' + name, I.term(o.f['x'])))
    if k == 'linreg':
        t = (T(I, o.f['x']), T(I, o.f['y']))
        return Num(fn('linregress.' + name, *t))
    if k == 'block' and name in BLOCK_FIELDS:
        return block_field(o, name)
    if k == 'nt':
        if name in ('pvalue', 'statistic'):
            return x_get_item(I, o, Num(1 if name == 'pvalue' else 0))
        return I.opaque('normaltest.' + name, o)
    if k == 'finfo':
        return Num(fn('finfo.' + name))
    if k == 'dtype':
        if name == 'itemsize':
            return Num(1 if o.f['name'].s == 'bool' else 8, 'int')
        if name == 'kind':
            return Str({'int': 'i', 'float': 'f', 'bool': 'b'}.get(o.f['name'].s, 'O'))
        return I.opaque('dtype.' + name, o)
    if k == 'type' and name == '__name__':
        return o.f['name']
    if k in ('h5ds',) and name in ('shape', 'size', 'ndim', 'dtype'):
        return I.get_attr(h5_read(I, o), name)
    if k == 'mvn' and name in ('mean', 'cov'):
        return I.thaw(o.f[name])
    if k == 'sampler' and name == 'flatchain':
        return sampler_method(I, o, 'get_chain', [], {'flat': BoolV(TRUE)})
    if k == 'sampler' and name == 'chain':
        return I.opaque('sampler.chain', o)
    if k == 'exc' and name in ('args', 'message'):
        return I.opaque('exc.' + name)
    return MethV(o, name)


def x_set_attr(I, o, name, v):
    if o.kind == 'dist':
        I.event('mutate', (('samples of a distribution',), 'attribute ' + name))
        I.note('attribute store on a distribution')
        return
    if o.kind in ('ase', 'pmg', 'mdu', 'ag', 'mdts'):
        I.event('mutate', (('input:trajectory',), o.kind + '.' + name))
        return
    if o.kind == 'sampler':
        if name in ('_random', 'random_state'):
            c = I.st.heap[o.f['cell']]
            cell = rs_cell(I, v)
            I.st.heap[o.f['cell']] = DictC(dict(c.d, rng=Num(N.rng_state(I, cell)) if cell is not None else Num(fn('?rs'))))
            return
    I.note('attribute store on X:%s.%s' % (o.kind, name))


def x_method(I, o, name, args, kw):
    k = o.kind
    if k == 'rs':
        return N.rng_method(I, o.f['cell'], name, args, kw)
    if k == 'dist':
        if name == 'to_dict':
            s = o.f['samples']
            return I.alloc(DictC({'name': o.f['name'], 'samples': I.new_arr(s) if isinstance(s, (Arr, Seq)) else s}))
        return I.opaque('dist.' + name, o)
    if k == 'ase':
        return ase_method(I, o, name, args, kw)
    if k == 'pmg':
        return pmg_method(I, o, name, args, kw)
    if k == 'asecell':
        if name in ('copy',):
            return o
        if name == '__array__':
            return cell_arr(I, o, 'ase.cell')
        return I.opaque('asecell.' + name, o)
    if k in ('h5file', 'h5grp', 'h5ds'):
        return h5_method(I, o, name, args, kw)
    if k == 'sampler':
        return sampler_method(I, o, name, args, kw)
    if k == 'mvn':
        return mvn_method(I, o, name, args, kw)
    if k == 'pmgspecie' and name in ('__str__',):
        return type_of(o.f['info'], o.f['i'].p)
    if k in ('ctx', 'h5file') and name == '__enter__':
        return o
    if k == 'ctx':
        return NONE
    if k == 'superext':
        return ext_super_method(I, o, name, args, kw)
    if k in ('ag', 'mdtraj') and name == '__len__':
        return Num(x_len_p(o), 'int')
    if k == 'ag' and name == 'select_atoms':
        return I.opaque('select_atoms', o, *args)
    if k == 'tqdm':
        return NONE
    return I.opaque('X:%s.%s' % (k, name), o, *args)


def x_call(I, o, args, kw):
    if o.kind == 'rs' and False:
        return NONE
    return I.opaque('call X:' + o.kind, o, *args)


def x_len_p(o):
    if o.kind in ('ase', 'pmg', 'ag', 'mdu'):
        return n_of(o)
    if o.kind == 'mdtraj':
        return o.f['len'].p
    if o.kind == 'asecell':
        return const(3)
    if o.kind == 'blocks':
        return fn('nblocks', o.f['t'].t) + 1
    if o.kind == 'optblock':
        return ONE
    return None


def x_len(I, o):
    p = x_len_p(o)
    if p is not None:
        return Num(p, 'int')
    if o.kind in ('h5file', 'h5grp'):
        return Num(len(h5_children(I, o)), 'int')
    if o.kind == 'dist':
        I.raise_exc('TypeError')
    if o.kind == 'h5ds':
        return L.b_len(I, [h5_read(I, o)], {})
    return I.opaque('len', o)


def x_str(I, o):
    if o.kind == 'pmgspecie':
        return type_of(o.f['info'], o.f['i'].p)
    return None


TYPES = {'dist': {'Distribution'}, 'rs': {'RandomState'}, 'h5ds': {'Dataset'}, 'h5grp': {'Group'}, 'h5file': {'File', 'Group'},
         'ase': {'Atoms'}, 'pmg': {'Structure', 'IStructure', 'Sequence'}, 'mdu': {'Universe'}, 'ag': {'AtomGroup'}, 'pmgspecie': {'Element', 'Species', 'Specie'}}


def x_types(o):
    if o.kind == 'exc':
        return {o.f['cls']}
    return set(TYPES.get(o.kind, {'X:' + o.kind}))


def x_binop(I, op, a, b):
    for x in (a, b):
        if isinstance(x, XObj) and x.kind == 'asecell':
            aa = cell_arr(I, a, 'ase.cell') if isinstance(a, XObj) else a
            bb = cell_arr(I, b, 'ase.cell') if isinstance(b, XObj) else b
            return I.binop(op, aa, bb)
    return None


# ---------------------------------------------------------------- subclasses of external classes
def ext_init(I, o, ext, args, kw):
    """Instantiate a repository class whose external base provides __init__."""
    return ext_super_init(I, o, ext.q, args, kw)


def ext_super_init(I, inst, q, args, kw):
    if q.endswith('Relationship'):
        A = Args(I, q, ['function', 'abscissa', 'ordinate', 'bounds', 'ordinate_error'], args, kw)
        I.set_attr(inst, 'function', A.get('function'))
        I.set_attr(inst, 'abscissa', A.get('abscissa'))
        I.set_attr(inst, '__ordinate', A.get('ordinate'))
        I.set_attr(inst, 'bounds', A.get('bounds'))
        I.set_attr(inst, '__ordinate_error', A.get('ordinate_error'))
        f = A.get('function')
        m = None
        if isinstance(f, FuncV):
            m = len(f.node.args.args) - 1
        I.event('relationship', (inst.id if isinstance(inst, Ref) else 0, A.d))
        n = sym('n_flat', int_=True, lo=1)
        I.set_attr(inst, 'variables', I.new_list([XObj('dist', samples=Arr([n], lambda k, j=j: el(mk('head', 'rel.variable', const(j)), P(k))), name=Str('v%d' % j)) for j in range(m or 0)]))
        return NONE
    I.note('external base init %s' % q)
    return NONE


def ext_super_method(I, o, name, args, kw):
    if name == '__init__':
        return ext_super_init(I, o.f['inst'], o.f['base'].s, args, kw)
    return I.opaque('super:' + o.f['base'].s + '.' + name, *args)


def ext_instance_attr(I, o, base, name, attrs):
    if base.q.endswith('Relationship'):
        if name == 'x':
            v = attrs.get('abscissa')
            if v is not None:
                return v
        if name == 'flatchain' and 'variables' in attrs:
            vs = L.segs_of(I, attrs['variables'])
            if all(isinstance(x, Item) for x in vs):
                ss = [x_get_attr(I, x.v, 'samples') if isinstance(x.v, XObj) else I.get_attr(x.v, 'samples') for x in vs]
                return I.get_attr(I.call(ExtV('numpy.array'), [I.new_list(ss)], {}), 'T')
        if name == 'y':
            v = attrs.get('__ordinate')
            if v is not None:
                return TV(mk('fn', 'rel.y', T(I, v)))
        if name in ('mcmc', 'max_likelihood', 'bayesian_inference', 'nested_sampling', 'to_dict', 'log_likelihood', 'sample'):
            return TV(mk('fn', 'rel.' + name))
        if name == 'len_parameters':
            return Num(len(attrs['function'].node.args.args) - 1, 'int') if isinstance(attrs.get('function'), FuncV) else None
        if name not in ('ln_evidence', 'mcmc_results', 'nested_sampling_results', 'variable_medians', 'variable_modes', 'mcmc_done', 'nested_sampling_done', 'get_sample',
                        'bayesian_information_criteria', 'prior', 'posterior_predictive', 'ordinate') and not name.startswith('__'):
            I.raise_exc('AttributeError')
        return I.opaque('rel.' + name)
    return None


# ---------------------------------------------------------------- calls
def f_tqdm(I, q, args, kw):
    v = args[0] if args else kw.get('iterable', NONE)
    if q.endswith('trange'):
        return L.b_range(I, args, {})
    return v


def f_warn(I, q, args, kw):
    I.event('warn', tuple(args[:1]))
    return NONE


def f_splitext(I, q, args, kw):
    v = args[0]
    if isinstance(v, Str):
        import posixpath
        a, b = posixpath.splitext(v.s)
        return Tup([Str(a), Str(b)])
    t = T(I, v)
    return Tup([TV(mk('fn', 'splitext_root', t), 'str'), TV(mk('fn', 'splitext_ext', t), 'str')])


def f_xdatcar(I, q, args, kw):
    f = args[0] if args else kw.get('filename', NONE)
    if isinstance(f, Str):
        return XObj('xdatcar', name=f)
    return I.opaque('ext:' + q, *args)


def f_exists(I, q, args, kw):
    return BoolV(c_b('exists', T(I, args[0])))


def f_relationship(I, q, args, kw):
    return I.opaque('ext:' + q, *args)


CALLS = {
    'uravu.distribution.Distribution': lambda I, q, a, k: mk_dist(I, a[0] if a else k.get('samples', NONE), a[1] if len(a) > 1 else k.get('name')),
    'uravu.distribution.Distribution.from_dict': lambda I, q, a, k: dist_from_dict(I, a[0] if a else k.get('my_dict')),
    'tqdm.tqdm': f_tqdm, 'tqdm.trange': f_tqdm, 'tqdm.std.tqdm': f_tqdm,
    'warnings.warn': f_warn, 'logging.warning': f_warn,
    'warnings.catch_warnings': lambda I, q, a, k: XObj('ctx'),
    'warnings.simplefilter': lambda I, q, a, k: NONE, 'warnings.filterwarnings': lambda I, q, a, k: NONE,
    'os.path.splitext': f_splitext,
    'os.path.exists': f_exists, 'os.path.isfile': f_exists, 'os.path.lexists': f_exists,
    'scipy.optimize.minimize': f_minimize, 'scipy.optimize.curve_fit': f_curve_fit,
    'scipy.stats.linregress': f_linregress, 'scipy.stats.normaltest': f_normaltest,
    'scipy.linalg.pinvh': f_mat1('pinvh'), 'scipy.linalg.pinv': f_mat1('pinv'),
    'scipy.stats.multivariate_normal': f_mvn,
    'statsmodels.stats.correlation_tools.cov_nearest': f_mat1('cov_nearest'),
    'sklearn.utils.resample': f_resample,
    'emcee.EnsembleSampler': f_sampler, 'emcee.ensemble.EnsembleSampler': f_sampler,
    'h5py.File': f_h5file,
    'pyblock.blocking.reblock': f_reblock, 'pyblock.blocking.find_optimal_block': f_optblock,
    'pymatgen.io.vasp.Xdatcar': f_xdatcar, 'pymatgen.io.vasp.outputs.Xdatcar': f_xdatcar,
    'copy.copy': lambda I, q, a, k: copy_val(I, a[0]), 'copy.deepcopy': lambda I, q, a, k: I.thaw(I.freeze(a[0], I.st)),
    'itertools.chain': lambda I, q, a, k: chain(I, a), 'itertools.chain.from_iterable': lambda I, q, a, k: chain_from(I, a[0]),
    'functools.partial': lambda I, q, a, k: partial(I, a, k),
    'operator.itemgetter': lambda I, q, a, k: I.opaque('itemgetter', *a),
}


def partial(I, a, k):
    return XObj('partial', f=a[0], args=Tup(a[1:]), kw=FDict(k))


_old_x_call = x_call


def x_call(I, o, args, kw):
    if o.kind == 'partial':
        kk = dict(o.f['kw'].d)
        kk.update(kw)
        return I.call(o.f['f'], list(o.f['args'].items) + list(args), kk)
    return _old_x_call(I, o, args, kw)


def copy_val(I, v):
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, ListC):
            return I.alloc(ListC(list(c.segs), frozenset(), c.kind))
        if isinstance(c, DictC):
            return I.alloc(DictC(dict(c.d)))
        if isinstance(c, ArrC):
            return N.f_copy(I, 'numpy.copy', [v], {})
        if isinstance(c, ObjC):
            return I.alloc(ObjC(c.cls, dict(c.attrs)))
    return v


def chain(I, args):
    segs = []
    for a in args:
        segs += L.segs_of(I, a)
    return Seq(segs, 'gen')


def chain_from(I, v):
    its = N._items(I, v)
    if its is not None:
        return chain(I, its)
    return I.opaque('chain', v)


def call(I, q, args, kw):
    for n, a in enumerate(args):
        if isinstance(a, IteV) and (q in CALLS):
            return I.split(a.c, lambda: call(I, q, args[:n] + [a.a] + args[n + 1:], kw),
                           lambda: call(I, q, args[:n] + [a.b] + args[n + 1:], kw))
    f = CALLS.get(q)
    if f is None and q.endswith('.Distribution'):
        f = CALLS['uravu.distribution.Distribution']
    if f is None and q.endswith('.Distribution.from_dict'):
        f = CALLS['uravu.distribution.Distribution.from_dict']
    if f is None and q.startswith('scipy.stats.multivariate_normal.'):
        m = q.split('.')[-1]
        if m in ('logpdf', 'pdf'):
            o = f_mvn(I, q, args[1:], {k: v for k, v in kw.items()})
            return mvn_method(I, o, m, args[:1], {})
        if m == 'rvs':
            A = Args(I, q, ['mean', 'cov', 'size', 'random_state'], args, kw)
            o = f_mvn(I, q, [A.get('mean'), A.get('cov')], {})
            return mvn_method(I, o, 'rvs', [], {k: A.get(k) for k in ('size', 'random_state') if A.has(k)})
    if f is None:
        I.event('extcall', (q,))
        return opq(I, q, *args, *kw.values())
    try:
        return f(I, q, args, kw)
    except _interp.Unsupported:
        return opq(I, q, *args)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError):
        import os
        if os.environ.get('KV_DEBUG'):
            raise
        return opq(I, q, *args)
