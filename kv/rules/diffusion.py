"""Rules about mean-squared displacements, covariance, sampling and conversion."""
from ..checker import *
from .parser import as_array, sum3, HALF, B

D_ = 'kinisi.diffusion.'
BOOT = D_ + 'Bootstrap'
KINDS = {'MSD': D_ + 'MSDBootstrap', 'MSTD': D_ + 'MSTDBootstrap', 'MSCD': D_ + 'MSCDBootstrap'}
DIMS = {'x': (0,), 'y': (1,), 'z': (2,), 'xy': (0, 1), 'xz': (0, 2), 'yz': (1, 2), 'xyz': (0, 1, 2)}


class Obs:
    """Symbolic displacement windows: n intervals, N atoms, M_i windows each, and the reference statistics of them."""

    def __init__(self, ck, kind, dim='xyz', sub=None, charge='scalar', n=None, lo=2):
        I = self.I = ck.I
        self.kind, self.dim = kind, dim
        self.n = n if n is not None else sym('n', True, 2)
        # the variance needs two observations: two windows, or a single window of two atoms
        self.N = sym('N', True, 1 if lo > 1 else 2)
        M = tensor('M', int_=True, lo=lo)
        d = tensor('d')
        no = tensor('no', pos=True)
        dt = tensor('dt', nonneg=True)
        self.M0 = lambda i: el(M, i)
        self.sub = P(1) if sub is None else sub
        self.M = lambda i: el(M, P(i) * self.sub)
        self.d = lambda i, a, t, x: el(d, P(i) * self.sub, a, t, x)
        self.no = lambda i: el(no, P(i) * self.sub)
        self.dt = lambda i: el(dt, P(i) * self.sub)
        self.disp = lst(I, self.n, lambda i: Arr([self.N, el(M, i), 3], lambda a, t, x, i=i: el(d, i, a, t, x)), 'input:disp_3d')
        self.dtv = I.new_arr(Arr([self.n], lambda i: el(dt, i), 'float', frozenset(['input:delta_t'])))
        self.nov = I.new_arr(Arr([self.n], lambda i: el(no, i), 'float', frozenset(['input:n_o'])))
        self.q = None
        self.args = [self.dtv, self.disp]
        if kind == 'MSCD':
            if charge == 'scalar':
                self.qv = num('q')
                self.q = lambda a: self.qv.p
            else:
                qh = tensor('qa')
                self.qv = I.new_arr(Arr([self.N], lambda a: el(qh, a), 'float', frozenset(['input:ionic_charge']))) if charge == 'array' else flist(I, 'qa', self.N, 'input:ionic_charge')
                self.q = lambda a: el(qh, a)
            self.args.append(self.qv)
        self.args.append(self.nov)

    @property
    def comps(self):
        return DIMS[(self.dim.decode() if isinstance(self.dim, bytes) else self.dim).lower()]

    def count(self):
        """number of intervals analysed"""
        k = mk_fn('ceil', self.n / self.sub) if self.sub.cval() != 1 else self.n
        return k if self.kind == 'MSD' else div_(k, 2)

    def d2(self, i, a, t):
        return sum((self.d(i, a, t, const(x))**2 for x in self.comps), ZERO)

    def obs(self, i):
        """(size, f(list of indices)) of the observations whose mean is the reported value"""
        if self.kind == 'MSD':
            return [self.N, self.M(i)], lambda a, t: self.d2(i, a, t)
        w = self.q or (lambda a: ONE)
        return [self.M(i)], lambda t: sum((sum_over(self.N, lambda a: w(a) * self.d(i, a, t, const(x)))**2 for x in self.comps), ZERO)

    def size(self, i):
        r = ONE
        for s in self.obs(i)[0]:
            r = r * s
        return r

    def sum(self, i, g=lambda x: x):
        sz, f = self.obs(i)
        if len(sz) == 1:
            return sum_over(sz[0], lambda t: g(f(t)))
        return sum_over(sz[0], lambda a: sum_over(sz[1], lambda t: g(f(a, t))))

    def mean(self, i):
        return self.sum(i) / self.size(i)

    def var(self, i):
        m = self.mean(i)
        return self.sum(i, lambda x: (x - m)**2) / (self.size(i) - 1)

    def independent(self, i):
        return self.no(i) if self.kind == 'MSD' else self.no(i) / self.N

    def v(self, i):
        return self.var(i) / self.independent(i)

    def blocked(self, i, what):
        """statistic of the optimal blocking level of the observations, or of the last level if there is none"""
        sz, f = self.obs(i)
        flat = Arr([sz[0]], f) if len(sz) == 1 else Arr([sz[0] * sz[1]], lambda j: f(div_(j, sz[1]), mod_(j, sz[1])))
        t = mk('tup', self.I.arr_term(flat))
        h = mk('head', 'block.' + what, t)
        n = self.size(i)
        return ite(c_lt(0, fn('optblock_found', n, t)), el(h, fn('optblock', n, t)), el(h, fn('nblocks', t)))

    def ngp(self, i):
        m = sum_over(self.N, lambda a: sum_over(self.M(i), lambda t: self.d2(i, a, t))) / (self.N * self.M(i))
        m2 = sum_over(self.N, lambda a: sum_over(self.M(i), lambda t: self.d2(i, a, t)**2)) / (self.N * self.M(i))
        return 3 * m2 / (5 * m**2) - 1


def kwargs(o, **kw):
    d = dict(progress=B(False))
    if o.dim != 'xyz':
        d['dimension'] = Str(o.dim)
    if o.sub.cval() != 1:
        d['sub_sample_dt'] = Num(o.sub, 'int')
    d.update(kw)
    return d


def stat_configs(ck, dims=('xyz',)):
    for kind in KINDS:
        for dim in dims:
            for sub in (None, 'k'):
                for charge in (('scalar', 'array', 'list') if kind == 'MSCD' else (None,)):
                    if len(dims) > 1 and (sub or charge in ('array', 'list')):
                        continue
                    yield kind, dim, sub, charge


def build(ck, kind, dim='xyz', sub=None, charge='scalar', lo=2, n=None, **kw):
    C = ck.C
    C.reset()
    o = Obs(ck, kind, dim, (const(sub) if isinstance(sub, int) else sym('k', True, 1)) if sub else None, charge, lo=lo, n=None if n is None else const(n))
    r = C.run(KINDS[kind], o.args, kwargs(o, **kw))
    return o, r


def check_arr(ck, r, name, attr, want, at, assume=TRUE):
    v = ck.C.attr(r.value, attr)
    if v.value is None:
        ck.flag(name, False if v.raised else None, at, 'reading %s raises' % attr)
        return
    ck.eq(name, v.value, want, at, assume=assume)


def c09(ck):
    """The stored mean of every interval is compared in index notation with the mean over atoms and windows of the squared projected
    displacement (self), and over windows of the squared (charge-weighted) sum over atoms (collective), for every dimension choice,
    interval sub-sampling and charge form; any number of intervals and, with the loop unrolled, six."""
    for kind, dim, sub, charge, n in [(*c, None) for c in list(stat_configs(ck)) + list(stat_configs(ck, tuple(DIMS)[:-1]))] + [(k, 'xyz', s, 'scalar', 6) for k in KINDS for s in (None, 2)]:
        at = KINDS[kind]
        with ck.config('%s dimension=%s%s%s%s' % (kind, dim, ' sub_sample_dt' if sub else '', ' charge:' + charge if charge else '', ' %d intervals' % n if n else ''), at):
            o, r = build(ck, kind, dim, sub, charge, n=n)
            if not ck.ran(r, at):
                continue
            ck.no_raise(r, at)
            check_arr(ck, r, 'mean of each interval', 'n', Arr([o.count()], o.mean), at)
    for kind, dim, sub in [(k, d, s) for k in KINDS for d, s in (('xyz', None), ('xz', None), ('xyz', 'k'))]:
        at = KINDS[kind]
        with ck.config('%s dimension=%s%s, blocking' % (kind, dim, ' sub_sample_dt' if sub else ''), at):
            o, r = build(ck, kind, dim, sub, block=B(True))
            if not ck.ran(r, at):
                continue
            ck.no_raise(r, at)
            check_arr(ck, r, 'mean of each interval', 'n', Arr([o.count()], lambda i: o.blocked(i, 'mean')), at)


def c10(ck):
    """Variance, standard deviation, time, observation count and non-Gaussian parameter arrays are compared element by element and in
    length with their definitions for the same interval (any number of intervals, and six with the loop unrolled); the recorded displacement samples with the projected distances."""
    for kind, dim, sub, charge, lo, n in ([(*c, 2, None) for c in stat_configs(ck)] + [(k, d, None, 'scalar', 2, None) for d in ('xz', 'y') for k in KINDS] + [('MSD', 'xyz', None, None, 1, None)]
                                          + [(k, 'xyz', s, 'scalar', 2, 6) for k in KINDS for s in (None, 2)]):
        at = KINDS[kind]
        with ck.config('%s dimension=%s%s%s%s%s' % (kind, dim, ' sub_sample_dt' if sub else '', ' charge:' + charge if charge else '', ' any number of windows' if lo == 1 else '', ' %d intervals' % n if n else ''), at):
            o, r = build(ck, kind, dim, sub, charge, lo, n=n)
            if not ck.ran(r, at):
                continue
            K = o.count()
            check_arr(ck, r, 'variance of the mean', 'v', Arr([K], o.v), at)
            check_arr(ck, r, 'standard deviation', 's', Arr([K], lambda i: o.v(i).power(Fraction(1, 2))), at)
            check_arr(ck, r, 'time of each interval', 'dt', Arr([K], o.dt), at)
            check_arr(ck, r, 'observation counts', 'n_i', Arr([K], o.no), at)
            check_arr(ck, r, 'non-Gaussian parameter', 'ngp', Arr([K], o.ngp), at)
            I = ck.I
            e = ck.C.attr(r.value, 'euclidian_displacements').value
            want = Seq([Seg(K, lambda i: [Item(Arr([o.N * o.M(i)], lambda j: o.d2(i, div_(j, o.M(i)), mod_(j, o.M(i))).power(Fraction(1, 2))))])], 'list')
            ck.eq('Euclidean displacement samples', dist_seq(I, e), want, at)
    for kind, dim, sub in [(k, d, s) for k in KINDS for d, s in (('xyz', None), ('xz', None), ('xyz', 'k'))]:
        at = KINDS[kind]
        with ck.config('%s dimension=%s%s, blocking' % (kind, dim, ' sub_sample_dt' if sub else ''), at):
            o, r = build(ck, kind, dim, sub, block=B(True))
            if not ck.ran(r, at):
                continue
            K = o.count()
            check_arr(ck, r, 'variance of the mean', 'v', Arr([K], lambda i: o.blocked(i, 'std_err')**2), at)
            check_arr(ck, r, 'standard deviation', 's', Arr([K], lambda i: o.blocked(i, 'std_err')), at)
            check_arr(ck, r, 'time of each interval', 'dt', Arr([K], o.dt), at)
            check_arr(ck, r, 'observation counts', 'n_i', Arr([K], o.no), at)
            check_arr(ck, r, 'non-Gaussian parameter', 'ngp', Arr([K], o.ngp), at)
    # the ngp helper itself on any array
    at = BOOT + '.ngp_calculation'
    for nd in (1, 2):
        with ck.config('non-Gaussian parameter of a %d-d array' % nd, at):
            C, I = ck.C, ck.I
            C.reset()
            sh = [sym('A', True, 1), sym('Bn', True, 1)][:nd]
            h = tensor('d2', pos=True)
            r = C.run(at, [I.new_arr(Arr(sh, lambda *ix: el(h, *ix)))])
            if ck.ran(r, at):
                tot = sh[0] if nd == 1 else sh[0] * sh[1]
                S = (lambda g: sum_over(sh[0], lambda a: g(el(h, a)))) if nd == 1 else (lambda g: sum_over(sh[0], lambda a: sum_over(sh[1], lambda b: g(el(h, a, b)))))
                ck.eq('non-Gaussian parameter', r.value, Num(3 * (S(lambda x: x * x) / tot) / (5 * (S(lambda x: x) / tot)**2) - 1), at)


def dist_seq(I, v):
    """list of Distribution objects -> list of their samples"""
    v = I.freeze(v, I.st)

    def one(x):
        x = I.freeze(x, I.st)
        if isinstance(x, XObj) and x.kind == 'dist':
            s = x.f['samples']
            return s
        return x
    if isinstance(v, Seq):
        out = []
        for s in v.segs:
            if isinstance(s, Item):
                out.append(Item(one(s.v), s.guard))
            elif isinstance(s, Seg):
                out.append(Seg(s.size, lambda k, s=s: [Item(one(it.v), it.guard) for it in s.fn(k)]))
            else:
                out.append(s)
        return Seq(out, v.kind)
    return v


def dist_samples(I, v):
    v = I.freeze(v, I.st)
    if isinstance(v, IteV):
        return IteV(v.c, dist_samples(I, v.a), dist_samples(I, v.b))
    if isinstance(v, XObj) and v.kind == 'dist':
        return v.f['samples']
    return v


def c11(ck):
    """For every dimension string (any letter case, text or bytes) the projected components and the dimensionality used by the
    diffusion coefficient are compared with the letters of the string."""
    for kind in KINDS:
        for d0 in DIMS:
            for dim in (d0, d0.upper(), d0.encode()):
                at = KINDS[kind]
                with ck.config('%s dimension=%r' % (kind, dim), at):
                    o, r = build(ck, kind, dim)
                    if not ck.ran(r, at):
                        continue
                    check_arr(ck, r, 'projected mean', 'n', Arr([o.count()], o.mean), at)
                    check_arr(ck, r, 'dimensionality', 'dims', Num(len(DIMS[d0])), at)


RULES = {'C09': c09, 'C10': c10, 'C11': c11}
