"""Rules about trajectories, displacements and time intervals."""
from ..checker import *
from ..library import veq

P_ = 'kinisi.parser.'
PARSER = P_ + 'Parser'
HALF = const(Fraction(1, 2))
B = BoolV


# ------------------------------------------------------------------ reference formulas (index notation)
def inv3(I, f):
    """inverse of the 3x3 matrix with entries f(i, j)"""
    h = mk('head', 'inv', I.arr_term(Arr([3, 3], f)))
    return lambda i, j: el(h, i, j)


def sum3(f):
    return f(const(0)) + f(const(1)) + f(const(2))


def unwrap_step(I, frac_, latt, j):
    """Cartesian minimum-image step from frame j to frame j+1: frac_(j, a, x) fractional, latt(j, c, x) cell rows."""
    j1 = j + 1
    inv = inv3(I, lambda i, k: latt(j1, i, k))

    def wrapped(k, a, x):
        return sum3(lambda c: frac_(k, a, c) * latt(k, c, x))

    def step(a, x):
        d = lambda y: wrapped(j1, a, y) - wrapped(j, a, y)
        img = lambda c: floor_(sum3(lambda y: d(y) * inv(y, c)) + HALF)
        return d(x) - sum3(lambda c: img(c) * latt(j1, c, x))
    return step


def drift(disp, dr, nd):
    """disp(a, t, x) minus the mean displacement of the atoms dr(k), k < nd"""
    def f(a, t, x):
        return ite(c_eq0(nd), disp(a, t, x), disp(a, t, x) - sum_over(nd, lambda k: disp(dr(k), t, x)) / nd)
    return f


def as_array(I, v):
    a = I.lib.as_arr(I, v)
    if a is None:
        raise Unsupported('not an array: %r' % (v,))
    return a


# ------------------------------------------------------------------ inputs
def P_inputs(ck, nd_lo=0, T_lo=2, drift_as_array=False, ind_as_array=False, via=None):
    """symbolic arguments of the windowing stage; `via` a reader: the same quantities handed over by that reader (no framework atoms)"""
    I = ck.I
    if via:
        T, N, ni = sym('T', True, T_lo), sym('N', True, 1), sym('ni', True, 1)
        tr = Traj(ck, via, N=N)
        d, ix = tensor('disp'), tensor('ind', int_=True, nonneg=True)
        disp = lambda a, t, x: el(d, a, t, x)
        # the limits are given in the unit of the time step
        return dict(T=T, N=N, nd=ZERO, ni=ni, disp=disp, ind=lambda k: el(ix, k), dr=lambda k: ZERO, step=tr.ts.p * tr.ss.p * tr.sub, cls=tr.cls,
                    args=[tr.value, NONE, tr.ts, tr.ss],
                    kw=dict(specie_indices=lst(I, ni, lambda k: Num(el(ix, k), 'int')), framework_indices=clist(I, []), sub_sample_traj=Num(tr.sub, 'int')),
                    cuts={GET_DISP: lambda I, a, k: I.new_arr(Arr([N, T, 3], disp))})
    T, N = sym('T', True, T_lo), sym('N', True, 1)
    d = tensor('disp')
    ix, dx = tensor('ind', int_=True, nonneg=True), tensor('drift', int_=True, nonneg=True)
    nd, ni = sym('nd', True, nd_lo), sym('ni', True, 1)
    disp = I.new_arr(Arr([N, T, 3], lambda i, t, x: el(d, i, t, x), 'float', frozenset(['input:disp'])))
    mkl = lambda h, n, arr_, pr: I.new_arr(Arr([n], lambda k: el(h, k), 'int', frozenset([pr]))) if arr_ else lst(I, n, lambda k: Num(el(h, k), 'int'), pr)
    ind = mkl(ix, ni, ind_as_array, 'input:indices')
    dri = mkl(dx, nd, drift_as_array, 'input:drift_indices')
    ts, ss = num('time_step', lo=Fraction(1, 10)), num('step_skip', True, 1)
    o = dict(T=T, N=N, nd=nd, ni=ni, step=ts.p * ss.p, cls=PARSER, kw={}, cuts={}, disp=lambda a, t, x: el(d, a, t, x), ind=lambda k: el(ix, k), dr=lambda k: el(dx, k),
             ts=ts, ss=ss, args=[disp, ind, dri, ts, ss], dispv=disp, indv=ind, driv=dri)
    return o


def cap(store, key, names, result):
    """A cut that records its (named) arguments and returns result(I)."""
    def f(I, args, kw):
        d = dict(kw)
        vals = list(args)
        if vals and isinstance(vals[0], Ref) and isinstance(I.st.heap.get(vals[0].id), ObjC):
            vals = vals[1:]
        for n, v in zip(names, vals):
            d[n] = v
        store[key] = {k: I.freeze(v, I.st) for k, v in d.items() if isinstance(v, V)}
        store[key + ':raw'] = d
        return result(I)
    return f


def staged(ck, f, args, kw, cuts, optional=()):
    """run with some stages replaced by symbolic results; if the code no longer passes through one of them nothing can be concluded"""
    r = ck.C.run(f, args, kw, cuts=cuts)
    if r.value is not None and not r.raised:
        gone = [k for k in cuts if k not in r.cuts_hit and k not in optional]
        if gone:
            raise Unsupported('stage %s is not reached through its function' % ', '.join(g.rsplit('.', 1)[-1] for g in gone))
    return r


def fake_disps(I):
    return Tup([Num(sym('delta_t?'), 'float'), Num(sym('disp?'), 'float'), Num(sym('n_o?'), 'float')])


GET_DISPS = PARSER + '.get_disps'
GET_TI = PARSER + '.get_time_intervals'
GET_DISP = PARSER + '.get_disp'


def taus(I, store=None, m=None):
    m = m if m is not None else sym('m', True, 1)
    h = tensor('tau', int_=True, pos=True)
    return lambda I: I.new_arr(Arr([m], lambda k: el(h, k), 'int'))


# ------------------------------------------------------------------ C01
def c01(ck):
    """The abstract value of the displacement array is compared, in index notation over all atoms, frames, cells and components, with
    the cumulative sum of minimum-image steps taken in the cell of the later frame; the same comparison is made end to end for every
    trajectory reader on what reaches the windowing stage. Exceptions reachable on valid input are violations."""
    C, I = ck.C, ck.I
    at = GET_DISP
    for prog in (False, True):
        with ck.config('displacements from fractional coordinates; progress=%s' % prog, at):
            C.reset()
            T, N = sym('T', True, 2), sym('N', True, 1)
            c, L = tensor('coords'), tensor('latt')
            coords = lst(I, T, lambda k: Arr([N, 1, 3], lambda i, u, x, k=k: el(c, k, i, x)))
            latt = lst(I, T, lambda k: Arr([3, 3], lambda i, x, k=k: el(L, k, i, x)))
            r = C.run(at, [coords, latt], {'progress': B(prog)})
            if not ck.ran(r, at):
                continue
            ck.no_raise(r, at)
            want = Arr([N, T - 1, 3], lambda a, t, x: sum_over(t + 1, lambda j: unwrap_step(I, lambda k, a, x: el(c, k, a, x), lambda k, i, x: el(L, k, i, x), j)(a, x)))
            ck.eq('unwrapped displacement', r.value, want, at)
    for kind in READERS:
        with ck.config('%s reader, no drift correction' % kind, READERS[kind]):
            C.reset()
            tr = Traj(ck, kind)
            store = {}
            ind = ilist(I, 'selx', sym('ns', True, 1))
            dd = tensor('fd')
            fd = Arr([tr.n_read(), tr.frames(), 3], lambda a, t, x: el(dd, a, t, x))
            r = staged(ck, tr.cls, [tr.value, NONE, tr.ts, tr.ss], dict(sub_sample_traj=Num(tr.sub, 'int'), progress=B(False), specie_indices=ind,
                                                                  framework_indices=clist(I, [])),
                      cuts={GET_DISP: lambda I, a, k: I.new_arr(fd), GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)})
            if not ck.ran(r, tr.cls):
                continue
            if 'g' not in store:
                ck.undecided('unwrapped displacement', tr.cls, 'windowing stage not reached')
                continue
            ck.eq('unwrapped displacement reaching the windows', store['g'].get('drift_corrected'), fd, tr.cls)


# ------------------------------------------------------------------ trajectories
READERS = {'ASE': P_ + 'ASEParser', 'pymatgen': P_ + 'PymatgenParser', 'MDAnalysis': P_ + 'MDAnalysisParser'}


class Traj:
    """A symbolic trajectory of F frames and N atoms and the reference view of what is read from it."""

    def __init__(self, ck, kind, label='0', sub=None, sub_atoms=None, F=None, N=None):
        I = ck.I
        self.I, self.kind, self.cls, self.label = I, kind, READERS[kind], label
        self.F = F if F is not None else sym('F', True, 3)
        self.N = N if N is not None else sym('N', True, 1)
        self.sub = sub if sub is not None else sym('sub', True, 1)
        self.sa = P(1) if sub_atoms is None else sub_atoms
        self.ts, self.ss = num('time_step', lo=Fraction(1, 10)), num('step_skip', True, 1)
        if kind == 'ASE':
            self.value = lst(I, self.F, lambda k: xm.ase_frame(k, self.N, label), 'input:trajectory')
        elif kind == 'pymatgen':
            self.value = lst(I, self.F, lambda k: xm.pmg_frame(k, self.N, label), 'input:trajectory')
        else:
            self.value = xm.universe(I, self.F, self.N, label)
        self.tr = mk('strc', label)

    def frames(self):
        """number of sampled frames"""
        return mk_fn('ceil', self.F / self.sub) if self.sub.cval() != 1 else self.F

    def n_read(self):
        return mk_fn('ceil', self.N / self.sa) if self.sa.cval() != 1 else self.N

    def frame(self, j):
        """trajectory frame behind entry j of the coordinate list (entry 0 repeats the first frame)"""
        j = P(j)
        return ite(c_eq0(j), ZERO, (j - 1) * self.sub)

    def latt_at(self, f, i, x):
        nm = {'ASE': 'ase.cell', 'pymatgen': 'pmg.cell', 'MDAnalysis': 'md.cell'}[self.kind]
        return el(mk('head', nm, self.tr), f, i, x)

    def coords_at(self, f, a, x):
        if self.kind == 'ASE':
            return el(mk('head', 'ase.scaled', self.tr), f, a, x)
        if self.kind == 'pymatgen':
            return el(mk('head', 'pmg.frac', self.tr), f, a, x)
        inv = inv3(self.I, lambda i, k: self.latt_at(f, i, k))
        return sum3(lambda y: el(mk('head', 'md.pos', self.tr), f, P(a) * self.sa, y) * inv(y, x))

    def latt(self, j, i, x):
        return self.latt_at(self.frame(j), i, x)

    def coords(self, j, a, x):
        return self.coords_at(self.frame(j), a, x)

    def type(self, i):
        return TV(mk('fn', 'type', self.tr, P(i) * self.sa), 'str')

    def volume(self):
        return fn('volume', self.tr, ZERO)


def c30(ck):
    """For every reader the coordinate and cell lists handed to the displacement stage are compared frame by frame with the sampled frames
    of the symbolic trajectory (length, order, sub-sampling, cell of the same frame), and the volume with the first frame's: any number of frames and, unrolled, a
    few."""
    C, I = ck.C, ck.I
    for kind in READERS:
        for sa in ((None, 'sa') if kind == 'MDAnalysis' else (None,)):
            for prog, nf, sub in ((False, None, None), (True, None, None), (False, 5, 1), (True, 7, 3)):
                at = READERS[kind] + '.get_structure_coords_latt'
                with ck.config('%s%s progress=%s' % (kind, ' with sub_sample_atoms' if sa else '', prog) + (' %d frames' % nf if nf else ''), at):
                    C.reset()
                    tr = Traj(ck, kind, sub_atoms=sym('sa', True, 1) if sa else None, F=P(nf) if nf else None, sub=P(sub) if nf else None)
                    store = {}
                    sel = clist(I, [Str('Li')])
                    kw = dict(sub_sample_traj=Num(tr.sub, 'int'), progress=B(prog))
                    if sa:
                        kw['sub_sample_atoms'] = Num(tr.sa, 'int')
                    dd = tensor('fd')
                    r = staged(ck, tr.cls, [tr.value, sel, tr.ts, tr.ss], kw,
                              cuts={GET_DISP: cap(store, 'd', ['coords', 'latt', 'progress'], lambda I: I.new_arr(Arr([tr.n_read(), tr.frames(), 3], lambda a, t, x: el(dd, a, t, x)))),
                                    GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)})
                    if not ck.ran(r, tr.cls):
                        continue
                    if 'd' not in store:
                        ck.undecided('coordinates', at, 'displacement stage not reached')
                        continue
                    n = tr.frames() + 1
                    ck.eq('fractional coordinates of every sampled frame', as_array(I, store['d']['coords']),
                          Arr([n, tr.n_read(), 1, 3], lambda j, a, u, x: tr.coords(j, a, x)), at)
                    ck.eq('cell of every sampled frame', as_array(I, store['d']['latt']),
                          Arr([n, 3, 3], lambda j, i, x: tr.latt(j, i, x)), at)
                    v = C.attr(r.value, 'volume')
                    if v.value is not None:
                        ck.eq('volume', v.value, Num(tr.volume()), tr.cls)


# ------------------------------------------------------------------ C02
def c02(ck):
    """The drift-corrected displacement is compared in index notation with displacement minus the frame-wise, component-wise mean over the
    framework atoms (identity when there are none), both at the correction stage and as what reaches the windowing stage."""
    C, I = ck.C, ck.I
    at = PARSER + '.correct_drift'
    for as_arr_ in (False, True):
        for lo, txt in ((0, 'any framework'), (1, 'non-empty framework')):
            with ck.config('correction stage, %s, indices as %s' % (txt, 'array' if as_arr_ else 'list'), at):
                C.reset()
                p = P_inputs(ck, nd_lo=lo, drift_as_array=as_arr_)
                r = C.run(at, [p['driv'], p['dispv']])
                if not ck.ran(r, at):
                    continue
                ck.no_raise(r, at, ignore=('IndexError',))
                ck.eq('drift-corrected displacement', r.value, Arr([p['N'], p['T'], 3], drift(p['disp'], p['dr'], p['nd'])), at)
    with ck.config('empty framework list', at):
        C.reset()
        p = P_inputs(ck)
        r = C.run(at, [clist(I, []), p['dispv']])
        if ck.ran(r, at):
            ck.eq('drift-corrected displacement', r.value, Arr([p['N'], p['T'], 3], p['disp']), at)
    for kind in READERS:
        with ck.config('%s reader' % kind, READERS[kind]):
            C.reset()
            tr = Traj(ck, kind, sub=P(1))
            store = {}
            dd, fr, nf = tensor('fd'), tensor('fr', int_=True, nonneg=True), sym('nf', True, 0)
            f = lambda a, t, x: el(dd, a, t, x)
            r = staged(ck, tr.cls, [tr.value, Str('Li'), tr.ts, tr.ss], dict(progress=B(False), framework_indices=lst(I, nf, lambda k: Num(el(fr, k), 'int'))),
                      cuts={GET_DISP: lambda I, a, k: I.new_arr(Arr([tr.n_read(), tr.frames(), 3], f)),
                            GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)})
            if ck.ran(r, tr.cls) and 'g' in store:
                ck.eq('displacement entering the windows', store['g'].get('drift_corrected'), Arr([tr.n_read(), tr.frames(), 3], drift(f, lambda k: el(fr, k), nf)), tr.cls)
    with ck.config('through the constructor', PARSER):
        C.reset()
        p = P_inputs(ck)
        store = {}
        r = staged(ck, PARSER, p['args'], dict(progress=B(False)), cuts={GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)})
        if ck.ran(r, PARSER):
            want = Arr([p['N'], p['T'], 3], drift(p['disp'], p['dr'], p['nd']))
            if 'g' in store:
                ck.eq('displacement entering the windows', store['g'].get('drift_corrected'), want, PARSER)
            else:
                ck.undecided('displacement entering the windows', PARSER, 'windowing stage not reached')
            v = C.attr(r.value, 'dc')
            if v.value is not None:
                ck.eq('stored drift-corrected displacement', v.value, want, PARSER)


# ------------------------------------------------------------------ C03
def sel_seq(n, f):
    """list of the i < n with guard f(i)"""
    return Seq([Seg(n, lambda i: [Item(Num(P(i), 'int'), f(i))])], 'list')


def flat(I, v):
    """1-d contents of a list or array as a Seq/Arr for comparison"""
    return v


def c03(ck):
    """The index lists stored by every reader are compared, for a symbolic structure, with the atoms whose type is selected and the
    complement (or the explicit lists), and the emptiness error with its exact condition."""
    C, I = ck.C, ck.I
    for kind in READERS:
        for cfg in ('one species', 'two species', 'four species', 'explicit indices'):
            for fw in (None, 'list', 'tuple', 'empty'):
                if cfg == 'four species' and fw is not None:
                    continue
                for sa in ((None, 'sa') if kind == 'MDAnalysis' and cfg not in ('explicit indices', 'four species') and fw is None else (None,)):
                    at = READERS[kind] + ('.get_indices' if cfg != 'explicit indices' else '')
                    with ck.config('%s, %s, framework=%s%s' % (kind, cfg, fw, ', sub_sample_atoms' if sa else ''), at):
                        C.reset()
                        tr = Traj(ck, kind, sub=P(1), sub_atoms=sym('sa', True, 1) if sa else None)
                        n = tr.n_read()
                        kw = dict(progress=B(False))
                        if sa:
                            kw['sub_sample_atoms'] = Num(tr.sa, 'int')
                        specie = NONE
                        if cfg == 'one species':
                            specie = Str('Li')
                            g = lambda i: veq(I, tr.type(i), Str('Li'))
                        elif cfg == 'two species':
                            specie = clist(I, [Str('Li'), Str('Na')], 'input:specie')
                            g = lambda i: c_or(veq(I, tr.type(i), Str('Li')), veq(I, tr.type(i), Str('Na')))
                        elif cfg == 'four species':
                            names = ['Li', 'Na', 'K', 'Rb']
                            specie = clist(I, [Str(x) for x in names], 'input:specie')
                            g = lambda i: c_or(*[veq(I, tr.type(i), Str(x)) for x in names])
                        ns = sym('ns', True, 1)
                        sel = tensor('sel', int_=True, nonneg=True)
                        fr = tensor('fr', int_=True, pos=True)
                        nf = sym('nf', True, 1)
                        if cfg == 'explicit indices':
                            kw['specie_indices'] = lst(I, ns, lambda k: Num(el(sel, k), 'int'), 'input:specie_indices')
                        base = 1 if cfg == 'explicit indices' else 0
                        if fw == 'list':
                            kw['framework_indices'] = lst(I, nf, lambda k: Num(el(fr, k), 'int'), 'input:framework_indices')
                            want_d = Arr([nf], lambda k: el(fr, k) - base, 'int')
                        elif fw == 'tuple':
                            kw['framework_indices'] = Tup([Num(el(fr, 0), 'int'), Num(el(fr, 1), 'int')])
                            want_d = Arr([2], lambda k: el(fr, k) - base, 'int')
                        elif fw == 'empty':
                            kw['framework_indices'] = clist(I, [])
                            want_d = Seq([], 'list')
                        elif cfg == 'explicit indices':
                            inn = lambda i: I.lib.any_over([ns], lambda k: c_eq0(el(sel, k) - P(i)))
                            want_d = sel_seq(n, lambda i: c_not(inn(i)))
                        else:
                            want_d = sel_seq(n, lambda i: c_not(g(i)))
                        want_i = Arr([ns], lambda k: el(sel, k), 'int') if cfg == 'explicit indices' else sel_seq(n, g)
                        dd = tensor('fd')
                        r = staged(ck, tr.cls, [tr.value, specie, tr.ts, tr.ss], kw,
                                  cuts={GET_DISP: lambda I, a, k: I.new_arr(Arr([n, tr.frames(), 3], lambda a, t, x: el(dd, a, t, x))),
                                        GET_DISPS: lambda I, a, k: fake_disps(I)})
                        if not ck.ran(r, at):
                            continue
                        none = FALSE
                        if cfg != 'explicit indices':
                            some = I.lib.any_over([n], lambda i: g(i))
                            none = c_not(some)
                            ck.raises(r, ['ValueError'], at, none, assume=c_le(5, tr.F), name='error exactly when nothing is selected')
                        ck.eq('selected atoms', C.attr(r.value, 'indices').value, want_i, at, assume=c_not(none))
                        ck.eq('framework atoms', C.attr(r.value, 'drift_indices').value, want_d, at, assume=c_not(none))
    # species objects of pymatgen are accepted as well as strings: the selection compares their string form
    at = READERS['pymatgen'] + '.get_indices'
    with ck.config('pymatgen, Element object', at):
        C.reset()
        tr = Traj(ck, 'pymatgen', sub=P(1))
        spec = XObj('pmgspecie', i=Num(sym('ref', True, 0), 'int'), info=xm.pmg_frame(ZERO, tr.N, 'other'))
        r = C.run(at, [xm.pmg_frame(ZERO, tr.N, '0'), spec, NONE])
        if ck.ran(r, at):
            t = TV(mk('fn', 'type', mk('strc', 'other'), sym('ref', True, 0)), 'str')
            g = lambda i: veq(I, tr.type(i), t)
            some = I.lib.any_over([tr.N], lambda i: g(i))
            v = r.value
            if isinstance(v, Tup) and len(v.items) == 2:
                ck.eq('selected atoms', v.items[0], sel_seq(tr.N, g), at, assume=some)


# ------------------------------------------------------------------ C04
def c04(ck):
    """The time axis stored by every reader is compared with interval x time step x steps between frames x frame sub-sampling (x 1e-3 for
    the femtosecond reader), for float and integer time steps; exceptions reachable on valid input are violations."""
    C, I = ck.C, ck.I
    for kind in READERS:
        for k in ('float', 'int'):
            at = READERS[kind]
            with ck.config('%s reader, %s time step' % (kind, k), at):
                C.reset()
                tr = Traj(ck, kind)
                ts = num('time_step', k == 'int', 1 if k == 'int' else Fraction(1, 10**9))
                store = {}
                dd = tensor('fd')
                n = tr.n_read()
                m = sym('m', True, 1)
                tau = tensor('tau', int_=True, pos=True)
                r = staged(ck, tr.cls, [tr.value, Str('Li'), ts, tr.ss], dict(sub_sample_traj=Num(tr.sub, 'int'), progress=B(False)),
                          cuts={GET_DISP: lambda I, a, k: I.new_arr(Arr([n, sym('T', True, 12), 3], lambda a, t, x: el(dd, a, t, x))),
                                GET_TI: lambda I, a, k: I.new_arr(Arr([m], lambda k: el(tau, k), 'int'))})
                if not ck.ran(r, at):
                    continue
                ck.no_raise(r, at, ignore=('ValueError', 'MemoryError', 'IndexError'))
                f = const(Fraction(1, 1000)) if kind == 'pymatgen' else ONE
                pre = C.I.st.pc
                ck.eq('time axis', C.attr(r.value, 'delta_t').value, Arr([m], lambda j: el(tau, j) * ts.p * tr.ss.p * tr.sub * f), at, assume=cond_ok(r))
    at = PARSER + '.get_disps'
    for k in ('float', 'int'):
        for samp in ('multi-origin', 'single-origin'):
            with ck.config('windowing stage, %s time step, %s' % (k, samp), at):
                C.reset()
                p = P_inputs(ck, T_lo=12)
                m = sym('m', True, 1)
                tau = tensor('tau', int_=True, pos=True)
                ts = num('time_step', k == 'int', 1 if k == 'int' else Fraction(1, 10**9))
                p['args'][3] = ts
                r = staged(ck, PARSER, p['args'], dict(progress=B(False), sampling=Str(samp)),
                          cuts={GET_TI: lambda I, a, k: I.new_arr(Arr([m], lambda k: el(tau, k), 'int'))})
                if ck.ran(r, at):
                    ck.eq('time axis', C.attr(r.value, 'delta_t').value, Arr([m], lambda j: el(tau, j) * ts.p * p['ss'].p), at, assume=cond_ok(r))


def cond_ok(r):
    """normal completion"""
    return r.pc


# ------------------------------------------------------------------ C05 / C08
def windows(ck, samp, prog=False, m=None, **kw):
    C, I = ck.C, ck.I
    C.reset()
    p = P_inputs(ck, T_lo=12, **kw)
    m = sym('m', True, 1) if m is None else const(m)
    tau = tensor('tau', int_=True, pos=True)
    p['m'], p['tau'] = m, lambda k: el(tau, k)
    dct = tensor('dc')
    CD = PARSER + '.correct_drift'
    p['r'] = staged(ck, p['cls'], p['args'], dict(p['kw'], progress=B(prog), sampling=Str(samp)),
                    cuts=dict(p['cuts'], **{GET_TI: lambda I, a, k: I.new_arr(Arr([m], lambda k: el(tau, k), 'int')),
                                            CD: lambda I, a, k: I.new_arr(Arr([p['N'], p['T'], 3], lambda i, t, x: el(dct, i, t, x)))}), optional=(CD,))
    p['dc'] = (lambda i, t, x: el(dct, i, t, x)) if CD in p['r'].cuts_hit else drift(p['disp'], p['dr'], p['nd'])
    return p


def in_range(p):
    """every interval fits the trajectory"""
    I_any = p['any']
    return c_not(I_any([p['m']], lambda k: c_lt(p['T'], p['tau'](k))))


def keep_guard(p, k, samp):
    """an interval is kept when it holds more than one non-overlapping observation"""
    T, ni, t = p['T'], p['ni'], p['tau'](k)
    nwin = T - t + 1 if samp == 'multi-origin' else ONE
    ind = mk_fn('ceil', nwin / t)
    return c_lt(1, ni * ind)


def c05(ck):
    """The list of displacement windows is compared, element by element in index notation, with the set of all windows of every interval
    (every start frame, including the first) for overlapping sampling and with the window from the first frame for single-origin sampling,
    for any number of intervals and, unrolled, for one and for three."""
    C, I = ck.C, ck.I
    at = GET_DISPS
    for samp in ('multi-origin', 'single-origin'):
        for prog, via, m in [(False, None, None), (True, None, None), (False, None, 1), (False, None, 3)] + [(False, k, None) for k in READERS]:
            for arr_ in (False, True) if not via and not m else (False,):
                with ck.config('%s, progress=%s, indices as %s%s%s' % (samp, prog, 'array' if arr_ else 'list', ', %s reader' % via if via else '', ', %d intervals' % m if m else ''), at):
                    p = windows(ck, samp, prog, m=m, ind_as_array=arr_, via=via)
                    p['any'] = I.lib.any_over
                    r = p['r']
                    if not ck.ran(r, at):
                        continue
                    ok = c_and(in_range(p), cond_ok(r))

                    def elem(k):
                        t = p['tau'](k)
                        if samp == 'multi-origin':
                            return Arr([p['ni'], p['T'] - t + 1, 3], lambda a, w, x: p['dc'](p['ind'](a), t - 1 + w, x) - ite(c_eq0(w), ZERO, p['dc'](p['ind'](a), w - 1, x)))
                        return Arr([p['ni'], 1, 3], lambda a, w, x: p['dc'](p['ind'](a), t - 1, x))
                    want = Seq([Seg(p['m'], lambda k: [Item(elem(k), keep_guard(p, k, samp))])], 'list')
                    ck.eq('displacement windows', C.attr(r.value, 'disp_3d').value, want, at, assume=ok)


def n_obs_of(C, I, r, ck):
    """what the windowing stage reports as numbers of observations"""
    v = C.attr(r.value, '_n_o')
    return v.value


def c08(ck):
    """The numbers of independent observations are compared with atoms x longest interval / interval, per kept interval and in order, for any number of intervals and, unrolled,
    for one and for three."""
    C, I = ck.C, ck.I
    at = GET_DISPS
    for samp in ('multi-origin', 'single-origin'):
        for prog, m in ((False, None), (True, None), (False, 1), (False, 3)):
            with ck.config('%s, progress=%s%s' % (samp, prog, ', %d intervals' % m if m else ''), at):
                p = windows(ck, samp, prog, m=m)
                p['any'] = I.lib.any_over
                r = p['r']
                if not ck.ran(r, at):
                    continue
                ok = c_and(in_range(p), cond_ok(r))
                last = p['tau'](p['m'] - 1)
                want = Seq([Seg(p['m'], lambda k: [Item(Num(p['ni'] * last / p['tau'](k)), keep_guard(p, k, samp))])], 'array')
                v = C.attr(r.value, '_n_o').value
                if v is None:
                    # the attribute is private: fall back on the stage's return value
                    C.I.exc_sink = []
                    rr = C.run(GET_DISPS, [r.value, C.attr(r.value, 'time_intervals').value, C.attr(r.value, 'dc').value], dict(progress=B(prog)))
                    v = rr.value.items[2] if rr.value is not None and isinstance(rr.value, Tup) and len(rr.value.items) == 3 else None
                if v is None:
                    ck.undecided('numbers of independent observations', at, 'not found')
                    continue
                ck.eq('numbers of independent observations', v, want, at, assume=ok)


# ------------------------------------------------------------------ C06
def c06(ck):
    """The interval list reaching the windowing stage is compared with the sorted distinct whole-frame values of the evenly (or
    logarithmically) spaced grid between the smallest and the largest interval, for given and defaulted limits and any number of steps."""
    C, I = ck.C, ck.I
    at = GET_TI
    for spacing in ('linear', 'logarithmic'):
        for mn in (None, 'min', 'part'):
            for mx, via in [(x, v) for v in [None] + list(READERS) for x in (None, 'max', 'part')]:
                if 'part' in (mn, mx) and via not in (None, list(READERS)[0]):
                    continue
                says = {None: 'default', 'min': 'given', 'max': 'given', 'part': 'given, not a whole number of frames'}
                with ck.config('%s, min_dt %s, max_dt %s%s' % (spacing, says[mn], says[mx], ', %s reader' % via if via else ''), at):
                    C.reset()
                    p = P_inputs(ck, T_lo=2, via=via)
                    step = p['step']
                    store = {}
                    kw = dict(p['kw'], progress=B(False), spacing=Str(spacing), n_steps=num('n_steps', True, 2))
                    a, b = ONE, p['T']
                    # limits count as the whole number of frames they contain
                    part = lambda w, q: const(q) if w == 'part' else ZERO
                    if mn:
                        ka = sym('kmin', True, 0)
                        kw['min_dt'] = Num((ka + part(mn, Fraction(7, 10))) * step, 'float')
                        a = mk_fn('max', ka, ONE) if False else ite(c_eq0(ka), ONE, ka)
                        araw = ka
                    else:
                        araw = ONE
                    if mx:
                        b = sym('kmax', True, 1)
                        kw['max_dt'] = Num((b + part(mx, Fraction(3, 5))) * step, 'float')
                    r = staged(ck, p['cls'], p['args'], kw, cuts=dict(p['cuts'], **{GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)}))
                    if not ck.ran(r, at):
                        continue
                    cuts = {e.loc for e in r.events if e.kind == 'truncation'}
                    ck.flag('limits survive floating-point division', not cuts, at,
                            'line %s truncates a limit divided by the frame interval: 2001 frames of 0.001 become 2000' % ', '.join(sorted(str(c[1]) for c in cuts)), 'rounded before it is truncated')
                    bad = c_le(p['T'], araw)
                    ck.raises(r, ['ValueError'], PARSER, bad, name='error exactly when the smallest interval exceeds the simulation')
                    room = p['T'] - araw + 1
                    n = ite(c_lt(room, kw['n_steps'].p), room, kw['n_steps'].p)
                    if spacing == 'linear':
                        g = lambda k: mk_fn('trunc', a + P(k) * (b - a) / (n - 1))
                    else:
                        h = mk('head', 'geomspace', a, b, n)
                        g = lambda k: mk_fn('trunc', el(h, k))
                    t = I.arr_term(Arr([n], g, 'int'))
                    want = Arr([fn('ulen', t)], lambda j: el(mk('head', 'uniquei', t), j), 'int')
                    INT_TENSORS.add('uniquei')
                    ok = c_not(bad)
                    if mx:
                        ok = c_and(ok, c_le(a, b))
                    if 'g' in store:
                        ck.eq('time intervals', store['g'].get('time_intervals'), want, at, assume=ok)
                    v = C.attr(r.value, 'time_intervals')
                    if v.value is not None:
                        ck.eq('stored time intervals', v.value, want, at, assume=ok)
    for spacing in ('linear', 'logarithmic'):
        with ck.config('%s, a single step' % spacing, at):
            C.reset()
            p = P_inputs(ck, T_lo=2)
            ka = sym('kmin', True, 1)
            r = staged(ck, p['cls'], p['args'], dict(progress=B(False), spacing=Str(spacing), n_steps=Num(1, 'int'), min_dt=Num(ka * p['step'], 'float')),
                       cuts={GET_DISPS: lambda I, a, k: fake_disps(I)})
            if ck.ran(r, at):
                v = C.attr(r.value, 'time_intervals')
                ck.eq('stored time intervals', v.value, Arr([1], lambda j: ka, 'int'), at, assume=c_lt(ka, p['T']))


# ------------------------------------------------------------------ C07
def c07(ck):
    """The path condition of the memory error is compared with (bytes of all windows of all intervals) x 1e-9 > limit, and the abstract
    store at every raise site must not contain window arrays yet."""
    C, I = ck.C, ck.I
    at = GET_DISPS
    for samp in ('multi-origin', 'single-origin'):
        for prog, via, size in [(False, None, 8), (True, None, 8)] + [(False, k, 8) for k in READERS] + [(False, None, 4)]:
            with ck.config('%s, progress=%s%s%s' % (samp, prog, ', %s reader' % via if via else '', ', single precision' if size == 4 else ''), at):
                C.reset()
                p = P_inputs(ck, T_lo=12, via=via)
                CD = PARSER + '.correct_drift'
                if size == 4:
                    dct = tensor('dc')
                    p['cuts'][CD] = lambda I, a, k: I.new_arr(Arr([p['N'], p['T'], 3], lambda i, t, x: el(dct, i, t, x), 'float32'))
                m = sym('m', True, 1)
                tau = tensor('tau', int_=True, pos=True)
                lim = num('limit', lo=0)
                before = set()

                def grid(I, a, k):
                    before.update(I.st.heap)
                    return I.new_arr(Arr([m], lambda k: el(tau, k), 'int'))
                r = staged(ck, p['cls'], p['args'], dict(p['kw'], progress=B(prog), sampling=Str(samp), memory_limit=lim), cuts=dict(p['cuts'], **{GET_TI: grid}), optional=(CD,))
                if size == 4 and CD not in r.cuts_hit:
                    continue
                p['any'], p['m'], p['tau'] = I.lib.any_over, m, lambda k: el(tau, k)
                need = sum_over(m, lambda k: p['ni'] * (p['T'] - el(tau, k) + 1) * 3 * size) * const(Fraction(1, 10**9))
                ok = in_range(p)
                big = c_lt(lim.p, need)
                mem = FALSE
                for e in r.excs:
                    if exc_isa(e.cls, 'MemoryError'):
                        mem = c_or(mem, e.state.pc)
                ck.eq('memory error exactly above the limit', B(mem), B(c_and(big, c_lt(ONE, p['T']))), at, assume=ok, n=20)
                # the limit at the exact need, just below and just above
                o = compare(I, B(subst(mem, {lim.p.single_atom(): need})), B(FALSE), ok)
                ck.add('no memory error when the need equals the limit', o.verdict, at, o.how, o.got, o.want, o.witness)
                eps = const(Fraction(1, 10**12))
                o = compare(I, B(subst(mem, {lim.p.single_atom(): need - eps})), B(TRUE), ok)
                ck.add('memory error just below the need', o.verdict, at, o.how, o.got, o.want, o.witness)
                for e in r.excs:
                    if exc_isa(e.cls, 'MemoryError'):
                        live = [c for i, c in e.state.heap.items() if i not in before and big_list(I, c)]
                        ck.flag('no window array is allocated before the check', not live, at, 'list of window arrays already built at %s' % (e.loc,) if live else '')


def big_list(I, c):
    if not isinstance(c, ListC):
        return False
    for s in c.segs:
        its = s.fn(fresh('q', ub=s.size)) if isinstance(s, Seg) else ([s] if isinstance(s, Item) else [])
        for it in its:
            v = it.v if isinstance(it, Item) else None
            if isinstance(v, Ref):
                cc = I.st.heap.get(v.id)
                v = cc.v if isinstance(cc, ArrC) else v
            if isinstance(v, Arr) and v.ndim == 3:
                return True
    return False


# ------------------------------------------------------------------ C25
def com_spec(I, s, nm, w):
    """Periodic centre of mass of nm sites s(j, x) (fractional) with weights w(j): circular mean, then mean of the recentred coordinates."""
    W = sum_over(nm, lambda j: w(j))

    def f(x):
        avg = lambda g: sum_over(nm, lambda j: g(j) * w(j)) / W
        th = lambda j: 2 * PI * s(j, x)
        xi = avg(lambda j: mk_fn('cos', th(j)))
        ze = avg(lambda j: mk_fn('sin', th(j)))
        c = (mk_fn('atan2', -ze, -xi) + PI) / (2 * PI) + HALF
        return mod_(avg(lambda j: mod_(s(j, x) - c, ONE)) + c, ONE)
    return f


def cases(v, c=TRUE):
    """the alternatives of a value with the conditions under which they apply"""
    if isinstance(v, IteV):
        return cases(v.a, c_and(c, v.c)) + cases(v.b, c_and(c, c_not(v.c)))
    return [(c, v)]


def c25(ck):
    """The coordinates handed to the displacement stage for molecules are compared with the mass-weighted periodic centre of mass of each
    molecule, followed by the framework sites; indices and framework are compared with the matching position ranges."""
    C, I = ck.C, ck.I
    for kind in READERS:
        for mass in (False, True):
            for fw in (None, 'list', 'empty'):
                at = P_ + '_get_molecules'
                with ck.config('%s, masses %s, framework %s' % (kind, mass, fw), at):
                    C.reset()
                    tr = Traj(ck, kind, sub=P(1))
                    nmol, nm, nf = sym('nmol', True, 1), sym('nm', True, 1), sym('nf', True, 1)
                    mi = tensor('mol', int_=True, pos=True)
                    ms, fr = tensor('mass', pos=True), tensor('fr', int_=True, pos=True)
                    kw = dict(progress=B(False), specie_indices=lst(I, nmol, lambda k: lst(I, nm, lambda j, k=k: Num(el(mi, k, j), 'int')), 'input:specie_indices'))
                    if mass:
                        kw['masses'] = lst(I, nm, lambda j: Num(el(ms, j), 'float'), 'input:masses')
                    w = (lambda j: el(ms, j)) if mass else (lambda j: ONE)
                    if fw == 'list':
                        kw['framework_indices'] = lst(I, nf, lambda k: Num(el(fr, k), 'int'), 'input:framework_indices')
                        nfw, fwi = nf, lambda k: el(fr, k) - 1
                    elif fw == 'empty':
                        kw['framework_indices'] = clist(I, [])
                        nfw, fwi = ZERO, lambda k: ZERO
                    else:
                        g = lambda i: c_not(I.lib.any_over([nmol, nm], lambda a, b: c_eq0(el(mi, a, b) - 1 - P(i))))
                        nfw = sum_over(tr.N, lambda i: ite(g(i), ONE, ZERO))
                        i_ = fresh('i', ub=tr.N)
                        gt = mk_arrT([i_.single_atom()], g(i_), tr.N)
                        fwi = lambda k: fn('nth', gt, P(k))
                    store = {}
                    dd = tensor('fd')
                    r = staged(ck, tr.cls, [tr.value, NONE, tr.ts, tr.ss], kw,
                              cuts={GET_DISP: cap(store, 'd', ['coords', 'latt', 'progress'], lambda I: I.new_arr(Arr([nmol + nfw, tr.frames(), 3], lambda a, t, x: el(dd, a, t, x)))),
                                    GET_DISPS: cap(store, 'g', ['time_intervals', 'drift_corrected', 'progress'], fake_disps)})
                    if not ck.ran(r, at):
                        continue
                    ck.no_raise(r, at, assume=c_le(5, tr.F), ignore=('IndexError',))
                    if 'd' not in store:
                        ck.undecided('coordinates', at, 'displacement stage not reached')
                        continue

                    def want(j, a, u, x):
                        s = lambda q, y: tr.coords(j, el(mi, a, q) - 1, y)
                        com = com_spec(I, s, nm, w)(x)
                        if nfw.cval() == 0:
                            return com
                        return ite(c_lt(a, nmol), com, tr.coords(j, fwi(P(a) - nmol), x))
                    for c, v in cases(store['d']['coords']):
                        ck.eq('centre-of-mass coordinates', as_array(I, v), Arr([tr.frames() + 1, nmol + nfw, 1, 3], want), at, n=8, assume=c)
                    ck.eq('molecule positions', C.attr(r.value, 'indices').value, Arr([nmol], lambda k: P(k), 'int'), at)
                    ck.eq('framework positions', C.attr(r.value, 'drift_indices').value, Arr([nfw], lambda k: nmol + k, 'int'), at)


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C25': c25, 'C30': c30}
