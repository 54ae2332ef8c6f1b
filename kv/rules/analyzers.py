"""Rules about the analyzers: construction, reported quantities, dictionaries, files, side effects, rejected options."""
from ..checker import *
from ..interp import UNDEF
from .parser import B, READERS, Traj, P_inputs, PARSER, GET_DISPS, GET_DISP, GET_TI
from .diffusion import KINDS, BOOT, D_, Obs, kwargs
from .gls import Fit, untouched
from .sampling import SUN, DIST, obj_values, unwrap, same_value, rstate, resampled

AZ = 'kinisi.analyze.'
ANALYZERS = {'DiffusionAnalyzer': ('MSD', 'msd', 'msd_std', 'diffusion', 'D'),
             'JumpDiffusionAnalyzer': ('MSTD', 'mstd', 'mstd_std', 'jump_diffusion', 'D_J'),
             'ConductivityAnalyzer': ('MSCD', 'mscd', 'mscd_std', 'conductivity', 'sigma')}
FACTORIES = {'from_pymatgen': 'pymatgen', 'from_ase': 'ASE', 'from_Xdatcar': 'pymatgen', 'from_file': 'pymatgen', 'from_universe': 'MDAnalysis'}


# ------------------------------------------------------------------ stand-ins
def term_of(I, v):
    v = I.freeze(v, I.st) if isinstance(v, V) else v
    if isinstance(v, FObj):
        return mk('fn', 'obj', *[mk('kw', k, term_of(I, x)) for k, x in sorted(v.attrs.items())
                                 if isinstance(x, (Num, Str, BoolV, Arr, Seq, Tup, TV, FDict)) or x is NONE])
    return I.term(v)


def unwrapped(I, args, kw):
    """stand-in for the unwrapping of coordinates (analysed on its own): an array named by everything passed in"""
    d = dict(zip(('coords', 'latt', 'progress'), args))
    d.update(kw)
    c = I.lib.as_arr(I, I.call(ExtV('numpy.concatenate'), [d['coords']], {'axis': Num(1, 'int')}))
    h = mk('head', 'unwrapped', term_of(I, d['coords']), term_of(I, d['latt']))
    return I.new_arr(Arr([c.shape[0], c.shape[1] - 1, const(3)], lambda a, t, x: el(h, P(a), P(t), P(x))))


def windows(I, args, kw):
    """stand-in for the windowing stage (analysed on its own): displacements, times and counts named by everything passed in, including
    the settings of the parser"""
    d = dict(zip(('self', 'time_intervals', 'drift_corrected', 'progress'), args))
    d.update(kw)
    key = [term_of(I, d['self']), term_of(I, d['time_intervals']), term_of(I, d['drift_corrected'])]
    n, N = getattr(I, 'n_windows', None) or sym('n', True, 2), sym('Nm', True, 1)
    M = tensor('Mw', int_=True, lo=2)
    hd, ht, hn = mk('head', 'win.d', *key), mk('head', 'win.t', *key), mk('head', 'win.n', *key)
    disp = lst(I, n, lambda i: Arr([N, el(M, i), 3], lambda a, t, x, i=i: el(hd, P(i), P(a), P(t), P(x))))
    return Tup([I.new_arr(Arr([n], lambda i: el(ht, P(i)))), disp, I.new_arr(Arr([n], lambda i: el(hn, P(i))))])


CUTS = {GET_DISP: unwrapped, GET_DISPS: windows, SUN: resampled}


class Input:
    """what a factory is given and the trajectories it stands for"""

    def __init__(self, ck, factory, count=1, group=None, few=False):
        I = self.I = ck.I
        self.reader = READERS[FACTORIES[factory]]
        kind = FACTORIES[factory]
        short = group == 'consecutive' and count == 3
        self.trs = [Traj(ck, kind, str(j), sub=P(1), F=const(4 - j) if short else sym('F%d' % j, True, 3)) for j in range(count)]
        vals = []
        for j, t in enumerate(self.trs):
            if factory in ('from_Xdatcar', 'from_file'):
                I.stores.setdefault('xdatcar', {})['file%d' % j] = t.value
                vals.append(XObj('xdatcar', name=Str('file%d' % j)) if factory == 'from_Xdatcar' else Str('file%d' % j))
            else:
                vals.append(t.value)
        self.value = vals[0] if group is None else I.new_list(vals)
        # trajectories as the readers see them
        if group == 'consecutive':
            self.parts = [I.binop('Add', self.trs[0].value, self.trs[1].value)]
            for t in self.trs[2:]:
                self.parts = [I.binop('Add', self.parts[0], t.value)]
        else:
            self.parts = [t.value for t in self.trs]
        self.params = dict(specie=Str('Li'), time_step=num('time_step', lo=Fraction(1, 10)), step_skip=num('step_skip', True, 1), progress=B(False),
                           n_steps=num('n_steps', True, 2), min_dt=num('min_dt', lo=Fraction(1, 10)), max_dt=num('max_dt', lo=Fraction(1, 10)),
                           memory_limit=num('mem', lo=1), sampling=Str('single-origin'), spacing=Str('logarithmic'), sub_sample_traj=num('sub', True, 1))
        if group == 'consecutive':
            # joined frames: any number without sub-sampling, or a few with
            self.params['sub_sample_traj'] = Num(2 if short else 1, 'int')
        if kind == 'MDAnalysis':
            self.params['sub_sample_atoms'] = num('suba', True, 1)
        if few:
            self.params = {k: self.params[k] for k in ('specie', 'time_step', 'step_skip', 'progress')}


def read(ck, part, reader, params):
    """(delta_t, disp_3d, n_o, volume) of a direct use of the reader"""
    C, I = ck.C, ck.I
    r = C.run(reader, [part], dict(params), cuts=CUTS)
    if r.raised or r.value is None:
        raise Unsupported('the reader raises')
    return [I.get_attr(r.value, a) for a in ('delta_t', 'disp_3d', '_n_o', 'volume')], r


def pooled(I, us):
    """observations of equal intervals of several trajectories, joined along the atoms; counts summed"""
    fz = [[I.freeze(x, I.st) for x in u] for u in us]
    dense = [u[1].dense() for u in fz]
    n = dense[0][0]

    def item(i):
        arrs = [d[1](i) for d in dense]
        N = arrs[0].shape[0]

        def f(a, t, x):
            r = arrs[-1].fn(a - N * (len(arrs) - 1), t, x)
            for j in range(len(arrs) - 2, -1, -1):
                r = ite(c_lt(a, N * (j + 1)), arrs[j].fn(a - N * j, t, x), r)
            return r
        return Arr([N * len(arrs), arrs[0].shape[1], const(3)], lambda a, t, x: f(P(a), P(t), P(x)))
    no = [I.lib.as_arr(I, u[2]) for u in fz]
    return [us[0][0], lst(I, n, item), I.new_arr(Arr([no[0].shape[0]], lambda i: sum((x.fn(i) for x in no), ZERO))), us[0][3]]


def build(ck, name, factory, count, group, unc, charge=None, few=False):
    """(run of the factory, input, reference [delta_t, disp_3d, n_o, volume])"""
    C, I = ck.C, ck.I
    inp = Input(ck, factory, count, group, few)
    us = [read(ck, p, inp.reader, inp.params)[0] for p in inp.parts]
    ref = pooled(I, us) if group == 'identical' else us[0]
    kw = {}
    if unc is not None:
        kw['uncertainty_params'] = cdict(I, unc, 'input:uncertainty_params')
    if group is not None:
        kw['dtype'] = Str(group)
    if charge is not None:
        kw['ionic_charge'] = charge
    r = C.run(AZ + name + '.' + factory, [inp.value, cdict(I, inp.params, 'input:parser_params')], kw, cuts=CUTS)
    return r, inp, ref


def statistics(ck, kind, ref, unc, charge=None):
    """direct construction of the displacement statistics"""
    C, I = ck.C, ck.I
    args = [ref[0], ref[1]] + ([charge if charge is not None else Num(1, 'int')] if kind == 'MSCD' else []) + [ref[2]]
    r = C.run(KINDS[kind], args, dict(unc or {}), cuts=CUTS)
    if r.raised or r.value is None:
        raise Unsupported('the statistics raise')
    return r.value


def dists(I, v):
    """list of distributions -> list of sample arrays"""
    v = I.freeze(v, I.st)
    if isinstance(v, Seq):
        return I.map_terms(v, lambda t: t) if False else v
    return v


def same_list(ck, name, got, want, at, assume=TRUE):
    """lists of distributions, by their samples"""
    I = ck.I
    g, w = I.freeze(got, I.st), I.freeze(want, I.st)
    if isinstance(g, Seq) and isinstance(w, Seq):
        if g.items() is not None and w.items() is not None:
            a, b = g.items(), w.items()
            if len(a) != len(b):
                return ck.flag(name, False, at, '%d entries' % len(a), '%d entries' % len(b))
            for x, y in zip(a, b):
                same_value(ck, name, x, y, at, assume)
            return None
        dg, dw = g.dense(), w.dense()
        if dg and dw:
            ck.eq(name + ': number', Num(dg[0]), Num(dw[0]), at, assume)
            k = fresh('e', ub=dw[0])
            return same_value(ck, name, unwrap(dg[1](k)), unwrap(dw[1](k)), at, assume)
    return same_value(ck, name, g, w, at, assume)


# ------------------------------------------------------------------ C21
def c21(ck):
    """For every factory, analyzer and grouping of the trajectories the analyzer is built abstractly and compared with a direct use of the
    reader (same options, once per trajectory, or once on the joined frames) followed by a direct construction of the matching statistics
    on the reference pool: times, means, deviations, displacements, volume. Unwrapping and windowing are stand-ins named by everything
    passed to them, so equal results mean equal arguments. Every option is given, or only the
    required ones. Unknown groupings must raise ValueError on every path."""
    C, I = ck.C, ck.I
    groups = [(None, 1), ('identical', 2), ('identical', 3), ('consecutive', 2), ('consecutive', 3), ('identical', 7), ('consecutive', 7)]
    if ck.tier == 'thorough':
        groups += [('identical', 4), ('consecutive', 4), ('identical', 1)]
    for name, (kind, mean, std, fit, coef) in ANALYZERS.items():
        for factory in FACTORIES:
            at = AZ + name + '.' + factory
            for group, count in groups:
                if group == 'consecutive' and factory == 'from_universe':
                    continue
                if name != 'DiffusionAnalyzer' and count > 2 or count > 4 and factory != 'from_file' and ck.tier != 'thorough':
                    continue
                for opts in (True, False):
                    if not opts and group is not None and (count > 2 or name != 'DiffusionAnalyzer'):
                        continue
                    with ck.config('%s.%s, %s trajectories %s%s' % (name, factory, count, group or '', '' if opts else ', default options'), at):
                        C.reset()
                        unc = dict(dimension=Str('xz'), sub_sample_dt=num('ssd', True, 1), progress=B(False)) if opts else None
                        charge = num('q') if opts and kind == 'MSCD' else None
                        r, inp, ref = build(ck, name, factory, count, group, unc, charge, few=not opts)
                        if not ck.ran(r, at):
                            continue
                        b = statistics(ck, kind, ref, unc, charge)
                        an = r.value
                        cls = C.resolve(AZ + name)
                        c = I.content(an) if isinstance(an, Ref) else None
                        ck.flag('kind of object', None if not isinstance(c, ObjC) else c.cls is cls, at, repr(an)[:200])
                        for acc, own in (('dt', 'dt'), (mean, 'n'), (std, 's')):
                            g = C.attr(an, acc)
                            if ck.ran(g, at):
                                same_value(ck, acc, I.freeze(g.value, I.st), I.freeze(C.attr(b, own).value, I.st), at)
                        g = C.attr(an, 'dr')
                        if ck.ran(g, at):
                            same_list(ck, 'displacements', g.value, C.attr(b, 'euclidian_displacements').value, at)
                        g = C.attr(an, 'volume')
                        if ck.ran(g, at):
                            same_value(ck, 'volume', I.freeze(g.value, I.st), I.freeze(ref[3], I.st), at)
            with ck.config('%s.%s, unknown grouping' % (name, factory), at):
                C.reset()
                inp = Input(ck, factory, 2, 'identical')
                r = C.run(at, [inp.value, cdict(I, inp.params)], {'dtype': Str('parallel')}, cuts=CUTS)
                ck.flag('unknown grouping is rejected', True if r.raised and all(exc_isa(e.cls, 'ValueError') for e in r.excs) and r.excs else
                        (None if r.value is None and not r.excs else False), at, 'returns' if not r.raised else '; '.join(exc_text(e) for e in r.excs)[:200], 'ValueError')


# ------------------------------------------------------------------ C22
def same_rng(I, name='global-rng'):
    I.st.heap[I.rng] = RngC(sym(name))


def samples(I, v):
    v = unwrap(I.freeze(v, I.st))
    return I.lib.as_arr(I, v) if isinstance(v, (Arr, Seq)) else None


def c22(ck):
    """An analyzer and directly built statistics get the same data and the same fit; every public accessor of the analyzer is compared with
    the corresponding quantity of the direct object (or its definition for derived ones), before a fit, with resampling, after a fit with and
    without an intercept, and after a second fit (other start, other choice of intercept) of an object that was read in between. Reading accessors must leave the abstract state of the object unchanged."""
    C, I = ck.C, ck.I
    for name, (kind, mean, std, fit, coef) in ANALYZERS.items():
        for state in ('before a fit', 'with resampling, before a fit', 'after a fit with an intercept', 'after a fit without an intercept', 'after a second fit without an intercept', 'after a second fit with an intercept'):
            at = AZ + name
            with ck.config('%s %s' % (name, state), at):
                ft, an, ref = wrapped(ck, name, **(dict(bootstrap=B(True), n_resamples=num('nres', True, 2), max_resamples=num('maxres', True, 2), random_state=rstate(I), cuts={SUN: resampled}) if 'resampling' in state else {}))
                b, some = ft.b, TRUE
                if 'second' in state:
                    # everything has been read after an earlier fit from another start
                    par = dict(progress=B(False), n_samples=num('ns', True, 1), n_walkers=num('nw', True, 4), thin=Num(1, 'int'), fit_intercept=B(True), random_state=rstate(I))
                    C.run(I.get_attr(an, fit), [Num(sym('start0'))] + ([num('temp0', lo=1)] if kind == 'MSCD' else []), {fit + '_params': cdict(I, par)})
                    for acc in ('dt', mean, std, 'intercept', coef, 'dr', 'volume', 'ngp_max', 'distribution', 'flatchain'):
                        C.attr(an, acc)
                    C.run(I.get_attr(an, 'posterior_predictive'), [cdict(I, dict(n_posterior_samples=num('npost', True, 1), n_predictive_samples=num('npred', True, 1), progress=B(False)))])
                if 'before' not in state:
                    icpt = 'with an' in state
                    some = ft.some
                    start, temp = Num(ft.start), num('temp', lo=1)
                    par = dict(progress=B(False), n_samples=num('ns', True, 1), n_walkers=num('nw', True, 4), thin=Num(1, 'int'), fit_intercept=B(icpt), random_state=rstate(I))
                    same_rng(I)
                    f = C.run(I.get_attr(an, fit), [start] + ([temp] if kind == 'MSCD' else []), {fit + '_params': cdict(I, par)})
                    if not ck.ran(f, at + '.' + fit):
                        continue
                    first = obj_values(I, b)
                    same_rng(I)
                    par['random_state'] = rstate(I)
                    g = C.run(I.get_attr(b, fit), [start] + ([temp, ref[3]] if kind == 'MSCD' else []), par)
                    if g.raised or g.value is None:
                        raise Unsupported('the direct fit raises')
                    ck.flag('same exceptions as the direct fit', same_excs(f, g), at + '.' + fit, excs(f), excs(g))
                    second = obj_values(I, b)
                    for k in sorted(second):
                        same_value(ck, 'fit through the analyzer: %s' % k, first.get(k, UNDEF), second[k], at + '.' + fit, some)
                before = term_of_obj(I, an)
                own = lambda x: C.attr(b, x).value
                for acc, o in (('dt', 'dt'), (mean, 'n'), (std, 's'), ('intercept', 'intercept'), (coef, coef)):
                    v = C.attr(an, acc)
                    if ck.ran(v, at + '.' + acc):
                        same_value(ck, acc, I.freeze(v.value, I.st), I.freeze(own(o), I.st), at + '.' + acc, some)
                v = C.attr(an, 'dr')
                if ck.ran(v, at + '.dr'):
                    same_list(ck, 'dr', v.value, own('euclidian_displacements'), at + '.dr')
                v = C.attr(an, 'volume')
                if ck.ran(v, at + '.volume'):
                    same_value(ck, 'volume', I.freeze(v.value, I.st), I.freeze(ref[3], I.st), at + '.volume')
                v = C.attr(an, 'ngp_max')
                if ck.ran(v, at + '.ngp_max'):
                    t, g = [I.lib.as_arr(I, own(x)) for x in ('dt', 'ngp')]
                    j = I.call(ExtV('numpy.argmax'), [I.new_arr(g)], {})
                    ck.eq('time of the largest non-Gaussian parameter', v.value, Num(t.fn(j.p)), at + '.ngp_max')
                if 'before' not in state:
                    g, i0, d = samples(I, own('gradient')), samples(I, own('intercept')) if icpt else None, samples(I, own(coef))
                    v = C.attr(an, 'distribution')
                    untouched(ck, v, at)
                    if ck.ran(v, at + '.distribution'):
                        t = I.lib.as_arr(I, own('dt'))
                        ck.eq('distribution of the lines', v.value, Arr([t.shape[0], g.shape[0]], lambda i, k: g.fn(k) * t.fn(i) + (i0.fn(k) if icpt else ZERO)), at + '.distribution', some)
                    v = C.attr(an, 'flatchain')
                    untouched(ck, v, at)
                    if ck.ran(v, at + '.flatchain'):
                        ck.eq('chain of coefficients and intercepts', v.value,
                              Arr([d.shape[0], const(2 if icpt else 1)], lambda k, j: ite(c_eq0(P(j)), d.fn(k), i0.fn(k)) if icpt else d.fn(k)), at + '.flatchain', some)
                    pp = dict(n_posterior_samples=num('npost', True, 1), n_predictive_samples=num('npred', True, 1), progress=B(False))
                    same_rng(I)
                    v = C.run(I.get_attr(an, 'posterior_predictive'), [cdict(I, pp)])
                    same_rng(I)
                    w = C.run(I.get_attr(b, 'posterior_predictive'), [], pp)
                    if ck.ran(v, at + '.posterior_predictive') and w.value is not None:
                        same_value(ck, 'posterior predictive', I.freeze(v.value, I.st), I.freeze(w.value, I.st), at + '.posterior_predictive', some)
                    untouched(ck, v, at + '.posterior_predictive')
                after = term_of_obj(I, an)
                ck.flag('reading changes nothing', True if before is after else None, at)


def wrapped(ck, name, n=None, **kw):
    """an analyzer around statistics with arbitrary per-interval data: (Fit, analyzer, [.., volume])"""
    C, I = ck.C, ck.I
    ft = Fit(ck, ANALYZERS[name][0], n=n, **kw)
    I.n_windows = n
    try:
        r, inp, ref = build(ck, name, 'from_ase', 1, None, dict(progress=B(False)))
    finally:
        I.n_windows = None
    if r.raised or r.value is None:
        raise Unsupported('the factory raises')
    inner = [k for k, v in I.content(r.value).attrs.items() if isinstance(v, Ref) and isinstance(I.content(v), ObjC) and is_boot(I.content(v).cls)]
    if not inner:
        raise Unsupported('no statistics inside the analyzer')
    for k in inner:
        I.set_attr(r.value, k, ft.b)
    return ft, r.value, ref


def is_boot(c):
    return c.name in ('Bootstrap', 'MSDBootstrap', 'MSTDBootstrap', 'MSCDBootstrap') or any(isinstance(x, ClsV) and is_boot(x) for x in getattr(c, 'bases', ()))


def excs(r):
    return '; '.join(sorted({exc_text(e) for e in r.excs}))[:300]


def same_excs(a, b):
    """the same exceptions under the same conditions"""
    f = lambda r: {(str(getattr(e.cls, 'name', None) or getattr(e.cls, 'q', e.cls)), e.state.pc) for e in r.excs}
    return True if f(a) == f(b) else None


def term_of_obj(I, v):
    """term of everything reachable from an object"""
    v = I.freeze(v, I.st) if isinstance(v, V) else v
    if isinstance(v, FObj):
        return mk('fn', 'obj', *[mk('kw', k, term_of_obj(I, x)) for k, x in sorted(v.attrs.items()) if not isinstance(x, (FuncV, BoundV, RangeV))])
    if isinstance(v, XObj) and v.kind == 'tqdm':
        return mk('none')
    return I.term(v)


# ------------------------------------------------------------------ C26
def always(ck, r, classes, at, name, besides=(), cond=TRUE):
    """no normal completion under cond, and only exceptions of the given classes (or those named as taking precedence)"""
    ok = r.raised or r.value is None
    if not ok:
        c = FALSE
        for e in r.excs:
            if any(exc_isa(e.cls, k) for k in tuple(classes) + tuple(besides)):
                c = c_or(c, e.state.pc)
        return ck.eq(name, BoolV(c_and(c, cond)), BoolV(cond), at)
    if not r.excs:
        return ck.undecided(name, at, 'no completion and no exception')
    wrong = [e for e in r.excs if not any(exc_isa(e.cls, k) for k in tuple(classes) + tuple(besides))]
    right = [e for e in r.excs if any(exc_isa(e.cls, k) for k in classes)]
    if any(has_opaque(e.state.pc) for e in wrong):
        return ck.undecided(name, at, 'raise condition not understood')
    return ck.flag(name, bool(right) and not wrong, at, excs(r), ' or '.join(classes))


def c26(ck):
    """For every enumerated option an unknown value must make every abstract path end in the documented exception and no valid value may
    have a reachable raise of it; the conditions of the length checks (masses, molecule sizes, atom sub-sampling with explicit indices) are
    compared, as path conditions over symbolic lengths, with the documented ones."""
    C, I = ck.C, ck.I
    m = sym('m', True, 1)
    tau = tensor('tau', int_=True, pos=True)
    ti = lambda I, a, k: I.new_arr(Arr([m], lambda k: el(tau, k), 'int'))
    for samp in ('multi-origin', 'single-origin', 'every-origin', ''):
        with ck.config('sampling %r' % samp, GET_DISPS):
            C.reset()
            p = P_inputs(ck)
            r = C.run(PARSER, p['args'], dict(progress=B(False), sampling=Str(samp)), cuts={GET_TI: ti})
            if samp.endswith('e-origin') or samp == 'multi-origin':
                if ck.ran(r, GET_DISPS):
                    c = r.exc_conds('ValueError')
                    ck.eq('valid sampling is accepted', BoolV(c_and(c, c_lt(1, p['T']))), BoolV(FALSE), GET_DISPS)
            else:
                always(ck, r, ['ValueError'], GET_DISPS, 'unknown sampling is rejected', besides=('MemoryError',))
    for sp in ('linear', 'logarithmic', 'quadratic', ''):
        with ck.config('spacing %r' % sp, GET_TI):
            C.reset()
            p = P_inputs(ck)
            r = C.run(PARSER, p['args'], dict(progress=B(False), spacing=Str(sp)), cuts={GET_DISPS: windows})
            if sp.startswith('l'):
                if ck.ran(r, GET_TI):
                    ck.eq('valid spacing is accepted', BoolV(c_and(r.exc_conds('ValueError'), c_lt(1, p['T']))), BoolV(FALSE), GET_TI)
            else:
                always(ck, r, ['ValueError'], GET_TI, 'unknown spacing is rejected')
                C.reset()
                p = P_inputs(ck)
                r = C.run(PARSER, p['args'], dict(progress=B(False), spacing=Str(sp), n_steps=Num(1, 'int')), cuts={GET_DISPS: windows})
                always(ck, r, ['ValueError'], GET_TI, 'unknown spacing is rejected for a single step')
    for kind in KINDS:
        for dim in ('w', 'xyw', 'zx', 'zyx', 'xx', 'xyzx', ' x', 'x ', 'x,y', '', b'w', b'x '):
            with ck.config('%s statistics, dimension %r' % (kind, dim), KINDS[kind]):
                C.reset()
                o = Obs(ck, kind)
                r = C.run(KINDS[kind], o.args, dict(progress=B(False), dimension=Str(dim)))
                always(ck, r, ['KeyError'], KINDS[kind], 'unknown dimension is rejected')
    for kind in READERS:
        cls = READERS[kind]
        with ck.config('%s reader, nothing selected' % kind, cls):
            C.reset()
            tr = Traj(ck, kind, sub=P(1))
            r = C.run(cls, [tr.value, NONE, tr.ts, tr.ss], dict(progress=B(False)), cuts=CUTS)
            always(ck, r, ['TypeError'], cls, 'missing selection is rejected')
        for given in ('masses', 'no masses'):
            with ck.config('%s reader, molecules, %s' % (kind, given), cls):
                C.reset()
                tr = Traj(ck, kind, sub=P(1))
                nmol, nm, nq = sym('nmol', True, 1), sym('nm', True, 2), sym('nq', True, 0)
                mi = tensor('mol', int_=True, pos=True)
                kw = dict(progress=B(False), framework_indices=clist(I, []), specie_indices=lst(I, nmol, lambda k: lst(I, nm, lambda j, k=k: Num(el(mi, k, j), 'int'))))
                if given == 'masses':
                    kw['masses'] = flist(I, 'mass', nq, pos=True)
                r = C.run(cls, [tr.value, NONE, tr.ts, tr.ss], kw, cuts=CUTS)
                if ck.ran(r, cls):
                    ck.raises(r, ['ValueError'], cls, c_not(c_eq0(nq - nm)) if given == 'masses' else FALSE, assume=c_le(3, tr.F),
                              name='error exactly when the number of masses differs from the size of a molecule')
        with ck.config('%s reader, molecules of different size' % kind, cls):
            C.reset()
            tr = Traj(ck, kind, sub=P(1))
            mi = tensor('mol', int_=True, pos=True)
            mol = lambda k, n: lst(I, const(n), lambda j, k=k: Num(el(mi, P(k), j), 'int'))
            r = C.run(cls, [tr.value, NONE, tr.ts, tr.ss], dict(progress=B(False), framework_indices=clist(I, []), specie_indices=clist(I, [mol(0, 2), mol(1, 3)])), cuts=CUTS)
            always(ck, r, ['ValueError'], cls, 'molecules of different size are rejected')
    cls = READERS['MDAnalysis']
    for sel in ('indices', 'species'):
        with ck.config('MDAnalysis reader, atom sub-sampling with %s' % sel, cls):
            C.reset()
            sa = sym('sa', True, 1)
            tr = Traj(ck, 'MDAnalysis', sub=P(1), sub_atoms=sa)
            kw = dict(progress=B(False), sub_sample_atoms=Num(sa, 'int'))
            if sel == 'indices':
                kw['specie_indices'] = ilist(I, 'selx', sym('ns', True, 1))
                kw['framework_indices'] = clist(I, [])
            r = C.run(cls, [tr.value, Str('Li') if sel == 'species' else NONE, tr.ts, tr.ss], kw, cuts=CUTS)
            if ck.ran(r, cls):
                if sel == 'indices':
                    ck.raises(r, ['ValueError'], cls, c_not(c_eq0(sa - 1)), assume=c_le(3, tr.F), name='error exactly when atoms are sub-sampled')
                else:
                    none = c_not(I.lib.any_over([tr.n_read()], lambda i: c_b('streq', mk('strc', 'Li'), tr.type(i).t)))
                    ck.raises(r, ['ValueError'], cls, none, assume=c_le(3, tr.F), name='error exactly when no atom is selected')
    for name in ANALYZERS:
        for factory in FACTORIES:
            at = AZ + name + '.' + factory
            for bad in ('parallel', ''):
                with ck.config('%s.%s, grouping %r' % (name, factory, bad), at):
                    C.reset()
                    inp = Input(ck, factory, 2, 'identical')
                    r = C.run(at, [inp.value, cdict(I, inp.params)], {'dtype': Str(bad)}, cuts=CUTS)
                    always(ck, r, ['ValueError'], at, 'unknown grouping is rejected')


# ------------------------------------------------------------------ C19
BOOT_ATTRS = ('dt', 'n', 's', 'v', 'n_i', 'ngp', 'gradient', 'intercept', 'flatchain', 'covariance_matrix', 'D', 'D_J', 'sigma', 'dims')


def same_obj(ck, a, b, names, lists, at, some=TRUE, pre=''):
    """public attributes of two objects"""
    C, I = ck.C, ck.I
    for nm in names:
        x, y = C.attr(a, nm), C.attr(b, nm)
        if x.raised and y.raised:
            continue
        if ck.ran(y, at):
            same_value(ck, pre + nm, I.freeze(y.value, I.st), I.freeze(x.value, I.st), at, some)
    for nm in lists:
        x, y = C.attr(a, nm), C.attr(b, nm)
        if ck.ran(y, at):
            same_list(ck, pre + nm, y.value, x.value, at, some)


def same_attrs(ck, a, b, at, some=TRUE):
    """stored values that exist on both sides must agree (a value recomputed on demand may be missing)"""
    I = ck.I
    va, vb = obj_values(I, a), obj_values(I, b)
    for k in sorted(va):
        x, y = va[k], vb.get(k)
        if y is None or y is NONE or y is UNDEF or x is NONE or x is UNDEF or isinstance(x, FObj):
            continue
        same_list(ck, 'stored ' + k, y, x, at, some)


def same_dict(ck, name, got, want, at, some=TRUE):
    """equal dictionaries, entry by entry"""
    I = ck.I
    g, w = I.freeze(got, I.st), I.freeze(want, I.st)
    if not isinstance(g, FDict) or not isinstance(w, FDict):
        return ck.undecided(name, at, 'not a dictionary')
    if set(g.d) != set(w.d):
        return ck.flag(name, False, at, 'keys %s' % sorted(map(str, g.d)), 'keys %s' % sorted(map(str, w.d)))
    for k in sorted(w.d, key=str):
        x, y = g.d[k], w.d[k]
        if isinstance(x, FDict) and isinstance(y, FDict):
            same_dict(ck, '%s[%s]' % (name, k), x, y, at, some)
        else:
            same_value(ck, '%s[%s]' % (name, k), x, y, at, some)


def round_trip(ck, o, cls, at):
    """(dictionary, restored object) or None"""
    C, I = ck.C, ck.I
    d = C.run(I.get_attr(o, 'to_dict'), [])
    if not ck.ran(d, at + '.to_dict'):
        return None
    ck.no_raise(d, at + '.to_dict', name='converting to a dictionary raises nothing')
    f = C.run(I.get_attr(cls, 'from_dict'), [d.value])
    if not ck.ran(f, at + '.from_dict'):
        return None
    ck.no_raise(f, at + '.from_dict', name='converting back raises nothing')
    return d.value, f.value


def c19(ck):
    """Statistics and analyzers are built on arbitrary data (before a fit, after one with and without an intercept, with sub-sampling, a
    dimension choice and resampling), converted to a dictionary and back: public quantities, stored values and the dictionary of the
    restored object must equal the original's, and a fit and a prediction on both must give the same results."""
    C, I = ck.C, ck.I
    how = {'MSD': ('diffusion', []), 'MSTD': ('jump_diffusion', []), 'MSCD': ('conductivity', ['temp', 'vol'])}

    def check(o, cls, at, names, lists, some=TRUE, fit=None, after=False, pred=False):
        rt = round_trip(ck, o, cls, at)
        if rt is None:
            return
        d, o2 = rt
        c1, c2 = I.content(o), I.content(o2) if isinstance(o2, Ref) else None
        ck.flag('same class', None if not isinstance(c2, ObjC) else c1.cls is c2.cls, at, repr(o2)[:100])
        same_obj(ck, o, o2, names, lists, at, some)
        same_attrs(ck, o, o2, at, some)
        d2 = C.run(I.get_attr(o2, 'to_dict'), [])
        if ck.ran(d2, at + '.to_dict'):
            same_dict(ck, 'dictionary', d2.value, d, at, some)
        if pred:
            pp = dict(n_posterior_samples=num('npost', True, 1), n_predictive_samples=num('npred', True, 1), progress=B(False))
            out = []
            for x in (o, o2):
                same_rng(I)
                out.append(C.run(I.get_attr(x, 'posterior_predictive'), [cdict(I, pp)] if names is not BOOT_ATTRS else [], {} if names is not BOOT_ATTRS else pp))
            if ck.ran(out[1], at) and out[0].value is not None:
                same_value(ck, 'posterior predictive', I.freeze(out[1].value, I.st), I.freeze(out[0].value, I.st), at, some)
        if fit is not None:
            out = []
            for x in (o, o2):
                same_rng(I)
                r = fit(x)
                if x is o2 and not ck.ran(r, at):
                    return
                out.append(r)
            same_obj(ck, o, o2, names, lists, at, some, 'after a fit on both: ')

    def fitter(method, extra, some_params=None, via=False, icpt=True):
        def f(x):
            par = dict(progress=B(False), fit_intercept=B(icpt), thin=Num(1, 'int'), n_samples=num('ns', True, 1), random_state=rstate(I))
            args = [Num(sym('start'))] + [num(e, lo=1) for e in extra]
            return C.run(I.get_attr(x, method), args, {method + '_params': cdict(I, par)} if via else par)
        return f
    for kind in KINDS:
        at = KINDS[kind]
        for opts in ('default', 'sub-sampled, one dimension', 'resampled'):
            with ck.config('%s statistics, %s, before a fit' % (kind, opts), at):
                C.reset()
                o = Obs(ck, kind, dim='y' if 'sub' in opts else 'xyz', sub=sym('sub', True, 1) if 'sub' in opts else None)
                kw = kwargs(o)
                if opts == 'resampled':
                    kw.update(bootstrap=B(True), random_state=rstate(I))
                r = C.run(at, o.args, kw, cuts=CUTS)
                if ck.ran(r, at):
                    check(r.value, C.resolve(at), at, BOOT_ATTRS, ('euclidian_displacements',))
        for icpt in (True, False):
            with ck.config('%s statistics after a fit, intercept %s' % (kind, icpt), at):
                ft = Fit(ck, kind, dim='xz')
                fit = fitter(*how[kind], icpt=icpt)
                r = fit(ft.b)
                if ck.ran(r, at):
                    check(ft.b, C.resolve(at), at, BOOT_ATTRS, ('euclidian_displacements',), ft.some, fitter(*how[kind], icpt=not icpt), pred=True)
    with ck.config('MSD statistics restored through the base class', BOOT):
        ft = Fit(ck, 'MSD')
        r = fitter('diffusion', [])(ft.b)
        if ck.ran(r, BOOT):
            rt = round_trip(ck, ft.b, C.resolve(BOOT), BOOT)
            if rt:
                same_obj(ck, ft.b, rt[1], BOOT_ATTRS, ('euclidian_displacements',), BOOT, ft.some)
    for name, (kind, mean, std, fit, coef) in ANALYZERS.items():
        at = AZ + name
        names = ('dt', mean, std, coef, 'intercept', 'volume', 'ngp_max')
        extra = [e for e in how[kind][1] if e != 'vol']
        for state in ('before a fit', 'with resampling, before a fit', 'after a fit with an intercept', 'after a fit without an intercept'):
            with ck.config('%s %s' % (name, state), at):
                ft, an, ref = wrapped(ck, name)
                more = ()
                if 'before' not in state:
                    r = fitter(fit, extra, via=True, icpt='with an' in state)(an)
                    if not ck.ran(r, at):
                        continue
                    more = ('distribution', 'flatchain')
                check(an, C.resolve(at), at, names + more, ('dr',), ft.some if more else TRUE, fitter(fit, extra, via=True) if more else None, pred=bool(more))
    at = 'kinisi.analyzer.Analyzer'
    with ck.config('Analyzer', at):
        C.reset()
        o = Obs(ck, 'MSD')
        r = C.run(at, [o.dtv, o.disp, o.nov, num('vol', lo=1)])
        if ck.ran(r, at):
            check(r.value, C.resolve(at), at, ('volume',), ())


# ------------------------------------------------------------------ C20
def same_h5(ck, name, got, want, at, some=TRUE):
    """a loaded value against the saved one; text may come back as bytes"""
    I = ck.I
    g, w = got, want
    if isinstance(w, FDict) or isinstance(g, FDict):
        if not isinstance(g, FDict) or not isinstance(w, FDict):
            return ck.flag(name, False if isinstance(g, (FDict, Num, Str, Arr, Seq)) or g is NONE else None, at, repr(g)[:200], repr(w)[:200])
        if set(g.d) != set(w.d):
            return ck.flag(name, False, at, 'keys %s' % sorted(map(str, g.d)), 'keys %s' % sorted(map(str, w.d)))
        for k in sorted(w.d, key=str):
            same_h5(ck, '%s[%s]' % (name, k), g.d[k], w.d[k], at, some)
        return None
    if isinstance(w, Str):
        b = lambda x: x.s.encode() if isinstance(x.s, str) else x.s
        return ck.flag(name, (b(g) == b(w)) if isinstance(g, Str) else (None if isinstance(g, (TV, IteV)) else False), at, repr(g)[:200], repr(w)[:200])
    if w is NONE or g is NONE:
        return ck.flag(name, g is w if isinstance(g, (Num, Str, Arr, Seq, FDict)) or g is NONE else None, at, repr(g)[:200], repr(w)[:200])
    if isinstance(w, Seq) and w.kind == 'list' and w.items() is not None and isinstance(g, Seq) and g.kind == 'list' and g.items() is not None:
        a, b = g.items(), w.items()
        if len(a) != len(b):
            return ck.flag(name, False, at, '%d entries' % len(a), '%d entries' % len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same_h5(ck, '%s[%d]' % (name, i), x, y, at, some)
        return None
    return ck.eq(name, g, w, at, some)


def h5_shapes(I):
    """nested values of every supported type"""
    A = lambda nm, *sh: arr(I, nm, list(sh) or [sym('n_' + nm, True, 1)])
    F = lambda nm: num(nm)
    D = lambda **kw: cdict(I, kw)
    Ls = lambda *v: clist(I, list(v))
    yield 'array', D(a=A('a'))
    yield 'two-dimensional and scalar arrays', D(a=A('a', sym('na', True, 1), 3), b=I.new_arr(Arr([], lambda: sym('s0'))))
    yield 'numbers', D(i=num('i', True), f=F('f'), neg=Num(-3, 'int'), zero=Num(0, 'int'))
    yield 'text and bytes', D(s=Str('xyz'), b=Str(b'xy'), e=Str('resampled until normal'))
    yield 'missing value', D(a=NONE, b=F('f'))
    yield 'nested mappings', D(a=D(b=D(c=A('c'), d=NONE), e=F('e')), f=D(g=Str('x')))
    yield 'list of arrays', D(a=Ls(A('a0'), A('a1'), A('a2')))
    for n in (1, 10, 12, 23):
        yield 'list of %d arrays' % n, D(a=Ls(*[A('a%d' % j) for j in range(n)]), b=F('b'))
        yield 'list of %d mappings' % n, D(a=Ls(*[D(name=Str('n%d' % j), samples=A('a%d' % j)) for j in range(n)]))
    for n in (101, 1030):
        yield 'list of %d numbers' % n, D(a=Ls(*[F('a%d' % j) for j in range(n)]))
    yield 'mixed list', D(a=Ls(A('a0'), NONE, F('f'), num('i', True), D(x=NONE, y=A('y')), Str('t')))
    yield 'list that starts with a missing value', D(a=Ls(NONE, NONE, A('a2')))
    yield 'mapping with a list with mappings with a list', D(a=D(b=Ls(D(c=Ls(A('c0'), A('c1'), NONE), d=D(e=F('e'))), D(c=Ls(F('g')), d=NONE))))
    yield 'list of eleven mappings with lists', D(a=Ls(*[D(c=Ls(A('c%d' % j), F('f%d' % j))) for j in range(11)]))
    yield 'similar keys', D(a=A('a'), a0=A('a0'), a_std=A('a_std'), aa=D(a=F('fa'), a0=NONE))


def c20(ck):
    """A dictionary of every nesting of supported types (symbolic values) is saved through the public method of an analyzer into an abstract
    HDF5 file (hierarchical names, alphabetical iteration, text read back as bytes, duplicate names and unsupported types rejected) and
    loaded: the result must equal it entry by entry. Whole analyzers are saved and loaded, too. The file opened for writing must be one
    whose existence was excluded on that path (otherwise ValueError), and both methods must open the same file for the same name."""
    C, I = ck.C, ck.I
    base = 'kinisi.analyzer.Analyzer'
    names = ['out', 'out.hdf', 'dir.v1/out', 'a/b.c/out.hdf', './out', '../r.1/out.hdf', 'run.2.hdf']

    def analyzer():
        o = Obs(ck, 'MSD')
        r = C.run(base, [o.dtv, o.disp, o.nov, num('vol', lo=1)])
        if r.raised or r.value is None:
            raise Unsupported('constructor raises')
        return r.value

    def through(d, fname):
        """save the dictionary d, load it: (run of save, run of load, loaded dictionary)"""
        got = {}

        def back(I, a, k):
            got['d'] = I.freeze((a[-1] if a else k.get('my_dict')), I.st)
            return NONE
        cuts = {base + '.to_dict': lambda I, a, k: d, base + '.from_dict': back}
        an = analyzer()
        s = C.run(I.get_attr(an, 'save'), [fname], cuts=cuts)
        if s.raised or s.value is None:
            return s, None, None
        l = C.run(I.get_attr(C.resolve(base), 'load'), [fname], cuts=cuts)
        return s, l, got.get('d')

    def opens(r):
        return [e for e in (r.events if r else []) if e.kind == 'h5open']

    C.reset()
    for text, _ in h5_shapes(I):
        with ck.config('round trip: %s' % text, base + '.save'):
            C.reset()
            d = dict(h5_shapes(I))[text]
            want = I.freeze(d, I.st)
            I.unroll = 2000
            try:
                s, l, got = through(d, Str('out'))
            finally:
                I.unroll = 64
            if not ck.ran(s, base + '.save'):
                continue
            w = opens(s)
            free = c_not(c_b('exists', w[0].data[0])) if w else TRUE
            ck.no_raise(s, base + '.save', assume=free, name='saving raises nothing when the file does not exist')
            if not ck.ran(l, base + '.load'):
                continue
            if got is None:
                ck.undecided('loaded dictionary', base + '.load', 'from_dict not reached')
                continue
            same_h5(ck, 'loaded', got, want, base + '.load')
    for text, bad in (('an object', lambda: XObj('object')), ('a list with an object', lambda: clist(I, [num('f'), XObj('object')]))):
        with ck.config('unsupported value: %s' % text, base + '.save'):
            C.reset()
            s, l, got = through(cdict(I, {'a': num('f'), 'b': bad()}), Str('out'))
            always(ck, s, ['ValueError', 'TypeError'], base + '.save', 'unsupported values are not dropped silently')
    paths = {}
    for fname in names + [None]:
        with ck.config('file name %s' % (fname or 'any'), base + '.save'):
            C.reset()
            f = Str(fname) if fname else TV(mk('sym', 'filename'), 'str')
            s, l, got = through(cdict(I, {'a': num('f')}), f)
            if not ck.ran(s, base + '.save') or not ck.ran(l, base + '.load'):
                continue
            w, r = opens(s), opens(l)
            if not w or not r:
                ck.undecided('same file', base + '.save', 'no file opened')
                continue
            pw, pr = {e.data[0] for e in w if e.data[1] != 'r'}, {e.data[0] for e in r}
            ck.flag('saved and loaded from the same file', True if pw == pr and len(pw) == 1 else (None if fname is None else False), base + '.load', str(sorted(map(show, pr))), str(sorted(map(show, pw))))
            if fname and len(pw) == 1:
                import posixpath
                p = next(iter(pw))
                t = p.args[0] if p.kind == 'strc' else None
                ck.flag('the file lies in the given directory', None if t is None else posixpath.dirname(t) == posixpath.dirname(fname), base + '.save', str(t), fname)
                if t is not None:
                    paths.setdefault(t, []).append(fname)
            for e in w:
                ex = c_b('exists', e.data[0])
                if e.data[1] in ('w',):
                    ck.eq('no existing file is opened for writing', BoolV(c_and(e.pc, ex)), BoolV(FALSE), e.loc if isinstance(e.loc, tuple) else base + '.save')
                elif e.data[1] not in ('x', 'w-'):
                    ck.flag('file mode', None if e.data[1] == '?' else False, base + '.save', e.data[1], 'a mode that creates the file')
            c = s.exc_conds('ValueError')
            ck.eq('an existing file is reported', BoolV(c), BoolV(c_b('exists', w[0].data[0])), base + '.save')
    with ck.config('different names', base + '.save'):
        clash = [v for v in paths.values() if len({x[:-4] if x.endswith('.hdf') else x for x in v}) > 1 and not {x.lstrip('./') for x in v} <= {'out', 'out.hdf'}]
        ck.flag('different names give different files', not clash, base + '.save', str(clash))
    for name, (kind, mean, std, fit, coef) in ANALYZERS.items():
        at = AZ + name
        for state in ('before a fit', 'with resampling, before a fit', 'after a fit with an intercept', 'after a fit without an intercept'):
            with ck.config('%s saved %s' % (name, state), at):
                ft, an, ref = wrapped(ck, name, n=const(11))
                more, icpt = (), 'with an' in state
                if 'before' not in state:
                    par = dict(progress=B(False), fit_intercept=B(icpt), thin=Num(1, 'int'), n_samples=num('ns', True, 1), random_state=rstate(I))
                    r = C.run(I.get_attr(an, fit), [Num(ft.start)] + ([num('temp', lo=1)] if kind == 'MSCD' else []), {fit + '_params': cdict(I, par)})
                    if not ck.ran(r, at):
                        continue
                    more = ('distribution', 'flatchain')
                want = C.run(I.get_attr(an, 'to_dict'), [])
                s = C.run(I.get_attr(an, 'save'), [Str('out')])
                if not ck.ran(s, at + '.save'):
                    continue
                l = C.run(I.get_attr(C.resolve(at), 'load'), [Str('out')])
                if not ck.ran(l, at + '.load'):
                    continue
                ck.flag('same class', None if not isinstance(l.value, Ref) else I.content(l.value).cls is I.content(an).cls, at + '.load')
                same_obj(ck, an, l.value, ('dt', mean, std, coef, 'intercept', 'volume', 'ngp_max') + more, ('dr',), at + '.load', ft.some if more else TRUE)
                back = C.run(I.get_attr(l.value, 'to_dict'), [])
                if ck.ran(back, at + '.load') and want.value is not None:
                    same_h5(ck, 'loaded', I.freeze(back.value, I.st), I.freeze(want.value, I.st), at + '.load', ft.some if more else TRUE)


# ------------------------------------------------------------------ C23
def reachable(I, v, seen):
    """heap cells reachable from a value"""
    if isinstance(v, Ref):
        if v.id in seen:
            return seen
        seen.add(v.id)
        v = I.st.heap.get(v.id)
    if isinstance(v, (list, tuple)):
        for x in v:
            reachable(I, x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            reachable(I, x, seen)
    elif isinstance(v, ListC) or isinstance(v, Seq):
        for s in v.segs:
            if isinstance(s, Item):
                reachable(I, s.v, seen)
    elif isinstance(v, DictC):
        reachable(I, v.d, seen)
    elif isinstance(v, ObjC):
        reachable(I, v.attrs, seen)
    elif isinstance(v, Tup):
        reachable(I, list(v.items), seen)
    elif isinstance(v, XObj):
        reachable(I, [x for x in v.f.values() if isinstance(x, V)], seen)
    return seen


class Effects:
    """Contents of the caller's storage and of everything that exists before any call (modules, classes, default values)."""

    def __init__(self, ck, inputs):
        I = self.I = ck.I
        self.ck = ck
        self.ids = {}
        for k, v in inputs.items():
            for i in reachable(I, v, set()):
                if not isinstance(I.st.heap[i], RngC):
                    self.ids[i] = 'argument ' + k
        for i in ck.C.snap.heap:
            if i in I.st.heap and i not in self.ids and not isinstance(I.st.heap[i], RngC):
                self.ids[i] = 'module or default state'
        self.before = {i: I.st.heap[i] for i in self.ids}

    def content(self, c):
        I = self.I
        if isinstance(c, ArrC):
            return c.v
        if isinstance(c, (ListC, DictC)):
            r = I.alloc_raw(c)
            return I.freeze(Ref(r) if isinstance(r, int) else r, I.st)
        return None

    def verify(self, at, events=()):
        I, ck = self.I, self.ck
        changed = []
        for i, old in self.before.items():
            new = I.st.heap.get(i)
            if new is old or new is None:
                continue
            if isinstance(old, FrameC):
                ov, nv = old.vars if hasattr(old, 'vars') else {}, new.vars if hasattr(new, 'vars') else {}
                if all(nv.get(k) is x for k, x in ov.items()) and set(ov) == set(nv):
                    continue
                diff = sorted(k for k in set(ov) | set(nv) if ov.get(k) is not nv.get(k))
                changed.append((self.ids[i], None if any(k.startswith('__') for k in diff) else False, 'variables %s' % diff))
                continue
            a, b = self.content(old), self.content(new)
            if a is None or b is None:
                changed.append((self.ids[i], None, 'object state'))
                continue
            if isinstance(a, FDict) and isinstance(b, FDict) and set(a.d) != set(b.d):
                changed.append((self.ids[i], False, 'keys %s' % sorted(map(str, set(a.d) ^ set(b.d)))))
                continue
            try:
                if I.term(a) is I.term(b):
                    continue
            except Exception:
                pass
            o = compare(I, b, a, TRUE, seed=ck.seed)
            if o.verdict != EQ:
                changed.append((self.ids[i], False if o.verdict == DIFF else None, '%s; was %s' % (cut(o.got), cut(o.want))))
        for lab, v, text in changed:
            ck.flag('%s is unchanged' % lab, v, at, text, 'the value before the call')
        named = {x for e in events if e.kind == 'mutate' for x in e.data[0]}
        for e in events:
            if e.kind == 'mutate' and any(p.startswith(('input', 'default', 'samples')) for p in e.data[0]):
                item = all(p.startswith(('input-item', 'input:trajectory', 'samples')) for p in e.data[0])
                if item:
                    o = compare(I, BoolV(e.pc), BoolV(FALSE), TRUE, seed=ck.seed)
                    if o.verdict != EQ:
                        ck.flag('%s is unchanged' % ', '.join(e.data[0]), False if o.verdict == DIFF and len(e.data[0]) == 1 else None, at_of(e, at), '%s under %s' % (e.data[1], show(e.pc)[:200]), 'no write')
                elif not changed:
                    ck.add('write to %s leaves its contents' % ', '.join(e.data[0]), EQ, at, 'contents compared')
            elif e.kind == 'global-store':
                ck.flag('module or class attribute is unchanged', False, at_of(e, at), str(e.data), 'no write')
        if not changed:
            ck.add('arguments, defaults and module state are unchanged', EQ, at, 'contents of %d cells compared' % len(self.before))


def at_of(e, at):
    return e.loc if isinstance(getattr(e, 'loc', None), tuple) else at


def item_prov(I, o):
    """the observations of Obs with element provenance (elements of a list of any length are not cells of their own)"""
    d, M = tensor('d'), tensor('M', int_=True, lo=2)
    pr = frozenset(['input-item:disp_3d'])
    o.disp = lst(I, o.n, lambda i: Arr([o.N, el(M, i), 3], lambda a, t, x, i=i: el(d, i, a, t, x), 'float', pr), 'input:disp_3d')
    o.args[1] = o.disp
    return o


def c23(ck):
    """Every public entry point is run abstractly on arguments of any size. Afterwards the abstract contents of every heap cell reachable
    from the arguments (arrays, including writes through views; lists; dictionaries, also nested) and of every cell that existed before
    (module variables, class attributes, default values) must be what they were; elements of lists of arbitrary length and objects of
    trajectory packages carry a provenance label and no write may reach it. Then the same call is repeated on the same objects: it must give
    the same value, and the first object must not have changed, also not after the second one is fitted."""
    C, I = ck.C, ck.I

    def entry(text, at, make, again=True, cuts=None, later=None, some=None):
        """make(): (callable value, positional, keyword, {name: watched input})"""
        with ck.config(text, at):
            C.reset()
            f, args, kw, watch = make()
            eff = Effects(ck, watch)
            rng = {i: c for i, c in I.st.heap.items() if isinstance(c, RngC)}
            r = C.run(f, args, kw, cuts=cuts)
            if not ck.ran(r, at):
                return
            eff.verify(at, r.events)
            if not again:
                return
            first = obj_values(I, r.value)
            pc = I.st.pc
            for i, c in rng.items():
                I.st.heap[i] = c
            r2 = C.run(f, args, kw, cuts=cuts)
            if not ck.ran(r2, at):
                return
            eff.verify(at, r2.events)
            sm = some() if some else TRUE
            same_all(ck, 'first object after the second call', obj_values(I, r.value), first, at, sm)
            second = obj_values(I, r2.value)
            same_all(ck, 'repeated call', second, first, at, sm)
            if later:
                for g in later:
                    g(r2.value)
                same_all(ck, 'first object after use of the second', obj_values(I, r.value), first, at, sm)
                eff.verify(at, [])

    # ---- parser
    for opts in ({}, dict(sampling=Str('single-origin'), spacing=Str('logarithmic'))):
        for arrs in (False, True):
            def make():
                p = P_inputs(ck, drift_as_array=arrs, ind_as_array=arrs)
                kw = dict(progress=B(False), n_steps=num('ns', True, 2), min_dt=num('mind', lo=Fraction(1, 10)), **opts)
                return PARSER, p['args'], kw, dict(disp=p['dispv'], indices=p['indv'], drift_indices=p['driv'])
            entry('Parser, %s, %s' % ('index arrays' if arrs else 'index lists', opts and 'logarithmic single-origin' or 'default options'), PARSER, make)
    def make():
        T, N = sym('T', True, 2), sym('N', True, 1)
        c, L = tensor('coords'), tensor('latt')
        pr = frozenset(['input-item:coords'])
        coords = lst(I, T, lambda k: Arr([N, 1, 3], lambda i, u, x, k=k: el(c, k, i, x), 'float', pr), 'input:coords')
        latt = lst(I, T, lambda k: Arr([3, 3], lambda i, x, k=k: el(L, k, i, x), 'float', frozenset(['input-item:latt'])), 'input:latt')
        return GET_DISP, [coords, latt], {'progress': B(False)}, dict(coords=coords, latt=latt)
    entry('unwrapping', GET_DISP, make)
    for kind in READERS:
        for sel in ('specie', 'indices', 'molecules', 'molecules with masses'):
            def make():
                tr = Traj(ck, kind)
                kw = dict(sub_sample_traj=Num(tr.sub, 'int'), progress=B(False), n_steps=num('ns', True, 2))
                watch = dict(trajectory=tr.value)
                args = [tr.value, NONE, tr.ts, tr.ss]
                if sel == 'specie':
                    args[1] = Str('Li')
                    if kind != 'MDAnalysis':
                        kw['framework_indices'] = watch['framework'] = ilist(I, 'fr', sym('nf', True, 1), 'input:framework')
                elif sel == 'indices':
                    kw['specie_indices'] = watch['specie_indices'] = ilist(I, 'selx', sym('nsel', True, 1), 'input:specie_indices')
                    kw['framework_indices'] = watch['framework'] = ilist(I, 'fr', sym('nf', True, 1), 'input:framework')
                else:
                    m = tensor('mol', int_=True, nonneg=True)
                    mol = clist(I, [clist(I, [Num(el(m, const(i), const(j)), 'int') for j in range(2)]) for i in range(3)])
                    kw['specie_indices'] = watch['specie_indices'] = mol
                    if sel.endswith('masses'):
                        kw['masses'] = watch['masses'] = clist(I, [num('m%d' % j, lo=1) for j in range(2)])
                    kw['framework_indices'] = watch['framework'] = clist(I, [num('f%d' % j, True, 1) for j in range(2)])
                return READERS[kind], args, kw, watch
            entry('%s reader, %s' % (kind, sel), READERS[kind], make, cuts={GET_DISPS: windows, GET_DISP: unwrapped})
    # ---- statistics
    how = {'MSD': ('diffusion', []), 'MSTD': ('jump_diffusion', []), 'MSCD': ('conductivity', ['temp', 'vol'])}
    fitpar = lambda rs=True: dict(progress=B(False), n_samples=num('ns', True, 1), n_walkers=num('nw', True, 4), thin=Num(1, 'int'), **(dict(random_state=rstate(I)) if rs else {}))
    pos = lambda kind, vol=True: [num('temp', lo=1)] + ([num('vol', lo=1)] if vol else []) if kind == 'MSCD' else []

    def fit_direct(kind):
        return lambda b: C.run(I.get_attr(b, how[kind][0]), [num('start')] + pos(kind), fitpar())

    for kind in KINDS:
        for boot in (False, True):
            for charge in (('scalar', 'array', 'list') if kind == 'MSCD' else (None,)):
                def make():
                    o = item_prov(I, Obs(ck, kind, charge=charge))
                    kw = kwargs(o)
                    if boot:
                        kw.update(bootstrap=B(True), random_state=rstate(I))
                    watch = dict(delta_t=o.dtv, disp_3d=o.disp, n_o=o.nov)
                    if charge in ('array', 'list'):
                        watch['ionic_charge'] = o.qv
                    return KINDS[kind], o.args, kw, watch
                entry('%s statistics%s%s' % (kind, ', resampled' if boot else '', ', charges as ' + charge if charge else ''), KINDS[kind], make, cuts=CUTS, later=[fit_direct(kind)])
        for icpt in (True, False):
            at = KINDS[kind] + '.' + how[kind][0]
            with ck.config('%s fit, intercept %s' % (kind, icpt), at):
                ft = Fit(ck, kind)
                watch = {}
                for a, v in I.content(ft.b).attrs.items():
                    if isinstance(v, Ref) and isinstance(I.content(v), ArrC):
                        watch['data ' + a] = v
                eff = Effects(ck, watch)
                par = fitpar()
                par['fit_intercept'] = B(icpt)
                rng = {i: c for i, c in I.st.heap.items() if isinstance(c, RngC)}
                args = [Num(ft.start)] + pos(kind)
                r = C.run(I.get_attr(ft.b, how[kind][0]), args, par)
                if not ck.ran(r, at):
                    continue
                eff.verify(at, r.events)
                first = obj_values(I, ft.b)
                for i, c in rng.items():
                    I.st.heap[i] = c
                r = C.run(I.get_attr(ft.b, how[kind][0]), args, par)
                if not ck.ran(r, at):
                    continue
                eff.verify(at, r.events)
                same_all(ck, 'repeated fit', obj_values(I, ft.b), first, at, ft.some)
                same_rng(I)
                pp = dict(n_posterior_samples=num('npost', True, 1), n_predictive_samples=num('npred', True, 1), progress=B(False))
                v1 = C.run(I.get_attr(ft.b, 'posterior_predictive'), [], pp)
                if not ck.ran(v1, BOOT + '.posterior_predictive'):
                    continue
                first = obj_values(I, ft.b)
                eff.verify(BOOT + '.posterior_predictive', v1.events)
                w1 = I.freeze(v1.value, I.st)
                same_rng(I)
                v2 = C.run(I.get_attr(ft.b, 'posterior_predictive'), [], pp)
                if ck.ran(v2, BOOT + '.posterior_predictive'):
                    same_value(ck, 'repeated posterior predictive', I.freeze(v2.value, I.st), w1, BOOT + '.posterior_predictive', ft.some)
                    same_all(ck, 'object after the posterior predictive', obj_values(I, ft.b), first, BOOT + '.posterior_predictive', ft.some)
    # ---- analyzers
    for name, (kind, mean, std, fit, coef) in ANALYZERS.items():
        for factory in FACTORIES:
            for group, count in ((None, 1), ('identical', 2), ('consecutive', 2)):
                if group == 'consecutive' and factory == 'from_universe' or (name != 'DiffusionAnalyzer' and (group == 'consecutive' or factory in ('from_file', 'from_Xdatcar'))):
                    continue
                at = AZ + name + '.' + factory

                def make():
                    inp = Input(ck, factory, count, group)
                    pp = cdict(I, dict(inp.params, progress=B(True)))
                    up = cdict(I, dict(dimension=Str('xz'), progress=B(True)))
                    kw = dict(uncertainty_params=up)
                    if group:
                        kw['dtype'] = Str(group)
                    return at, [inp.value, pp], kw, dict(trajectory=inp.value, parser_params=pp, uncertainty_params=up)
                entry('%s.%s %s' % (name, factory, group or ''), at, make, cuts=CUTS)
                if name == 'DiffusionAnalyzer':
                    def make_few():
                        inp = Input(ck, factory, count, group, True)
                        pp, up = cdict(I, {k: v for k, v in inp.params.items() if k != 'progress'}), cdict(I, {})
                        return at, [inp.value, pp], dict(uncertainty_params=up, **(dict(dtype=Str(group)) if group else {})), dict(trajectory=inp.value, parser_params=pp, uncertainty_params=up)
                    entry('%s.%s %s, default options' % (name, factory, group or ''), at, make_few, again=False, cuts=CUTS)
        for icpt in (True, False):
            at = AZ + name
            with ck.config('%s fitted, intercept %s' % (name, icpt), at):
                ft, an, ref = wrapped(ck, name)
                par = fitpar()
                par['fit_intercept'] = B(icpt)
                d = cdict(I, par)
                eff = Effects(ck, {fit + '_params': d})
                rng = {i: c for i, c in I.st.heap.items() if isinstance(c, RngC)}
                f = C.run(I.get_attr(an, fit), [Num(ft.start)] + pos(kind, False), {fit + '_params': d})
                if not ck.ran(f, at + '.' + fit):
                    continue
                eff.verify(at + '.' + fit, f.events)
                first = obj_values(I, an)
                for i, c in rng.items():
                    I.st.heap[i] = c
                f = C.run(I.get_attr(an, fit), [Num(ft.start)] + pos(kind, False), {fit + '_params': d})
                if not ck.ran(f, at + '.' + fit):
                    continue
                same_all(ck, 'repeated fit', obj_values(I, an), first, at + '.' + fit, ft.some)
                d = cdict(I, {})
                eff = Effects(ck, {fit + '_params': d})
                st = I.st.copy()
                v = C.run(I.get_attr(an, fit), [Num(ft.start)] + pos(kind, False), {fit + '_params': d})
                if ck.ran(v, at + '.' + fit):
                    eff.verify(at + '.' + fit, v.events)
                I.st = st
                d = cdict(I, dict(n_posterior_samples=num('npost', True, 1), n_predictive_samples=num('npred', True, 1), progress=B(True)))
                eff = Effects(ck, {'posterior_predictive_params': d})
                v = C.run(I.get_attr(an, 'posterior_predictive'), [d])
                if ck.ran(v, at + '.posterior_predictive'):
                    eff.verify(at + '.posterior_predictive', v.events)
                d = cdict(I, {})
                eff = Effects(ck, {'posterior_predictive_params': d})
                v = C.run(I.get_attr(an, 'posterior_predictive'), [d])
                if ck.ran(v, at + '.posterior_predictive'):
                    eff.verify(at + '.posterior_predictive', v.events)
                t = C.run(I.get_attr(an, 'to_dict'), [])
                if not ck.ran(t, at + '.to_dict'):
                    continue
                same_all(ck, 'object after to_dict', obj_values(I, an), first, at + '.to_dict', ft.some)
                eff = Effects(ck, {'dictionary': t.value})
                b = C.run(I.get_attr(C.resolve(at), 'from_dict'), [t.value])
                if not ck.ran(b, at + '.from_dict'):
                    continue
                eff.verify(at + '.from_dict', b.events)
                for i, c in rng.items():
                    I.st.heap[i] = c
                par['fit_intercept'] = B(not icpt)
                g = C.run(I.get_attr(b.value, fit), [num('start2')] + pos(kind, False), {fit + '_params': cdict(I, par)})
                if ck.ran(g, at + '.' + fit):
                    same_all(ck, 'original after a fit of the restored object', obj_values(I, an), first, at, ft.some)
                    eff.verify(at + '.' + fit, g.events)
    # ---- temperature models
    for cname, nb in (('StandardArrhenius', 2), ('SuperArrhenius', 3)):
        cls = 'kinisi.arrhenius.' + cname
        for bounds in ('default', 'given'):
            def make():
                m = sym('m', True, 2)
                T, y, e = arr(I, 'T', [m], pos=True), arr(I, 'y', [m]), arr(I, 'err', [m], pos=True)
                kw, watch = dict(diffusion_error=e), dict(temperature=T, diffusion=y, diffusion_error=e)
                if bounds == 'given':
                    b = [clist(I, [num('lo%d' % j), num('hi%d' % j)]) for j in range(nb)]
                    if nb == 3:
                        b[2] = clist(I, [num('lo2'), NONE])
                    kw['bounds'] = watch['bounds'] = clist(I, b)
                return cls, [T, y], kw, watch
            entry('%s, bounds %s' % (cname, bounds), cls, make)


def same_all(ck, name, got, want, at, some=TRUE):
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k, UNDEF), want.get(k, UNDEF)
        a_, b_ = unwrap(a), unwrap(b)
        if isinstance(b_, (Num, Str, Arr, Seq, BoolV, FObj, TV, Tup, FDict)) or b_ is NONE:
            if isinstance(b_, Seq) and any(isinstance(x, XObj) for x in (b_.items() or [])):
                same_list(ck, '%s: %s' % (name, k), a_, b_, at, some)
            else:
                same_value(ck, '%s: %s' % (name, k), a_, b_, at, some)


RULES = {'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C26': c26}
