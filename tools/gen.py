"""Writes properties.jsonl and MANIFEST.json from the table below (properties without a rule are left out, except the not-applicable ones)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from kv import check

PA, DI, AN, AR = 'kinisi/parser.py', 'kinisi/diffusion.py', 'kinisi/analyzer.py', 'kinisi/arrhenius.py'
DA, JA, CA, AZ = 'kinisi/diffusion_analyzer.py', 'kinisi/jump_diffusion_analyzer.py', 'kinisi/conductivity_analyzer.py', 'kinisi/analyze.py'
UNRUN = 'The tests that run never build an analyzer or write a file: test_analyze.py and test_msd.py do not run here. '

# id: (title, statement, over, text, why, files, mechanisms)
PROPS = {
 'C01': ('Periodic unwrapping of trajectories',
  'For every trajectory the displacement of an atom up to a frame is the sum over consecutive frames of the shortest periodic-image step of that atom, converted to Cartesian with the cell of the later frame. No step whose fractional components stay below half a cell is altered and no larger jump survives unwrapping, for any cell shape, including cells that change from frame to frame.',
  ['inputs', 'configurations'], 'every number of atoms and frames, all fractional coordinates, every (constant or varying, non-orthogonal) cell, every trajectory reader',
  'Tests use short orthogonal constant-cell trajectories with steps that rarely cross a boundary.',
  [PA], [('wrap to minimum image, cell product, cumulative sum', 'Parser.get_disp'), ('readers hand coordinates and cells to it', 'ASEParser/PymatgenParser/MDAnalysisParser')]),
 'C02': ('Drift correction by the framework mean',
  'Whenever framework atoms exist, the displacement that is analysed is the raw displacement minus, frame by frame and component by component, the mean displacement of exactly the framework atoms. When there are no framework atoms the displacement is unchanged.',
  ['inputs', 'configurations'], 'every framework size including none, every atom/frame count, index lists, tuples and arrays',
  'Tests check one small framework and never follow the corrected values into the analysis.',
  [PA], [('drift subtraction', 'Parser.correct_drift')]),
 'C03': ('Selection of mobile and framework atoms',
  'The mobile atoms are exactly those of the requested species (or the explicitly given indices) and the framework atoms are exactly all the others unless given; atom positions are counted from 0 for a species and for a flat list of indices, and framework positions given next to explicit indices or molecules are counted from 1. A species that selects no atom is rejected with a ValueError.',
  ['inputs', 'configurations'], 'every structure, species or pair of species, explicit index list, framework given/empty/omitted, all three readers, atom sub-sampling',
  'Tests select one species in three fixed structures.',
  [PA], [('get_indices of every reader, _get_framework', PA)]),
 'C04': ('Time axis in picoseconds',
  'Every reported time interval equals the number of stored frames spanned times the simulation time step, the steps between stored frames and the trajectory sub-sampling, in picoseconds (readers whose time step is in femtoseconds convert). This holds for integer and floating-point time steps.',
  ['inputs', 'configurations'], 'every time step, step skip and trajectory sub-sampling, all readers',
  'Tests use one time step and never sub-sample the trajectory.',
  [PA], [('delta_t construction and reader-side unit conversion', PA)]),
 'C05': ('Displacement windows of every interval',
  'With overlapping sampling the observations of an interval of k frames are the displacements of every mobile atom over every window of k consecutive steps, each exactly once; with single-origin sampling they are the one window starting at the first frame. Atoms keep their order and only mobile atoms appear.',
  ['inputs', 'configurations'], 'every trajectory length, atom count, interval and index set, both samplings',
  'Tests check array shapes for a handful of sizes, not which frames are subtracted.',
  [PA], [('window differences', 'Parser.get_disps')]),
 'C06': ('Grid of time intervals',
  'The intervals are the sorted, distinct whole numbers of frames of an evenly (or logarithmically) spaced grid of the requested number of steps (no more than there are intervals) from the smallest to the largest interval. Omitted limits default to one frame and to the whole trajectory; given limits count as the whole number of frames they contain, and no frame is lost to floating-point rounding when a limit is a whole number of frames. A single step gives the smallest interval alone. A smallest interval that exceeds the trajectory is rejected with a ValueError.',
  ['inputs', 'configurations'], 'every min/max interval (given or defaulted), number of steps and both spacings',
  'Tests sample two grids.',
  [PA], [('interval grid', 'Parser.get_time_intervals')]),
 'C07': ('Memory limit enforced before allocation',
  'If the displacement windows of all intervals together (counted with every origin, whichever sampling is used) need more than the configured memory limit (in GB), a MemoryError is raised before any of them is computed. If they fit, no MemoryError is raised.',
  ['inputs', 'configurations'], 'every trajectory size, interval grid and limit, both samplings',
  'Tests trigger the limit once with a huge margin and cannot see when the arrays are allocated.',
  [PA], [('memory estimate', 'Parser.get_disps')]),
 'C08': ('Independent observation counts',
  'Next to the windows of each kept interval the number of independent observations is reported: number of mobile atoms times the longest interval divided by that interval. It is reported for the kept intervals only and in the same order.',
  ['inputs', 'configurations'], 'every trajectory length, interval grid, atom count, both samplings',
  'Tests compare lengths of the returned lists.',
  [PA], [('n_o', 'Parser.get_disps')]),
 'C09': ('Mean-squared displacement values',
  'For every interval the reported self mean-squared displacement is the mean over atoms and windows of the squared displacement in the chosen dimensions; the total (collective) one is the mean over windows of the squared sum over atoms, and the charge one weights each atom by its charge. Collective values are not divided by the number of atoms at this stage and are reported for the first half of the intervals. With the blocking option the mean is the one pyblock gives for exactly these observations at its optimal level, or at the last level if it finds none.',
  ['inputs', 'configurations'], 'every displacement set, dimension choice, interval sub-sampling, scalar or per-atom charge',
  'Tests compare shapes and signs on random displacements.',
  [DI], [('MSDBootstrap, MSTDBootstrap, MSCDBootstrap', DI)]),
 'C10': ('Variances and alignment of per-interval arrays',
  'For every interval the reported variance is the sample variance of the squared displacements divided by the number of independent observations (for collective ones divided by that number per mobile atom) and the standard deviation is its square root; with the blocking option the standard deviation is pyblock\'s standard error of these observations (optimal level, else the last) and the variance its square. Time, mean, variance, standard deviation, observation count and non-Gaussian parameter all have one entry per analysed interval and entry i always refers to the same interval.',
  ['inputs', 'configurations'], 'every displacement set, dimension choice, interval sub-sampling, charge form',
  'Tests check array sizes for a fixed number of intervals without sub-sampling.',
  [DI], [('loops of the Bootstrap classes, ngp_calculation', DI)]),
 'C11': ('Dimension choice is used consistently',
  'The letters of the requested dimension string, in any case and as text or bytes, select exactly the displacement components that are analysed and the dimensionality by which diffusion coefficients are divided. Any other string is rejected.',
  ['inputs', 'configurations'], 'all seven dimension strings in every case and type, all three displacement kinds',
  'Tests never check which components a string selects.',
  [DI], [('DIMENSIONALITY table', DI)]),
 'C12': ('Covariance of the displacement means',
  'The covariance between the means of two intervals is the variance of the shorter one times the ratio of their numbers of independent observations (shorter over longer), for every pair in the diffusive regime, and the matrix is symmetric. When the model variance is requested the variances are first replaced by the least-squares fit of a non-negative multiple of (interval squared over number of observations).',
  ['inputs', 'configurations'], 'every set of variances, observation counts and start of regime, with and without the model variance',
  'Tests check the matrix of a few fixed vectors.',
  [DI], [('_populate_covariance_matrix, compute_covariance_matrix', DI)]),
 'C13': ('Covariance is made positive definite and used as reported',
  'Eigenvalues of the covariance below the largest eigenvalue divided by the condition limit are raised to that floor, the nearest positive-definite matrix of the result is taken, and this reconditioned matrix is the one that is reported and used in the likelihood. No other entry of the spectrum is changed.',
  ['inputs', 'configurations'], 'every symmetric matrix and condition limit',
  'Tests look at the smallest eigenvalue of single matrices.',
  [DI], [('minimum_eigenvalue_method, cov_nearest', DI)]),
 'C14': ('Diffusive regime starts at the requested time',
  'Means, times, variances and covariance that enter the fit are exactly those of the intervals from the first interval not shorter than the requested start onwards. The same intervals are used for the covariance, the likelihood and the predictive distribution.',
  ['inputs', 'configurations'], 'every start time (on, between and beyond the intervals), number of intervals',
  'Tests use start time zero or one value in the middle.',
  [DI], [('diff_regime', DI)]),
 'C15': ('Posterior density of the linear model',
  'The sampled log-density is minus infinity for a negative gradient and otherwise the log-density of a multivariate normal whose mean is gradient times time (plus intercept, if one is fitted) and whose covariance is the reported matrix. No other prior enters.',
  ['inputs', 'configurations'], 'every parameter vector, data vector, covariance, with and without an intercept',
  'Tests check the shape and sign of the samples.',
  [DI], [('log_likelihood of Bootstrap.bootstrap_GLS', DI)]),
 'C16': ('Conversion of gradients to transport coefficients',
  'The self-diffusion coefficient is the gradient over twice the number of dimensions times 1e-4, the jump-diffusion coefficient additionally divides by the number of mobile atoms, and the conductivity is 1e-4-scaled gradient over twice the dimensions times charge-carrier factor e^2/(V k T) in mS/cm. Each is applied to every posterior sample, and the stored gradient and intercept are not changed by it.',
  ['inputs', 'configurations'], 'every gradient sample, dimension choice, atom count, temperature and volume',
  'Tests only check that the coefficient is positive.',
  [DI], [('diffusion, jump_diffusion, conductivity', DI)]),
 'C17': ('Posterior bookkeeping',
  'The reported gradient and intercept samples are the columns of the same kept posterior samples, after discarding the burn-in and thinning as requested, and the chain runs for burn-in plus requested samples. When no intercept is fitted there is no intercept, also after a previous fit that had one.',
  ['inputs', 'configurations', 'histories'], 'every sample/burn-in/thin setting, with and without intercept, repeated fits on one object',
  'Tests run one setting once per object.',
  [DI], [('bootstrap_GLS', DI)]),
 'C18': ('A fixed random state makes results reproducible',
  'When a random state is given, every random number that influences a result is drawn from it (or from a generator seeded by it): two runs with equal input and equal state give equal results. Nothing depends on the process-global generator, time, hash order or object identity.',
  ['inputs', 'histories', 'configurations'], 'every entry point that accepts a random state, any earlier use of the global generator',
  'Tests pass a random state but never compare two runs.',
  [DI, AR], [('random_state plumbing', DI)]),
 'C19': ('Dictionary round trip of analyses',
  'Converting any displacement statistics or analyzer to a dictionary and back yields an object of the same class with the same data, parameters and results, also after a fit; a later fit or prediction of the restored object gives what the original would. Converting back does not resample, re-estimate or sub-sample anything again.',
  ['inputs', 'configurations', 'histories'], 'every class with a dictionary form, before and after fitting, every option that changes state',
  'Tests that run compare a few entries of the statistics\' dictionaries, none of an analyzer.',
  [DI, AN, DA, JA, CA], [('to_dict / from_dict', AN)]),
 'C20': ('Saving and loading analyses',
  'Loading a saved analysis gives back the saved dictionary: every nested mapping, array, number, text (which may come back as bytes), missing value and non-empty list (in order, also with ten or more elements) under its own key; other value types are rejected. Saving never replaces an existing file (ValueError), and save and load use the same file for the same name, different files for names in different directories.',
  ['inputs', 'histories', 'configurations'], 'every nesting of supported value types, file names with and without extension or dots, existing and missing files',
  UNRUN, [AN], [('save, load, _dict_to_group, _group_to_dict', AN)]),
 'C21': ('Analyses from files and from several trajectories',
  'Building an analysis from any supported input hands the given options unchanged to the reader and to the statistics and uses the displacement kind of the analyzer (with the given charge for conductivity). Identical trajectories are pooled by concatenating the observations of equal intervals (counts summed), consecutive ones by joining frames before windowing; an unknown grouping is rejected with a ValueError.',
  ['inputs', 'configurations'], 'every input kind and trajectory grouping, any number of trajectories, all three analyzers',
  UNRUN, [AN, DA, JA, CA], [('from_* constructors', AN)]),
 'C22': ('Reported quantities are those of the analysis',
  'Every public accessor of an analyzer reports the corresponding quantity of the analysis it wraps: mean-squared displacement, its standard deviation, time intervals, distributions, gradient, intercept, coefficient, sample chain. Accessors do not mix up, scale, or reorder quantities and do not change the object.',
  ['inputs', 'histories'], 'every accessor of every analyzer, before and after fitting, with and without intercept',
  UNRUN, [AN, DA, JA, CA, DI], [('properties of the analyzers', AN)]),
 'C23': ('Inputs are never modified and nothing is shared',
  'No call modifies an argument, a default value, or module-level state (the process-global random generator excepted): the same call repeated with the same objects and random state gives the same result and the caller\'s arrays, lists, dictionaries and trajectory objects are unchanged. Building, fitting or restoring one object never changes another one.',
  ['inputs', 'histories', 'programs'], 'every public entry point, every sequence of calls',
  'Tests build fresh input for every call and never look at it again.',
  [PA, DI, AN, AR], [('copies taken at the interfaces', PA)]),
 'C24': ('Temperature dependence models',
  'The Arrhenius model is prefactor times exp(-Ea/(k T)) with Ea in eV and the super-Arrhenius one uses T - T0; it is fitted to the given temperatures, values, errors and bounds (an open upper bound of T0 is the first temperature). Ea, prefactor and T0 are reported from the matching parameter positions, and distribution and extrapolation evaluate the model at the given temperatures with every parameter sample.',
  ['inputs', 'configurations'], 'every parameter value and sample, temperature array, error and bounds given or omitted',
  'Tests evaluate a few points.',
  [AR], [('arrhenius, super_arrhenius, extrapolate', AR)]),
 'C25': ('Molecules are tracked by their centre of mass',
  'For molecules the tracked position is the mass-weighted (or geometric) centre of mass of each molecule computed with periodic boundaries, so that molecules cut by a boundary are handled; fractional positions lie between 0 and 1. The centres are followed by the framework atoms, and mobile and framework indices refer to those positions.',
  ['inputs', 'configurations'], 'every number and size of molecules, masses, framework, cell and frame, all readers',
  'Tests use one two-atom geometry.',
  [PA], [('_get_molecules', PA)]),
 'C26': ('Invalid options are rejected',
  'An unknown sampling, spacing, dimension or input kind, masses whose number differs from the atoms of a molecule, molecules of different size, atom sub-sampling together with explicit indices, or a missing selection raise an exception on every path: a ValueError, for an unknown dimension a KeyError, for a missing selection a TypeError. Valid options never do.',
  ['inputs', 'configurations'], 'every value of every enumerated option, every length mismatch',
  'Tests try one wrong value for some options.',
  [PA, DI, AN], [('raise statements', PA)]),
 'C27': ('Resampling is faithful and always terminates',
  'With resampling on, every interval is resampled from its own observations (squared displacements, or squared collective or charge displacements), as many at a time as are statistically independent (the recorded count; per atom for the collective ones), with the given numbers of resamples and level; the recorded resampled mean, variance and standard deviation are the sample moments (one degree of freedom removed) of those means. Resampling draws the requested number of means of resampled observations, then a further hundred per round, each round\'s samples being added exactly once, until the normality test passes or the maximum number is reached. It always ends, whatever the data, and warns exactly when the maximum was reached.',
  ['inputs', 'histories'], 'every sample set and random stream, also ones that never pass the normality test',
  'Tests use data that pass at once.',
  [DI], [('sample_until_normal', DI)]),
 'C28': ('Progress reporting does not change results',
  'Every computed value and every raised exception is the same whether or not the progress display is enabled. This holds for reading trajectories, windowing, statistics and sampling.',
  ['configurations', 'inputs'], 'every entry point with a progress option',
  'Tests always use the default progress setting or switch it off everywhere.',
  [PA, DI], [('_get_tqdm and the two loops', PA)]),
 'C29': ('Posterior predictive distribution',
  'Every posterior-predictive sample is a multivariate normal draw around the line of one randomly selected posterior sample (with the reported covariance and, if fitted, the intercept), drawn independently from line to line, for the fitted intervals only. The requested number of line samples times draws is returned.',
  ['inputs', 'configurations'], 'every number of draws, with and without intercept, every start of regime',
  'Tests check the shape for one setting.',
  [DI], [('posterior_predictive', DI)]),
 'C30': ('Trajectories are read frame by frame',
  'Every reader passes on, for each sampled frame in order, the fractional coordinates of all sampled atoms together with the cell of that same frame; the first frame is used as the reference. The reported volume is that of the cell of the first frame.',
  ['inputs', 'configurations'], 'every trajectory, trajectory and atom sub-sampling, all readers, progress on and off',
  'Tests read three fixed files without sub-sampling.',
  [PA], [('get_structure_coords_latt of every reader', PA)]),
 'C31': ('Coverage of the reported uncertainty',
  'Over repeated simulations the reported credible interval of the diffusion coefficient contains the true value with its nominal probability.',
  ['inputs', 'histories'], 'every diffusive process', 'A statistical statement over an ensemble of simulations.', [DI], [('whole estimator', DI)]),
 'C32': ('Convergence of the Markov chain',
  'The returned posterior samples represent the posterior: enough burn-in and mixing for every data set.',
  ['inputs', 'histories'], 'every data set and chain length', 'Tests run one chain.', [DI], [('emcee sampler', DI)]),
 'C33': ('Numerical accuracy',
  'Results computed in floating point agree with the exact formulas to a stated relative tolerance for every input magnitude.',
  ['inputs'], 'every magnitude and conditioning of the input', 'Tests use well-scaled data.', [PA, DI], [('floating-point evaluation', DI)]),
}
NA = {
 'C31': 'Coverage is a probability over an ensemble of runs; no property of the source text bounds it. The ingredients (covariance, density, bookkeeping) are decided by C12-C17.',
 'C32': 'Mixing of the chain depends on the data and on emcee at run time; only the set-up of the chain (length, burn-in, start points, density) is visible in the source and is decided by C15 and C17.',
 'C33': 'The analysis works over real arithmetic; bounding rounding through LAPACK, pseudo-inverse and cumulative sums for every magnitude is out of reach of a sound static argument here.',
}
NOTE = ('Abstract interpretation of the current source into terms over symbolic inputs (arrays in index notation, loops summarised, '
        'joins as gated values), compared with a reference written independently in the rule; %s. '
        'Trusts the models of library calls, real arithmetic, and, for terms that do not normalise to the same form, random interpretation of terms. '
        'What the engine cannot follow is reported as undecided and never as a violation.')
TECH = {
 'default': 'abstract interpretation with symbolic value numbering against a reference term',
 'C03': 'abstract interpretation: index sets and raise conditions against a reference', 'C07': 'abstract interpretation: raise path condition and allocation order',
 'C18': 'abstract interpretation: random-source provenance (taint) of every drawn value', 'C20': 'abstract interpretation: writer/reader composition over type shapes, must-precede check on file opens',
 'C23': 'abstract interpretation: mutation effects against provenance of the mutated object', 'C26': 'abstract interpretation: raise path conditions',
 'C27': 'loop analysis: bounded-round and accumulation rule', 'C28': 'relational abstract interpretation: two runs compared',
}


def main():
    check.load_rules()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, (title, st, over, text, why, files, mech) in PROPS.items():
            if pid not in check.RULES and pid not in NA:
                continue
            assert len(title) <= 80, pid
            f.write(json.dumps(dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + '\n')
    checks = []
    for pid in PROPS:
        if pid in check.RULES:
            rule = ' '.join((check.RULES[pid].__doc__ or '').split())
            checks.append(dict(property=pid, quick_cmd='python3 -m kv.check %s' % pid, thorough_cmd='python3 -m kv.check %s --tier thorough' % pid,
                               technique=TECH.get(pid, TECH['default']), level='other', level_note='Rule: %s %s' % (rule, NOTE % 'valid for all sizes and values within the listed option combinations')))
    m = dict(version=1, setup_cmd='python3 -m compileall -q kv', checks=checks,
             not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
             notes='Static analysis of /repo source only; nothing of /repo is imported or executed. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
