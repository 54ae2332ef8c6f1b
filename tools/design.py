"""Writes DESIGN.md: fixed text below plus one section per property from tools/gen.py, the rule docstrings and the notes here."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from kv import check
import gen
import json

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
# id: (bounds, beyond the tests)
B = {
 'C01': ('any numbers of atoms and frames, any cells and coordinates (real-valued); both settings of the progress display; three readers', 'a wrong cell (previous frame, first frame, transposed) or a wrong rounding only shows for varying or skewed cells and large steps'),
 'C02': ('any framework size including 0 and 1, list/tuple/array of indices', 'broadcasting and axis slips cancel for symmetric or single-atom frameworks'),
 'C03': ('any structure, species by name/object/list, explicit lists of any length, framework given/empty/omitted, atom sub-sampling', 'substring matches, off-by-one framework lists and aliasing of lists need particular species names or list forms'),
 'C04': ('any time step (integer and floating), step skip, sub-sampling; three readers', 'no test sub-samples'),
 'C05': ('any trajectory length, interval list, index set; both samplings', 'which frames are subtracted is invisible in shapes'),
 'C06': ('any limits, step counts; four combinations of given/defaulted limits; both spacings', 'defaults interact with the trajectory length'),
 'C07': ('any sizes and limit; both samplings; the store is inspected at the raise site', 'allocation order cannot be observed by a test of results'),
 'C08': ('any interval list and index set; windows that are dropped', 'counts are only used as weights, so shapes stay right'),
 'C09': ('any displacements, seven dimension choices, sub-sampling by any factor, scalar/array/list charge', 'random data only give signs and shapes'),
 'C10': ('as C09', 'misalignment needs sub-sampling or truncated lists'),
 'C11': ('seven strings x upper/lower/mixed case x text/bytes x three kinds', 'projection is not compared by tests'),
 'C12': ('any number of intervals, variances, counts, start; with and without the model', 'regime offsets matter only for a start later than the first interval'),
 'C13': ('any symmetric matrix and limit', 'matrices in tests are well conditioned'),
 'C14': ('any start time', 'equality of the start with an interval, or between two, is one point'),
 'C15': ('any parameter vector, data, covariance', 'the density is never evaluated by tests'),
 'C16': ('nine method/kind pairs x dimension choices, any atom count, temperature, volume; constants to 1e-8', 'only positivity is tested'),
 'C17': ('any lengths (symbolic and defaults); all four orders of two fits with/without an intercept', 'state left by an earlier fit needs a second fit'),
 'C18': ('all entry points with a random state; arbitrary state of the global generator', 'runs are not repeated by tests'),
 'C19': ('three statistics, three analyzers; before/after a fit, with/without an intercept, sub-sampling, dimension, resampling', 'analyzers are not built by the tests that run'),
 'C20': ('nestings listed in h5_shapes (lists of 1 to 101 elements, mappings in lists in mappings) with symbolic contents, seven file names and a symbolic one, eleven intervals for whole analyzers', 'ten-element lists (alphabetical order of the file) and existing files are one step outside any sampled case'),
 'C21': ('five factories x three analyzers x {single, 2 and 3 identical, 2 and 3 consecutive} (4 in the thorough tier), any sizes', 'not run by the tests'),
 'C22': ('three analyzers, before a fit and after one with/without an intercept', 'not run by the tests'),
 'C23': ('69 entry configurations, two calls each plus a fit; arguments of any size', 'tests never look at their inputs again'),
 'C24': ('any parameters, temperatures; bounds default/given/open; errors given/omitted; constants to 1e-8', 'a few points only'),
 'C25': ('any number and size of molecules, masses/none, framework given/empty/omitted; three readers', 'one geometry'),
 'C26': ('listed wrong values of every option plus symbolic lengths', 'one wrong value each'),
 'C27': ('any data, limits, counts; the loop is summarised for any number of rounds', 'the loop body hardly runs in tests'),
 'C28': ('every entry point with the option', 'no test compares the two settings'),
 'C29': ('any number of draws and intervals, with/without an intercept', 'shape of one setting'),
 'C30': ('any trajectory and sub-sampling, three readers', 'three files'),
}


def main():
    check.load_rules()
    out = [HEAD.rstrip(), '']
    for pid, (title, st, over, text, why, files, mech) in gen.PROPS.items():
        out.append('### %s %s' % (pid, title))
        out.append('')
        if pid in gen.NA:
            out.append('Not applicable: ' + gen.NA[pid])
        elif pid in check.RULES:
            out.append('- Statement: ' + st)
            out.append('- Rule: ' + ' '.join(check.RULES[pid].__doc__.split()))
            out.append('- Bounds: %s.' % B[pid][0])
            out.append('- Beyond the tests: %s.' % B[pid][1])
        out.append('')
    out.append(TAIL)
    # which checks catch which planted bugs
    rows = []
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)):
        m = os.path.join(sd, d, 'meta.json')
        if os.path.exists(m):
            j = json.load(open(m))
            rows.append('| %s | %s | %s |' % (d, j['property'], ' '.join(j['what_it_breaks'].split())))
    out.append('| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
