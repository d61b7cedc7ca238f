"""How far each property is decided (DESIGN.md, sections 3 and 4)."""
LEVELS = dict(('C%02d' % k, 'proof') for k in range(1, 27))

_P = ('Contracts on the real functions; verification conditions are generated from la\'s current source on every run and discharged by z3/cvc5 for all axis lengths, '
      'labels, cells and positions, per configuration (number of axes 1-3, axis, dtype kind, options). The same contracts are evaluated on the real code as a guard. '
      'Trusted: the generator, its model of NumPy/bottleneck (statistics are uninterpreted functions of the cells they read), mathematical integers.')
NOTES = {
    'exploration': ('contracts on the real functions, evaluated at run time on generated inputs (bounded)',
                    'Every contract of the property is evaluated on the real code over generated inputs; nothing is proved. Trusted: NumPy, bottleneck, h5py as observed.'),
    'proof': ('contract-based deductive verification: obligations generated from the source, discharged by z3 and cvc5', _P),
    'C01': _P + ' Label lists given as other kinds of sequences are tried by the run-time contracts only.',
    'C04': _P + ' Some configurations with mixed joins of three axes exceed the time limit and are decided by the run-time contracts only (DESIGN.md, section 4).',
    'C06': _P + ' Four three-dimensional configurations of merge exceed the time limit (run-time contracts only).',
    'C16': _P + ' movingsum_forward is proved against differences of running sums.',
    'C18': _P + ' These are the frame and sharing obligations of all other properties\' contracts; text export at run time only.',
    'C23': _P + ' Text is symbolic (pieces of str() of labels and cells); assumed: a file holds what was written to it, csv.reader gives back what csv.writer wrote. What str() gives for each type is tested by the run-time contracts only.',
    'C19': _P + ' h5py is a model: a tree of groups and datasets, found by path, whose datasets give back the array they were made from (engine/h5model.py); datetime round trips are assumed. Both are exercised by the run-time contracts on real files.',
    'C20': _P + ' One operation at a time, on an archive of arbitrarily many larrys, plain groups, a larry under a key of one or two names and a neighbour; histories by induction. h5py is a model (engine/h5model.py); histories of up to 8 operations on real files are run as a guard (bounded).',
    'C22': _P + ' quantile: ranks are an uninterpreted function of the finite cells of a line, bin edges real arithmetic; q from -1 to 12.',
}
