"Writes /verif/properties.jsonl (kept as a script so that statements, anchors and ids stay in one place)."
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


D, F, L, C, M = 'la/deflarry.py', 'la/flarry.py', 'la/flabel.py', 'la/src/cflabel.pyx', 'la/missing.py'
TESTS = 'The tests compare a few dozen hand-written arrays of length 0 to 5; '

p('C01', 'Every constructed larry has one distinct label per row of every axis',
  'A larry built from data and labels holds exactly that data and those labels, labels default to 0..n-1 along each axis, and construction is '
  'refused with ValueError whenever the data is 0-d, the number of label lists differs from the number of dimensions, a label list has the wrong '
  'length, repeats a label or is not a list. lrange, ones, zeros, empty, rand and randn give a larry of exactly the requested shape or labels, holding '
  'start, start+step, ... in C order (lrange), ones, zeros, and the numbers of the given generator respectively.',
  'every array (any dtype, any shape) and every list of label lists, valid or not',
  TESTS + 'they cannot show that no malformed label is ever accepted or that no well-formed one is refused.',
  [D, F], [('larry.__init__', D), ('lrange/empty/ones/zeros/rand/randn', F)],
  state=[('larry.x', 'the data', D), ('larry.label', 'list of label lists', D)], observe=['larry(...)', 'la.lrange', 'la.rand'])

p('C02', 'Mapping labels to positions is exact, in both implementations',
  'For any two label lists, listmap gives for each label of the second list the position of that label in the first (the last position if it is '
  'repeated), raising KeyError on an unmappable label, or leaving it out if asked to; listmap_fill gives the fill value for each unmappable label and '
  'the positions of these labels in increasing order. The compiled and the pure Python versions agree, and neither changes the lists it is given.',
  'every pair of lists of hashable labels, of any length, with or without repeats, and every fill value',
  TESTS + 'only one of the two implementations is exercised on any one installation.',
  [L, C], [('listmap', L + ', ' + C), ('listmap_fill', L + ', ' + C)], observe=['la.flabel.listmap', 'la.flabel.listmap_fill'])

p('C03', 'Operators and comparisons combine cells that have the same labels',
  'For larrys of the same dimension, each operator + - * / // & | and each comparison == != < > <= >= gives a larry whose labels along each axis are '
  'those of both inputs if they are identical and otherwise the sorted labels the inputs share, each cell being the operation on the two cells that '
  'carry its labels; differing dimensions raise IndexError. With a scalar or an array (also on the left, with the operands in the '
  'written order) the operation applies cell by cell and the labels are kept; anything else raises TypeError.',
  'every pair of larrys with any labels in any order, any dtype, and every scalar or array operand',
  TESTS + 'misalignment needs particular label overlaps and orders that they do not enumerate.',
  [D, L], [('larry.__add__ and the other operators', D), ('larry.__align', D), ('larry.__compare', D)])

p('C04', 'align and binaryop honour the join type of every axis',
  'align returns two larrys with identical labels along every axis: both inputs\' labels unchanged if they are identical, otherwise for inner, outer, left and right '
  'joins the sorted shared labels, the sorted union, the first\'s or the second\'s labels; a cell keeps the value it had under its labels and is '
  'the missing marker of its dtype where the input had no such label (bool and integer data become float, or TypeError if casting is disallowed). binaryop and '
  'add, subtract, multiply and divide apply the function to the cells so aligned, after replacing '
  'cells missing in exactly one (missone) or in both (misstwo) inputs by the given value.',
  'every pair of larrys, every join (one for all axes or one per axis), every cast, missone and misstwo',
  TESTS + 'the join of one axis interacts with fills made for earlier axes, dtypes and empty axes.',
  [F, L, M], [('align_raw', F), ('binaryop', F), ('missing_marker', M)])

p('C05', 'morph puts every cell where its label went and marks the rest missing',
  'Morphing along an axis (counted from either end) to a list of distinct labels gives exactly these labels in this order; each cell whose label the input has keeps its '
  'value, every other cell is the missing marker of the dtype (bool and integer data become float), and all other axes are untouched; repeated '
  'labels raise IndexError. morph_like gives the labels of the other larry along every axis, in the same way; neither changes its inputs.',
  'every larry, axis and label list',
  TESTS + 'the result depends on the relative order and overlap of two label lists.',
  [D, L, M], [('larry.morph', D), ('larry.morph_like', D), ('listmap_fill', L)])

p('C06', 'merge keeps all non-missing values of both larrys',
  'Merging two larrys of the same dimension and dtype gives the labels of both (unchanged along an axis where they are identical, else the sorted union); each cell is the '
  'second larry\'s value where it has a non-missing (for numbers: finite) one, else the first\'s value, else missing. Without update, any cell present (non-missing) in both raises '
  'ValueError and nothing changes; neither input is ever modified.',
  'every pair of larrys of the same dtype, any labels, update or not',
  TESTS + 'an overlap can hide in any one cell.',
  [D, M], [('larry.merge', D)])

p('C07', 'Set-like label operations and stacking are exact over any number of larrys',
  'union and intersection of any number of larrys give the sorted labels found in any, respectively all, of them along the given axis; isaligned is '
  'true exactly if the labels are equal. align_axis gives every larry, along its own given axis, the joined labels (inner, outer, left, '
  'right) with cells following their labels and missing markers elsewhere; stack makes a 3d larry whose sheets, sorted by name, hold each 2d input\'s cells '
  'under the united or shared row and column labels.',
  'every sequence of larrys, every axis and join',
  TESTS + 'they use two or three larrys on the same axis.',
  [F], [('union', F), ('intersection', F), ('align_axis', F), ('stack', F), ('isaligned', F)])

p('C08', 'Indexing by position selects the labels together with the data',
  'Indexing a larry with an integer, slice, list, tuple, 1d integer or bool array, 1d bool larry, or a tuple of these with at most one sequence, gives exactly the cells NumPy would select axis '
  'by axis, each still under its own labels; axes indexed by an integer disappear, a fully integer index gives the bare cell, and out of range '
  'positions or repeated rows are refused. take does the same along one axis.',
  'every larry and every such index, negative positions and steps included',
  TESTS + 'labels and data are selected by separate code, which can disagree on an index no test uses.',
  [D], [('larry.__getitem__', D), ('larry.take', D)])

p('C09', 'Looking up by label finds exactly the cells with that label',
  'get, set, pull, labelindex and label indexing with lix address exactly the cells whose labels are named, along each axis, keep the labels of the other axes, and raise for '
  'a label that is not there (labelindex with exact=False gives the position of the last label not greater than the name). keep_label keeps '
  'exactly the rows whose label meets the condition, in order; getlabel, maxlabel, minlabel and maplabel report or map the labels without disturbing the data.',
  'every larry, axis, label, list of labels and label slice',
  TESTS + 'each lookup must be right for every position of a label in a list of any length.',
  [D], [('larry.labelindex', D), ('larry.pull', D), ('Lix', D), ('slicemaker', D), ('larry.keep_label', D)])

p('C10', 'Assignment changes the addressed cells and nothing else',
  'Assigning through an index, a bool larry with the same labels, lix, set or fill writes the given values to exactly the addressed cells and leaves every other cell, the labels and the shape '
  'as they were. Assigning a larry whose labels differ from those of the addressed cells raises IndexError and changes nothing.',
  'every larry, index and value',
  TESTS + 'they compare the final array for a handful of indices.',
  [D], [('larry.__setitem__', D), ('Lix.__setitem__', D), ('larry.set', D)])

p('C11', 'Rearranging a larry moves each cell together with its labels',
  'T, swapaxes, flipaxis, sortaxis, squeeze, insertaxis, lag and sortby give a larry in which the cells follow their labels: the cell found under a combination of labels is the one '
  'found there before (lag instead pairs each label with the cell nlag positions earlier and drops the labels left without a cell). The order of axes and labels is the one asked for: reversed, swapped, flipped, sorted '
  '(optionally descending), or sorted by the values of the named row or column.',
  'every larry, axis (negative ones too) and lag',
  TESTS + 'data and labels are moved by separate statements.',
  [D, F], [('larry.T', D), ('larry.swapaxes', D), ('larry.flipaxis', D), ('larry.sortaxis', D), ('larry.lag', D), ('sortby', F)])

p('C12', 'Conversions list every cell under its labels and invert each other',
  'flatten (C or F order), totuples, tolist, todict and panel contain each cell exactly once, together with its own labels, in the documented order. unflatten, '
  'fromtuples, fromlist and fromdict rebuild from such data a larry with sorted labels in which every given cell is found under its labels and every other cell is NaN.',
  'every larry of numbers and every list of distinct label tuples with values',
  TESTS + 'order mistakes show only for some shapes (for instance non-square ones).',
  [D, F, L, 'la/util/misc.py'], [('flattenlabel', L), ('fromlists', 'la/util/misc.py'), ('larry.totuples', D), ('panel', F)])

p('C13', 'Missing data is recognised, replaced, filled and cut out exactly',
  'Missing is NaN for float, \'\' for string, None for object data and nothing for bool or integer data: ismissing and nans follow this, '
  'nan_replace replaces exactly the NaNs, and push fills a missing (non-finite) cell with the latest earlier finite cell along the axis if that lies at most window steps back. '
  'vacuum drops exactly the rows that have no finite cell (along all axes or all but the protected ones), cut_missing drops along the axes other than the given one exactly the rows whose missing '
  'fraction is at least the given one; the rest stays under its labels. keep_x turns cells not meeting the condition into NaN.',
  'every larry, axis, window, fraction and replacement value',
  TESTS + 'which rows qualify depends on every cell.',
  [D, M, 'la/farray/normalize.py'], [('ismissing', M), ('larry.vacuum', D), ('larry.cut_missing', D), ('push', 'la/farray/normalize.py')])

p('C14', 'Reductions summarise the right cells and keep the right labels',
  'sum, prod, mean, geometric_mean, median, std, var, max and min (ignoring NaN), and any, all, along an axis remove exactly that axis, keep the labels of the others, and put in '
  'each cell the statistic of the cells along the axis; without an axis they give the scalar over all cells. With no cells at all the result is NaN (False for any, True for all). '
  'cov gives under each pair of row labels the mean product over the columns present in both rows.',
  'every larry and every axis, negative or None',
  TESTS + 'the axis handling differs for empty, 1d and nd inputs.',
  [D, F, 'la/farray/misc.py'], [('larry.__reduce', D), ('larry.prod', D), ('geometric_mean', 'la/farray/misc.py'), ('covMissing', 'la/farray/misc.py')])

p('C15', 'Cell-wise functions keep shape and labels and act on each cell alone',
  'log, exp, sqrt, sign, power, clip, abs, negation, invert, isnan, isfinite, isinf, astype and copy give a larry with the same labels whose every cell is the function of the corresponding cell; '
  'cumsum and cumprod give the running sum or product along the axis, skipping NaNs, which stay NaN. '
  'nx, size, shape, ndim and dtype report the number of finite cells, cells, lengths, axes and the data type.',
  'every larry, axis and parameter',
  TESTS + 'they use one array per function.',
  [D], [('larry.cumsum', D), ('larry.clip', D), ('larry.power', D)])

p('C16', 'Each moving-window result uses exactly the cells of its own window',
  'move_sum, move_mean, move_std, move_min, move_max, move_median, move_ranking and move_func put at position i along the axis the statistic of the window cells ending at i, '
  'NaN for the first window-1 positions, whichever method is chosen, and pass the caller\'s keyword arguments to the function; movingsum_forward sums, ignoring NaN, the window cells that start skip '
  'positions ahead. Labels are kept, and windows that do not fit are refused.',
  'every larry of 1 to 3 dimensions, axis, window, method and skip',
  TESTS + 'off-by-one windows show only at particular sizes and axes.',
  [D, 'la/farray/move.py'], [('move_func_loop', 'la/farray/move.py'), ('move_func_strides', 'la/farray/move.py'), ('movingsum', 'la/farray/move.py')])

p('C17', 'Group statistics use exactly the rows of the same group, matched by label',
  'group_mean, group_median and group_ranking give each cell the NaN-ignoring mean, median or rank among the cells of the same line whose row belongs to the same group; rows are assigned to groups by '
  'matching labels of the group larry in any order, rows whose group is None give NaN, and labels are kept. A group larry that is not 1d or lacks a label is refused.',
  'every larry, axis and group larry',
  TESTS + 'the group larry can hold extra labels in another order.',
  [D, 'la/farray/group.py'], [('larry._group_align', D), ('group_mean', 'la/farray/group.py'), ('unique_group', 'la/farray/group.py')])

p('C18', 'Operations never modify their inputs or share state with them',
  'No function or method of la other than those documented to work in place (assignment, set, fill, shuffle, shufflelabel, maplabel and flipaxis with copy=False) changes the data, labels or '
  'shape of a larry, array or list it is given. Results share neither data nor label lists with the inputs (except indexing, pull, squeeze, and getx or getlabel with copy=False, '
  'which may return views), so changing one later never changes the other.',
  'every operation of the other properties on every input',
  'Aliasing shows only when a result is changed after the call, which the tests check for a few methods and one input each.',
  [D, F, L, 'la/farray'], [('larry.copy / copylabel', D), ('align_raw view flags', F)], over=('inputs', 'histories'))

p('C19', 'Saving a larry to an archive and loading it back gives the same larry',
  'For a numeric, bool or string larry whose label lists each hold ints, floats, strings, dates, times or datetimes (one type per axis, empty axes included), load after save returns equal labels '
  'with the same types, equal data, shape and dtype, at any (also nested) key and however many other larrys the archive holds; an archived larry opened by key gives the same parts when indexed by integers and slices. '
  'Saving label lists of mixed types raises TypeError.',
  'every such larry and key',
  TESTS + 'each label type has its own encoding.',
  ['la/io.py'], [('save', 'la/io.py'), ('load', 'la/io.py'), ('_list2array / _load_label', 'la/io.py')], observe=['la.save', 'la.load'])

p('C20', 'An archive behaves like a dictionary of larrys',
  'After any sequence of setting, overwriting, deleting, clearing, repacking and reading, keys, len, in, iteration, has_key, values and items show exactly the larrys last stored under each key and not deleted. '
  'Reading or deleting an absent key raises KeyError, storing a non-larry, a non-string key or a larry that cannot be saved raises TypeError, and failed operations leave the archive as it was. '
  'Assigning into an archived larry changes exactly the addressed cells on disk. The functions (save, load, delete, repack, is_archived_larry, archive_directory) take the file name, or the open file, which then stays open (repack returns it anew). '
  'The printed archive lists name, dtype and shape of each larry; space is the size of the file and freespace what of it no stored data occupy.',
  'every history of archive operations',
  'The tests run a few fixed sequences of two or three operations.',
  ['la/io.py'], [('IO', 'la/io.py'), ('lara', 'la/io.py'), ('repack', 'la/io.py')], over=('histories', 'inputs'))

p('C21', 'Resampling splits partition the index range',
  'cross_validation(n, kfold) yields kfold pairs in which training and test indices together are each of 0..n-1 exactly once, test sets of different folds are disjoint, cover everything and '
  'differ in size only in the last fold, which takes the remainder. bootstrap yields nboot pairs of n training indices, as drawn, and as test set exactly the never drawn ones, never empty; '
  'split takes exactly the given rows; invalid n, kfold or nboot raise ValueError.',
  'every n, kfold, nboot and random source',
  TESTS + 'the remainder fold depends on n modulo kfold.',
  ['la/util/resample.py'], [('cross_validation', 'la/util/resample.py'), ('bootstrap', 'la/util/resample.py')], over=('inputs', 'histories'))

p('C22', 'Normalisations act line by line, ignoring and preserving NaN',
  'demean, demedian and zscore subtract (and divide by) the NaN-ignoring mean, median (standard deviation) of the line through each cell along the axis, or of all cells when axis is None. ranking gives each non-NaN cell its '
  'rank among the non-NaN cells of its line (ties averaged) scaled to -1..1, 0..N-1 or gaussian, lastrank the rank of the last cell of each line, and quantile the '
  'quantile bin, from -1 to 1, of each cell of its line. NaN cells stay NaN, the labels are kept, and parameters out of range raise ValueError.',
  'every larry, axis, norm, decay and number of quantiles',
  TESTS + 'axis arithmetic and NaN counts interact.',
  [D, 'la/farray/normalize.py'], [('ranking', 'la/farray/normalize.py'), ('demean', 'la/farray/normalize.py'), ('quantile', 'la/farray/normalize.py'), ('lastrank', 'la/farray/normalize.py')])

p('C23', 'Text export writes every cell once under its labels',
  'tofile writes a 1d or 2d larry as label and value lines (preceded, in 2d, by a line of column labels) with the chosen delimiter, every cell once in order, and refuses other dimensions. tocsv writes one line per cell holding its labels and '
  'value, and fromcsv rebuilds (skipping the given number of header lines) a larry whose labels are these labels as strings, sorted, with each value found under its labels.',
  'every larry of numbers with labels that survive str(), every delimiter',
  TESTS + 'row and column order mistakes show only for non-square larrys.',
  [D], [('larry.tofile', D), ('larry.tocsv', D), ('larry.fromcsv', D)])

p('C24', 'Shuffling permutes whole rows and nothing else',
  'shuffle permutes the data along the given axis (or each axis if None) as whole slices and leaves the labels and the shape; shufflelabel permutes the labels of the given axis (or of each '
  'axis) and leaves the data. No cell or label is lost or duplicated.',
  'every larry, axis and random permutation',
  TESTS + 'random permutations are not enumerated.',
  [D, 'la/farray/misc.py'], [('larry.shuffle', D), ('shuffle', 'la/farray/misc.py'), ('larry.shufflelabel', D)])

p('C25', 'Correlation and unique use exactly the cells they should',
  'correlation of two arrays of finite or missing numbers is, flattened or for every line along the given axis, the correlation of exactly the pairs of which neither number is missing (missing or NaN '
  'if it is undefined). unique of a larry gives the distinct values of all its cells in sorted order and, if asked, the flat positions at which they occur and the position of each cell among them.',
  'every pair of arrays of one to three axes, every axis, every larry without missing values',
  TESTS + 'they compare a few lines of two or three numbers.',
  ['la/farray/misc.py', F], [('correlation', 'la/farray/misc.py'), ('unique', F)])

p('C26', 'assert_larry_equal refuses exactly the larrys that differ',
  'assert_larry_equal returns None if its two larrys agree and raises AssertionError if they differ in number of axes, shape, labels, dtype (unless dtype=False) or in a cell; NaN equals NaN, and if either is '
  'float, cells may be at most 1.5e-13 apart (two scalars 5e-8). A larry never equals a scalar. With original, the two must also be copies, or if iscopy=False views, of each other, labels included; assert_iscopy, '
  'assert_isview, noreference and nocopy tell the same. Arguments are not changed; bad options or operands are refused with TypeError.',
  'every pair of larrys of one to three axes and any data type without infinities, every option, every way of sharing data and labels',
  TESTS + 'they compare a few pairs of two or three cells; an assertion helper that accepts too much makes every test written with it vacuous.',
  ['la/util/testing.py'], [('assert_larry_equal', 'la/util/testing.py'), ('noreference', 'la/util/testing.py')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
        f.write(json.dumps(q) + '\n')
print(len(P))
