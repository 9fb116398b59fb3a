#!/usr/bin/env python3
"""writes properties.jsonl from the table below (kept as code so that it stays readable)"""
import json, os
L = []
S = 'source/core/'
def P(id, title, statement, over, text, why, files, mech, observe=None):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f if not f.startswith('source') else f for f in files], mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               **({'observe_at': observe} if observe else {}), hook_needed=None)))

P('C01', 'Train/test split rows are copied intact, disjointly, into the right halves',
  'Splitting a data set copies, for every output row r, exactly the source row selected by the (optionally shuffled) index list: the first train_size entries go to the training array and the next test_size to the test array, in row- or column-major order with any leading dimensions, and nothing else in either array is written. With shuffling the index list is a permutation; stratified splitting gives every class its computed share. Sizes or dimensions that do not fit are rejected before anything is written.',
  ['inputs', 'schedules'], 'all row/column counts, leading dimensions, split sizes, storage orders, index lists and seeds; every thread count and block assignment',
  'the split tests are not among the tests that run in this build, and shapes around the blocking and parallel thresholds, padded leading dimensions and overflowing sizes are not sampled',
  ['utilities/train_test_split.cpp', 'utilities/train_test_split_internal.hpp', 'utilities/da_utils.cpp'],
  [('blocked copy kernels', 'utilities/train_test_split_internal.hpp'), ('size validation and dispatch', 'utilities/train_test_split.cpp'), ('index shuffling and stratification', 'utilities/da_utils.cpp')])
P('C02', 'Index sorts return a sorted permutation; bucketing keeps multiplicities',
  'Every routine that sorts sample indices by a feature leaves the index list a permutation of what it was and in non-decreasing feature order, whatever the values, duplicates and lengths. Compressing a drawn sample into distinct indices with counts keeps exactly the multiplicity of every drawn index. No index or value outside the given range is read or written.',
  ['inputs'], 'all arrays (lengths, values, duplicates, already sorted, organ-pipe), all starting index permutations, all recursion depths',
  'the unit tests sort three fixed arrays; orderings that trigger the heap-sort fallback or pivot ties are not reached',
  ['decision_forest/common/idx_sorting.cpp', 'decision_forest/common/idx_sorting.hpp'],
  [('heap, intro and bucket sort', 'decision_forest/common/idx_sorting.cpp'), ('occurrence compression', 'decision_forest/common/idx_sorting.cpp')])
P('C03', 'Feature binning is monotone and lossless in counts',
  'Binning a feature column assigns every sample the one bin whose boundaries enclose its value, bins are ordered like the values (a larger value never gets a smaller bin) and never exceed the requested number of bins, and boundaries are strictly increasing. Histogram statistics gathered over a node sum to the node totals, for every class or target sum.',
  ['inputs', 'schedules'], 'all feature matrices, leading dimensions, bin counts, node sizes and thread counts',
  'no stable test calls the histogram code at all',
  ['decision_forest/common/histogram.cpp', 'decision_forest/common/histogram.hpp'],
  [('bin edges and bin search', 'decision_forest/common/histogram.cpp')])
P('C04', 'Impurity scores obey their definitions and their bounds',
  'The Gini, entropy and misclassification scores of a class-count vector with n samples equal their mathematical definitions up to rounding (entropy: classes below 1e-5 of the samples may be ignored, at most 1.7e-4 each), are zero for pure nodes and positive otherwise, never negative beyond rounding, and bounded by the value of the uniform distribution. The counts are not modified.',
  ['inputs'], 'all class counts, class numbers and sample numbers',
  'the unit test checks one tabulated list of counts',
  ['decision_forest/common/scoring.cpp', 'decision_forest/common/scoring.hpp'],
  [('score functions', 'decision_forest/common/scoring.cpp')])
P('C05', 'The growable vector keeps its sequence and never touches foreign memory',
  'After any history of constructions, appends (of values, of its own elements, of other vectors or itself), resizes, reservations, copies and moves, a growable vector holds exactly the sequence those operations define. Size never exceeds capacity, buffers are never shared between vectors, leaked, freed twice or used after being freed.',
  ['histories'], 'all histories of operations, element types and sizes',
  'the unit tests run one short history per operation; aliasing arguments and moved-from vectors are never used',
  ['utilities/da_vector.hpp'], [('growth, copy and move operations', 'utilities/da_vector.hpp')])
P('C06', 'Interval sets stay canonical and represent exactly the inserted integers',
  'After any history of insertions and erasures an interval set contains exactly the integers inserted and not erased since, held as disjoint, non-adjacent, non-empty intervals. Lookup and iteration agree with that set; an empty or reversed interval is refused and changes nothing.',
  ['histories'], 'all histories of insert, erase and find over all integer bounds',
  'the tests replay a few fixed histories; merges over several intervals, adjacency at both ends and extreme integers are not covered',
  ['data_management/interval_set.cpp', 'data_management/interval_set.hpp', 'data_management/interval.hpp'],
  [('insert/erase with merging', 'data_management/interval_set.cpp'), ('interval intersection', 'data_management/interval.hpp')])
P('C07', 'Interval maps never hold overlapping keys and find the right entry',
  'After any history of insertions and erasures an interval map holds pairwise disjoint non-empty intervals, each with the value given when it was inserted; an insertion overlapping an existing interval is refused and leaves the map unchanged. Looking up an integer returns the one interval that contains it, or nothing.',
  ['histories'], 'all histories of insert, erase and find over all integer bounds',
  'the tests replay a few fixed histories; an interval enclosing several stored ones and lookups below the first key are not covered',
  ['data_management/interval_map.hpp', 'data_management/interval.hpp'],
  [('overlap test on insertion and lookup', 'data_management/interval_map.hpp')])
P('C08', 'Quantiles are the defined order statistics of the selected axis',
  'For every quantile type, axis and storage order the returned value is the defined interpolation of the two adjacent order statistics of exactly the elements on that axis; quantiles of one slice are therefore monotone in the level and lie between its minimum and maximum. The input matrix is never modified, the output of each slice and level lands in its documented position, and invalid levels, dimensions or leading dimensions are refused.',
  ['inputs'], 'all matrices, axes, orders, leading dimensions, quantile types and level lists (unsorted, duplicated, 0 and 1)',
  'the order-statistics tests need a library build that does not exist here, and they use a handful of tabulated inputs',
  ['basic_statistics/order_statistics.cpp', 'basic_statistics/row_to_col_major.cpp'],
  [('quantile selection', 'basic_statistics/order_statistics.cpp'), ('axis normalisation', 'basic_statistics/row_to_col_major.cpp')])
P('C09', 'Layout conversions move every element once and nothing else',
  'Copying, transposing and converting between row- and column-major storage yields at every logical position (i,j) the value of the source, for all shapes and leading dimensions, and neither padding nor anything outside the destination is written. Converting there and back restores the matrix.',
  ['inputs', 'schedules'], 'all shapes, leading dimensions, block boundaries and thread counts',
  'no stable test runs the conversions; shapes off the block size and padded leading dimensions need every size',
  ['utilities/da_utils.cpp', 'utilities/da_utils.hpp', 'basic_statistics/row_to_col_major.cpp'],
  [('transposes and order switches', 'utilities/da_utils.cpp')])
P('C10', 'Tree searches return exactly the brute-force neighbours',
  'A k-nearest-neighbour query on a kd-tree or ball tree returns the k smallest distances that a brute-force scan would return, and a radius query returns exactly the points within the radius, for every metric, weight, leaf size and storage order. Pruning never discards a qualifying point; the indices returned are distinct and the distances are those of the returned points.',
  ['inputs', 'schedules'], 'all point sets (duplicates, collinear, constant columns), leaf sizes, k, radii, metrics and thread counts',
  'the nearest-neighbour tests do not run in this build and compare a few data sets',
  ['nearest_neighbors/binary_tree.cpp', 'nearest_neighbors/binary_tree.hpp', 'nearest_neighbors/kd_tree.cpp', 'nearest_neighbors/ball_tree.cpp', 'nearest_neighbors/radius_neighbors.cpp'],
  [('bounded max-heap of candidates', 'nearest_neighbors/binary_tree.cpp'), ('tree construction and pruning bounds', 'nearest_neighbors/kd_tree.cpp'), ('ball bounds', 'nearest_neighbors/ball_tree.cpp')])
P('C11', 'Splines interpolate their data and are evaluated on the right piece',
  'A fitted cubic spline takes the given value at every site, joins with continuous first derivatives (and second derivatives except for Hermite splines), and meets its boundary conditions. Every evaluation point is evaluated, for each requested derivative, with the polynomial of the interval that contains it (end pieces outside the range), for any ordering of the points, storage order and dimension.',
  ['inputs', 'histories'], 'all increasing sites (uniform or not), values, dimensions, evaluation points, derivative lists and sequences of calls',
  'the interpolation tests do not run in this build; cell search at sites, end points and unsorted queries needs all inputs',
  ['interpolation/cubic_spline/cubic_spline.cpp', 'interpolation/interpolation.cpp', 'interpolation/interpolation_generic.hpp'],
  [('coefficient computation and evaluation', 'interpolation/cubic_spline/cubic_spline.cpp'), ('cell search and validation', 'interpolation/interpolation_generic.hpp')])
P('C12', 'Saved models round-trip, and damaged ones are refused without overreading',
  'Whatever sequence of values is saved is loaded back equal, element for element, and the space reserved is exactly what is written. Loading from any byte string of any length reads only inside it: a truncated, oversized-length or otherwise damaged buffer gives an error status, never an overread.',
  ['inputs', 'fault_sequences'], 'all values and nestings, all truncation points and all corrupted length fields',
  'one stable test corrupts one length; round trips need a full library build',
  ['utilities/model_persistence.cpp', 'utilities/model_persistence.hpp'],
  [('bounds checks before every read and write', 'utilities/model_persistence.cpp'), ('size computation', 'utilities/model_persistence.hpp')])
P('C13', 'A handle only accepts calls of its own kind and precision',
  'Every C-level entry point that takes a handle refuses a null, uninitialised or wrong-precision handle or a handle of another algorithm with the documented status and without touching caller memory; otherwise it forwards every argument unchanged to the implementation. Result queries never write more elements than the caller declared and report the needed size instead.',
  ['inputs', 'histories'], 'all handle types, precisions and call orders',
  'tests call each entry with one or two wrong handles', ['utilities/da_handle.cpp', 'utilities/da_handle.hpp', 'utilities/basic_handle.cpp', 'utilities/aoclda_c_wrapper.cpp'],
  [('handle type and precision checks', 'utilities/da_handle.cpp'), ('common result query', 'utilities/basic_handle.cpp')])
P('C14', 'Options only ever hold valid values, and names are matched canonically',
  'An option reads back the last value successfully set (or its default); setting an out-of-range value, NaN, an unknown label or name, or a wrongly typed value is refused and changes nothing. Names and labels match up to case and white space, and once a registry is locked nothing in it changes.',
  ['inputs', 'histories'], 'all option definitions (bound kinds, types), values including NaN, names and histories of set/get',
  'tests set a few tabulated values; bounds kinds crossed with NaN and extreme values are not enumerated',
  ['utilities/options.hpp'], [('validation of bounds', 'utilities/options.hpp'), ('registry look-up', 'utilities/options.hpp')])
P('C15', 'CSV tokenising reproduces the fields of the input for any buffering',
  'Tokenising a CSV text yields exactly the fields its dialect defines: delimiters, quoting, escapes, comments, skipped lines and each line ending are honoured, independent of how the input is cut into chunks. Words never overlap, stay inside the buffers, and malformed input is reported rather than silently altered.',
  ['inputs', 'schedules'], 'all texts, dialect settings and chunk sizes',
  'CSV tests do not run in this build and read a fixed set of files',
  ['csv/tokenizer.c', 'csv/tokenizer.h'], [('tokenizer state machine and buffers', 'csv/tokenizer.c')])
P('C16', 'Text-to-number conversion accepts exactly numbers and never wraps',
  'Converting a text field to an integer gives the integer it spells, or an error if it spells none or one outside the representable range; it never wraps. Converting to floating point consumes exactly the numeral and gives its value, with malformed fields reported.',
  ['inputs'], 'all strings, separators and ranges', 'tests convert a few literals', ['csv/char_to_num.hpp'], [('digit accumulation with overflow tests', 'csv/char_to_num.hpp')])
P('C17', 'Pairwise distances have the metric properties, whatever the layout',
  'Every distance matrix entry (i,j) is the documented metric of row i and row j (symmetric, zero on the diagonal and non-negative when a data set is compared with itself), independent of storage order, leading dimension and blocking; only the result entries are written.',
  ['inputs', 'schedules'], 'all shapes, orders, leading dimensions, metrics and thread counts', 'metric tests do not run in this build; block boundaries need all shapes',
  ['metrics/pairwise_distances.cpp', 'metrics/inner_product_distance.cpp', 'metrics/sqeuclidean_distance.cpp', 'metrics/manhattan_distance.cpp', 'metrics/minkowski_distance.cpp', 'metrics/cosine_distance.cpp', 'metrics/euclidean_distance.cpp'],
  [('metric kernels', 'metrics/metrics_kernels.hpp'), ('dispatch', 'metrics/pairwise_distances.cpp')])
P('C18', 'Tree training partitions its samples; prediction follows the splits',
  'Splitting a tree node moves every sample of the node to exactly one child according to the split, keeping the sample multiset and the per-node class counts. Prediction of a sample returns the value of the leaf its features lead to, class probabilities are the class fractions of that leaf, and a forest returns the majority (or mean) over its trees.',
  ['inputs', 'schedules'], 'all data sets, split features, thresholds, tree depths, forests and thread counts', 'tree and forest tests do not run in this build',
  ['decision_forest/tree/decision_tree_training_partition.hpp', 'decision_forest/tree/decision_tree_inference.hpp', 'decision_forest/forest/decision_forest_inference.hpp', 'decision_forest/tree/decision_tree_training_split.hpp'],
  [('in-place partition of sample indices', 'decision_forest/tree/decision_tree_training_partition.hpp'), ('tree walk', 'decision_forest/tree/decision_tree_inference.hpp')])
P('C19', 'The column cache returns only what was stored and evicts the oldest',
  'A bounded column cache returns for a key either nothing or exactly the column last stored under that key; it never holds more columns than its capacity and drops the least recently used one first. Setting a new size forgets all columns and leaks nothing.',
  ['histories'], 'all histories of put, get and resize, all capacities', 'the stable tests run one short history',
  ['utilities/da_cache.hpp'], [('recency list and key map', 'utilities/da_cache.hpp')])
P('C20', 'Bad input arrays are reported before any computation touches them',
  'The shared array checks refuse null pointers, too small dimensions and leading dimensions, and report a NaN exactly when some logical element is one - wherever it sits, in either storage order - while never reading outside the array or its padding.',
  ['inputs'], 'all shapes, leading dimensions, orders, and positions of NaN', 'tests place one NaN in one small array',
  ['utilities/da_utils.cpp', 'utilities/da_utils.hpp', 'utilities/basic_handle.cpp'], [('array checks', 'utilities/da_utils.cpp')])
P('C21', 'Trained models fit their data to the accuracy of the solver',
  'Linear models, k-means, PCA, SVM, DBSCAN, t-SNE and nonlinear least squares return the optimum (or clustering) of the problem they were given to the documented tolerance.',
  ['inputs', 'configurations'], 'all training sets and options', 'accuracy on sampled data sets says nothing about other data',
  ['linear_model/linear_model.cpp', 'clustering/kmeans', 'factorization/pca', 'svm/svm.cpp'], [('solvers', 'linear_model/linear_model.cpp')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    open(os.path.join(here, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in L))
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in L: jsonschema.validate(x, sch)
    print(len(L))
