"""Writes /verif/properties.jsonl (the text of the properties lives here)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=None):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe or [],
            'hook_needed': None}})


T = 'ABXpy/task.py'
D = 'ABXpy/distances/distances.py'

prop('C01', 'A task file lists exactly the triplets of the ABX definition',
     'For a given item file and ON/ACROSS/BY specification, the generated task file contains every triplet (A, B, X) of items such that A and X share the ON label and B does not, A and B share all the ACROSS labels while X differs from A on each of them, and the three share all the BY labels (without ACROSS, X only has to be another item than A). Each triplet appears exactly once, stored in the block of its BY labels, and nothing else appears. When no triplet exists, a warning is given and no task file is written.',
     ['inputs', 'configurations'],
     'every item table (any number of rows, row order, label types and repetitions) and every choice of ON, ACROSS (none, one, several) and BY (none, one, several)',
     'The tests check a few fixed factorial designs; the guarantee is over every table, including unbalanced ones and sizes beyond the limits of the integer types used for storage.',
     [T, 'ABXpy/misc/type_fitting.py', 'ABXpy/h5tools/np2h5.py'],
     [('triplet enumeration of an on/across block', T + ': on_across_triplets'),
      ('by blocks and anti-across blocks', T + ': _init_prepare_database'),
      ('writing and by index', T + ': generate_triplets')],
     ['triplets/data, triplets/by_index, bys and feat_dbs of the task file'])

prop('C02', 'The statistics announced for a task are those of its triplets',
     'Without having to generate anything, a task announces its total number of triplets, its number of BY levels and of ON/ACROSS/BY blocks, and for each BY level the number of items, of ON, ACROSS and ON-ACROSS levels, of triplets and of triplets in each block: all of them are equal to what the item file and the filters imply, and the number of triplets equals what generation without threshold then writes. The approximate count that may be requested in the presence of filters is never below the exact one. With an ACROSS attribute and without filters on A, B or X, the number of distinct label combinations printed in the summary is the exact number of different ON and ACROSS labels of (A, B, X).',
     ['inputs', 'configurations'],
     'every item table and task specification, with and without filters',
     'The tests compare three counters on four tables; the shortcuts used for counting differ from the code that generates, so agreement has to be established for every table and specification.',
     [T], [('counting shortcuts', T + ': compute_statistics'),
           ('number of levels', T + ': compute_nb_levels, print_stats')],
     ['stats and by_stats of a task, printed summary'])

prop('C03', 'A task file lists exactly the pairs its triplets need, sorted, once',
     'For each BY block, the task file lists the pairs of items whose distance is needed: (A, X) and (B, X) for each of the triplets stored in that block, each exactly once, sorted, and no other pair. The BY blocks are stored one after the other without gap or overlap, and this holds whatever the number of triplets compared to the sizes of the memory buffers used for reading, sorting and writing.',
     ['inputs', 'configurations'],
     'every set of triplets (also filtered or sampled ones), number of by blocks and buffer size',
     'The tests check the pairs of three small tasks which fit in a single buffer; duplicates across buffer boundaries and large blocks are never reached.',
     [T, 'ABXpy/h5tools/h5_handler.py', 'ABXpy/h5tools/h52np.py', 'ABXpy/h5tools/np2h5.py'],
     [('encode, sort, unique, merge', T + ': _generate_pairs, sort_pairs')],
     ['unique_pairs of the task file'])

prop('C04', 'Filters keep exactly the triplets that satisfy all of them',
     'A task with filters contains exactly the triplets of the unfiltered task for which every filter holds, where a column suffixed by _A, _B or _X stands for the label of that item, _1 and _2 for the ON label of A and of B (or the ACROSS label of A and of X), a BY column for the BY label of the triplet, and any other unsuffixed column applies to each of the three items. The order in which filters are given, and whether a filter is written as a column name, an expression, a script or a script file, makes no difference. A filter mixing suffixed and unsuffixed (not BY) columns is refused.',
     ['inputs', 'configurations'],
     'every item table, task specification, and combination of filters',
     'The tests have a handful of filters on two tables; filters are evaluated at six different points of the generation depending on the columns they involve, and in combination.',
     ['ABXpy/sideop/filter_manager.py', 'ABXpy/sideop/side_operations_manager.py', 'ABXpy/dbfun/dbfun_compute.py', 'ABXpy/dbfun/dbfun_column.py', T],
     [('classification of the filters', 'ABXpy/sideop/side_operations_manager.py: add'),
      ('lazy evaluation', 'ABXpy/sideop/filter_manager.py: vectorial_filter'),
      ('application', T + ': on_across_triplets')],
     ['triplets of the task file'])

prop('C05', 'Regressors stored for a triplet are the labels of its own items',
     'For every triplet of a task file, each regressor stored at the same position holds the label that its own A, B or X item has in the item file: the ON and ACROSS labels by default (_1 and _2 as for filters) and on request any column with suffix _A, _B or _X, any BY column, or any value computed from these labels by a script. This stays true with any combination of filters, with a threshold, and with any number of BY blocks.',
     ['inputs', 'configurations'],
     'every item table, task specification, requested regressors, filters and threshold',
     'The tests compare the regressors of a few tasks with fixed arrays; triplets are reordered, filtered and sampled and each regressor has to follow, for each of the A, B, X, block and BY levels.',
     [T, 'ABXpy/sideop/regressor_manager.py', 'ABXpy/dbfun/dbfun_column.py', 'ABXpy/h5tools/h5io.py'],
     [('reordering', T + ': _compute_regressors'), ('indexing', 'ABXpy/dbfun/dbfun_column.py: evaluate')],
     ['regressors of the task file'])

prop('C06', 'A threshold samples each group of triplets without bias or loss',
     'With a threshold t, the triplets with the same ON, ACROSS and BY labels of A (the same A item when there is no ACROSS) and the same values of the regressors of B and X (their ON and ACROSS labels by default, those computed by scripts included) are reduced to min(t, size of the group) distinct triplets of that same group, the other groups being untouched, and without threshold nothing is sampled. With a given seed the result is reproducible whatever random numbers were drawn before, and every triplet of a group can be drawn.',
     ['inputs', 'configurations', 'histories'],
     'every item table, filters, threshold and seed, every prior state of the random generator',
     'The tests check the number of triplets for one threshold; whether the sample is made of distinct members of the right group depends on group sizes, integer types and on the random draws.',
     [T, 'ABXpy/sampling/sampler.py'],
     [('grouping and sampling', T + ': sort_and_threshold'), ('seeding', T + ': generate_triplets')],
     ['triplets of the task file'])

prop('C07', 'Each distance is that of the features of its own two items, in order',
     'After computing distances, entry i of the distance file is the value of the distance function on the features of the two items of pair i of the task file, in the order (A or B, X), where the features of an item are the frames of its file whose time t satisfies onset <= t <= offset, both included. It does not depend on the number of processes or jobs, on the number of feature files the features are spread over, or on the other pairs, and every pair gets a distance. The normalization choice is passed to the distance function, and left out when there is none.',
     ['inputs', 'configurations'],
     'every task file, feature set, distance function (asymmetric ones included), number of processes',
     'The tests compute distances for two tasks with one symmetric distance and never look at individual values.',
     [D], [('job creation', D + ': create_distance_jobs'), ('computation', D + ': run_distance_job, Features_Accessor')],
     ['distances/data of the distance file', 'arguments received by the distance function'])

prop('C08', 'Parallel distance computation is safe for every schedule and failure',
     'Whatever the interleaving of the worker processes, no worker opens the task or distance file while another one has it open, the result is the one of the sequential computation, and the computation ends. When reading, computing or writing fails in any worker, the error reaches the caller and the other workers are not left waiting. The distance file is marked as done exactly when all its distances have been written.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving of the lock and file operations of the workers and every single failing operation',
     'The tests run one arbitrary schedule without failure; a missing or unreleased lock only shows under particular interleavings or faults.',
     [D], [('lock around the file accesses', D + ': run_distance_job'), ('pool', D + ': compute_distances')],
     ['distance file', 'trace of lock and file operations'])

prop('C09', 'The score of each triplet compares its own two distances',
     'Entry i of the score file is 1 if the distance of the (A, X) pair of triplet i is smaller than that of its (B, X) pair, -1 if it is larger, and 0 if they are equal, for every triplet of the task file in the same order. This holds for all distance values (equal, infinite, arbitrarily close, negative) and whatever the number of items, BY blocks and triplets.',
     ['inputs', 'configurations'],
     'every task file and every assignment of distances to its pairs',
     'The tests compare two score files with frozen ones; ties, infinities, by block offsets, pair look-ups and buffer boundaries are not covered.',
     ['ABXpy/score.py', 'ABXpy/h5tools/h52np.py', 'ABXpy/misc/type_fitting.py'],
     [('pair look-up and comparison', 'ABXpy/score.py: score')],
     ['scores dataset of the score file'])

prop('C10', 'The analysis reports the exact mean score of each group of triplets',
     'The result table has one line for each BY block and combination of regressor labels met in it, with the labels of that combination under the matching column names, the BY label, the proportion of correct triplets (mean over its triplets of 1 for a score of 1, 0 for -1, one half for 0) and their number. No combination is missing, repeated or merged with another one, and the numbers of triplets add up to that of the task.',
     ['inputs', 'configurations'],
     'every task file (label types, number of labels and of regressors, by blocks) and every score assignment',
     'The tests compare two result files with frozen ones; the grouping goes through packed integer codes whose limits are never approached.',
     ['ABXpy/analyze.py'], [('packing, grouping and decoding', 'ABXpy/analyze.py: collapse, npdecode, unique')],
     ['result csv file'])

prop('C11', 'Dynamic time warping returns the cost of the best alignment',
     'The DTW distance of two non empty sequences is the minimum, over all monotonic alignments (steps (1,0), (0,1), (1,1) from the first to the last frames), of the sum of the frame distances along the alignment. When normalized, this cost is divided by the number of frame pairs of an optimal alignment, obtained by going back from the end and preferring the diagonal among equal predecessors. Transposing the frame distances does not change the unnormalized distance, and empty sequences are refused.',
     ['inputs'],
     'every matrix of frame distances, ties, zeros and infinities included',
     'The tests check one random pair against a stored implementation and only without normalization.',
     ['ABXpy/distances/metrics/dtw/dtw.pyx'], [('dynamic programming and backtracking', 'ABXpy/distances/metrics/dtw/dtw.pyx: _dtw')],
     ['returned distance'])

prop('C12', 'Frame metrics compute their formula and leave their inputs unchanged',
     'Entry (i, j) returned by the cosine, Kullback-Leibler, Jensen-Shannon and Hellinger metrics is the mathematical value of that dissimilarity between frame i of the first sequence and frame j of the second: angle over pi for the cosine (1 between a null frame and another frame, 0 between null frames), the (symmetrized, thresholded) divergence of the normalized frames for the others, zeros in the frames being supported except by the Kullback-Leibler divergence without threshold. It does not depend on the other frames, in single or double precision, and the arrays given are not modified.',
     ['inputs'],
     'every pair of sequences: number of frames and dimensions, null, parallel, opposite, sparse frames, both precisions',
     'There is no test for the metrics.',
     ['ABXpy/distances/metrics/cosine.py', 'ABXpy/distances/metrics/kullback_leibler.py'],
     [('vectorized formulas', 'ABXpy/distances/metrics/cosine.py, kullback_leibler.py')],
     ['returned matrix', 'argument arrays'])

prop('C13', 'Sequence distances follow their definition, empty sequences included',
     'The default distance is DTW over cosine distances, its Kullback-Leibler variant is DTW over symmetrized divergences, the Levenshtein distance is the minimal number of frame insertions, deletions and substitutions, and each of them gives 0 between two empty sequences and infinity between an empty and a non empty one. Uniform time warping aligns each frame of the longer sequence to the frame of the shorter one at the same relative position (the mean of two when it falls exactly between them) and sums the frame distances, symmetrically in its two arguments.',
     ['inputs', 'configurations'],
     'every pair of sequences of any two lengths, normalization choice',
     'There is no test for these functions.',
     ['ABXpy/distance.py', 'ABXpy/distances/metrics/utw.py', 'ABXpy/distances/example_distances.py'],
     [('empty sequences', 'ABXpy/distance.py: default_distance, dtw_kl_distance, edit_distance'),
      ('coordinates', 'ABXpy/distances/metrics/utw.py: distance_coordinates')],
     ['returned distance'])

prop('C14', 'Buffered HDF5 writing and reading preserve the data and its order',
     'Whatever the sizes of the pieces written, of the amounts read and of the buffers, a table written piece by piece through the buffered writer has exactly the rows written, in order, and reading it back (entirely, from a sub range of rows, iterating or asking for given amounts) returns each row exactly once, in order, then signals the end. A dataset declared with a fixed size which received fewer rows is reported when the writer is closed, and an existing dataset is not overwritten unless asked for.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of write and read calls, buffer size, number of columns and item type',
     'There is no direct test; the pipeline tests never fill a buffer.',
     ['ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h52np.py'],
     [('write buffer', 'ABXpy/h5tools/np2h5.py: NP2H5buffer'), ('read buffer', 'ABXpy/h5tools/h52np.py: H52NPbuffer, H5dataset2NPbuffer')],
     ['rows returned', 'dataset content'])

prop('C15', 'External sorting yields a sorted permutation with aligned companions',
     'Sorting a stored, non empty table by its integer key column leaves in the file exactly the same rows in non decreasing order of key, and each companion table reordered by the same permutation, whatever the number of rows, the repetitions among the keys, and the memory allowed for the input and output buffers, as long as one row of each sorted chunk fits in it. Temporary files are removed, and a missing companion table or one of another length is refused.',
     ['inputs', 'configurations'],
     'every key sequence, number of companion tables, memory budget',
     'There is no test which checks a sort result; in the pipeline tests everything is sorted in one chunk.',
     ['ABXpy/h5tools/h5_handler.py'], [('chunk sort and merge', 'ABXpy/h5tools/h5_handler.py: sort')],
     ['content of the file after the sort'])

prop('C16', 'Samples without replacement are distinct, in range, complete, uniform',
     'For every outcome of the random generator, drawing n out of N gives n distinct indices between 0 and N-1, and drawing incrementally K out of N over any succession of chunks gives in total exactly K distinct indices, those of a chunk belonging to that chunk (relative to its start, or absolute on request). Every subset has the same probability when each random number is equally likely.',
     ['inputs', 'histories', 'configurations'],
     'every sizes n and N, chunking, and outcome of the random draws',
     'The tests draw a few random sizes and only count the indices.',
     ['ABXpy/sampling/sampler.py'],
     [('incremental sampling', 'ABXpy/sampling/sampler.py: IncrementalSampler, hypergeometric_sample'),
      ('selection and rejection', 'ABXpy/sampling/sampler.py: Knuth_sampling, rejection_sampling')],
     ['returned indices'])

prop('C17', 'Loading an item file keeps each item with its own labels and location',
     'Loading an item file gives one entry for each row, in the order of the file, with its own file, onset, offset and labels; the names of files are never read as numbers; the columns of auxiliary files (recursively) are joined on their key column, one with several rows for a label being refused. Rows with a missing label are removed together with their location and listed in a separate file, and the others are not affected. A file whose first columns are not the expected location columns or whose header markers are wrong is refused.',
     ['inputs', 'configurations'],
     'every item file: separators, blank lines, missing labels, auxiliary files and header',
     'The tests only load complete, regular item files.',
     ['ABXpy/database/database.py'], [('loading and joining', 'ABXpy/database/database.py: load, load_aux_dbs')],
     ['returned tables', 'file of removed rows'])

prop('C18', 'Pipeline steps never damage their inputs or earlier results',
     'In any sequence of task generation, distance computation, scoring and analysis, no step changes the content of the files it reads. Generating a task or scores into a file that already exists, or distances into a file that already has some, is refused and leaves that file as it was. An operation on the files that fails during a step is reported to the caller, and no temporary file is left behind, whether a step succeeds, is refused or fails. Repeating a step with the same inputs (and seed) on a new output gives the same content, whatever happened before.',
     ['histories', 'configurations', 'fault_sequences'],
     'every sequence of pipeline operations up to a bound, with existing, missing or incompatible files, and every failing file operation',
     'The tests run each step once, in order, on fresh files.',
     [T, D, 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/h5tools/h5_handler.py'],
     [('refusal to overwrite', T + ': generate_triplets; ABXpy/score.py: score; ' + D + ': create_distance_jobs'),
      ('temporary files', T + ': _generate_pairs; ABXpy/h5tools/h5_handler.py: H5TMP')],
     ['content of all the files after each operation'])

prop('C19', 'Verification accepts exactly the item files covered by the features',
     'Checking an item file against a features file succeeds if and only if the header of the item file is well formed (location columns first, attributes marked) and each of its items refers to a file present in the features file, whatever the separators; otherwise the check fails with an error naming the problem. Neither file is modified.',
     ['inputs'],
     'every item file and set of feature files',
     'There is no test of the verification.',
     ['ABXpy/verify.py'], [('check', 'ABXpy/verify.py: check')],
     ['exception or not'])

prop('C20', 'Converting features keeps every file, frame and time, whatever the batches',
     'Converting a list or a folder of feature files to a single features file yields, for each of them, under its name without extension, exactly its frames and times, whatever the number of files compared to the size of the writing batches. Appending to an existing features file keeps what it contained.',
     ['inputs', 'configurations', 'histories'],
     'every number of files, batch size and succession of conversions',
     'There is no test of the conversion.',
     ['ABXpy/misc/any2h5features.py'], [('batches', 'ABXpy/misc/any2h5features.py: any_to_h5features')],
     ['content of the features file'])

prop('C21', 'Indexed, fused and raw columns are stored losslessly and compactly',
     'Columns written through the table writer are recovered exactly from the file: an indexed column through its index of levels, a group of fused columns by decomposing its single key, a raw column directly; this holds for values given as labels or as positions, written in any number of pieces. The integer type chosen to store values up to n is the smallest one that can represent n, and values too large for any type are refused.',
     ['inputs', 'configurations', 'histories'],
     'every set of columns, levels, fusions, succession of writes, and every n',
     'There is no test of fused or raw columns, nor of the choice of types.',
     ['ABXpy/h5tools/h5io.py', 'ABXpy/misc/type_fitting.py'],
     [('indexing and fusing', 'ABXpy/h5tools/h5io.py: write'), ('type choice', 'ABXpy/misc/type_fitting.py: fit_integer_type')],
     ['datasets of the file'])

prop('C22', 'The whole pipeline gives the ABX scores of the definition',
     'Running task, distances, scores and analysis on an item file and features gives, for each BY label and each combination of labels of A, B and X, the proportion of the triplets of the definition in which X is closer to A than to B (ties counting one half). The table is the same, up to the order of lines, when the rows of the item file are permuted, and for any number of processes.',
     ['inputs', 'configurations'],
     'every item table, features and number of processes',
     'The tests check one configuration end to end against a frozen file.',
     [T, D, 'ABXpy/score.py', 'ABXpy/analyze.py'],
     [('pipeline', T + ', ' + D + ', ABXpy/score.py, ABXpy/analyze.py')],
     ['result csv file'])

prop('C23', 'Command line tools do what the library does with the same options',
     'Each command (task, distance, score, analyze) produces, for the same inputs and options, a file with the same content as the corresponding library call, at the requested output or at the documented default; a requested output which already exists is replaced, one at the default place is refused. Options (on, across, by, filters, regressors, threshold, seed, distance, normalization, number of jobs, group) reach the computation unchanged. The distance command refuses to run the default distance without a normalization choice, the task command only prints the statistics of the task when asked to, the score and analyze commands stop when an input is missing, and in these cases no file is written or removed.',
     ['configurations', 'inputs'],
     'every combination of the options of each command, output present or not',
     'The tests call two commands with one set of options each.',
     [T, 'ABXpy/distance.py', 'ABXpy/score.py', 'ABXpy/analyze.py'],
     [('argument parsing', T + ': main; ABXpy/distance.py: main, run; ABXpy/score.py: main; ABXpy/analyze.py: main')],
     ['output files', 'exit status'])

prop('C24', 'What a task answers does not depend on what was asked before',
     'The statistics, the triplets, pairs and regressors that a Task object announces, prints or generates are those of a new object made with the same arguments, whatever the operations made before on it or on other Task objects: exact or approximate statistics, summarized or full printing, generations with or without threshold, refused or failed generations. The approximate statistics change the announced number of triplets only, never what is generated, and the arguments given to the object are not modified.',
     ['histories', 'inputs'],
     'every task and every sequence of operations on its object and on other ones',
     'Each test makes one object and calls one method once; what an operation leaves in the object only shows in the following ones.',
     [T, 'ABXpy/sideop/regressor_manager.py', 'ABXpy/sideop/filter_manager.py'],
     [('state kept by the object', T + ': Task, compute_statistics, generate_triplets, _generate_pairs, print_stats')],
     ['task.stats and task.by_stats', 'printed statistics', 'task files', 'warnings'])

prop('C25', 'Runs made at the same time do not disturb each other',
     'Steps (task generation, distances, scores, analysis, verification, conversion of features) run at the same time by different processes, sharing their input files, their folder and the folder of the temporary files but writing different outputs, all succeed and each gives the result it gives when it is alone, for every interleaving of their operations on files. No input is changed and no temporary file is left behind.',
     ['schedules', 'configurations'],
     'every pair (or more) of steps and every interleaving of their file operations',
     'The tests run one step at a time; a temporary file with a fixed name or an input opened for writing only shows under some interleavings.',
     [T, D, 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/h5tools/h5_handler.py', 'ABXpy/misc/any2h5features.py'],
     [('temporary files', T + ': _generate_pairs; ABXpy/h5tools/h5_handler.py: sort'), ('inputs opened for reading', D + ': run_distance_job; ABXpy/score.py: score; ABXpy/analyze.py: collapse')],
     ['outputs and inputs of the steps', 'errors', 'temporary files'])

prop('C26', 'The hierarchy of columns stays a tree under any sequence of edits',
     'Whatever the sequence of edits of the trees of misc.tinytree, which describe the columns of the item file and of its auxiliary files (addition of nodes or nested lists, removal, clearing, replacement, insertion above or below a node), each node is in the children of its parent only, once, in the documented position; an edit which is refused changes nothing. The traversals visit each node of the subtree once, in pre-order or post-order, also when nodes are removed meanwhile; the searches (findChild, findParent, findForwards, findBackwards, findAttr, attrsToRoot, treeProp), paths, depths, siblings, indexes and counts are those of the tree as it is now. Building from nested lists gives the tree that they describe.',
     ['histories', 'inputs'],
     'every sequence of edits of every forest, every query in each state, every nested list',
     'No test edits a tree; the guarantee is over sequences of edits, where a stale link only shows in a later query.',
     ['ABXpy/misc/tinytree.py', 'ABXpy/database/database.py'],
     [('links between parents and children', 'ABXpy/misc/tinytree.py: addChild, remove, replace, inject, reparent'), ('traversals', 'ABXpy/misc/tinytree.py: preOrder, postOrder, _find')],
     ['children and parent of all the nodes', 'results of the queries'])

prop('C27', 'Generated designs are complete and file comparisons see all differences',
     'The item files generated by misc.items for a base, a number of columns and of repeats have every combination of the labels of the columns exactly (repeats + 1) times, each row with a name of its own (and, for named items, a file of its own). The generated feature files have the asked number of files and dimensions, each with 1 to the asked maximum number of frames, distinct finite values and times from 0 to 1, and replace an existing file; with generate_db_and_feat they cover the items. csv_cmp is true exactly when the two tables have the same columns and the same rows, in any order; h5cmp is true exactly when the two HDF5 files have the same objects, values and attributes; cmp is true exactly when the two files have the same bytes, whatever was compared before.',
     ['inputs', 'configurations'],
     'every base, number of columns, repeats, files and frames, and every pair of tables, HDF5 files or other files',
     'The tests use these helpers to judge the rest: nothing judges them, and a comparison which is always true hides every regression.',
     ['ABXpy/misc/items.py'],
     [('designs', 'ABXpy/misc/items.py: generate_testitems, generate_named_testitems'), ('comparisons', 'ABXpy/misc/items.py: csv_cmp, h5cmp, cmp')],
     ['item and feature files', 'results of the comparisons'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
