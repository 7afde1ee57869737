"""Writes /verif/MANIFEST.json for the checks which exist"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
ENUM = ('bounded exhaustive enumeration of inputs and configurations, run on '
        'the real code and compared with an explicit reference model')
TECH = {
    'C03': 'bounded exhaustive enumeration of triplet sets and buffer sizes '
           'on the real code, compared with a set model',
    'C06': 'enumeration of tables, thresholds, seeds and prior generator '
           'states on the real code, compared with a group model',
    'C08': 'stateless model checking of the real code: all interleavings of '
           'lock and file operations up to a preemption bound under a '
           'controlled scheduler, with enumeration of single faults',
    'C11': 'exhaustive enumeration of cost matrices, the compiled extension '
           'compared with explicit enumeration of all the alignments',
    'C14': 'exhaustive exploration of write/read operation sequences up to '
           'a depth and of buffer sizes, on the real code, against a list '
           'model',
    'C15': 'exhaustive enumeration of key sequences and memory budgets on '
           'the real code, against a sorted permutation model',
    'C16': 'exhaustive exploration of the outcomes of the random generator '
           '(scripted generator, depth first) and of all the chunkings on '
           'the real code',
    'C18': 'explicit state exploration of all the sequences of pipeline '
           'operations: all the reachable states of a file state model, all '
           'their transitions and histories replayed on the real code, and '
           'enumeration of every single failing file operation',
    'C22': 'bounded exhaustive enumeration of feature assignments, row '
           'permutations and designs through the real pipeline, compared '
           'with a direct evaluation of the definition',
    'C23': 'exhaustive enumeration of the command line configurations, the '
           'real commands compared with the library calls of the model',
    'C20': 'exhaustive enumeration of conversions (numbers of files, '
           'batches, successions) on the real code, against a dictionary '
           'model',
    'C24': 'explicit state model of a task object: all the sequences of '
           'operations up to a depth executed on the real object, compared '
           'with the shortest history of the same state',
    'C25': 'stateless model checking of the real code: all the '
           'interleavings of the file operations of several processes up to '
           'a preemption bound under a controlled scheduler',
    'C26': 'explicit state exploration of all the forests reachable by '
           'edits of the real trees, all the edits and queries in each of '
           'them compared with a model',
    'C27': 'exhaustive enumeration of designs, outcomes of the random draws '
           'and pairs of files, on the real code',
    'C21': 'exhaustive exploration of write sequences and column '
           'organizations on the real code, against a table model',
}
NOTE = ('Holds for everything within the bounds reported in the evidence '
        'file, by exhaustive execution of the real code of the working tree; '
        'the reference models (lib/, checks/) are trusted, as are numpy, '
        'pandas, h5py, pytables and the Python interpreter.')
EXTRA = {
    'C08': ' multiprocessing is replaced by stand-ins whose lock and pool '
           'semantics are those of the documentation; processes which die '
           'without an exception are out of scope.',
    'C11': ' The Cython extension is compiled again from the working tree.',
    'C16': ' Uniformity is decided on the tree of scripted draws, assuming '
           'an ideal generator.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(
        VERIF, 'properties.jsonl'))]
    checks, rest = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(VERIF, 'checks', i.lower() + '.py')):
            cmd = '/opt/venv/bin/python check.py %s --tier ' % i
            checks.append({
                'property': i, 'quick_cmd': cmd + 'quick',
                'thorough_cmd': cmd + 'thorough',
                'technique': TECH.get(i, ENUM),
                'level': 'model_checking',
                'level_note': NOTE + EXTRA.get(i, '')})
        else:
            rest.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas, h5py, '
                      'tables, Cython"',
         'checks': checks, 'not_applicable': rest}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), len(rest))


main()
