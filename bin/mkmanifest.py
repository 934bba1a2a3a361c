#!/usr/bin/env python3
"""Writes MANIFEST.json and the 'fixed' part of known_findings.json."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import CFG, LEVEL, VERIF, REPO
TECH = {
    'P01': 'property-based testing: generated svm texts against the structure they were rendered from',
    'P02': 'property-based testing: generated csv texts against the structure they were rendered from',
    'P03': 'property-based testing: write/read round trips of generated examples and index lists',
    'P04': 'structure-aware fuzzing and exhaustive truncation of data files under sanitizers, prefix oracle',
    'P05': 'property-based testing of iterator histories on OS and generated deterministic schedules, concatenation model',
    'P06': 'generated deterministic schedules and abandonment points of the loader threads, termination oracle',
    'P07': 'stateful model-based testing of the queues on generated deterministic schedules, history model',
    'P08': 'property-based testing of the data tools against list operations on the examples',
    'P09': 'property-based testing of the data analysis against independently computed statistics',
    'P10': 'stateful model-based testing: lock-step comparison with a double-precision reference learner',
    'P11': 'stateful model-based testing: lock-step comparison with a double-precision reference learner',
    'P12': 'stateful model-based testing: comparison with an eager (non-lazy) reference learner',
    'P13': 'stateful model-based testing: budget and best-B invariants plus reference learner',
    'P14': 'property-based testing of losses and gradients against their closed forms',
    'P15': 'property-based testing: save/load round trips at generated points of training histories',
    'P16': 'structure-aware fuzzing and exhaustive truncation of model files under sanitizers',
    'P17': 'property-based testing of prediction/testing histories against the decision rule in double precision',
    'P18': 'metamorphic testing: one generated example stream delivered in many ways',
    'P19': 'stateful testing of generated setting sequences against a table of legal values',
    'P20': 'property-based testing of preprocessing against its definition',
    'P21': 'stateful model-based testing of heap operation sequences against the sorted array',
    'P22': 'property-based testing of vector/matrix/sparse expressions against element loops',
    'P23': 'differential testing of the command line programs against the library',
    'P24': 'metamorphic and reference-model testing of training options',
    'P25': 'stateful differential testing of the Python module against the C interface under AddressSanitizer',
    'P26': 'stateful model-based testing of the Python scripts with a recording stand-in for the module',
    'P27': 'stateful testing: generated histories with injected failures, repeated; allocation, descriptor and thread counts as invariant',
}
NOTE = ('Generated-input search against an explicit oracle on the real code compiled from /repo; '
        'no alarm means no counterexample among the cases counted in the evidence file. ')
EXTRA = {
    'P04': 'Truncation points of generated files are enumerated exhaustively per file. ',
    'P16': 'Truncation points of generated model files are enumerated exhaustively per file. ',
    'P05': 'Part of the cases run on a deterministic scheduler that interposes pthread primitives; interleavings inside unsynchronised code are not explored there. ',
    'P06': 'Deterministic scheduler interposing pthread primitives; preemption only at synchronisation calls. ',
    'P07': 'Deterministic scheduler interposing pthread primitives; preemption only at synchronisation calls. ',
    'P25': 'The module is compiled by Cython for Python 3 with Python 2 string rules; CSR matrices come from a stand-in for scipy.sparse. ',
    'P26': 'The Python 2 scripts run under Python 3 through a source translation (harness/py2run.py), with a stand-in for pysol. ',
}
FIX = {  # subject of a fix commit -> property
    'parse numbers without': 'P01', 'svm writer printed': 'P03', 'decode run length': 'P03',
    'report a binary record': 'P04', 'bound memory and validate': 'P04', 'reject labels, indices': 'P04',
    'lines with NUL bytes': 'P04', 'forced list dequeue': 'P07', 'destroying a data iterator': 'P06',
    'sol_split_data crashed': 'P08', 'analysis of data without': 'P09', 'uniform hinge loss': 'P14',
    'uniform logistic loss': 'P14', 'initialising a heap': 'P21',
    'cw and eccw: keep counting': 'P19', 'report training progress at': 'P18',
    'PA turned the bias': 'P10', 'normalising an all-zero': 'P20', 'ada-rda learners did not': 'P11',
    'rda-l1 scored': 'P12', 'sop ignored': 'P11', 'eccw compared': 'P11', 'eccw shrank': 'P11',
    'stg truncated only': 'P12', 'lazy L1 learners truncated': 'P12', 'finishing a loaded lazy': 'P12',
    'fofs selected features': 'P13', 'changing the budget': 'P13', 'features dropped by a smaller': 'P13',
    'a model saved right after': 'P15', 'saved models lost weight': 'P15', 'an active smoothness below': 'P15',
    'the sparsity threshold of L1': 'P15', 'fofs without a budget': 'P15', 'stg shrank weights again': 'P12',
    'loaded stg and fobos-l1': 'P15', 'loading a model file without': 'P16', 'damaged model settings': 'P16',
    'loading ignored settings': 'P16', 'model files cut within': 'P16', 'a damaged dimension or class': 'P16',
    'an empty or invalid list of pre-selected': 'P20', 'cw and eccw turned weights': 'P17',
    'fobos-l1 and ada-fobos-l1 shrank weights twice': 'P24',
    'a refused loss left the model': 'P19', 'refused parameter values were stored': 'P19',
    'feature-selecting learners accepted a negative': 'P19', 'a parameter value out of the range': 'P19',
    'element access of constant matrices': 'P22', 'constructing a vector or matrix from an expression': 'P22',
    'lsol_c printed error rates': 'P23', 'lsol_c reported success': 'P23', 'lsol_c crashed on --filter': 'P23', 'sol_train aborted on': 'P23',
    'sol_train reported success': 'P23', 'saving a model reported success': 'P23',
    'pysol kept': 'P25', 'pysol called': 'P25', 'pysol misread': 'P25', 'pysol reported': 'P25', 'pysol leaked': 'P25', 'pysol crashed': 'P25',
    'DataSet.': 'P26', 'the second cross validation': 'P26', 'cross validation waited': 'P26', 'the training script ignored': 'P26',
    'the data tools reported success': 'P08', 'damaged input was cut off': 'P08', 'data tools leaked': 'P27', 'messages were mixed': 'P08', 'converting the standard input': 'P08', 'splitting lost examples': 'P08', 'newly created examples': 'P03',
    'sorting a long line': 'P01', 'NumpyReader read': 'P18', 'a batch size or number': 'P05', 'training silently did nothing': 'P19', 'multi-class training wrote': 'P20',
}
def src(n):
    return [n + e for e in ('.cc', '.py') if os.path.exists(os.path.join(VERIF, 'harness', n + e))]
def main():
    have = [p for p in CFG if all(src(n) for n, _ in CFG[p]['h'])]
    m = {'version': 1, 'setup_cmd': 'python3 bin/check.py setup',
         'checks': [{'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p,
                     'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                     'technique': TECH[p], 'level': LEVEL.get(p, 'exploration'),
                     'level_note': NOTE + EXTRA.get(p, '') + 'Trusts the oracle in harness/%s and the compiler.' % src(CFG[p]['h'][0][0])[0]}
                    for p in have],
         'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in CFG if p not in have],
         'notes': 'No hooks: the checks build /repo unmodified. Replay a failure with: python3 bin/check.py replay <file>.'}
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    kf = os.path.join(VERIF, 'known_findings.json')
    old = json.load(open(kf))['findings'] if os.path.exists(kf) else []
    out = [x for x in old if x['status'] == 'known']
    log = subprocess.run(['git', '-C', REPO, 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '): continue
        pid = [v for k, v in FIX.items() if s[5:].startswith(k)]
        if not pid: print('no property for', line); continue
        out.append({'property': pid[0], 'status': 'fixed', 'commit': h,
                    'what': 'fixed: property=%s %s %s' % (pid[0], h, s[5:])})
    json.dump({'findings': out}, open(kf, 'w'), indent=1)
    print(len(have), 'claimed', len(out), 'findings')
main()
