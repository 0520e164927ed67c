#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

NOTE = ('Seeded search over simulated histories, not exhaustive: it shows the property on the histories executed. ')
FRESH = ('The oracle is the code under test itself, executed alone in a fresh process (differential), so a defect that '
         'shows equally in isolation is not seen. ')
C = {
    'C01': FRESH + 'Numerical comparison to rounding; where an eigensolver is free to choose (degenerate modes, phases) what is '
           'independent of the choice is compared.',
    'C02': FRESH + 'Faults surface at lines of legume that make calls and at calls that leave legume; not inside C code.',
    'C03': FRESH + 'Real threads, one running at a time, switched at source lines of legume: data races inside C '
           'extensions and free-threaded interpreters are outside.',
    'C04': FRESH + 'Workers are forks of one pristine process.',
    'C05': 'The oracle is the run that computes all losses at once, in a fresh process.',
    'C06': FRESH + 'The reference runs with the numpy backend.',
    'C07': FRESH + 'Only clock readings through the time module are simulated.',
    'C08': FRESH + 'Console failures are injected at sys.stdout of the process (write, flush, closed, encoding).',
    'C09': 'The oracle is an independent implementation of the documented Adam iteration.',
    'C10': 'Invariants over recorded evaluations, callbacks and arguments; SciPy itself is trusted to respect bounds.',
    'C11': 'The oracle is a direct call of SciPy by an independent driver; SciPy is trusted.',
    'C12': 'The oracle is an independent model of layers, shapes and permittivities.',
    'C13': 'The oracle is an independent GDSII reader and an independent description of the crystal; gdspy and '
           'scikit-image are trusted for polygons and contours. Storage is simulated below Python file objects.',
    'C14': FRESH + 'Iterative solvers are compared within their accuracy.',
    'C15': 'Deep comparison of every argument before and after each operation.',
    'C16': FRESH + 'The reference builds the same structure in canonical order.',
    'C17': FRESH + 'Complete state of all objects compared before and after every query.',
    'C18': FRESH + 'Gradients with the iterative solver are compared to 1e-3 only (its adjoint solve is inexact).',
    'C19': 'Deep comparison of every result handed out, at the end of the history.',
    'C20': FRESH + 'Checkpoints are pickles; the process goes on in a fork that holds nothing but the checkpoints.',
    'C21': 'Growth is judged from repetition to repetition after a warm-up; a leak of less than the noise per repetition is not seen.',
    'C22': 'A fixed list of process-wide settings is compared after every operation.',
    'C23': FRESH + 'The reference runs in an ordinary process under default settings. Memory layouts are varied by filling '
           'the allocators at random.',
    'C24': 'Data held by the artists of the figures are compared, not pixels; matplotlib is trusted to draw them.',
    'C25': FRESH + 'A package is missing when its import raises ModuleNotFoundError.',
}
PURE = ('a pure function of its input: no schedule, clock, I/O, randomness or fault is involved, so simulation would only be '
        'input generation under another name; ')
N = {
    'N01': PURE + 'needs a numerical reference solution of Maxwell equations.',
    'N02': PURE + 'a numerical analysis question (finite differences), decided by property-based testing.',
    'N03': PURE + 'a symmetry theorem about one run of each kind.',
    'N04': PURE + 'a metamorphic relation of single runs.',
    'N05': PURE + 'an integral identity of shape formulas.',
    'N06': PURE + 'a relation between outputs of one run.',
    'N07': PURE + 'a root-counting question about the slab solver.',
    'N08': PURE + 'a relation between outputs of one run.',
    'N09': PURE + 'a limit and a bound on outputs of one run.',
    'N10': PURE + 'needs a reference band structure.',
}
m = dict(version=1, setup_cmd='./check setup',
         checks=[dict(property=k, quick_cmd=f'./check {k} quick', thorough_cmd=f'./check {k} thorough',
                      evidence_file=f'evidence/{k}.json',
                      technique='deterministic simulation with fault injection', level='exploration',
                      level_note=NOTE + v) for k, v in C.items()],
         not_applicable=[dict(property=k, reason=v) for k, v in N.items()],
         notes='No hooks in /repo: Python seams (clock, console, random state, files, thread switches, exceptions at source '
               'lines) are installed from outside. Replay: ./check replay FILE. Self-test: ./check determinism N ID...')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
