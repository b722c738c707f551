#!/usr/bin/env python3
"""Writes DESIGN.md: the text of DESIGN.head.md, then one section per property (oracle below, bounds from the harness headers), then the lists of fixes and planted bugs."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin'); import check
O = {
'C01': "Asserts acceptance <=> sizes equal and lower < upper everywhere, membership <=> lower <= x <= upper, points drawn (arbitrary generator output) inside. Oracle: the inequalities, bit-precise.",
'C02': "Runs the candidate search on an arbitrary surrogate (its predictions are fresh solver variables) and asserts that every proposed and perturbed design lies in the box and the trust region in the box. Oracle: the box of the harness. Tests see one random path.",
'C03': "Oracle: nearest value among lower + k*dx computed by the harness; ties may go either way.",
'C04': "Builds histories of arbitrary values, asks for the global optimum and compares with the arg-min over feasible (else all) rows; the XML is parsed back.",
'C05': "Row and file images of the history before and after every append, compared entry by entry; header titles against names.",
'C06': "Oracle: strict inequality per constraint, bit-precise including NaN and infinities.",
'C07': "Oracle: max(0, best feasible at start - value) for feasible designs, token amount for the first feasible one; sequences carry the state.",
'C08': "erf is a symbolic monotone odd function; asserts range, monotonicity, limit, complement and that the penalty multiplies exactly one factor per constraint of the declared direction.",
'C09': "Oracle: the formula over the same symbolic Phi and phi; monotonicity by an added lemma (z Phi + phi increasing).",
'C10': "Objective values are fresh solver variables per evaluated individual, draws are solver variables; asserts bounds of every evaluated gene vector and that the result is the minimum with its own genes.",
'C11': "Sequences of population operations against a list kept by the harness; fitness and probabilities against their stated ranges; restart files read back.",
'C12': "Entry-by-entry reference of every operation on tagged arbitrary doubles; engine checks every memory access for being inside a live object.",
'C13': "As C12 for vectors; arithmetic in exact reals.",
'C14': "Multiplies back: A x = b, L L^T = A, P L U = A, A A^-1 = I, determinants against the expansion formula; failure <=> minor <= 0 / det = 0. 3x3 in the thorough tier.",
'C15': "Oracle: the affine map and the chain rule factors, on every container (training, validation, test, gradients, directions).",
'C16': "Kernel by its formula over symbolic exp/pow; symmetry, diagonal, range, monotone decrease, derivative by the product rule.",
'C17': "Oracle: an independent solve (Cramer / elimination in the harness) of the Kriging equations for concrete geometry and symbolic outputs.",
'C18': "Training file and in-memory data before/after against the list kept by the harness.",
'C19': "Write then read back symbolically; printed digits of a symbolic number are a token whose value is within the rounding of the requested precision.",
'C20': "A reference scanner in the harness (20 lines) over texts of symbolic characters.",
'C21': "Configuration text assembled from choices and symbolic numbers; the Optimizer built by the driver is compared field by field.",
'C22': "Reference reading of the expression by the harness; texts of symbolic characters from the relevant alphabet.",
'C23': "The external program is a handler of the harness with symbolic behaviour (exit code, output); asserts exception and untouched history/data, or the exact value.",
'C24': "Counts callback calls, compares history rows with the log of evaluations.",
'C25': "Every subset / order / value of settings within bounds; oracle: the documented requirement list; accepted settings must reach the first evaluation.",
'C26': "Files after the design of experiments against the log of callback calls; strata by counting.",
'C27': "Definitions of the order statistics, bit-precise (statistics in exact reals).",
'C28': "Samples carry tags; multiset of tags over training and validation sets; columns against the file.",
'C29': "Normal equations with the harness's own sums; errors and result rows likewise.",
'C30': "Reference state machine of the trust region and counters run next to the real loop.",
'C31': "Every interleaving (see threads below) of the parallel loops; winner against all starts; every access to shared memory is checked for a common lock. Training is compared with one-thread trainings on the same draws.",
'C33': "Rows compared entry by entry with the fields of the design, bit-precise.",
'C34': "Saved, loaded and restarted models compared with each other for symbolic hyperparameters or outputs.",
'C36': "The training calls of the real loop are recorded by notes (with the number of samples known) and compared with the documented schedule.",
'C35': "The result file against an independently set up model of the same kind (whose predictions C17 and C29 decide).",
}
out = [open(V + '/DESIGN.head.md').read().rstrip(), '', '## Properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; hs = check.parse_harnesses(i)
    out += ['### %s %s' % (i, p['title']), '']
    if not hs: out += ['Not applicable: a limit statement about unbounded stochastic runs; no bounded symbolic execution decides it and the code names no rate to assert.', '']; continue
    out += [O.get(i, ''), '']
    for h in hs: out.append('- `%s` (%s, limit %s s%s): %s' % (h['entry'], 'bit-precise' if h['mode'] == 'fp' else 'exact reals', h.get('time', '?'), '' if h.get('tier', 'both') == 'both' else ', ' + h['tier'], h['bounds']))
    out.append('')
k = json.load(open(V + '/known-findings.json'))
out += ['## Genuine defects found', '', 'All were repaired by "fix:" commits in /repo (the list is `known-findings.json`); no finding is left open.' if not k['findings'] else '', '']
out += ['- ' + x for x in k['fixed']] + [''] + ['- open: %s %s' % (f['property'], f['what']) for f in k['findings']]
out += ['## Planted bugs', '', 'Each check below exits 1 with its VIOLATION line on the change in `seeded/<id>` (tested with the change applied).', '', '| change | property | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
