#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from check import AREA  # noqa: E402

TECH = 'TLA+ specification model-checked with TLC; recorded calls of the real library validated against it (trace validation)'
OPS = ('TLC checks exhaustively on a small machine word that the policies as specified (Policy.tla) refine exact '
       'rational arithmetic; every recorded call of the compiled library (enumerated small operands, random and edge '
       'operands of all sizes, 6 representations, 13 policies, 3 operand forms) is judged by the same specification. '
       'That refinement is also proved for all integers (proofs/Proofs.tla, TLAPS; thorough tier of C01, C02, C04, C05). '
       'Trusted: g++, TLC, the BigInteger override of Num.tla. The library is sampled, not proved, beyond the enumerated operands.')
TAIL = (' Trusted: g++, TLC, the BigInteger override of Num.tla. The library is sampled, not proved, beyond what is enumerated.')
NOTE = {
    'ops': OPS,
    'form': 'TLC checks exhaustively on a small word that the specified forms, queries, roundings, redenomination, powers and conversions (Form.tla) have the properties; recorded calls with enumerated small, edge, near-tie and random operands of 6 representations and 13 policies are judged by the same operators. The laws of the forms and roundings are also proved for all integers (TLAPS; thorough tier of C07, C08).' + TAIL,
    'machine': 'Machine.tla is a machine of fraction registers next to one of exact rationals; TLC checks the refinement exhaustively on a small word, and generates programs (simulation) that the executor runs step by step on the library, every register after every step being validated against the machine.' + TAIL,
    'mix': 'Calls over pairs of representations, policies, conversions and compound assignments (aliased too) are judged against the same operators over the common representation, with the modular conversion specified exactly; model-checked on small words.' + TAIL,
    'threads': 'Threads.tla gives calls as several steps that interleave; TLC checks every interleaving of two and three threads for designs without and with shared state, and tells those that have the property from those that do not. Programs generated from Machine.tla run alone and next to each other on the library, under a race detector and under many drawn schedules that switch at basic blocks; each step of each thread is validated against the outcome alone. Trusted: g++, TLC, ThreadSanitizer. Schedules of the library are sampled; a race detected is one of any schedule with the same synchronisation.',
    'mixed': 'Mixed.tla specifies construction, normal form and sums step by step; model-checked exhaustively on a small word; recorded construction, sums, conversions over pairs of representations are judged by value and form.' + TAIL,
    'hash': 'Hash equality on equal pairs (in every form, policy and for mixed numbers) and container histories judged against an abstract set keyed by value (Container.tla), model-checked on small constants.' + TAIL,
    'text': 'Stream.tla (a character-level machine of output and extraction) and Literal.tla (the floating-literal grammar as an automaton, with exact values) are model-checked and produce walks; recorded streams and parses of generated and mutated text are judged by them.' + TAIL,
    'literals': 'Denominator.tla and Literal.tla give the meaning of literal expressions; a generated program spells them, evaluated both by the compiler and at run time, and each is judged.' + TAIL,
    'limits': 'Limits.tla gives the extremes and traits, TLC proves exhaustively on all words up to a bound that they are attained and that nothing lies beyond; every published limit and trait of the library is judged, and recorded comparisons of fractions with the limits.' + TAIL,
    'chrono': 'Chrono.tla gives durations as exact rationals of seconds; model-checked on small words; recorded conversions, sums, comparisons over pairs of periods, time points and a manual clock are judged.' + TAIL,
    'combine': 'Combine.tla states which combinations of policies and representations are accepted and which policy is default under which macro; all pairs are asked of the compiler (concepts; one translation unit per selection macro) and each answer is judged.' + TAIL,
    'const': 'The executors of the other areas are evaluated by the compiler on generated rows (tables of constants) and again by the program; the specification decides which calls lie within the contract, where the call must be a constant expression with identical outcome.' + TAIL,
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in AREA:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}',
                           thorough_cmd=f'python3 check.py {i} --tier thorough',
                           technique=TECH, level='model_checking',
                           level_note=NOTE[AREA[i]]))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='IEME_VERIF', enable='no hooks are needed: the checks use the public headers as they are',
                    source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
