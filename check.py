#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from verif import Check, CheckError, Unbuildable  # noqa: E402

AREA = {'C01': 'ops', 'C02': 'ops', 'C03': 'ops', 'C04': 'ops', 'C05': 'ops',
        'C06': 'ops',
        'C07': 'form', 'C08': 'form', 'C09': 'form', 'C10': 'form', 'C11': 'form',
        'C13': 'hash', 'C15': 'form', 'C16': 'form', 'C25': 'machine', 'C19': 'mix', 'C20': 'mix', 'C12': 'mixed', 'C14': 'text', 'C17': 'text',
        'C18': 'literals', 'C22': 'limits', 'C23': 'chrono', 'C21': 'combine', 'C24': 'const',
        'C26': 'threads'}

# Properties whose design-level part is also proved (proofs/Proofs.tla)
PROVED = {'C01', 'C02', 'C04', 'C05', 'C07', 'C08'}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(prop, tier)
    try:
        try:
            if c.thorough or prop == 'C01':
                c.arithmetic()
            if c.thorough and prop in PROVED:
                c.proofs()
            importlib.import_module('checks.' + AREA[prop]).run(c)
        except Unbuildable:
            pass
        return c.finish()
    except CheckError as e:
        print(f'ERROR: the check of {prop} could not be carried out: {e}')
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == '__main__':
    sys.exit(main())
