#!/usr/bin/env python3
"""run.py Cxx [quick|thorough]: run one property's static check against /repo's current source"""
import importlib
import os
import sys
import traceback

os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from checks import common  # noqa: E402
from checks.registry import CHECKS  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, fn = CHECKS[pid]
    c = common.Ctx(pid, tier, seed)
    try:
        getattr(importlib.import_module('checks.' + mod), fn)(c)
    except common.Missing as e:
        c.unres('lookup', 'source', str(e))
    except common.Broken as e:
        print('%s: analysis broken: %s' % (pid, e))
        return 2
    except Exception:   # an internal failure is no verdict: neither pass nor violation
        traceback.print_exc()
        print('%s: analysis broken: internal failure' % pid)
        return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
