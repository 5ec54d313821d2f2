#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--part NAME]"""
import argparse
import importlib
import multiprocessing.connection  # noqa: F401
import os
import sys
import traceback

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--part')
    args = ap.parse_args()
    from vlib import harness
    try:
        harness.setup_process()
        module = importlib.import_module(f'checks.{args.property}')
        if args.replay:
            return harness.replay(args.property, module, args.replay)
        return harness.run_property(
            args.property, module, args.tier, args.part)
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={args.property}: the check could not run')
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
