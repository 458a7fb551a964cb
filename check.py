#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough].  Seed from VERIF_SEED."""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import driver  # noqa: E402
import checks  # noqa: E402

if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    o = a.parse_args()
    sys.exit(driver.main(o.id, o.tier if o.tier in ("quick", "thorough") else "quick", o.seed, checks.CHECKS[o.id]))
