#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props

def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    o = a.parse_args()
    tier = "thorough" if o.tier == "thorough" else "quick"
    p = props.PROPS[o.prop]
    sys.exit(vlib.main(o.prop, tier, o.seed, p["fn"], p.get("level", "model_checking"), p.get("assumptions", ())))

main()
