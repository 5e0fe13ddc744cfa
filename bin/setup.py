#!/usr/bin/env python3
"""Builds the probe and the tool and generates the corpora of the quick checks."""
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import probe  # noqa: E402
import props  # noqa: E402

start = time.time()
probe.build()
probe.build(cli=True)
for s in props.quick_corpora(int(os.environ.get("VERIF_SEED", "1") or 1)):
    print(f"{s['model']}: {s['states']} states, {s['cases']} cases, {s['tlc_s']} s")
print(f"ready after {time.time() - start:.0f} s")
