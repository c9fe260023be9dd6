#!/usr/bin/env python3
"""Builds the extractor and the oracle once (the checks build them again where this build is not there)."""
import os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
for crate in ("vx", "oracle"):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, ".build", crate))
    subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(here, crate), env=env, check=True)
