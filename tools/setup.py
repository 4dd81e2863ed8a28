#!/usr/bin/env python3
"""Checks that the toolchain and the vendored crates are there; the checks build what they need themselves."""
import os, subprocess, sys
MC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc")
r = subprocess.run(["cargo", "metadata", "--offline", "--locked", "--format-version", "1", "--manifest-path", os.path.join(MC, "Cargo.toml")],
                   env=dict(os.environ, CARGO_NET_OFFLINE="true"), stdout=subprocess.DEVNULL)
sys.exit(r.returncode)
