#!/usr/bin/env python3
"""Warm the two build caches (Kani and native). A check rebuilds whatever is missing or changed."""
import os, subprocess
R = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(R, "harness")
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg doodle_verif")
subprocess.run(["cargo", "build", "--quiet", "--bins"], cwd=H, env=dict(env, CARGO_TARGET_DIR=R + "/target/native"))
subprocess.run(["cargo", "kani", "--lib", "-Z", "unstable-options", "-Z", "stubbing", "--only-codegen"], cwd=H,
               env=dict(env, CARGO_TARGET_DIR=R + "/target/kani"), stdout=subprocess.DEVNULL)
