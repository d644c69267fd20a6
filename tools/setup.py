#!/usr/bin/env python3
"""builds the extractor and the replay harness once (every check builds them again from the current tree)"""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import mirror  # noqa: E402

os.makedirs(f"{V}/build", exist_ok=True)
e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="")
subprocess.run(["cargo", "build", "--offline", "-q"], cwd=f"{V}/extract", env=dict(e, CARGO_TARGET_DIR=f"{V}/build/xtarget"), check=True)
mirror.mirror("/repo", f"{V}/build/crate", None)
subprocess.run(["cargo", "build", "--offline", "-q", "--features", "hooks"], cwd=f"{V}/harness",
               env=dict(e, CARGO_TARGET_DIR=f"{V}/build/target", RUSTFLAGS="--cfg bugi_verif"), check=True)
