#!/usr/bin/env python3
"""replay.py <replay.json> : run the case of a replay file against the current tree."""
import json, os, shutil, sys, tempfile
import check
from props import PROPS

info = json.load(open(sys.argv[1]))
scratch = tempfile.mkdtemp(prefix="verif-replay-")
try:
    cfg = PROPS[info["property"]]
    exe = check.build(deterministic=cfg.get("deterministic", False))
    if cfg.get("cli"):
        os.environ["VERIF_CLI"] = check.build(cli=True)
    if cfg.get("needs_std"):
        shutil.copy2(check.build(), os.path.join(scratch, "vharness-std"))
    os.environ["VERIF_SCRATCH"] = scratch
    d = os.path.join(scratch, "dict")
    open(d, "w").write(info.get("dict", ""))
    rc, out = check.one(exe, info["property"], info["mode"], bytes.fromhex(info["hex"]), scratch, d)
    print(out if rc in (0, 1) else check.signame(rc) if rc is not None else "timed out")
    sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
