#!/usr/bin/env python3
"""Mirrors /repo/runtime/kreivo/src into .build/mirror/kreivo with symbolic links, one per file, except the
files present in kani/shadow/kreivo-runtime/overlay, which take the place of the repository's."""
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO") or os.path.join(os.path.dirname(ROOT), "repo")

def mirror():
    src = os.path.join(REPO, "runtime/kreivo/src")
    over = os.path.join(ROOT, "kani/shadow/kreivo-runtime/overlay")
    dst = os.path.join(ROOT, ".build/mirror/kreivo")
    want = {}
    for base in (src, over):
        for d, _, fs in os.walk(base):
            rel = os.path.relpath(d, base)
            if base == src and (rel == "tests" or rel.startswith("tests/") or rel.startswith("weights/xcm")):
                continue
            for f in fs:
                want[os.path.normpath(os.path.join(rel, f))] = os.path.join(d, f)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, dst) not in want:
                os.unlink(p)
    for rel, target in want.items():
        p = os.path.join(dst, rel)
        if os.path.islink(p) and os.readlink(p) == target:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.lexists(p):
            os.unlink(p)
        os.symlink(target, p)

if __name__ == "__main__":
    mirror()
