#!/usr/bin/env python3
"""Packs the input files of the repository's own tests into corpus.pack (run once; the pack is committed)."""
import os, sys
out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.pack"), "wb")
n = 0
seen = set()
for d in ("src_dir", "detect_files", "src_licenses", "gestalt_files"):
    for root, dirs, files in os.walk(os.path.join("/repo/test", d)):
        dirs.sort()
        for f in sorted(files):
            b = open(os.path.join(root, f), "rb").read()
            if len(b) > 24000 or (f, b) in seen or any(ord(c) <= 32 for c in f):
                continue
            seen.add((f, b)); n += 1
            out.write(("%s %d\n" % (f, len(b))).encode() + b + b"\n")
print(n)
