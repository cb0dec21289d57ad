#!/usr/bin/env python3
"""Writes universe.h: the file names the detector knows, and the names whose languages one parser file handles (run once; committed)."""
import os, re, glob
S = "/repo/src"
def rows(f):
    on = False
    for l in open(os.path.join(S, "hash", f)):
        if l.startswith("%%"): on = not on; continue
        if on and "," in l: yield [x.strip() for x in l.split(",")]
lang = dict(re.findall(r'#define (LANG_\w+) "([^"]*)"', open(S + "/languages.h").read()))
parser = {r[0]: r[1] for r in rows("parsers.gperf")}
home = {}
for f in glob.glob(S + "/parsers/*.rl"):
    for fn in re.findall(r"^void (parse_\w+)\(", open(f).read(), re.M): home[fn] = os.path.basename(f)[:-3]
exts, names, fam, langs = [], [], {}, {}
for r in rows("extensions.gperf"):
    exts.append("f." + r[0] if r[0] != "" else "")
    m = re.match(r"LANG_\w+", r[1])
    if m:
        l = lang.get(m.group(0)); h = home.get(parser.get(l, ""), None)
        if h: fam.setdefault(h, []).append("f." + r[0])
for r in rows("filenames.gperf"): names.append(r[0])
for l, fn in parser.items():
    if fn in home: langs.setdefault(home[fn], []).append(l)
q = lambda v: ", ".join('"%s"' % x for x in v)
out = "// universe.h: written by mkuniverse.py\n"
out += "static const std::vector<str> UNI_NAMES = {%s};\n" % q(sorted(exts) + names)
F = sorted(k for k in fam if len(set(fam[k])) > 1 or len(langs.get(k, [])) > 1)
out += "struct Family { std::vector<str> names, langs; };\nstatic const std::vector<Family> UNI_FAMILIES = {\n" + "".join("  {{%s}, {%s}}, // %s\n" % (q(fam[k]), q(langs.get(k, [])), k) for k in F) + "};\n"
out += "static const std::vector<str> UNI_LANGS = {%s};\n" % q(sorted(parser))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "universe.h"), "w").write(out)
