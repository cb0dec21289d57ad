#!/usr/bin/env python3
"""rubysim.py: seeded simulation of the Ruby binding (C15: collector schedules) and of platform detection (C16: visiting
orders and histories).

  rubysim.py run --rsut DIR --prop ID --base N --secs S --workers W --out STATS --replays DIR
  rubysim.py seed ID N [--plan]      evaluate one seed
  rubysim.py replay FILE             evaluate a replay file (exit 1: the violation is there again)
  rubysim.py digest ID BASE N W      digest over N seeds with W workers (determinism)
  rubysim.py build OUTROOT

Every seed is evaluated by a Ruby interpreter of its own (rexec.rb), without address randomisation, in a scratch tree."""
import base64, ctypes, hashlib, json, os, random, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERSION = 1
libc = ctypes.CDLL(None)

def build(root):
    p = subprocess.run(["bash", os.path.join(HERE, "build_rsut.sh"), root], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: sys.stderr.write(p.stderr[-3000:]); return None
    return p.stdout.strip().splitlines()[-1]

def command(here, root, prop, base, secs, workers, stats, replays):
    d = build(root)
    if not d: return None
    return [sys.executable, os.path.join(HERE, "rubysim.py"), "run", "--rsut", d, "--prop", prop, "--base", str(base), "--secs", str(secs),
            "--workers", str(workers), "--out", stats, "--replays", replays]

# ---------------------------------------------------------------- inputs
def corpus():
    b = open(os.path.join(HERE, "corpus.pack"), "rb").read(); out = []; i = 0
    while i < len(b):
        j = b.index(b"\n", i); name, n = b[i:j].decode().rsplit(" ", 1); n = int(n)
        d = b[j + 1:j + 1 + n]; i = j + 2 + n
        try: d.decode("utf-8")
        except UnicodeDecodeError: continue
        if b"\0" not in d and n < 9000: out.append((name, d.decode("utf-8")))
    return out
CORPUS = corpus()

SNIP = [ # name, lines that make some platform, tool or library show
 ("a.c", '#include <pthread.h>\nint x;\n'), ("b.c", '#include <windows.h>\n'), ("w1.c", 'int f() { WM_PAINT; }\n'), ("w2.c", 'ReleaseDC(a);\n'), ("w3.c", 'WndProc(x);\n'),
 ("x.c", '#include <X11/Xlib.h>\n'), ("wx.cpp", '#include "wx/window.h"\nclass A {};\n'), ("kde.cpp", '#include <kdeversion.h>\nclass B {};\n'), ("gtk.c", 'gtk_init();\n'), ("dos1.c", '#ifdef __MSDOS__\n#endif\n'), ("dos2.c", 'int MSDOS = 1;\n'),
 ("arm.c", 'arm_int32_t z;\n'), ("Makefile", 'all:\n\tgcc -mabi x -DSSE3_ATOM\n'), ("icc.mk", 'all:\n\ticc /QxL neon\n'), ("cl.c", 'ClutterActor *a;\n'), ("nb.c", 'nbtk_icon x;\n'), ("mob.c", 'char *s = "org.moblin.x";\n'),
 ("hil.c", '#include <hildon/hildon.h>\n'), ("hil.py", 'import hildon\nimport gtk\n'), ("g.py", 'import gtk\nx = 1\n'), ("h.py", 'import hildon\n'), ("mac.c", 'AppleEvent e;\n'), ("Info.plist", '<?xml version="1.0"?>\n<plist></plist>\n'),
 ("r.rb", 'RAILS_ROOT = 1\n'), ("r2.rb", 'class A\nend\n'), ("cl.rb", 'x = Clutter::Actor\n'), ("p.pl", 'use strict;\nmy $x = 1;\n'), ("p2.pl", 'Clutter::Stage->new;\n'), ("q.py", 'print 1\n'),
 ("z.php", '<?php\nclass A extends Zend_Controller_Action {}\n?>\n'), ("s.php", '<?php\nsfCore::x();\n?>\n'), ("m.php", '<?php\nmoodle();\nmysql_connect();\n?>\n'), ("pg.php", '<?php\npg_connect();\n?>\n'), ("d1.php", '<?php\n$Drupal = 1;\n?>\n'), ("d2.php", '<?php\ndrupal_render();\n?>\n'), ("d3.php", '<?php\nDrupal(Drupal, Drupal);\n?>\n'), ("ck.php", '<?php\nCAKE_CORE_INCLUDE_PATH;\n?>\n'),
 ("package.xml", '<x></x>\n'), ("pear.xml", '<x a="pear.php.net/dtd/package-2.0"/>\n'), ("j.js", 'var a = 1;\nvar b = 2;\n'), ("jquery-1.2.3.min.js", 'var jq = 1;\n'), ("prototype-1.6.js", 'var p;\n'), ("mootools-1.2-core.js", 'var m;\n'), ("dojo.js", 'var d;\n'), ("yahoo-min.js", 'var y;\n'), ("yui.html", '<html><script src="yahoo-min.js"></script></html>\n'), ("dj.html", '<html><b>dojo.xd.js</b></html>\n'),
 ("F.java", 'import flash.x.Y;\nclass F {}\n'), ("M.java", 'import mx.core.Z;\nclass M {}\n'), ("E.java", 'import org.eclipse.x.A;\nclass E {}\n'), ("S.java", 'import org.springframework.A;\nclass S {}\n'), ("St.java", 'import org.apache.struts.A;\nclass St {}\n'), ("An.java", 'import android.app.Activity;\nclass An {}\n'), ("Jf.java", 'import javax.faces.A;\nclass Jf {}\n'), ("Sv.java", 'import javax.servlet.A;\nclass Sv {}\n'), ("Pe.java", 'import javax.persistence.A;\nclass Pe {}\n'), ("Hi.java", 'import org.hibernate.A;\nclass Hi {}\n'), ("To.java", 'import org.apache.tomcat.A;\nclass To {}\n'), ("Ej31.java", '@Schedule\nclass Ej {}\n'), ("Ej3.java", '@Stateless\nclass Ej3 {}\n'), ("Ej2.java", 'class A implements SessionBean {}\n'), ("Gw.java", 'import com.google.gwt.A;\nclass Gw {}\n'), ("Ja.java", 'import net.sf.jasperreports.engine.A;\nclass Ja {}\n'), ("Jas.java", 'String s = "com.jaspersoft.jasperserver";\n'), ("Ji.java", 'String ireport = "jasper ireport";\n'), ("Plain.java", 'class P { int a; }\n'),
 ("pom.xml", '<project xmlns="http://maven.apache.org/POM/4.0.0">\n<dependency><groupId>org.springframework</groupId><artifactId>spring</artifactId></dependency>\n<plugin><groupId>org.codehaus.mojo</groupId><artifactId>weblogic-maven-plugin</artifactId></plugin>\n</project>\n'), ("sub_pom.xml", '<project/>\n'), ("weblogic.xml", '<a></a>\n'), ("weblogic-ra.xml", '<a></a>\n'), ("jboss-web.xml", '<a></a>\n'), ("sun-web.xml", '<a></a>\n'), ("my-ejb-jar.xml", '<a/>\n'), ("jonas-ejb-jar.xml", '<a/>\n'), ("struts-config.xml", '<a/>\n'), ("spring.jar", 'PK'), ("hibernate3.jar", 'PK'), ("opensso.war", 'PK'),
 ("p.csproj", '<Project xmlns="http://schemas.microsoft.com/developer/msbuild/2003"><Import Project="x\\Silverlight\\y"/></Project>\n'), ("a.sln", 'x\n'), ("w.xaml", '<a></a>\n'), ("d.aspx", '<%@ Page %>\n<a></a>\n'), ("c.cs", 'using System;\nclass C {}\n'), ("sl.cs", 'using System.Web.Silverlight;\nclass D {}\n'), ("ce.cs", 'using Microsoft.WindowsCE;\n'), ("v.vb", 'Dim x As Integer\n'), (".project", '<a/>\n'), ("x.nbm", 'n'),
 ("q.sql", 'select 1;\n'), ("conf.ac", 'AC_INIT(x)\n'), ("as.as", 'var x:int = 1;\n'), ("m.mxml", '<mx:A></mx:A>\n'), ("i.m", '#import <A.h>\n@interface X\nUIView *v;\n@end\n'), ("k.s", '  smlal r0, r1\n  vmov r2\n'), ("f.f90", 'program a\nend\n'), ("h.hs", 'main = print 1\n'), ("jr.txt", 'JasperReports\n'), ("js.rb", '# jasper server\nx = "jasperserver jaspersoft"\n'), ("bad.xml", '<project><unclosed>\n'), ("pomx/pom.xml", '<project><broken\n'), ("empty.c", ''), ("h.h", '#include <sys/stat.h>\nint y;\n'), ("t.html", '<html><asp:Silverlight/></html>\n'),
]
PRE = ["", "", "language", "twice", "all", "touch", "singles"]

def text(r):
    name, t = r.choice(CORPUS)
    if r.random() < 0.3:
        l = t.splitlines(True)
        if l: t = "".join(l[:r.randrange(len(l)) + 1])
    return name, t

def gen15(seed):
    r = random.Random(seed)
    files = {}; paths = []
    for _ in range(r.randint(1, 5)):
        n, t = text(r); p = r.choice(["", "", "d/", "d/e/"]) + n
        files[p] = t; paths.append(p)
    ops = []; sf = {}; lists = []; kept = []; names = set(); k = 0
    def nm(): # names, short and long ones, that the binding has to look at
        pool = ["x.m", "y.c", "main.pro", "other.cpp", "h.h", "a_rather_long_file_name_that_does_not_fit_into_a_slot_of_an_object.m", "Foo.java", "z.php", "w.rb"] + [p.split("/")[-1] for p in paths]
        return [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 7, 40]))]
    QS = ["polyglot", "contents", "contents_size", "languages", "breakdowns", "breakdown", "licenses", "loc", "totals", "path", "file_location"]
    for _ in range(r.randint(4, 22)):
        x = r.random()
        if x < 0.22 or not (sf or lists):
            k += 1; o = "s%d" % k; p = r.choice(paths)
            c = text(r)[1] if r.random() < 0.3 else None
            loc = r.choice(paths) if r.random() < 0.2 else None
            ns = nm() if r.random() < 0.5 else None
            if r.random() < 0.5 and ns is not None: p = r.choice(["main.h", "x.h", "foo.m", "v.pro", p])
            if r.random() < 0.04: ns = ["a.c", 5]
            elif ns is not None: names.add(o)
            ops.append(["new", o, p, c, loc, ns])
            if ns == ["a.c", 5]: continue
            sf[o] = 1
            if r.random() < 0.25: ops.append(["names", o, nm()]); names.add(o)
            if r.random() < 0.1: ops.append(["location", o, r.choice(paths)])
            if r.random() < 0.1: ops.append(["setcontents", o, text(r)[1]])
        elif x < 0.30:
            k += 1; l = "l%d" % k; lists.append(l)
            ops.append(["lnew", l, r.choice([None, ["."], ["d"], ["."]]), r.choice([None, [r.choice(paths)], list(paths)])])
            if r.random() < 0.4: ops.append(["lfile", l, r.choice(paths)])
            if r.random() < 0.3: ops.append(["ldir", l, r.choice([".", "d", "none"])])
        elif x < 0.50 and sf:
            o = r.choice(sorted(sf)); ops.append(["q", o, r.choice(QS + (["filenames", "each"] * 2 if o in names else []))])
        elif x < 0.64 and sf:
            o = r.choice(sorted(sf)); k += 1; kind = r.choice(["breakdowns", "one", "loc", "raw_pl", "raw_loc", "raw_lic", "diff", "raw_pl_items", "raw_pls", "raw_loc_items", "raw_locs", "raw_lic_items", "raw_diff", "raw_deltas", "strings"] + ["filenames"] * (3 if o in names else 0))
            ops.append(["keep", "k%d" % k, o, kind] + ([r.choice(sorted(sf))] if kind in ("diff", "raw_diff", "raw_deltas") else [])); kept.append("k%d" % k)
            if kind == "filenames" and r.random() < 0.3: ops.append(["names", o, nm()])
        elif x < 0.72 and lists:
            k += 1; ops.append(["keep", "k%d" % k, r.choice(lists), r.choice(["files", "items", "firstfile", "tailitem", "eachname", "total", "total_locs", "total_items"])]); kept.append("k%d" % k)
        elif x < 0.76 and lists: ops.append(["lq", r.choice(lists), r.choice(["size", "each", "polyglots", "total", "walk"])])
        elif x < 0.80 and sf: ops.append(["diff", r.choice(sorted(sf)), r.choice(sorted(sf))])
        elif x < 0.82: ops.append(r.choice([["binary", r.choice(["a.exe", "b.c", "c.JPG"])], ["lang", r.choice(["c", "ruby", "nope", "cpp"])]]))
        elif x < 0.92 and (sf or lists):
            o = r.choice(sorted(sf) + lists); ops.append(["drop", o])
            if o in sf: del sf[o]
            else: lists.remove(o)
            if r.random() < 0.7: ops.append(["gc", r.choice([5, 7, 7, 1])])
        elif x < 0.95: ops.append(["gc", r.choice([1, 3, 5, 7])])
        elif kept: ops.append(["look", r.choice(kept)])
    rest = sorted(sf) + lists; r.shuffle(rest)
    for o in rest[:r.randint(0, len(rest))]:
        if o in names: ops.append(["q", o, r.choice(["filenames", "polyglot"])])
        ops.append(["drop", o])
    ops.append(["gc", 7])
    for x in kept: ops.append(["look", x])
    gc = sorted([r.randrange(1000001), r.choice([1, 3, 5, 5, 7, 7])] for _ in range(r.choice([0, 1, 2, 4, 8, 16])))
    return {"v": VERSION, "prop": "C15", "seed": seed, "files": files, "ops": ops, "gc": gc, "order": r.getrandbits(32) | 1, "fill": r.choice([0xa5, 0, 0xff, 0x41])}

GROUPS = ["org.springframework", "javax.servlet", "org.hibernate", "org.jboss", "org.glassfish", "org.apache.tomcat", "org.apache.struts", "javax.faces", "org.codehaus.mojo", "org.apache.servicemix", "jasperreports", "com.example"]
def pom(r):
    """a pom.xml made of the parts the rules look at: root element and namespace, dependencies and plugins, whole or not"""
    def item():
        k = r.choice(["dependency", "dependency", "plugin"]); g = r.choice(GROUPS); x = r.random()
        a = "<groupId>%s</groupId>" % g if x < 0.85 else ("<groupId>${%s}</groupId>" % g if x < 0.92 else "")
        b = "<artifactId>%s</artifactId>" % r.choice(["core", "weblogic-maven-plugin", "spring", "x"]) if r.random() < 0.85 else ""
        return "<%s>%s</%s>\n" % (k, r.choice(["", "\n "]).join([a, b] if r.random() < 0.8 else [b, a]), k)
    body = "".join(item() for _ in range(r.choice([0, 1, 1, 2, 4])))
    root, ns = r.choice([("project", ' xmlns="http://maven.apache.org/POM/4.0.0"'), ("project", ' xmlns="http://maven.apache.org/POM/4.0.0"'), ("project", ""), ("project", ' xmlns="http://example.com/other"'), ("list", ""), ("list", "")])
    t = '<?xml version="1.0"?>\n' * r.randint(0, 1) + "<%s%s>\n%s</%s>\n" % (root, ns, body, root)
    return t[:r.randrange(len(t))] if r.random() < 0.12 else t
def csproj(r):
    body = "".join('<Import Project="%s"/>\n' % r.choice(["x\\Silverlight\\y", "$(M)\\Silverlight.targets", "common.targets", "Silverlightly"]) for _ in range(r.choice([0, 1, 1, 2])))
    root, ns = r.choice([("Project", ' xmlns="http://schemas.microsoft.com/developer/msbuild/2003"'), ("Project", ' xmlns="http://schemas.microsoft.com/developer/msbuild/2003"'), ("Project", ""), ("Project", ' xmlns="http://example.com/other"'), ("list", "")])
    t = "<%s%s>\n%s</%s>\n" % (root, ns, body, root)
    return t[:r.randrange(len(t))] if r.random() < 0.12 else t
SHARES = [("rb", "x = %d\n", 15), ("java", "int x%d;\n", 15), ("js", "var x%d;\n", 20), ("py", "x = %d\n", 15), ("pl", "use strict; my $x%d;\n", 20), ("c", "int x%d;\n", 5), ("cs", "int x%d;\n", 10), ("vb", "Dim x%d As Integer\n", 5), ("f90", "x = %d\n", 5), ("hs", "x%d = 1\n", 5), ("as", "var x%d:int;\n", 1), ("cpp", "class X%d;\n", 5)]
def variants(r, d):
    """files of one kind, several of the same base name, that differ in what the rules look for"""
    kind = r.choice(["pom", "pom", "csproj", "csproj", "name", "name", "ext", "share", "share", "share"]); fs = {}; n = r.randint(2, 6)
    if kind in ("pom", "csproj"):
        make = pom if kind == "pom" else csproj
        for i in range(n): fs["%s/v%d/%s" % (d, r.randint(0, 5), "pom.xml" if kind == "pom" else r.choice(["p.csproj", "p.csproj", "q.csproj"]))] = make(r)
        if r.random() < 0.9:
            for i in range(r.randint(1, 3)): fs["%s/J%d.%s" % (d, i, "java" if kind == "pom" else "cs")] = "class J%d { int x; }\n" % i * r.choice([1, 8, 40])
    elif kind == "share": # languages whose share of the code is close to what a rule asks for
        pick = r.sample(SHARES, r.randint(1, 2)); total = r.choice([40, 100, 300, 1000, 2500])
        want = [max(1, total * pc // 100 + r.choice([-1, 0, 0, 1, 2])) for _, _, pc in pick]; rest = max(1, total - sum(want))
        for (ext, line, _), n in zip(pick + [r.choice([("sql", "select %d;\n", 0), ("sh", "echo %d\n", 0), ("lua", "x = %d\n", 0)])], want + [rest]):
            cut = sorted(r.randint(0, n) for _ in range(r.choice([0, 1, 2, 4]))); last = 0
            for i, c in enumerate(cut + [n]): fs["%s/%s%d.%s" % (d, r.choice(["", "q/"]), i, ext)] = "".join(line % k for k in range(last, c)); last = c
    elif kind == "name": # texts of one kind under one name
        e = r.choice([".java", ".c", ".php", ".js", ".cs", ".py", ".rb", ".cpp", ".html"]); same = [s for s in SNIP if s[0].endswith(e)]; nm = r.choice(same)[0]
        for i in range(n): fs["%s/v%d/%s" % (d, i, nm)] = r.choice(same)[1]
    else: # one text under several names
        t = r.choice(SNIP)[1]
        for i in range(n): fs["%s/v%d/%s" % (d, i, r.choice(SNIP)[0].replace("/", "_"))] = t
    return fs

def gen16(seed):
    r = random.Random(seed); files = {}; sets = []
    for i in range(r.randint(1, 3)):
        d = "./s%d" % i; mine = []
        pool = r.sample(SNIP, r.randint(1, min(14, len(SNIP))))
        if r.random() < 0.5: # concentrate on one family
            key = r.choice([".java", ".c", ".php", ".js", ".xml", ".rb", ".cs", ".py"]); pool += r.sample([s for s in SNIP if s[0].endswith(key)], k=min(4, len([s for s in SNIP if s[0].endswith(key)])))
        for n, t in pool:
            p = d + "/" + r.choice(["", "", "sub/", "a/b/"]) + n
            if r.random() < 0.3: t = t * r.randint(2, 12)
            if p not in files: files[p] = t; mine.append(p)
        for _ in range(r.randint(0, 3)):
            n, t = text(r); p = d + "/" + n
            if p not in files: files[p] = t; mine.append(p)
        if r.random() < 0.6:
            v = variants(r, d)
            if r.random() < 0.6:
                for p in mine: del files[p]
                mine = []
            for p in v:
                if p not in files: files[p] = v[p]; mine.append(p)
        sets.append((d, sorted(mine)))
    ops, refs = [], []
    def order(fs): q = list(fs); r.shuffle(q); return q
    def part(fs): return fs if r.random() < 0.7 else r.sample(fs, r.randint(1, len(fs)))
    for _ in range(r.randint(2, 7)):
        d, fs = r.choice(sets); x = r.random()
        if x < 0.70:
            mode = r.choice(["files", "files", "dir", "add", "each"]); sub = list(fs) if mode == "dir" else part(fs)
            ops.append(["gest", mode, d, order(sub), r.choice(PRE)]); refs.append([["gest", "files", d, sorted(sub), ""]])
        elif x < 0.85:
            f = r.choice(fs); ops.append(["single", f]); refs.append([["gest", "each", d, [f], ""]])
        else:
            d2, fs2 = r.choice(sets); a, b = part(fs), part(fs2)
            ops.append(["inter", order(a), order(b), [r.randint(0, 1) for _ in range(len(a) + len(b))]])
            refs.append([["gest", "each", d, sorted(a), ""], ["gest", "each", d2, sorted(b), ""]])
    return {"v": VERSION, "prop": "C16", "seed": seed, "files": files, "ops": ops, "refs": refs, "order": r.getrandbits(32) | 1}
REPS = 7
def gen17(seed):
    """a body of binding calls, carried out several times; after each everything is let go and the collector runs"""
    p = gen15(seed ^ 0x17171717); r = random.Random(seed * 31 + 17)
    body = [o for o in p["ops"] if o[0] not in ("gc",)]
    if r.random() < 0.7: # without what is looked at in the end, to keep it short
        body = body[:r.randint(3, 14)]
    have = set(); ok = []
    for o in body:
        if o[0] == "new" and o[5] and any(not isinstance(x, str) for x in o[5]): continue # raises, nobody is given anything
        # an object that was dropped, or that was never made, cannot be asked
        if o[0] in ("new", "lnew"): have.add(o[1])
        elif o[0] == "keep":
            if o[2] not in have or (len(o) > 4 and o[4] not in have): continue
            have.add(o[1])
        elif o[0] == "drop":
            if o[1] not in have: continue
            have.discard(o[1])
        elif o[0] in ("look", "q", "lq", "lfile", "ldir", "names", "location", "setcontents"):
            if o[1] not in have: continue
        elif o[0] == "diff" and (o[1] not in have or o[2] not in have): continue
        ok.append(o)
    p.update(prop="C17", seed=seed, ops=(ok + [["level"]]) * REPS, span=len(ok) * REPS * r.choice([60, 200, 600])); return p
GEN = {"C17": gen17, "C15": gen15, "C16": gen16}

# ---------------------------------------------------------------- one evaluation
def preexec():
    libc.personality(0x0040000)       # no address randomisation
ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "HOME": "/nonexistent"}

def evaluate(rsut, plan, scratch):
    """(class, message, digest, info); class '' when the property held, 'harness' when there is no answer."""
    tree = os.path.join(scratch, "t"); shutil.rmtree(tree, ignore_errors=True); os.makedirs(tree)
    for p, t in plan["files"].items():
        q = os.path.join(tree, p); os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f: f.write(t.encode("utf-8"))
    pf = os.path.join(scratch, "plan.json")
    run = dict(plan); run.pop("files")
    if plan["prop"] == "C16":
        flat, index = [], []
        for rs in plan["refs"]:
            index.append([])
            for x in rs:
                key = json.dumps(x)
                if key not in [json.dumps(y) for y in flat]: flat.append(x)
                index[-1].append([json.dumps(y) for y in flat].index(key))
        run["refs"] = [[x] for x in flat]
    with open(pf, "w") as f: json.dump(run, f)
    try:
        p = subprocess.run(["ruby", "--disable-gems", os.path.join(HERE, "rexec.rb"), rsut, pf], cwd=tree, env=ENV, preexec_fn=preexec, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired: return "harness", "the interpreter did not finish", "", {}
    try: o = json.loads(p.stdout)
    except ValueError: return "harness", "no result: " + (p.stderr.decode("latin-1")[-600:] or p.stdout.decode("latin-1")[-300:]), "", {}
    r = o["run"]; info = {"ran": r["tail"].get("ran", [0, 0, 0]), "trace": r["tail"].get("trace", ""), "ticks": r["tail"].get("ticks", 0), "obs": len(r["obs"])}
    dig = hashlib.sha256(json.dumps([o["ref"], r["obs"], r["tail"], r["status"]]).encode()).hexdigest()[:16]
    cls = msg = ""
    if plan["prop"] == "C17":
        lv = [tuple(int(y) for y in x[1].strip('"').split()) for x in r["obs"] if plan["ops"][x[0]][0] == "level"]
        if r["status"] != "exit 0": return "", "", dig, dict(info, setaside=1)
        for what, k in (("blocks", 0), ("bytes", 1)):
            if len(lv) == REPS and all(lv[i + 1][k] > lv[i][k] for i in range(1, REPS - 1)): cls, msg = "leak", "native %s still held after each of %d repetitions, everything let go: %s" % (what, REPS, " ".join(str(x[k]) for x in lv)); break
        info["levels"] = len(lv)
    elif plan["prop"] == "C15":
        ref = o["ref"][0]
        if ref["status"] != "exit 0": return "", "", dig, dict(info, setaside=1)
        a, b = dict((x[0], x[1]) for x in ref["obs"]), dict((x[0], x[1]) for x in r["obs"])
        for i in sorted(a):
            if i not in b: break
            if a[i] != b[i]: cls, msg = "answer", "op %d %s gives %s, without collections it gives %s" % (i, json.dumps(plan["ops"][i])[:200], b[i][:400], a[i][:400]); break
        if not cls and r["status"] != "exit 0": cls, msg = "crash", "the interpreter ends with %s after op %s: %s" % (r["status"], r["obs"][-1][0] if r["obs"] else "none", first(r["err"]))
    else:
        vals = []
        for x in o["ref"]:
            if x["status"] != "exit 0" or not x["obs"]: return "", "", dig, dict(info, setaside=1)
            vals.append(json.loads('"' + x["obs"][0][1][1:-1] + '"') if False else x["obs"][0][1][1:-1])
        b = dict((x[0], x[1][1:-1]) for x in r["obs"])
        for i, op in enumerate(plan["ops"]):
            want = " | ".join(vals[j] for j in index[i])
            if op[0] == "inter" and any(vals[j].startswith("EXC") for j in index[i]): continue
            if i not in b: cls, msg = "crash", "the interpreter ends with %s at op %d: %s" % (r["status"], i, first(r["err"])); break
            if b[i] != want: cls, msg = "platforms", "op %d %s gives \"%s\", a fresh process in plain order gives \"%s\"" % (i, json.dumps(op)[:300], b[i][:500], want[:500]); break
        info["trace"] = hashlib.sha256(json.dumps(plan["ops"]).encode()).hexdigest()[:16]
        info["platforms"] = sum(len(v.split()) for v in b.values() if not v.startswith("EXC"))
    return cls, msg, dig, info

def first(e):
    return e.strip('"').split("\\n")[0][:200]

# ---------------------------------------------------------------- minimisation
def minimise(rsut, plan, cls, scratch, until):
    best = plan; n = 0
    def ok(c):
        nonlocal n, best
        if time.time() > until: return False
        n += 1
        if evaluate(rsut, c, scratch)[0] == cls: best = c; return True
        return False
    changed = True
    while changed and time.time() < until:
        changed = False
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(best["ops"]):
                c = dict(best); c["ops"] = best["ops"][:i] + best["ops"][i + size:]
                if "refs" in best: c["refs"] = best["refs"][:i] + best["refs"][i + size:]
                if c["ops"] and ok(c): changed = True
                else: i += size
                if time.time() > until: break
        for i in range(len(best.get("gc", [])) - 1, -1, -1):
            c = dict(best); c["gc"] = best["gc"][:i] + best["gc"][i + 1:]
            if ok(c): changed = True
        for f in sorted(best["files"]):
            c = dict(best); c["files"] = {k: v for k, v in best["files"].items() if k != f}
            if "refs" in c:
                strip = lambda op: [([y for y in x if y != f] if isinstance(x, list) else x) for x in op]
                c["ops"] = [strip(o) for o in best["ops"]]; c["refs"] = [[strip(x) for x in q] for q in best["refs"]]
                if any(o == ["single", f] for o in c["ops"]): continue
            if ok(c): changed = True
    return best, n

# ---------------------------------------------------------------- driver
def scratchRoot():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"

def main():
    a = sys.argv[1:]
    opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    mode = a[0]
    root = os.path.join(os.path.dirname(HERE), "build")
    if mode == "build": print(build(a[1]) or sys.exit(2)); return 0
    rsut = opt.get("--rsut") or build(root)
    if not rsut: return 2
    top = os.path.join(scratchRoot(), "rsim.%010d" % os.getpid()); os.makedirs(top)
    try: return work(mode, a, opt, rsut, top)
    finally: shutil.rmtree(top, ignore_errors=True)

def work(mode, a, opt, rsut, top):
    if mode in ("seed", "replay"):
        plan = GEN[a[1]](int(a[2])) if mode == "seed" else json.load(open(a[1]))
        if "--plan" in a: print(json.dumps(plan, indent=1)); return 0
        cls, msg, dig, info = evaluate(rsut, plan, top)
        print("%s seed=%s digest=%s %s" % (plan["prop"], plan["seed"], dig, info))
        print("VIOLATED class=%s %s" % (cls, msg) if cls else "held"); return (2 if cls == "harness" else 1) if cls else 0
    if mode == "digest": prop, base, seeds, workers, secs = a[1], int(a[2]), int(a[3]), int(a[4]), 1e9
    else: prop, base, seeds, workers, secs = opt["--prop"], int(opt["--base"]), int(opt.get("--seeds", 10 ** 9)), int(opt["--workers"]), float(opt["--secs"])
    t0 = time.time(); lock = threading.Lock(); nxt = [0]; res = []; bad = []; harness = []; unrep = []; samples = []
    fired, firedRuns, probes = {}, {}, {}
    def worker(w):
        sc = os.path.join(top, "w%02d" % w); os.makedirs(sc)
        while time.time() - t0 < secs and len(bad) < 4:
            with lock:
                k = nxt[0]; nxt[0] += 1
            if k >= seeds: break
            plan = GEN[prop](base + k); cls, msg, dig, info = evaluate(rsut, plan, sc)
            if cls and cls != "harness" and mode != "digest":
                again = evaluate(rsut, plan, sc)
                if again[0] != cls or again[1] != msg: unrep.append("seed %d %s: %s" % (base + k, cls, msg[:300])); cls = ""
            with lock:
                if cls == "harness": harness.append("seed %d: %s" % (base + k, msg)); continue
                if cls: bad.append((base + k, cls, msg, plan))
                res.append((base + k, dig, info.get("trace", "")))
                kinds = {"full-collection": info["ran"][0], "compaction": info["ran"][1], "slot-recycling": info["ran"][2]} if prop != "C16" else {}
                for o in plan["ops"]:
                    if o[0] == "drop" and prop != "C16": kinds["disposal"] = kinds.get("disposal", 0) + 1
                    if prop == "C16":
                        kinds["order:shuffled"] = kinds.get("order:shuffled", 0) + 1
                        if o[0] == "inter": kinds["interleaved-engines"] = kinds.get("interleaved-engines", 0) + 1
                        if o[0] == "gest" and o[4]: kinds["history:" + o[4]] = kinds.get("history:" + o[4], 0) + 1
                for x, n in kinds.items():
                    if n: fired[x] = fired.get(x, 0) + n; firedRuns[x] = firedRuns.get(x, 0) + 1
                for x in ("obs", "ticks", "platforms", "setaside", "levels"):
                    if info.get(x): probes[x] = probes.get(x, 0) + info[x]
                if k < 4: samples.append("seed %d: %s" % (base + k, json.dumps({"ops": plan["ops"], "gc": plan.get("gc", [])})[:1200]))
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    searched = time.time() - t0
    if mode == "digest":
        print("%s base=%d n=%d digest=%s" % (prop, base, len(res), hashlib.sha256(repr(sorted(x[:2] for x in res)).encode()).hexdigest()[:16])); return 0
    out = []; seen = set()
    for seed, cls, msg, plan in sorted(bad, key=lambda b: len(json.dumps(b[3]))):
        if cls in seen: continue
        sc = os.path.join(top, "min"); os.makedirs(sc, exist_ok=True)
        small, n = minimise(rsut, plan, cls, sc, time.time() + 60)
        c, m, d, _ = evaluate(rsut, small, sc)
        if c != cls: small = plan; c, m, d, _ = evaluate(rsut, small, sc)
        path = os.path.join(opt["--replays"], "%s-%s-%d.json" % (prop, cls, seed))
        small = dict(small, found=m, digest=d)
        with open(path, "w") as f: json.dump(small, f, indent=1)
        good = 0
        for _ in range(2):
            p = subprocess.run([sys.executable, os.path.join(HERE, "rubysim.py"), "replay", path, "--rsut", rsut], stdout=subprocess.PIPE, text=True)
            if p.returncode == 1 and ("VIOLATED class=%s %s" % (cls, m)) in p.stdout: good += 1
        if good != 2: unrep.append("seed %d %s: replay in a new process differs" % (seed, cls)); continue
        seen.add(cls)
        print("VIOLATION property=%s replay=%s\n  class %s, seed %d: %s" % (prop, path, cls, seed, m[:1200]), flush=True)
        out.append({"class": cls, "seed": seed, "replay": path, "message": m[:1000]})
    for u in unrep: print("UNREPRODUCIBLE " + u)
    for h in harness[:5]: print("HARNESS " + h[:600])
    real = ["real: the Ruby interpreter, the SWIG wrapper, /repo/ruby (library and platform rules), /repo/src, libpcre, libmagic, rexml",
            "simulated: when the collector runs and whether it compacts, disposal of objects, recycling of object slots, the native heap (poisoned, never recycled), directory enumeration order"]
    st = {"runs": len(res), "requested": nxt[0], "seed_base": base, "search_s": searched, "wall_s": time.time() - t0, "workers": workers, "steps": probes.get("ticks", 0), "switches": 0, "simulated_us": 0,
          "fresh_runs": len(res) * {"C15": 1, "C16": 3, "C17": 0}[prop], "fresh_hits": 0, "distinct_traces": len(set(x[2] for x in res)), "distinct_schedules": len(set(x[2] for x in res)),
          "perturbed_runs": len(res), "distinct_perturbed": len(set(x[2] for x in res)), "errors": len(harness), "fired": fired, "fired_runs": firedRuns, "counters": probes,
          "samples": samples, "violations": out, "unreproducible": unrep, "harness": harness, "known": [], "components": real}
    with open(opt["--out"], "w") as f: json.dump(st, f)
    if out: return 1
    return 2 if (unrep or harness or (bad and not out)) else 0

if __name__ == "__main__": sys.exit(main())
