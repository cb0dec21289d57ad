// gen.h: seeded generation of inputs, and the reference models the profiles share.
#pragma once
#include "osim.h"
#include <algorithm>

struct Gen {
  Rng r; Plan p; int nfile = 0; bool pristine = false; // pristine: texts as they are in the corpus
  std::vector<str> sources; // paths of generated source files
  Gen(const char *id, u64 seed) : r(seed * 1000003 + hashS(id)) { p.prop = id; p.seed = seed; }
  void memoryKnobs();       // what reused memory contains and how it is reused
  void ioKnobs();           // short reads, directory order
  str text(int big = 0);    // contents of some source file (sets ext/name)
  str mutate(const str &, int more = 0);
  str addSource(const str &dir, int big = 0); // returns the path
  str plainText(); str plainName(); // texts and names that only their own lines tell the language of
  str tinyText(const strs &names);
  void tinyFamily(strs &langs); // many small files whose languages share a parser; langs: names of those languages
  str name;                 // file name that goes with the last text()
  void add(char type, const str &path, const str &data = "", long size = 0, int mode = 0644) { FileSpec f; f.type = type; f.path = path; f.data = data; f.size = size; f.mode = mode; p.files.push_back(f); }
  Proc &script() { p.procs.push_back(Proc()); return p.procs.back(); }
  Proc &cli(const strs &argv) { Proc q; q.cli = true; q.argv = argv; p.procs.push_back(q); return p.procs.back(); }
};
static inline void op(Proc &p, const str &n, const strs &a = {}) { p.ops.push_back({n, a}); }

// ---------------------------------------------------------------- models
typedef std::map<str, std::vector<long>> Table; // language -> counts
struct Obj { str path, disk, contents, lang; bool hasContents = false; strs names; };
struct World { // what the script has built so far, replayed symbolically
  std::map<str, Obj> S;
};
str relTree(const str &path);                                        // path of a plan file, or "" if it is not below the tree
Plan miniObj(const Plan &p, const std::vector<Obj> &o, const Op &query); // objects a, b ... then the query
str askObj(const Plan &p, Director &d, const Obj &o, const str &kind);
str askDiff(const Plan &p, Director &d, const Obj &a, const Obj &b);
str askCli(const Plan &p, Director &d, const strs &argv);
Table locTable(const str &locText);                                  // code comments blanks filecount
Table deltaTable(const str &deltaText);                              // six counts
bool isAbnormal(const str &answer);
str cmpScript(const Plan &p, int proc, const Result &r, Director &d, const std::function<bool(const Obj &)> &skip = nullptr);
Violation vio(const str &cls, const str &msg);
// crashed, hung, corrupted memory, not finished: "" if proc ended normally with state DONE
Violation endings(const Plan &p, Director &d, const Result &r, bool exitOk, bool memCounts = true, bool setAside = true);
bool inputsAbnormal(const Plan &p, Director &d); // an input on which even a fresh process ends abnormally
str cliBody(const str &flag, const str &out);    // report without its header
strs linesOf(const str &);
std::map<str, long> bag(const strs &);
