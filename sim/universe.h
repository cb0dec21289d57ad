// universe.h: written by mkuniverse.py
static const std::vector<str> UNI_NAMES = {"f.4th", "f.C", "f.H", "f.ada", "f.adb", "f.ads", "f.aiff", "f.as", "f.as8", "f.ascx", "f.asm", "f.aspx", "f.asx", "f.au", "f.aug", "f.avi", "f.awk", "f.b", "f.bas", "f.bat", "f.bf", "f.bfpp", "f.bi", "f.bmp", "f.bmx", "f.boo", "f.c", "f.c++", "f.cache", "f.cc", "f.chai", "f.clj", "f.cls", "f.cmake", "f.coffee", "f.com", "f.cpp", "f.cr", "f.cs", "f.csproj", "f.css", "f.ctp", "f.cu", "f.cxx", "f.d", "f.dart", "f.dat", "f.def", "f.di", "f.doc", "f.dtx", "f.dylan", "f.e", "f.ebuild", "f.ec", "f.eclass", "f.eh", "f.el", "f.elm", "f.erl", "f.exheres-0", "f.exlib", "f.f", "f.f03", "f.f08", "f.f77", "f.f90", "f.f95", "f.factor", "f.for", "f.forth", "f.fpp", "f.fr", "f.frag", "f.frm", "f.frt", "f.frx", "f.fs", "f.fth", "f.ftn", "f.gemspec", "f.gif", "f.glsl", "f.go", "f.grace", "f.grc", "f.groovy", "f.gs", "f.gz", "f.h", "f.h++", "f.haml", "f.hh", "f.hpp", "f.hrl", "f.hs", "f.htm", "f.html", "f.hx", "f.hxx", "f.i3", "f.icns", "f.in", "f.inc", "f.j", "f.jar", "f.java", "f.jl", "f.jpeg", "f.jpg", "f.js", "f.jsp", "f.kdebuild-1", "f.kt", "f.latex", "f.lc", "f.lgt", "f.lisp", "f.lsp", "f.ltx", "f.lua", "f.m", "f.m3", "f.m4", "f.m4a", "f.mf", "f.mk", "f.ml", "f.ml4", "f.mli", "f.mm", "f.mo", "f.mod", "f.mov", "f.mp", "f.mp3", "f.mpg", "f.mt", "f.mustache", "f.mxml", "f.nix", "f.nse", "f.nsh", "f.nsi", "f.ob2", "f.obn", "f.ogg", "f.p6", "f.p8", "f.pas", "f.pdf", "f.perl", "f.ph", "f.php", "f.php3", "f.php4", "f.php5", "f.pike", "f.pl", "f.pm", "f.pmc", "f.pmod", "f.png", "f.pnt", "f.pod", "f.pp", "f.ppt", "f.pro", "f.ps", "f.ps1", "f.py", "f.qml", "f.qt", "f.r", "f.r3", "f.ra", "f.rb", "f.rbw", "f.reb", "f.rebol", "f.rex", "f.rexx", "f.rhtml", "f.rkt", "f.rktd", "f.rktl", "f.rs", "f.ru", "f.run", "f.s", "f.sc", "f.scala", "f.sce", "f.sci", "f.scm", "f.sh", "f.sld", "f.sls", "f.sps", "f.sql", "f.ss", "f.st", "f.str", "f.sty", "f.svg", "f.svgz", "f.svn", "f.swf", "f.swift", "f.t", "f.tac", "f.tap", "f.tar", "f.tcl", "f.tex", "f.tgz", "f.tif", "f.tiff", "f.tpl", "f.ts", "f.tsx", "f.uc", "f.umple", "f.v", "f.vala", "f.vapi", "f.vb", "f.vba", "f.vbs", "f.vert", "f.vhd", "f.vhdl", "f.vim", "f.wav", "f.wl", "f.wlt", "f.xaml", "f.xhtml", "f.xls", "f.xlw", "f.xml", "f.xs", "f.xsd", "f.xsl", "f.z80", "f.zip", "f.zpt", "CMakeLists.txt", "Jamfile", "Jamrules", "GNUmakefile", "Makefile", "Makefile.am", "configure", "configure.ac", "configure.in", "init.pp", "makefile", "Rakefile", "rakefile", "Gemfile", "Vagrantfile", "PKGBUILD", "script.utf8"};
struct Family { std::vector<str> names, langs; };
static const std::vector<Family> UNI_FAMILIES = {
  {{"f.ada", "f.adb", "f.ads"}, {"ada"}}, // ada
  {{"f.as8", "f.asm", "f.s", "f.z80"}, {"assembler"}}, // assembler
  {{"f.C", "f.H", "f.c", "f.c++", "f.cc", "f.cpp", "f.cu", "f.cxx", "f.ec", "f.eh", "f.gs", "f.h++", "f.hh", "f.hpp", "f.hxx", "f.pmc", "f.vala", "f.vapi", "f.xs"}, {"c", "cpp", "csharp", "cuda", "ec", "genie", "vala"}}, // c
  {{"f.d", "f.di"}, {"dmd"}}, // d
  {{"f.ebuild", "f.eclass", "f.kdebuild-1"}, {"ebuild"}}, // ebuild
  {{"f.erl", "f.hrl"}, {"erlang"}}, // erlang
  {{"f.exheres-0", "f.exlib"}, {"exheres"}}, // exheres
  {{"f.4th", "f.fr", "f.frt", "f.forth", "f.fth"}, {"forth"}}, // forth
  {{"f.frag", "f.glsl", "f.vert"}, {"glsl"}}, // glsl
  {{"f.grace", "f.grc"}, {"grace"}}, // grace
  {{"f.htm", "f.html", "f.mustache", "f.tpl", "f.xhtml", "f.zpt"}, {"html"}}, // html
  {{"f.js", "f.qml", "f.ts", "f.tsx"}, {"javascript", "qml", "typescript"}}, // javascript
  {{"f.clj", "f.el", "f.lisp", "f.lsp", "f.rkt", "f.rktd", "f.rktl", "f.sc", "f.scm", "f.sld", "f.sls", "f.sps", "f.ss"}, {"clojure", "emacslisp", "lisp", "racket", "scheme"}}, // lisp
  {{"f.lua", "f.nse", "f.p8"}, {"lua"}}, // lua
  {{"f.mt", "f.wl", "f.wlt"}, {"mathematica"}}, // mathematica
  {{"f.i3", "f.m3"}, {"modula3"}}, // modula3
  {{"f.nsi", "f.nsh"}, {"nsis"}}, // nsis
  {{"f.ob2", "f.obn"}, {"oberon"}}, // oberon
  {{"f.ml", "f.ml4", "f.mli"}, {"ocaml"}}, // ocaml
  {{"f.p6", "f.perl", "f.ph", "f.pm", "f.pod", "f.t"}, {"perl"}}, // perl
  {{"f.ctp", "f.php", "f.php3", "f.php4", "f.php5"}, {"php"}}, // phphtml
  {{"f.pike", "f.pmod"}, {"pike"}}, // pike
  {{"f.py", "f.tac", "f.tap"}, {"python"}}, // python
  {{"f.r3", "f.reb", "f.rebol"}, {"rebol"}}, // rebol
  {{"f.rex", "f.rexx"}, {"rexx"}}, // rexx
  {{"f.gemspec", "f.rb", "f.rbw", "f.ru"}, {"ruby"}}, // ruby
  {{"f.sce", "f.sci"}, {"scilab"}}, // scilab
  {{"f.cls", "f.latex", "f.ltx", "f.sty", "f.tex"}, {"tex"}}, // tex
  {{"f.vhd", "f.vhdl"}, {"vhdl"}}, // vhdl
  {{"f.frm", "f.frx", "f.vb", "f.vba", "f.vbs"}, {"visualbasic"}}, // visual_basic
  {{"f.csproj", "f.xml"}, {"xml"}}, // xml
};
static const std::vector<str> UNI_LANGS = {"actionscript", "ada", "ampl", "assembler", "augeas", "autoconf", "automake", "awk", "bat", "bfpp", "blitzmax", "boo", "brainfuck", "c", "chaiscript", "classic_basic", "clearsilver", "clearsilver_template", "clojure", "cmake", "coffeescript", "coq", "cpp", "crystal", "cs_aspx", "csharp", "css", "cuda", "dart", "dcl", "dmd", "dylan", "ebuild", "ec", "eiffel", "elm", "emacslisp", "erlang", "exheres", "factor", "forth", "fortranfixed", "fortranfree", "fsharp", "genie", "glsl", "golang", "grace", "groovy", "haml", "haskell", "haxe", "html", "idl_pvwave", "jam", "java", "javascript", "jsp", "julia", "kotlin", "limbo", "lisp", "livecode", "logtalk", "lua", "make", "mathematica", "matlab", "metafont", "metapost", "metapost_with_tex", "modelica", "modula2", "modula3", "mxml", "nix", "nsis", "oberon", "objective_c", "objective_j", "ocaml", "octave", "pascal", "perl", "php", "pike", "postscript", "powershell", "prolog", "puppet", "python", "qml", "r", "racket", "rebol", "rexx", "rhtml", "ruby", "rust", "scala", "scheme", "scilab", "shell", "smalltalk", "sql", "stratego", "structured_basic", "swift", "tcl", "tex", "tex_dtx", "typescript", "umple", "unrealscript", "vala", "vb_aspx", "vhdl", "vim", "visualbasic", "xaml", "xml", "xmlschema", "xslt"};
