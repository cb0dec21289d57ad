# rexec.rb RSUTDIR PLAN: carries out one plan of Ruby binding calls in processes of its own and prints what they saw.
# Run as: ruby --disable-gems rexec.rb. The plan is JSON; the tree it works on is the working directory.
require 'rbconfig'
require 'json'
SUT, PLAN = ARGV
$gems = Dir["#{RbConfig::CONFIG['rubylibprefix']}/gems/*/gems/{rexml,strscan}-*/lib"]
$LOAD_PATH.concat($gems)
GC.disable
plan = JSON.parse(File.binread(PLAN).force_encoding('UTF-8'))
Encoding.default_external = Encoding::UTF_8
if plan['prop'] == 'C16' then require "#{SUT}/ruby/gestalt.rb" else require "#{SUT}/ruby/ohcount.rb" end
include Ohcount

def show(v)
  case v
  when String then b = v.b; b.size > 120 ? "#{b.size}:#{b.hash32}" : b.inspect
  when Array then '[' + v.map { |x| show(x) }.join(',') + ']'
  when nil, true, false, Integer, Float, Symbol then v.inspect
  else "(#{v.class})"
  end
end
class String
  def hash32; h = 2166136261; each_byte { |c| h = ((h ^ c) * 16777619) & 0xffffffff }; h.to_s(16); end
end

# Every op is a method of this object, so that nothing of an earlier op stays on a stack.
class Runner
  def initialize; @o = {}; end
  def text(s) s && String.new(s.encode('UTF-8'), encoding: 'UTF-8') end
  def names(a) a && a.map { |x| x.is_a?(String) ? text(x) : x } end
  def pl(b) show([b.name, b.code, b.comments, b.code_count, b.comments_count, b.blanks_count]) end
  def loc(l) show([l.language, l.code, l.comments, l.blanks, l.filecount, l.total]) end
  def delta(d) show([d.language, d.code_added, d.code_removed, d.comments_added, d.comments_removed, d.blanks_added, d.blanks_removed]) end
  def items(h) a = []; i = h.head; while i; a << i; i = i.next; end; a end
  def walk(h, m) a = []; i = h.head; while i; a << i.send(m); i = i.next; end; a end

  def do_new(o, path, c, loc, ns)
    h = {}
    h[:contents] = text(c) if c
    h[:file_location] = text(loc) if loc
    h[:filenames] = names(ns) if ns
    @o[o] = h.empty? ? SourceFile.new(text(path)) : SourceFile.new(text(path), h)
    nil
  end
  def do_names(o, ns) @o[o].filenames = names(ns); nil end
  def do_location(o, p) @o[o].file_location = text(p); nil end
  def do_setcontents(o, c) @o[o].set_contents(text(c)); nil end
  def do_q(o, kind)
    s = @o[o]
    case kind
    when 'breakdowns' then s.language_breakdowns.map { |b| pl(b) }.join(';')
    when 'loc' then s.loc_list.map { |l| loc(l) }.join(';')
    when 'totals' then l = s.get_loc_list; show([l.code, l.comments, l.blanks, l.total, l.filecount])
    when 'each' then a = []; s.each { |f| a << f }; show(a)
    when 'breakdown' then b = s.language_breakdown(s.polyglot); b ? pl(b) : 'nil'
    when 'path' then show([s.filepath, s.filename, s.ext, s.dirpath])
    else show(s.send(kind))
    end
  end
  def do_diff(a, b) @o[a].diff(@o[b]).loc_deltas.map { |d| delta(d) }.join(';') end
  def do_keep(r, o, kind, other = nil)
    s = @o[o]
    @o[r] = case kind
      when 'breakdowns' then [:pl, s.language_breakdowns]
      when 'one' then [:pl, [s.language_breakdown(s.polyglot)].compact]
      when 'loc' then [:loc, s.loc_list]
      when 'raw_pl' then [:rawpl, s.get_parsed_language_list]
      when 'raw_loc' then [:rawloc, s.get_loc_list]
      when 'raw_lic' then [:rawlic, s.get_license_list]
      when 'diff' then [:delta, s.diff(@o[other])]
      when 'files' then a = []; s.each_source_file { |f| a << f }; [:sf, a]
      when 'items' then a = []; i = s.head; while i; a << i; i = i.next; end; [:item, a]
      when 'firstfile' then [:sf, [s.head && s.head.sf].compact]
      when 'tailitem' then i = s.head; i = i.next while i && i.next; [:item, [i].compact]
      when 'total' then [:rawloc, s.analyze_languages]
      when 'total_locs' then [:loc, items(s.analyze_languages).map { |i| i.loc }]
      when 'total_items' then [:locitem, items(s.analyze_languages)]
      when 'raw_loc_items' then [:locitem, items(s.get_loc_list)]
      when 'raw_locs' then [:loc, items(s.get_loc_list).map { |i| i.loc }]
      when 'raw_pl_items' then [:plitem, items(s.get_parsed_language_list)]
      when 'raw_pls' then [:pl, items(s.get_parsed_language_list).map { |i| i.pl }]
      when 'raw_lic_items' then [:licitem, items(s.get_license_list)]
      when 'raw_diff' then [:rawdelta, s._diff(@o[other])]
      when 'filenames' then [:str, s.filenames]
      when 'strings' then [:str, [s.filepath, s.filename, s.ext, s.dirpath, s.file_location, s.polyglot, s.contents] + s.languages + s.licenses]
      when 'eachname' then a = []; s.each { |f| a << f }; [:str, a]
      when 'raw_deltas' then [:delta, items(s._diff(@o[other])).map { |i| i.delta }]
    end
    nil
  end
  def do_look(r)
    k, v = @o[r]
    case k
    when :pl then v.map { |b| pl(b) }.join(';')
    when :loc then v.map { |l| loc(l) }.join(';')
    when :delta then v.map { |d| delta(d) }.join(';')
    when :rawpl then walk(v, :pl).map { |b| pl(b) }.join(';')
    when :rawloc then walk(v, :loc).map { |l| loc(l) }.join(';') + show([v.code, v.comments, v.blanks, v.total])
    when :rawlic then walk(v, :lic).map { |l| l.name }.join(';')
    when :rawdelta then walk(v, :delta).map { |d| delta(d) }.join(';')
    when :locitem then v.map { |i| loc(i.loc) }.join(';')
    when :plitem then v.map { |i| pl(i.pl) }.join(';')
    when :licitem then v.map { |i| show(i.lic.name) }.join(';')
    when :sf then v.map { |s| show([s.filepath, s.polyglot, s.languages, s.licenses]) }.join(';')
    when :str then show(v)
    when :item then v.map { |i| show([i.sf.filename, i.sf.polyglot]) }.join(';')
    end
  end
  def do_lnew(l, paths, files)
    h = {}; h[:paths] = names(paths) if paths; h[:files] = names(files) if files
    @o[l] = h.empty? ? SourceFileList.new : SourceFileList.new(h)
    nil
  end
  def do_lfile(l, f) @o[l].add_file(text(f)); nil end
  def do_ldir(l, d) @o[l].add_directory(text(d)); nil end
  def do_lq(l, kind)
    s = @o[l]
    case kind
    when 'size' then show(s.size)
    when 'each' then a = []; s.each { |f| a << f }; show(a)
    when 'polyglots' then a = []; s.each_source_file { |f| a << f.polyglot }; show(a)
    when 'total' then t = s.analyze_languages; walk(t, :loc).map { |x| loc(x) }.join(';') + show([t.code, t.total])
    when 'walk' then a = []; s.each_source_file { |f| a << f.language_breakdowns.map { |b| [b.name, b.code_count] } << f.licenses }; show(a)
    end
  end
  def do_binary(f) show(Detector.binary_filename?(text(f))) end
  def do_lang(n) m = Ohcount.ohcount_hash_language_from_name(text(n)); m ? show([m.name, m.nice_name, m.category]) : 'nil' end
  def do_drop(x) @o.delete(x); nil end
  def do_gc(flags) RSim.collect(flags) if $collecting; nil end

  # everything is let go; what native memory is then still held? (the collector is asked more than once, from below)
  def do_level; @o.clear; 3.times { RSim.collect(5) }; RSim.live.join(' ') end

  # platforms
  def gestalts(list) list.map { |g| "#{g.type}:#{g.name}:#{g.count}" }.sort.join(' ') end
  def list(mode, dir, files)
    case mode
    when 'dir' then SourceFileList.new(:paths => [dir])
    when 'files' then SourceFileList.new(:files => files)
    else l = SourceFileList.new; files.each { |f| l.add_file(f) }; l
    end
  end
  def do_gest(mode, dir, files, pre)
    if mode == 'each'
      e = Gestalt::GestaltEngine.new; files.each { |f| e.process(SourceFile.new(f)) }; return gestalts(e.calc_gestalts)
    end
    l = list(mode, dir, files)
    case pre
    when 'language' then l.analyze(:language)
    when 'twice' then l.analyze(:gestalt)
    when 'all' then l.analyze; return gestalts(l.gestalts)
    when 'touch' then l.each_source_file { |s| s.languages; s.licenses }
    when 'singles' then l.each_source_file { |s| s.gestalts }
    end
    l.analyze(:gestalt)
    gestalts(l.gestalts)
  end
  def do_single(f) gestalts(SourceFile.new(f).gestalts) end
  # two engines fed alternately
  def do_inter(a, b, cuts)
    e = [Gestalt::GestaltEngine.new, Gestalt::GestaltEngine.new]; q = [a.dup, b.dup]
    cuts.each { |c| f = q[c].shift; e[c].process(SourceFile.new(f)) if f }
    2.times { |i| q[i].each { |f| e[i].process(SourceFile.new(f)) } }
    x = gestalts(e[1].calc_gestalts); y = gestalts(e[0].calc_gestalts)
    y + ' | ' + x
  end

  def run(ops, out, tp)
    ops.each_with_index do |op, i|
      r = nil
      Fiber.new do
        begin
          tp.enable if tp
          r = send('do_' + op[0], *op[1..])
        rescue SystemStackError, NoMemoryError, StandardError => e
          r = "EXC #{e.class}: #{e.message.gsub(/0x\h+/, '0x')}"
        ensure
          tp.disable if tp
        end
      end.resume
      out.write([i, r.to_s.dup.force_encoding('BINARY').inspect].to_json + "\n") unless r.nil?
      r = nil
    end
  end
end

def child(name, ops, collecting, sched, plan)
  rd, wr = IO.pipe
  pid = fork do
    rd.close; wr.sync = true
    File.open('/dev/null', 'w') { |n| $stdout.reopen(n) } 
    Process.setrlimit(Process::RLIMIT_CPU, 60, 60)
    Process.setrlimit(Process::RLIMIT_CORE, 0, 0)
    $stderr.reopen(File.open('child.err', 'w'))
    $collecting = collecting
    RSim.order(plan['order'] || 0) if collecting or plan['prop'] == 'C15'
    RSim.fill(plan['fill'] || 0xa5) if collecting
    tp = nil
    if plan['prop'] != 'C16'
      tp = TracePoint.new(:call, :return, :c_call, :c_return) { |t| RSim.tick(t.method_id.to_s) }
      RSim.start(sched)
    end
    Runner.new.run(ops, wr, tp)
    RSim.stop
    wr.write({ticks: RSim.ticks, ran: RSim.ran, trace: RSim.trace}.to_json + "\n")
    wr.flush
    exit!(0)
  end
  wr.close
  t = rd.read; rd.close
  Process.wait(pid)
  st = $?
  obs = []; tail = {}
  t.each_line { |l| v = JSON.parse(l); v.is_a?(Array) ? obs << v : tail = v }
  err = File.exist?('child.err') ? File.binread('child.err')[0, 300].force_encoding('BINARY').inspect : ''
  {'obs' => obs, 'tail' => tail, 'status' => st.signaled? ? "signal #{st.termsig}" : "exit #{st.exitstatus}", 'err' => st.success? ? '' : err}
end

out = {}
if plan['prop'] == 'C17'
  n = plan['span']
  sched = plan['gc'].map { |f, fl| [1 + (n * f) / 1000000, fl] }.sort.uniq { |a| a[0] }
  out['ref'] = []
  out['run'] = child('run', plan['ops'], true, sched, plan)
elsif plan['prop'] == 'C16'
  out['ref'] = plan['refs'].map { |ops| child('ref', ops, false, [], plan) }
  out['run'] = child('run', plan['ops'], true, [], plan)
else
  ref = child('ref', plan['ops'], false, [], plan)
  n = ref['tail']['ticks'].to_i
  sched = plan['gc'].map { |f, fl| [1 + (n * f) / 1000000, fl] }.sort.uniq { |a| a[0] }
  out['ref'] = [ref]
  out['run'] = child('run', plan['ops'], true, sched, plan)
end
puts out.to_json
