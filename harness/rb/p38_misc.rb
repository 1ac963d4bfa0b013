# P38, third part: intervals, generators, errors, user data, callbacks and channels of serialization.
require 'p38_more'
require 'tempfile'
require 'weakref'

def raw_interval(x)
  [x.type, x.lower, x.upper, x.lower_included?, x.upper_included?]
end

# all pairs of small intervals
suite(:intervals) {
  t = pick([:CCS_NUMERIC_TYPE_INT, :CCS_NUMERIC_TYPE_FLOAT], "type")
  int = t == :CCS_NUMERIC_TYPE_INT
  pts = int ? [-2, 0, 3, IntMax] : [-2.5, 0.0, 3.5, INF]
  mk = lambda {
    lo, hi, li, ui = pick(pts, "lower"), pick(pts, "upper"), flip("lower included"), flip("upper included")
    [[lo, hi, li, ui], CCS::Interval.new(type: t, lower: lo, upper: hi, lower_included: li, upper_included: ui)]
  }
  a, ia = mk[]
  shard_point
  b, ib = mk[]
  bounds = lambda { |(lo, hi, li, ui)| # as a closed integer interval, or the same over floats
    int ? [li ? lo : lo + 1, ui ? hi : hi - 1, true, true] : [lo, hi, li, ui]
  }
  empty = lambda { |x| lo, hi, li, ui = bounds[x]; lo > hi || (lo == hi && !(li && ui)) }
  inc = lambda { |x, v| lo, hi, li, ui = x; (li ? v >= lo : v > lo) && (ui ? v <= hi : v < hi) }
  same(raw_interval(ia), [t, *a], "interval")
  same(ia.empty?, empty[a], "empty? of #{a}")
  same(ia.to_s, "#{a[2] ? "[" : "("} #{a[0]}, #{a[1]} #{a[3] ? "]" : ")"}", "to_s")
  probe = int ? [-3, -2, -1, 0, 1, 2, 3, 4, IntMax, IntMax - 1] : [-3.0, -2.5, -1.0, 0.0, 1e-300, 3.5, 4.0, INF]
  probe.each { |v| same(ia.include?(v), inc[a, v], "include? #{v} of #{a}") }
  c = ia.intersect(ib)
  same(c.type, t, "type of the intersection")
  probe.each { |v| same(c.include?(v), inc[a, v] && inc[b, v], "intersection of #{a} and #{b} at #{v}") }
  same([raw_interval(ia), raw_interval(ib)], [[t, *a], [t, *b]], "intervals after an intersection")
  x, y = bounds[a], bounds[b]
  eq = (empty[a] && empty[b]) || (!empty[a] && !empty[b] && x == y)
  same([ia == ib, ib == ia], [eq, eq], "#{a} == #{b}")
  obs(a, b, eq)
  ia.lower, ia.upper = b[0], b[1]
  ia.lower_included, ia.upper_included = b[2], b[3]
  same(raw_interval(ia), [t, *b], "interval set")
  d = CCS::Interval.new(type: t, lower: pts[0], upper: pts[1])
  same(raw_interval(d), [t, pts[0], pts[1], true, false], "default ends")
  same(refused("no type") { CCS::Interval.new(type: :CCS_NUM_NUMERIC_TYPE) }.code, CCS::CCSError.to_native(:CCS_RESULT_ERROR_INVALID_TYPE), "code without type")
}

suite(:rngs) {
  s1, s2 = pick([0, 1, 42, (1 << 32) - 1, 1 << 32, (1 << 63) - 1], "seed"), pick([0, 1, 7], "second seed")
  shard_point
  ops = (0...4).map { choose(3, "call") }
  a, b = fresh(CCS::Rng.new, "rng"), CCS::Rng.new
  raw = lambda { |op|
    case op
    when 0 then p = CCS::MemoryPointer.new(:ulong); CCS.error_check CCS.ccs_rng_get(b.handle, p); p.read_ulong
    when 1 then p = CCS::MemoryPointer.new(:double); CCS.error_check CCS.ccs_rng_uniform(b.handle, p); p.read_double
    when 2 then CCS.error_check CCS.ccs_rng_set_seed(b.handle, s2); s2
    end
  }
  a.seed = s1
  CCS.error_check CCS.ccs_rng_set_seed(b.handle, s1)
  obs(s1, s2, ops)
  ops.each { |op|
    got = case op
          when 0 then a.get
          when 1 then a.uniform
          when 2 then (a.seed = s2)
          end
    same(got, raw[op], "call #{op}")
  }
  views(a) { |x, w|
    p = CCS::MemoryPointer.new(:ulong)
    CCS.error_check CCS.ccs_rng_min(x.handle, p)
    same(x.min, p.read_ulong, "#{w}: min")
    CCS.error_check CCS.ccs_rng_max(x.handle, p)
    same(x.max, p.read_ulong, "#{w}: max")
  }
  c = CCS.deserialize(buffer: a.serialize)
  8.times { same(a.get, c.get, "a restored generator") }
}

suite(:errors) {
  code = -choose(30, "code") - 1
  msg = pick([nil, "", "plain", "100% %s %n", LONG], "message")
  shard_point
  n = choose(4, "places")
  sym = CCS::Error.from_native(code, nil)
  prune unless sym.is_a?(Symbol)
  places = [["file.rb", 3, "meth"], ["", 0, ""], [LONG, (1 << 31) - 1, "f\xC3\xA9"]][0, n]
  st = fresh(CCS::ErrorStack.new(error: sym, message: msg), "error stack")
  places.each { |f, l, m| check(st.push(f, l, m).equal?(st), "push") }
  obs(code, msg, n)
  views(st, copy: false) { |x, w|
    same(x.code, sym, "#{w}: code")
    same(x.message, msg, "#{w}: message") if msg
    same(x.elems.map { |e| [e.file, e.line, e.func] }, places, "#{w}: places")
  }
  same(CCS.get_thread_error, nil, "no error of the thread")
  CCS.set_thread_error(st)
  e = begin CCS.error_check(sym); nil; rescue CCS::CCSError => x; x; end
  same([e.code, e.to_native, e.error_stack.handle.address], [code, code, st.handle.address], "error raised")
  check(msg.nil? || e.message == "#{sym}:#{msg.empty? ? "" : " "}#{msg}", "message of the error: #{e.message[0, 200]}")
  same(e.backtrace[0, n], places.map { |f, l, m| "#{f}:#{l}:in `#{m}'" }, "places of the error")
  same(CCS.get_thread_error, nil, "the error was taken")
  CCS.set_thread_error(st)
  CCS.clear_thread_error
  same(CCS.get_thread_error, nil, "the error was cleared")
}

def push_fresh(st, i)
  st.push(("f" + i.to_s) * 2000, i, ("g" + i.to_s) * 3000)
end

def fresh_datum(k)
  case k
  when 0 then [CCS::Datum.from_value("datum" * 2000), nil]
  when 1 then o = ipar; [CCS::Datum.from_value(o), WeakRef.new(o)]
  end
end

# strings and objects given to the bindings, after the collector ran; first a datum alone
suite(:collected_datums) {
  k = choose(2, "kind")
  shard_point
  d, r = fresh_datum(k)
  10000.times { |i| "z" * 100 }
  GC.enable
  GC.start
  GC.disable
  obs(k)
  2000.times { |i| "q" * 10000 }
  if k == 0
    same(d.value, "datum" * 2000, "string after a collection")
  else
    check(r.weakref_alive?, "an object held by a datum was collected")
  end
}

def collect
  10000.times { |i| "z" * 100 }
  GC.enable
  GC.start
  GC.disable
  2000.times { |i| "q" * 1000; lambda { i }; [i] }
end

def fresh_tuner(kind, restored)
  pb = Problem.new(kind)
  cbs = { ask: lambda { |t, *a| [t.tuner_data[0][0, 2], 2] }, tell: lambda { |t, es| t.tuner_data[1].concat es },
          get_optima: lambda { |t, *a| t.tuner_data[1][0, 1] }, get_history: lambda { |t, *a| t.tuner_data[1] },
          suggest: lambda { |t, *a| t.tuner_data[0][2] }, serialize: lambda { |t, size| FFI::MemoryPointer.from_string("state") },
          deserialize: lambda { |t, h, o, st| t.tuner_data[1].concat h } }
  t = pb.user_tuner_class.new(name: "t", **pb.spaces, **cbs, tuner_data: [pb.confs.dup, []])
  t.tell([pb.evaluation(0, [1.0, 2.0])])
  t = pb.user_tuner_class.deserialize(buffer: t.serialize, **cbs, tuner_data: [pb.confs.dup, []]) if restored
  [t, pb]
end

def fresh_tree_space(restored)
  cbs = { get_child: lambda { |sp, parent, i| CCS::Tree.new(value: sp.tree_space_data[i], arity: 2) },
          serialize: lambda { |t, size| FFI::MemoryPointer.from_string("state") }, deserialize: lambda { |t, st| } }
  t = CCS::DynamicTreeSpace.new(name: "t", tree: CCS::Tree.new(value: "r", arity: 2), **cbs, tree_space_data: ["a" * 2, "b" * 2])
  t = CCS::DynamicTreeSpace.deserialize(buffer: t.serialize, **cbs, tree_space_data: ["a" * 2, "b" * 2]) if restored
  t
end

def attach(o, seen, gc)
  o.user_data = ["user", "da" + "ta"]
  o.set_serialize_callback(user_data: "x" + "y") { |obj, cb, size| FFI::MemoryPointer.from_string(obj.user_data.join + cb) }
  2.times { |i| o.set_destroy_callback { |obj, data| collect if gc; seen.push [i, obj.user_data] } }
end

# callbacks and data that only the bindings still refer to, after the collector ran
suite(:collected_callbacks) {
  k = choose(5, "object")
  restored = k < 4 && flip("restored")
  shard_point
  att = flip("callbacks and user data attached")
  rounds = choose(2, "collections") + 1
  gc = att && flip("collection while objects are destroyed")
  seen = []
  case k
  when 0..2 then o, pb = fresh_tuner(KINDS[k], restored)
  when 3 then o = fresh_tree_space(restored)
  when 4 then o = ipar
  end
  attach(o, seen, gc) if att
  obs(k, restored, att, rounds)
  rounds.times { |r|
    collect
    if k < 3
      f, fk = pb.f, pb.fk
      if k == 1 && restored
        f = [CCS::Features.new(features_space: o.features_space, values: f[0].values)]
        fk = { features: f[0] }
      end
      same([o.ask(*f, 2), o.history(**fk).map(&:values), o.num_optima(**fk), o.suggest(*f)], [pb.confs[0, 2], [[1.0, 2.0]] * (r + 1), 1, pb.confs[2]], "tuner after a collection")
      o.tell([pb.evaluation(0, [1.0, 2.0])])
    elsif k == 3
      p = [r, r]
      same(o.get_values_at_position(p), ["r"] + ["aa", "bb"].values_at(*p), "tree space after a collection")
    end
    same(o.user_data, att ? ["user", "data"] : nil, "user data after a collection")
    b = nil
    if att && k > 2
      got = nil
      if k == 3
        o.serialize
      else
        CCS::Object.deserialize(buffer: o.serialize, callback: lambda { |obj, st, cb| got = st.read_string })
        same(got, "userdataxy", "what the callback wrote after a collection")
      end
    end
  }
  MC.release_all
  same(seen.sort, att ? [[0, ["user", "data"]], [1, ["user", "data"]]] : [], "destroy callbacks after a collection")
}

# callbacks of the state of user-defined objects that fail
suite(:failing_states) {
  k = choose(4, "object")
  out = pick([:raise, :ccs, :lib], "outcome")
  shard_point
  where = choose(2, "writing or reading")
  ch = choose(3, "channel")
  bad = [true]
  oops = lambda {
    next unless bad[0]
    case out
    when :raise then raise ArgumentError, "100% wrong"
    when :ccs then raise CCS::CCSError, :CCS_RESULT_ERROR_NOT_ENOUGH_DATA
    when :lib then ipar.sample(CCS::Rng.new).foo rescue raise CCS::CCSError, :CCS_RESULT_ERROR_OUT_OF_BOUNDS
    end
  }
  st = { serialize: lambda { |t, size| oops[] if where == 0; FFI::MemoryPointer.from_string("s") },
         deserialize: lambda { |*a| oops[] if where == 1 } }
  if k < 3
    pb = Problem.new(KINDS[k])
    cbs = { ask: lambda { |t, *a| [[], 0] }, tell: lambda { |t, es| }, get_optima: lambda { |t, *a| [] }, get_history: lambda { |t, *a| [] } }
    o = pb.user_tuner_class.new(name: "t", **pb.spaces, **cbs, **st)
  else
    cbs = { get_child: lambda { |sp, parent, i| CCS::Tree.new(value: i, arity: 2) } }
    o = CCS::DynamicTreeSpace.new(name: "t", tree: CCS::Tree.new(value: "r", arity: 2), **cbs, **st)
  end
  obs(k, out, where, ch)
  klass = o.class
  round = lambda {
    case ch
    when 0 then klass.deserialize(buffer: o.serialize, **cbs, **st)
    when 1 then Dir.mktmpdir { |d| o.serialize(path: "#{d}/o"); klass.deserialize(path: "#{d}/o", **cbs, **st) }
    when 2 then Tempfile.create("p38") { |f| f.binmode; o.serialize(file_descriptor: f.fileno); f.rewind; klass.deserialize(file_descriptor: f.fileno, **cbs, **st) }
    end
  }
  e = refused("a failing callback") { round[] }
  code = { raise: :CCS_RESULT_ERROR_EXTERNAL, ccs: :CCS_RESULT_ERROR_NOT_ENOUGH_DATA, lib: :CCS_RESULT_ERROR_OUT_OF_BOUNDS }[out]
  same(e.code, CCS::CCSError.to_native(code), "code of a failing callback")
  check(out != :raise || (e.message.include?("100% wrong") && !e.message.include?("%%")), "message of a failing callback: #{e.message}")
  check(e.backtrace.any? { |l| l.include?("p38_misc.rb") }, "place of a failing callback")
  bad[0] = false
  same(round[].name, "t", "the same call once the callback works")
}

# strings given to an error stack, after the collector ran
suite(:error_strings) {
  n = choose(3, "places") + 1
  msg = flip("long message")
  shard_point
  st = CCS::ErrorStack.new(error: :CCS_RESULT_ERROR_EXTERNAL, message: msg ? "m" + "%" * 2000 : "m")
  (0...n).each { |i| push_fresh(st, i) }
  10000.times { |i| "z" * 100 }
  GC.enable
  GC.start
  GC.disable
  obs(n, msg)
  2000.times { |i| "q" * 6000 }
  same(st.elems.map { |e| [e.file, e.line, e.func] }, (0...n).map { |i| [("f" + i.to_s) * 2000, i, ("g" + i.to_s) * 3000] }, "places after a collection")
  same(st.message, msg ? "m" + "%" * 2000 : "m", "message after a collection")
}

UD = [nil, false, true, 0, -1, 1.5, "", "a\nb", "\xC3\xA9".b.force_encoding("UTF-8"), LONG, :sym, [], [1, nil, false], { "k" => [1.5], 2 => nil }, "false", "~", "1"]

# user data of every kind on each kind of object, twice, through another object and through serialization
suite(:user_data) {
  k = choose(6, "object")
  u1, u2 = pick(UD, "user data"), pick(UD, "second user data")
  shard_point
  ch = choose(3, "channel")
  o = case k
      when 0 then CCS::Rng.new
      when 1 then ipar
      when 2 then CCS::ConfigurationSpace.new(name: "s").add_parameters([ipar, fpar])
      when 3 then CCS::Tree.new(arity: 1, value: 1)
      when 4 then Problem.new(:conf).random_tuner("t")
      when 5 then E::Add.new(left: 1, right: 2)
      end
  same(o.user_data, nil, "no user data")
  same((o.user_data = u1), u1, "user_data=")
  w = CCS::Object.from_handle(o.handle)
  same([o.user_data, w.user_data], [u1, u1], "user data")
  w.user_data = u2
  same([o.user_data, w.user_data], [u2, u2], "second user data")
  obs(k, u1, u2, ch)
  c = channel(o, ch)
  same(c.user_data, u2, "user data of a restored copy")
  same(o.user_data, u2, "user data after serialization")
  c.user_data = u1
  same([c.user_data, o.user_data], [u1, u2], "user data of the copy set")
}

def channel(o, ch, ser: {}, des: {})
  klass = CCS::Object
  case ch
  when 0 then klass.deserialize(buffer: o.serialize(**ser), **des)
  when 1
    Dir.mktmpdir { |d|
      same(o.serialize(path: "#{d}/o", **ser), nil, "serialize to a path")
      klass.deserialize(path: "#{d}/o", **des)
    }
  when 2
    Tempfile.create("p38") { |f|
      f.binmode
      same(o.serialize(file_descriptor: f.fileno, **ser), nil, "serialize to a descriptor")
      f.rewind
      klass.deserialize(file_descriptor: f.fileno, **des)
    }
  when 3
    b = o.serialize(**ser)
    CCS.deserialize(buffer: b, **des)
  end
end

# callbacks of serialization: given to the call, attached to the object, or the default; each outcome
suite(:serialize_callbacks) {
  how = choose(4, "callback")  # none, given, attached, both
  out = pick([:ok, :empty, :raise, :ccs], "outcome")
  dout = pick([:ok, :raise, :ccs, :none], "outcome of reading")
  shard_point
  ch = choose(4, "channel")
  data = pick([nil, false, 7, "cb", [1]], "callback data")
  part = flip("a part has user data")
  ps = [ipar, fpar]
  o = CCS::ConfigurationSpace.new(name: "s").add_parameters(ps)
  who = part ? ps[1] : o
  who.user_data = "ud"
  calls = []
  payload = out == :empty ? "" : "pay\0load"
  mk = lambda { |tag|
    lambda { |obj, cb, size|
      calls.push [tag, obj.class.name, obj.user_data, cb, size]
      raise "cannot write" if out == :raise
      raise CCS::CCSError, :CCS_RESULT_ERROR_NOT_ENOUGH_DATA if out == :ccs
      FFI::MemoryPointer.from_string(payload)
    }
  }
  read = []
  rd = lambda { |obj, s, cb|
    read.push [obj.class.name, s && s.read_bytes(s.size), cb]
    raise "cannot read" if dout == :raise
    raise CCS::CCSError, :CCS_RESULT_ERROR_NOT_ENOUGH_DATA if dout == :ccs
    obj.user_data = "restored"
  }
  who.set_serialize_callback(user_data: data, &mk[:attached]) if how >= 2
  ser = how == 1 || how == 3 ? { callback: mk[:given], callback_data: data } : {}
  prune if how == 0 && (out != :ok || dout != :ok || !data.nil?)
  des = how == 0 ? {} : dout == :none ? {} : { callback: rd, callback_data: data }
  prune if how != 0 && dout == :none
  obs(how, out, dout, ch, data, part)
  code = { raise: :CCS_RESULT_ERROR_EXTERNAL, ccs: :CCS_RESULT_ERROR_NOT_ENOUGH_DATA }
  if how != 0 && code[out]
    e = refused("writing with a failing callback") { channel(o, ch, ser: ser, des: des) }
    same(e.code, CCS::CCSError.to_native(code[out]), "code of a failing callback")
    check(out != :raise || e.message.include?("cannot write"), "message of a failing callback: #{e.message}")
  elsif how != 0 && code[dout]
    e = refused("reading with a failing callback") { channel(o, ch, ser: ser, des: des) }
    same(e.code, CCS::CCSError.to_native(code[dout]), "code of a failing callback")
    check(dout != :raise || e.message.include?("cannot read"), "message of a failing callback: #{e.message}")
  else
    c = channel(o, ch, ser: ser, des: des)
    pc = lambda { |x| part ? x.parameter(1) : x }
    if how == 0
      same(pc[c].user_data, "ud", "user data restored by default")
    else
      same(pc[c].user_data, "restored", "user data restored")
      same(read, [[who.class.name, (payload + "\0").b, data]], "callback of reading")
      tag = how == 1 ? :given : :attached
      same(calls.map { |q| q[0, 4] }.uniq, [[tag, who.class.name, "ud", data]], "callback of writing")
      same(calls.last[4], false, "the last callback writes")
    end
    same((part ? c : pc[c]).num_parameters, 2, "the copy") 
  end
  if how >= 2
    who.set_serialize_callback
    calls.clear
    c = channel(o, ch)
    same((part ? c.parameter(1) : c).user_data, "ud", "user data once the callback is gone")
    same(calls, [], "the callback is gone")
  end
  same(who.user_data, "ud", "user data of the original")
}

suite(:destroy_callbacks) {
  k = choose(4, "object")
  n = choose(4, "callbacks")
  shard_point
  ud = flip("user data")
  extra = choose(3, "other references")
  pb = Problem.new(:conf)
  deleted = []
  o = case k
      when 0 then CCS::Rng.new
      when 1 then CCS::ConfigurationSpace.new(name: "s").add_parameters([ipar, fpar])
      when 2 then CCS::Tree.new(arity: 1, value: 1)
      when 3
        d = TData.new
        pb.user_tuner_class.new(name: "t", **pb.spaces, tuner_data: d, del: lambda { |t| deleted.push t.name }, ask: lambda { |*a| [[], 0] }, tell: lambda { |*a| }, get_optima: lambda { |*a| [] }, get_history: lambda { |*a| [] })
      end
  seen = []
  o.user_data = "x" if ud
  n.times { |i| check(o.set_destroy_callback { |obj, data| seen.push [i, obj.class.name, obj.handle.address, obj.user_data, data.null?] }.equal?(o), "set_destroy_callback") }
  same(refused("no block") { o.set_destroy_callback }.code, -2, "code without block")
  extra.times { CCS::Object.from_handle(o.handle) }
  same(o.refcount, 1 + extra, "references")
  obs(k, n, ud, extra)
  same(seen, [], "nothing destroyed")
  addr, cls = o.handle.address, o.class.name
  MC.release_all
  same(seen.sort, (0...n).map { |i| [i, cls, addr, ud ? "x" : nil, true] }, "destroy callbacks")
  same(deleted, k == 3 ? ["t"] : [], "tuners deleted")
}

# wrong arguments of serialization
suite(:serialize_refusals) {
  i = choose(9)
  shard_point
  o = ipar
  b = o.serialize
  obs(i)
  inv = -2
  Dir.mktmpdir { |d|
    e = refused("call #{i}") {
      case i
      when 0 then o.serialize(format: :text)
      when 1 then o.serialize(path: "#{d}/a", file_descriptor: 1)
      when 2 then CCS::Object.deserialize
      when 3 then CCS::Object.deserialize(buffer: b, path: "#{d}/a")
      when 4 then CCS::Object.deserialize(buffer: b, format: :text)
      when 5 then CCS::Object.deserialize(path: "#{d}/none")
      when 6 then o.serialize(path: "#{d}/none/none")
      when 7 then CCS::Object.deserialize(buffer: b.slice(0, b.size - 1))
      when 8 then CCS::Object.deserialize(file_descriptor: 1, path: "#{d}/a")
      end
    }
    same(e.code, inv, "code") if [0, 1, 2, 3, 4, 8].include?(i)
    check(Dir.empty?(d), "a refused call left files")
  }
}

# the map of handles given to a restoration
suite(:handle_maps) {
  k = choose(3, "object")
  shard_point
  given = flip("map with entries")
  ps = [ipar, fpar]
  o = case k
      when 0 then ps[0]
      when 1 then CCS::ConfigurationSpace.new(name: "s").add_parameters(ps)
      when 2 then Problem.new(:conf).random_tuner("t")
      end
  m = CCS::Map.new
  m["key"] = 1 if given
  c = CCS::Object.deserialize(buffer: o.serialize, handle_map: m)
  obs(k, given)
  idx = CCS::Object.new(o.handle, retain: false, auto_release: false)
  check(m.size >= 1, "the map is empty")
  same(m[idx].handle.address, c.handle.address, "copy of the object in the map")
  same(m["key"], 1, "other entry") if given
}

# every list of every size
suite(:sizes) {
  n = choose(tier_bound(7, 40), "size") + 1
  kind = pick(KINDS, "kind")
  shard_point
  ps = (0...n).map { |i| fpar("p#{i}", default: i * 0.1) }
  vs = (0...n).map { |i| 0.0625 * i - 1.0 }
  cs = CCS::ConfigurationSpace.new(name: "c").add_parameters(ps)
  fs = CCS::FeaturesSpace.new(name: "f").add_parameters(ps)
  os = CCS::ObjectiveSpace.new(name: "o").add_parameters(ps)
  os.add_objectives(ps.map { |p| fvar(p) }, types: (0...n).map { |i| i.odd? ? MAX : MIN })
  cf = CCS::Configuration.new(configuration_space: cs, values: vs)
  ft = CCS::Features.new(features_space: fs, values: vs)
  tr = CCS::Tree.new(arity: n, value: "r")
  n.times { |i| tr.set_child(i, CCS::Tree.new(arity: 0, value: i)) }
  ts = CCS::StaticTreeSpace.new(name: "t", tree: tr)
  tc = CCS::TreeConfiguration.new(tree_space: ts, position: [n - 1])
  ev = case kind
       when :conf then CCS::Evaluation.new(objective_space: os, configuration: cf, values: vs)
       when :feat then CCS::FeaturesEvaluation.new(objective_space: os, configuration: cf, features: ft, values: vs)
       when :tree then CCS::TreeEvaluation.new(objective_space: os, configuration: tc, values: vs)
       end
  obs(n, kind)
  [cf, ft, ev].each { |b|
    same([b.num_values, b.values, b.to_h.to_a], [n, vs, (0...n).map { |i| ["p#{i}", vs[i]] }], "values of a #{b.class}")
    b.set_values(vs.reverse)
    same(b.values, vs.reverse, "values set in a #{b.class}")
    b.set_values(vs)
    same(b.check, true, "check of a #{b.class}")
  }
  same(ev.objective_values, vs, "objective values")
  same(os.objectives.map { |e, t| [e.to_s, t] }, (0...n).map { |i| ["p#{i}", i.odd? ? MAX : MIN] }, "objectives")
  [cs, fs, os].each { |s| same([s.parameters, s.check_values(vs)], [ps, true], "parameters") }
  same(cs.samples(n).size, n, "samples")
  same(tr.children.map(&:value), (0...n).to_a, "children")
  same([tc.values, ts.get_values_at_position([n - 1])], [["r", n - 1]] * 2, "values of a tree configuration")
  same(tr.samples(CCS::Rng.new, n).size, n, "samples of a tree")
  # as deep as wide
  d = (0..n).map { |i| CCS::Tree.new(arity: 1, value: i) }
  d.each_cons(2) { |a, b| a.set_child(0, b) }
  same([d[n].position, d[n].values, d[n].depth], [[0] * n, (0..n).to_a, n], "a chain")
  dt = CCS::TreeConfiguration.new(tree_space: CCS::StaticTreeSpace.new(name: "d", tree: d[0]), position: [0] * n)
  same([dt.position, dt.values], [[0] * n, (0..n).to_a], "position at the end of a chain")
  l = E::List.new(values: (0...n).map { |i| i * 2 })
  n.times { |i| same(l.eval(i), i * 2, "element of a list") }
  same(l.num_nodes, n, "nodes of a list")
  c = CCS::CategoricalParameter.new(name: "k", values: (0...n).map { |i| "v#{i}" }, default_index: n - 1)
  same([c.values, c.default_value, c.check_values(c.values)], [(0...n).map { |i| "v#{i}" }, "v#{n - 1}", [true] * n], "values of a parameter")
  ua = (0...n).map { |i| CCS::UniformDistribution::Float.new(lower: i.to_f, upper: i + 1.0) }
  mv, mx = CCS::MultivariateDistribution.new(distributions: ua), CCS::MixtureDistribution.new(distributions: ua, weights: [1.0] * n)
  same([mv.distributions, mx.distributions], [ua, ua], "distributions")
  same(mv.dimension, n, "dimension")
  same(mx.weights.map { |x| (x * n).round(9) }, [1.0] * n, "weights")
  ro = CCS::RouletteDistribution.new(areas: (1..n).map(&:to_f))
  same(ro.areas.map { |x| (x * n * (n + 1) / 2).round(9) }, (1..n).map(&:to_f), "areas")
  r = CCS::Rng.new
  s = mv.samples(r, n)
  check(s.size == n && s.all? { |v| [v].flatten.each_with_index.all? { |x, i| x >= i && x < i + 1 } }, "samples of a multivariate distribution")
  pb = Problem.new(kind, nconf: 1)
  t = pb.random_tuner("t")
  es = (0...n).map { |i| pb.evaluation(0, [i.to_f, -i.to_f]) }
  t.tell(es)
  same([t.history, t.optima.map(&:values).sort, t.ask(*pb.f, n).size], [es, es.map(&:values).sort, n], "history, optima and ask")
}
