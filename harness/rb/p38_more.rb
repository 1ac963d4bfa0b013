# P38, second part: objectives, evaluations, trees, tuners, intervals, generators, errors, serialization, user data.
require 'p38_ruby'

def fvar(p) E::Variable.new(parameter: p) end

KINDS = [:conf, :feat, :tree]

# a small problem of each kind: what a tuner or an evaluation is made of
class Problem
  attr_reader :kind, :cs, :fs, :ts, :os, :feats, :confs
  def initialize(kind, nobj: 2, types: nil, nconf: 3)
    @kind = kind
    @ps = [fpar("u", lower: -100.0, upper: 100.0), fpar("v", lower: -100.0, upper: 100.0)]
    @os = CCS::ObjectiveSpace.new(name: "os").add_parameters(@ps)
    exprs = [fvar(@ps[0]), E::Add.new(left: fvar(@ps[1]), right: 1.0)][0, nobj]
    exprs.each_with_index { |e, i| @os.add_objective(e, type: (types || [:CCS_OBJECTIVE_TYPE_MINIMIZE] * nobj)[i]) }
    if kind == :tree
      root = CCS::Tree.new(arity: 2, value: "root")
      root.set_child(0, CCS::Tree.new(arity: 0, value: 10))
      root.set_child(1, CCS::Tree.new(arity: 1, value: 1.5))
      @ts = CCS::StaticTreeSpace.new(name: "ts", tree: root)
      @confs = [[], [0], [1]][0, nconf].map { |q| CCS::TreeConfiguration.new(tree_space: @ts, position: q) }
    else
      @cs = CCS::ConfigurationSpace.new(name: "cs").add_parameters([fpar("x"), cpar("k")])
      @confs = [[0.5, "a"], [-1.5, nil], [2.5, 2]][0, nconf].map { |v| CCS::Configuration.new(configuration_space: @cs, values: v) }
    end
    if kind == :feat
      @fs = CCS::FeaturesSpace.new(name: "fs").add_parameter(CCS::CategoricalParameter.new(name: "w", values: ["a", "b"]))
      @feats = ["a", "b"].map { |v| CCS::Features.new(features_space: @fs, values: [v]) }
    end
  end
  def evaluation(ci, values, result: nil, fi: 0)
    a = { objective_space: os, configuration: confs[ci], values: values }
    a[:result] = result if result
    a[:features] = feats[fi] if kind == :feat
    klass.new(**a)
  end
  def klass() { conf: CCS::Evaluation, feat: CCS::FeaturesEvaluation, tree: CCS::TreeEvaluation }[kind] end
  def random_tuner(name)
    case kind
    when :conf then CCS::RandomTuner.new(name: name, configuration_space: cs, objective_space: os)
    when :feat then CCS::RandomFeaturesTuner.new(name: name, configuration_space: cs, features_space: fs, objective_space: os)
    when :tree then CCS::RandomTreeTuner.new(name: name, tree_space: ts, objective_space: os)
    end
  end
  def user_tuner_class() { conf: CCS::UserDefinedTuner, feat: CCS::UserDefinedFeaturesTuner, tree: CCS::UserDefinedTreeTuner }[kind] end
  def spaces
    case kind
    when :conf then { configuration_space: cs, objective_space: os }
    when :feat then { configuration_space: cs, features_space: fs, objective_space: os }
    when :tree then { tree_space: ts, objective_space: os }
    end
  end
  # the features, where calls take them
  def f(i = 0) kind == :feat ? [feats[i]] : [] end
  def fk(i = 0) kind == :feat ? { features: feats[i] } : {} end
end

MIN, MAX = :CCS_OBJECTIVE_TYPE_MINIMIZE, :CCS_OBJECTIVE_TYPE_MAXIMIZE

suite(:objective_spaces) {
  how = choose(5, "objectives added")
  ts = [pick([MIN, MAX]), pick([MIN, MAX])]
  shard_point
  nm = choose(4, "name")
  _, ps = space(0)
  os = fresh(CCS::ObjectiveSpace.new(name: pick_name(nm)), "objective space")
  same([os.num_objectives, os.objectives, os.parameters], [0, [], []], "an empty space")
  if flip("one by one") then ps.each { |p| check(os.add_parameter(p).equal?(os), "add_parameter") } else os.add_parameters(ps) end
  os.add_parameters([])
  es = [E::Add.new(left: fvar(ps[0]), right: 1.5), E::Multiply.new(left: fvar(ps[1]), right: fvar(ps[0]))]
  case how
  when 0 then es.each_with_index { |e, i| check(os.add_objective(e, type: ts[i]).equal?(os), "add_objective") }
  when 1 then check(os.add_objectives(es, types: ts).equal?(os), "add_objectives")
  when 2 then os.add_objectives({ es[0] => ts[0], es[1] => ts[1] })
  when 3
    os.add_objectives(es)
    ts = [MIN, MIN]
  when 4
    os.add_objective(es[0])
    os.add_objectives([es[1]], types: [ts[1]])
    ts = [MIN, ts[1]]
  end
  os.add_objectives([])
  same(refused("types missing") { os.add_objectives(es, types: [MIN]) }.code, -2, "code for types missing")
  obs(how, ts, nm)
  views(os) { |x, w|
    same([x.name, x.num_parameters, x.object_type], [pick_name(nm), 5, :CCS_OBJECT_TYPE_OBJECTIVE_SPACE], "#{w}: name and size")
    same(x.parameters.map(&:name), ps.map(&:name), "#{w}: parameters")
    same(x.num_objectives, 2, "#{w}: number of objectives")
    same(x.objectives.map { |e, t| [e.to_s, t] }, [["f + 1.5", ts[0]], ["i * f", ts[1]]], "#{w}: objectives")
    2.times { |i|
      e, t = x.get_objective(i)
      same([e.to_s, t], [["f + 1.5", ts[0]], ["i * f", ts[1]]][i], "#{w}: objective #{i}")
      same(e, es[i], "#{w}: objective #{i}") if w != "restored copy"
    }
    refused("#{w}: objective 2") { x.get_objective(2) }
    same(x.check_values(ps.map(&:default_value)), true, "#{w}: values")
    same(refused("#{w}: values missing") { x.check_values([1.0]) }.code, -2, "#{w}: code")
  }
}

# pairs of evaluations of each kind
suite(:evaluations) {
  kind = pick(KINDS, "kind")
  ts = pick([[MIN], [MAX], [MIN, MIN], [MIN, MAX]], "objectives")
  shard_point
  vs = [[0.5, 1.0], [2.5, 1.0], [0.5, -3.0]]
  a, b = pick(vs, "first"), pick(vs, "second")
  ra, rb = pick([nil, 0, -1, 7], "result"), pick([nil, -(1 << 31)], "second result")
  pb = Problem.new(kind, nobj: ts.size, types: ts)
  ea, eb = fresh(pb.evaluation(0, a, result: ra), "evaluation"), pb.evaluation(1, b, result: rb)
  score = lambda { |v| [v[0], v[1] + 1.0][0, ts.size] }
  want = if (ra || 0) != 0 || (rb || 0) != 0
           nil
         else
           s = score[a].zip(score[b], ts).map { |x, y, t| t == MIN ? x <=> y : y <=> x }
           s.uniq.include?(-1) && s.uniq.include?(1) ? 2 : s.find { |x| x != 0 } || 0
         end
  obs(kind, ts, a, b, want)
  views(ea, copy: false) { |x, w|
    same(x.class.name, pb.klass.name, "#{w}: class")
    same([x.result, x.values, x.num_values], [ra || 0, a, 2], "#{w}: result and values")
    same([x.objective_space, x.context, x.configuration], [pb.os, pb.os, pb.confs[0]], "#{w}: spaces")
    same(x.features, pb.feats[0], "#{w}: features") if kind == :feat
    same([x.num_objective_values, x.objective_values], [ts.size, score[a]], "#{w}: objective values") 
    same(x.check, true, "#{w}: check")
    same(x.to_h.to_a, ["u", "v"].zip(a), "#{w}: to_h")
    if want.nil?
      same(refused("#{w}: comparison with a failure") { x.compare(eb) }.code, refused("#{w}: <=> with a failure") { x <=> eb }.code, "#{w}: codes")
    else
      same(x.compare(eb), { -1 => :CCS_COMPARISON_BETTER, 0 => :CCS_COMPARISON_EQUIVALENT, 1 => :CCS_COMPARISON_WORSE, 2 => :CCS_COMPARISON_NOT_COMPARABLE }[want], "#{w}: compare")
      same(x <=> eb, want == 2 ? nil : want, "#{w}: <=>")
    end
  }
  same((ea.result = 5), 5, "setting the result")
  same(CCS::Object.from_handle(ea.handle).result, 5, "result set")
  ea.result = 0
  same(ea.result, 0, "result set back")
  pb.os.add_objective(E::Substract.new(left: fvar(pb.os.parameter(0)), right: fvar(pb.os.parameter(1))), type: MAX)
  views(ea, copy: false) { |x, w|
    same([x.num_objective_values, x.objective_values], [ts.size + 1, score[a] + [a[0] - a[1]]], "#{w}: objective values after another objective")
  }
  n = fresh(pb.evaluation(0, nil), "evaluation without values")
  same(n.num_values, 2, "number of values")
  same(refused("no values") { pb.evaluation(0, []) }.code, -2, "code for no values")
  refused("values missing") { pb.evaluation(0, [1.0]) }
}

TVALS = [nil, true, 3, -2.5, "t", "", LONG]
# trees of three levels built in every order, some children missing
suite(:trees) {
  v0, v1, v2 = pick(TVALS, "root"), pick(TVALS, "child"), pick([7, "leaf"], "grandchild")
  shard_point
  order = choose(2, "order")
  ci = choose(3, "place")
  mk = lambda { |v, n| fresh(CCS::Tree.new(value: v, arity: n), "tree") }
  r, c, g = mk[v0, 3], mk[v1, 2], mk[v2, 0]
  same([r.arity, r.depth, r.position, r.parent, r.index, r.children, r.values], [3, 0, [], nil, nil, [nil] * 3, [v0]], "a single tree")
  same([g.children, g.arity], [[], 0], "a leaf")
  if order == 0
    check(r.set_child(ci, c).equal?(r), "set_child")
    c.set_child(1, g)
  else
    c.set_child(1, g)
    r.set_child(ci, c)
  end
  refused("the place is taken") { r.set_child(ci, mk[1, 0]) }
  refused("no such place") { r.set_child(3, mk[1, 0]) }
  refused("the child has a parent") { r.set_child((ci + 1) % 3, g) }
  same([r.weight, r.bias, c.weight, c.bias], [1.0] * 4, "weights and biases by default")
  r2 = CCS::Object.from_handle(r.handle)
  r2.weight, r2.bias = 8.0, 0.5
  same([r.weight, r.bias, r2.weight, r2.bias], [8.0, 0.5] * 2, "weight and bias set through another object")
  r2.bias = 1.0
  same((r.weight = 2.5), 2.5, "weight=")
  same([r2.weight, r2.bias], [2.5, 1.0], "weight and bias set again")
  c.weight = 0.25
  c.bias = 4.5
  g.bias = 1.0
  obs(v0, v1, v2, order, ci)
  views(r) { |x, w|
    x0 = x.get_child(ci)
    x1 = x0.get_child(1)
    same([x.value, x0.value, x1.value], [v0, v1, v2], "#{w}: values of the nodes")
    same([x0.parent.handle.address, x0.index, x1.index, x1.parent.parent.handle.address], [x.handle.address, ci, 1, x.handle.address], "#{w}: parents")
    same([x.depth, x0.depth, x1.depth], [0, 1, 2], "#{w}: depths")
    same([x.position, x0.position, x1.position], [[], [ci], [ci, 1]], "#{w}: positions")
    same([x.values, x0.values, x1.values], [[v0], [v0, v1], [v0, v1, v2]], "#{w}: values")
    same([x.weight, x0.weight, x1.weight], [2.5, 0.25, 1.0], "#{w}: weights")
    same([x.bias, x0.bias, x1.bias], [1.0, 4.5, 1.0], "#{w}: biases")
    same(x.children.map { |k| k && k.handle.address }, (0..2).map { |i| i == ci ? x0.handle.address : nil }, "#{w}: children")
    same(x0.children.map { |k| k && k.value }, [nil, v2], "#{w}: children")
    same(x0.get_child(0), nil, "#{w}: no child")
    refused("#{w}: no such child") { x.get_child(3) }
    [[[], true], [[ci], true], [[ci, 1], true], [[ci, 0], true], [[ci, 2], false], [[(ci + 1) % 3], true], [[3], false], [[ci, 1, 0], false], [[(ci + 1) % 3, 0], false]].each { |q, want|
      ok = MC::LIB && want
      ptr, pos = CCS::MemoryPointer.new(:int32), CCS::MemoryPointer.new(:size_t, [q.size, 1].max)
      pos.write_array_of_size_t(q)
      CCS.error_check CCS.ccs_tree_position_is_valid(x.handle, q.size, pos, ptr)
      same(x.position_is_valid?(q), ptr.read_int32 != 0, "#{w}: position #{q}")
    }
    same(x.position_is_valid?([ci, 1]), true, "#{w}: position of the grandchild")
    same(x.position_is_valid?([ci, 2]), false, "#{w}: no such position")
    same(x.get_values_at_position([ci, 1]), [v0, v1, v2], "#{w}: values at a position")
    same(x.get_values_at_position([]), [v0], "#{w}: values at the root")
    same(x.get_node_at_position([ci, 1]).handle.address, x1.handle.address, "#{w}: node at a position")
    same(x.get_node_at_position([]).handle.address, x.handle.address, "#{w}: node at the root")
    refused("#{w}: no such position") { x.get_node_at_position([ci, 2]) }
    refused("#{w}: no such position") { x.get_values_at_position([4]) }
    ra, rb, rc = CCS::Rng.new, CCS::Rng.new, CCS::Rng.new
    [ra, rb, rc].each { |q| q.seed = 3 }
    raw = CCS::MemoryPointer.new(:size_t, 40)
    CCS.error_check CCS.ccs_tree_samples(x.handle, rc.handle, 40, raw)
    want = raw.read_array_of_uint64(40).map { |k| k == 3 ? nil : k }
    same(x.samples(ra, 40), want, "#{w}: samples")
    same(40.times.map { x.sample(rb) }.sort_by(&:to_i).uniq - [nil, 0, 1, 2], [], "#{w}: each sample is a child")
    same(x.samples(ra, 0), [], "#{w}: no samples")
  }
}

# static and dynamic tree spaces: the same nodes, one given, one grown by a callback
suite(:tree_spaces) {
  dyn = flip("dynamic")
  data = dyn ? pick([nil, false, "data", 12, [1, 2]], "data") : nil
  nm = choose(4, "name")
  shard_point
  state = dyn ? choose(3, "state") : 0
  fail_at = dyn ? choose(4, "failure") : 0
  calls = []
  deleted = []
  seen_state = []
  mk = lambda { |t| CCS::Tree.new(value: t.size * 10 + (t.last || 0), arity: t.size >= 2 ? 0 : 2) }
  root = mk[[]]
  if dyn
    gc = lambda { |sp, parent, i|
      calls.push [sp.class.name, parent.position, i]
      raise "no child" if fail_at == 1 && parent.position == [1]
      raise CCS::CCSError, :CCS_RESULT_ERROR_NOT_ENOUGH_DATA if fail_at == 2 && parent.position == [1]
      mk[parent.position + [i]]
    }
    ser = state == 0 ? nil : lambda { |sp, size| state == 1 ? FFI::MemoryPointer.from_string("") : FFI::MemoryPointer.from_string("state\0more") }
    des = state == 0 ? nil : lambda { |sp, st| seen_state.push(st && st.read_bytes(st.size)) }
    cbs = { del: lambda { |sp| deleted.push [sp.class.name, sp.tree_space_data] }, get_child: gc, serialize: ser, deserialize: des }
    sp = CCS::DynamicTreeSpace.new(name: pick_name(nm), tree: root, tree_space_data: data, **cbs)
    same(refused("no callback") { CCS::DynamicTreeSpace.new(name: "n", tree: mk[[]]) }.code, -2, "code without callback")
  else
    2.times { |i|
      c = mk[[i]]
      2.times { |j| c.set_child(j, mk[[i, j]]) }
      root.set_child(i, c)
    }
    sp = CCS::StaticTreeSpace.new(name: pick_name(nm), tree: root)
  end
  fresh(sp, "tree space")
  obs(dyn, data, nm, state, fail_at)
  rng = CCS::Rng.new
  rng.seed = 5
  r0 = sp.rng
  sp.rng = rng
  same(sp.rng, rng, "rng")
  CCS::Object.from_handle(sp.handle).rng = r0
  same(sp.rng, r0, "rng set through another object")
  sp.rng = rng
  same(sp.rng, rng, "rng set again")
  all = [[], [0], [1], [0, 0], [0, 1], [1, 0], [1, 1]]
  chk = lambda { |x, w|
    same(x.class.name, dyn ? "CCS::DynamicTreeSpace" : "CCS::StaticTreeSpace", "#{w}: class")
    same([x.name, x.type, x.object_type], [pick_name(nm), dyn ? :CCS_TREE_SPACE_TYPE_DYNAMIC : :CCS_TREE_SPACE_TYPE_STATIC, :CCS_OBJECT_TYPE_TREE_SPACE], "#{w}: name and type")
    same(x.tree_space_data, data, "#{w}: data") if dyn
    same(x.tree.value, 0, "#{w}: tree")
    all.each { |q|
      bad = q.size == 2 && q[0] == 1 && [1, 2].include?(fail_at)
      if bad
        e = refused("#{w}: a failing callback") { x.get_node_at_position(q) }
        same(e.code, fail_at == 1 ? CCS::CCSError.to_native(:CCS_RESULT_ERROR_EXTERNAL) : CCS::CCSError.to_native(:CCS_RESULT_ERROR_NOT_ENOUGH_DATA), "#{w}: code of a failing callback")
        check(fail_at == 2 || e.message.include?("no child"), "#{w}: message of a failing callback: #{e.message}")
        check(e.backtrace.any? { |l| l.include?("p38_more.rb") }, "#{w}: place of a failing callback")
        refused("#{w}: values under a failing callback") { x.get_values_at_position(q) }
        next
      end
      n = x.get_node_at_position(q)
      same(n.position, q, "#{w}: node at #{q}")
      vals = (0..q.size).map { |k| k * 10 + (q[0, k].last || 0) }
      same(n.values, vals, "#{w}: values of the node at #{q}")
      same(x.get_values_at_position(q), vals, "#{w}: values at #{q}")
      same(x.check_position(q), true, "#{w}: check_position #{q}")
      tc = fresh(CCS::TreeConfiguration.new(tree_space: x, position: q), "tree configuration")
      views(tc, copy: false) { |t, w2|
        same([t.position, t.position_size, t.values], [q, q.size, vals], "#{w}: #{w2}: position and values")
        same([t.check, x.check_configuration(t)], [true, true], "#{w}: #{w2}: check")
        same([t.node.handle.address, t.tree_space.handle.address], [n.handle.address, x.handle.address], "#{w}: #{w2}: node and space")
      }
      o = CCS::TreeConfiguration.new(tree_space: x, position: q)
      same([tc <=> o, tc == o, tc.hash == o.hash], [0, true, true], "#{w}: equal configurations")
      all.each { |q2|
        next if q == q2 || (q2.size == 2 && q2[0] == 1 && [1, 2].include?(fail_at))
        o = CCS::TreeConfiguration.new(tree_space: x, position: q2)
        c1, c2 = tc <=> o, o <=> tc
        check(c1 != 0 && c2 != 0 && (c1 < 0) == (c2 > 0), "#{w}: comparison of #{q} and #{q2}: #{c1}, #{c2}")
        same(tc == o, false, "#{w}: == of #{q} and #{q2}")
      } if q.size == 1
    }
    same(x.check_position([2]), false, "#{w}: no such position")
    same(x.check_position([0, 1, 0]), false, "#{w}: no such position")
    refused("#{w}: no such position") { x.get_node_at_position([2]) }
    bad = CCS::TreeConfiguration.new(tree_space: x, position: [0, 2])
    same([bad.position, bad.check, x.check_configuration(bad)], [[0, 2], false, false], "#{w}: no such configuration")
    next if [1, 2].include?(fail_at)
    x.rng.seed = 11
    s1 = x.samples(5)
    x.rng.seed = 11
    s2 = x.samples(5)
    same(s1.map(&:position), s2.map(&:position), "#{w}: samples")
    s1.each { |s| fresh(s, "sample"); check(all.include?(s.position) && s.check, "#{w}: sample #{s.position}") }
    same(x.samples(0), [], "#{w}: no samples")
    check(all.include?(fresh(x.sample, "sample").position), "#{w}: sample")
  }
  views(sp, copy: false, &chk)
  same(sp.tree, root, "tree")
  if dyn
    same(calls.map { |_, q, i| [q, i] }.uniq.sort, [[[], 0], [[], 1], [[0], 0], [[0], 1], [[1], 0], [[1], 1]].sort, "calls")
    check(fail_at != 0 || calls.size == 6, "a child was asked for #{calls.size} times")
    same(calls.map(&:first).uniq, ["CCS::DynamicTreeSpace"], "space given to the callback")
  end
  # a restored copy
  if dyn
    bare = CCS::DynamicTreeSpace.new(name: "bare", tree: mk[[]], get_child: lambda { |q, parent, i| mk[parent.position + [i]] })
    same([bare.tree_space_data, bare.get_values_at_position([1, 0])], [nil, [0, 11, 20]], "space with the mandatory callback only")
    same(refused("no callback") { CCS::DynamicTreeSpace.deserialize(buffer: sp.serialize) }.code, -2, "code without callback")
    c = CCS::DynamicTreeSpace.deserialize(buffer: sp.serialize, tree_space_data: data, **cbs)
    same(seen_state, state == 0 ? [] : [state == 1 ? "\0".b : "state\0more\0".b], "state given back")
    same(c.refcount, 1, "references of a restored copy") if state == 0
    chk[c, "restored copy"]
    same(c.serialize.size, sp.serialize.size, "size of the copy")
    MC.owners.reverse!
    sp = c = nil
    MC.release_all
    same(deleted, [["CCS::DynamicTreeSpace", data]] * 2, "spaces deleted")
  else
    c = CCS.deserialize(buffer: sp.serialize)
    chk[c, "restored copy"]
  end
}

# random tuners of each kind
suite(:random_tuners) {
  kind = pick(KINDS, "kind")
  nm = choose(4, "name")
  shard_point
  vs = [[0.5, 1.0], [2.5, 1.0], [0.5, -3.0]]
  told = (0...tier_bound(2, 3)).map { |i| [choose(3, "configuration"), pick(vs, "values"), kind == :feat ? choose(2, "features") : 0, pick([nil, 3], "result")] }
  how = choose(2, "told together")
  pb = Problem.new(kind)
  t = fresh(pb.random_tuner(pick_name(nm)), "tuner")
  same([t.history, t.optima, t.history_size, t.num_optima], [[], [], 0, 0], "a new tuner")
  evs = told.map { |c, v, f, r| pb.evaluation(c, v, fi: f, result: r) }
  if how == 0 then check(t.tell(evs).equal?(t), "tell") else evs.each { |e| t.tell([e]) } end
  obs(kind, told)
  evs = evs.each_index.select { |i| told[i][3].nil? }.map { |i| evs[i] }
  told = told.select { |q| q[3].nil? }
  good = told.each_index.select { |i| told[i][3].nil? }
  best = good.select { |i|
    a = told[i][1]
    same_f = good.select { |j| told[j][2] == told[i][2] }
    same_f.none? { |j| b = told[j][1]; b != a && b[0] <= a[0] && b[1] <= a[1] } && same_f.none? { |j| j < i && told[j][1] == a }
  }
  views(t) { |x, w|
    same([x.class.name, x.name], [t.class.name, pick_name(nm)], "#{w}: class and name")
    same(x.objective_space.name, "os", "#{w}: objective space")
    if kind == :tree then same(x.tree_space.name, "ts", "#{w}: tree space") else same(x.configuration_space.name, "cs", "#{w}: space") end
    same(x.features_space.name, "fs", "#{w}: features space") if kind == :feat
    copied = w == "restored copy"
    same(x.history_size, told.size, "#{w}: size of the history")
    same(x.history.map(&:values), told.map { |q| q[1] }, "#{w}: history")
    same(x.history.map(&:result), told.map { |q| q[3] || 0 }, "#{w}: results")
    same(x.history, evs, "#{w}: history") unless copied
    if kind == :feat
      2.times { |f|
        fe = copied ? { features: CCS::Features.new(features_space: x.features_space, values: [["a", "b"][f]]) } : pb.fk(f)
        at = told.each_index.select { |i| told[i][2] == f }
        same([x.history_size(**fe), x.history(**fe).map(&:values)], [at.size, at.map { |i| told[i][1] }], "#{w}: history of features #{f}")
        same(x.history(**fe), at.map { |i| evs[i] }, "#{w}: history of features #{f}") unless copied
        bf = best & at
        same(x.num_optima(**fe), bf.size, "#{w}: number of optima of features #{f}")
        same(x.optima(**fe).map(&:values).sort, bf.map { |i| told[i][1] }.sort, "#{w}: optima of features #{f}")
      }
    end
    unless kind == :feat
      same(x.num_optima, best.size, "#{w}: number of optima")
      same(x.optima.map(&:values).sort, best.map { |i| told[i][1] }.sort, "#{w}: optima")
    end
    fa = kind == :feat ? [copied ? CCS::Features.new(features_space: x.features_space, values: ["a"]) : pb.feats[0]] : []
    a = x.ask(*fa)
    same(a.size, 1, "#{w}: ask")
    same(x.ask(*fa, 3).size, 3, "#{w}: ask for 3")
    (a + x.ask(*fa, 3)).each { |c| fresh(c, "asked"); same(c.class.name, kind == :tree ? "CCS::TreeConfiguration" : "CCS::Configuration", "#{w}: asked"); check(c.check, "#{w}: asked an invalid configuration") }
    s = x.suggest(*fa)
    check(s.check, "#{w}: suggested an invalid configuration")
    bf = best.select { |i| kind != :feat || told[i][2] == 0 }
    unless copied || bf.empty?
      check(bf.map { |i| pb.confs[told[i][0]].handle.address }.include?(s.handle.address), "#{w}: suggested no optimum")
    end
    x.tell([]) if w == "object"
  }
}

class TData
  attr_accessor :log, :history, :optima
  def initialize() @log, @history, @optima = [], [], [] end
end

# user-defined tuners of each kind: every callback, every outcome
suite(:user_tuners) {
  kind = pick(KINDS, "kind")
  out = pick([:ok, :raise, :ccs, :lib], "outcome of the callback")
  which = pick([:ask, :tell, :get_optima, :get_history, :suggest], "callback")
  shard_point
  asked, given = pick([1, 3], "asked"), pick([0, 1, 3], "given")
  nopt = choose(3, "optima")
  has = choose(2, "suggest given")
  ud = pick([:none, "user", [1, { "k" => nil }]], "user data")
  state = choose(3, "state")
  prune if out == :ok && which != :ask
  prune if which == :suggest && has == 0
  prune if out != :ok && (given != 1 || nopt != 1 || asked != 1)
  pb = Problem.new(kind)
  d = TData.new
  deleted = []
  states = []
  fail_in = out == :ok ? nil : which
  oops = lambda { |n|
    next unless fail_in == n
    case out
    when :raise then raise ArgumentError, "100% wrong in #{n}"
    when :ccs then raise CCS::CCSError, :CCS_RESULT_ERROR_NOT_ENOUGH_DATA
    when :lib then pb.os.get_objective(99)
    end
  }
  nf = lambda { |a| a.map { |q| q.nil? ? nil : q.respond_to?(:values) ? q.values : q } }
  ask = lambda { |t, *a|
    t.tuner_data.log.push [:ask, t.class.name, nf[a]]
    oops[:ask]
    a.last ? [pb.confs[0, given], [given, a.last].min == given ? given : given] : [nil, 2]
  }
  tell = lambda { |t, es|
    t.tuner_data.log.push [:tell, es.map(&:values)]
    oops[:tell]
    t.tuner_data.history.concat es
    t.tuner_data.optima = t.tuner_data.history[0, nopt]
  }
  get_optima = lambda { |t, *a|
    t.tuner_data.log.push [:optima, nf[a]]
    oops[:get_optima]
    t.tuner_data.optima
  }
  get_history = lambda { |t, *a|
    t.tuner_data.log.push [:history, nf[a]]
    oops[:get_history]
    t.tuner_data.history
  }
  suggest = lambda { |t, *a|
    t.tuner_data.log.push [:suggest, nf[a]]
    oops[:suggest]
    pb.confs[2]
  }
  ser = state == 0 ? nil : lambda { |t, size| FFI::MemoryPointer.from_string(state == 1 ? "" : "a\0b") }
  des = state == 0 ? nil : lambda { |t, h, o, st|
    states.push [h.map(&:values), o.map(&:values), st && st.read_bytes(st.size)]
    t.tuner_data.history = h
    t.tuner_data.optima = o
  }
  cbs = { del: lambda { |t| deleted.push t.class.name }, ask: ask, tell: tell, get_optima: get_optima, get_history: get_history, suggest: has == 1 ? suggest : nil, serialize: ser, deserialize: des }
  t = fresh(pb.user_tuner_class.new(name: "tuner", **pb.spaces, **cbs, tuner_data: d), "tuner")
  [:ask, :tell, :get_optima, :get_history].each { |k|
    same(refused("#{k} missing") { pb.user_tuner_class.new(name: "tuner", **pb.spaces, **cbs.merge(k => nil)) }.code, -2, "code for #{k} missing")
  }
  obs(kind, out, which, asked, given, nopt, has, ud, state)
  t.user_data = ud unless ud == :none
  evs = [0, 1, 2].map { |i| pb.evaluation(i, [i + 0.5, -i - 0.5], fi: i % 2) }
  # a call, failing if told to
  run = lambda { |n, w, &b|
    if fail_in == n
      e = refused("#{w}: #{n} failing") { b.call }
      code = { raise: :CCS_RESULT_ERROR_EXTERNAL, ccs: :CCS_RESULT_ERROR_NOT_ENOUGH_DATA, lib: :CCS_RESULT_ERROR_OUT_OF_BOUNDS }[out]
      same(e.code, CCS::CCSError.to_native(code), "#{w}: code of a failing #{n}")
      check(out != :raise || (e.message.include?("100% wrong in #{n}") && !e.message.include?("%%")), "#{w}: message of a failing #{n}: #{e.message}")
      check(e.backtrace.any? { |l| l.include?("p38_more.rb") }, "#{w}: place of a failing #{n}")
      nil
    else
      b.call
    end
  }
  drive = lambda { |x, w|
    dd = x.tuner_data
    dd.log.clear
    fa, fk, fv = pb.f, pb.fk, kind == :feat ? [["a"]] : []
    same(x.tuner_data.class.name, "TData", "#{w}: data")
    if given > asked
      refused("#{w}: more given than asked") { x.ask(*fa, asked) }
    else
      g = run[:ask, w] { x.ask(*fa, asked) }
      same(g, pb.confs[0, given], "#{w}: configurations given") if g
    end
    same(dd.log.shift, [:ask, x.class.name, fv + [asked]], "#{w}: ask callback")
    ev = w == "restored copy" ? nil : evs
    if ev
      run[:tell, w] { check(x.tell(ev).equal?(x), "tell") }
      same(dd.log.shift, [:tell, ev.map(&:values)], "#{w}: tell callback")
      same(dd.log, [], "#{w}: no other callback")
    end
    h = run[:get_history, w] { x.history(**fk) }
    o = run[:get_optima, w] { x.optima(**fk) }
    failed = fail_in == :tell
    wh = failed ? [] : evs.map(&:values)
    wh = wh + wh if w == "second object"
    same(h.map(&:values), wh, "#{w}: history") if h
    same(o.map(&:values), wh[0, nopt], "#{w}: optima") if o
    same(run[:get_history, w] { x.history_size(**fk) } || wh.size, wh.size, "#{w}: size of the history")
    same(run[:get_optima, w] { x.num_optima(**fk) } || wh[0, nopt].size, wh[0, nopt].size, "#{w}: number of optima")
    check(dd.log.all? { |q| q[1] == fv || (kind != :feat && q[1] == []) }, "#{w}: callbacks #{dd.log}")
    check((dd.log.map(&:first) - [:history, :optima]).empty?, "#{w}: callbacks #{dd.log}")
    if kind == :feat
      dd.log.clear
      run[:get_history, w] { x.history }
      run[:get_optima, w] { x.optima }
      check(dd.log.all? { |q| q[1] == [nil] }, "#{w}: callbacks without features #{dd.log}")
    end
    dd.log.clear
    if has == 1
      s = run[:suggest, w] { x.suggest(*fa) }
      same(s, pb.confs[2], "#{w}: suggested") if s
      same(dd.log, [[:suggest, fv]], "#{w}: suggest callback")
    else
      same(refused("#{w}: no suggest callback") { x.suggest(*fa) }.code, CCS::CCSError.to_native(:CCS_RESULT_ERROR_UNSUPPORTED_OPERATION), "#{w}: code without suggest")
    end
  }
  views(t, copy: false) { |x, w| drive[x, w] }
  same(t.user_data, ud == :none ? nil : ud, "user data")
  if out == :ok || which == :ask || which == :suggest
    d2 = TData.new
    buf = t.serialize
    wh = evs.map(&:values) * 2
    c = pb.user_tuner_class.deserialize(buffer: buf, **cbs, tuner_data: d2)
    same(c.refcount, 1, "references of a restored tuner") if state == 0 && ud == :none && !d2.log.any?
    same([c.name, c.class.name], ["tuner", pb.user_tuner_class.name], "name and class of a restored tuner")
    same(c.tuner_data.equal?(d2), true, "data of a restored tuner")
    same(c.user_data, ud == :none ? nil : ud, "user data of a restored tuner")
    if state == 0
      same(d2.log.map { |q| q[0] }, d2.log.map { :tell }, "callbacks while restoring")
      same(c.history.map(&:values), wh, "history of a restored tuner")
    else
      same(states, [[wh, wh[0, nopt], state == 1 ? "\0".b : "a\0b\0".b]], "state given back")
      same([c.history.map(&:values), c.optima.map(&:values)], [wh, wh[0, nopt]], "history and optima of a restored tuner")
    end
    [:ask, :tell, :get_optima, :get_history].each { |k|
      same(refused("#{k} missing") { pb.user_tuner_class.deserialize(buffer: buf, **cbs.merge(k => nil)) }.code, -2, "code for #{k} missing")
    }
    nodata = pb.user_tuner_class.deserialize(buffer: buf, **cbs.merge(tell: lambda { |*a| nil }, deserialize: nil, serialize: nil)) if state == 0
    same(nodata.tuner_data, nil, "no data given to a restored tuner") if nodata
  end
  if out == :ok
    # buffers larger than what the callbacks give: the rest is cleared
    bare = pb.user_tuner_class.new(name: "bare", **pb.spaces, ask: cbs[:ask], tell: tell, get_optima: get_optima, get_history: get_history, tuner_data: t.tuner_data)
    pre = { conf: "ccs_tuner", feat: "ccs_features_tuner", tree: "ccs_tree_tuner" }[kind]
    size = 9
    fa = pb.f.map(&:handle)
    { ask: pb.confs[0, given], get_history: t.tuner_data.history, get_optima: t.tuner_data.optima }.each { |fn, want|
      buf = FFI::MemoryPointer.new(:pointer, size)
      buf.write_bytes("\xA5" * 8 * size)
      num = FFI::MemoryPointer.new(:size_t)
      CCS.error_check CCS.send("#{pre}_#{fn}", bare.handle, *fa, size, buf, num)
      hs = buf.read_array_of_pointer(size)
      same(hs.map(&:address), want.map { |x| x.handle.address } + [0] * (size - want.size), "#{fn} in a larger buffer")
      same(num.read(:size_t), want.size, "#{fn}: number")
      hs[0, want.size].each { |x| CCS.ccs_release_object(x) } if fn == :ask
    }
  end
  MC.release_all
  n = 1 + (c ? 1 : 0) + (nodata ? 1 : 0)
  same(deleted, [pb.user_tuner_class.name] * n, "tuners deleted")
}
