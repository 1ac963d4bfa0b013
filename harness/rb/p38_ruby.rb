# P38: the Ruby bindings pass on and report exactly what the library holds.
require 'rbmc'
require 'cconfigspace'
require 'tmpdir'
require 'fileutils'
CCS.init

P = CCS::Parameter
E = CCS::Expression
IntMax, IntMin = (1 << 63) - 1, -(1 << 63)
INF = ::Float::INFINITY
LONG = "x" * 5000

# the object itself, another object on the same handle, and a restored copy
def views(o, copy: true)
  yield o, "object"
  n = o.refcount
  w = CCS::Object.from_handle(o.handle)
  check(w.class == o.class, "from_handle gave a #{w.class} for a #{o.class}")
  check(o.refcount == n + 1, "a second object on the handle took #{o.refcount - n} references")
  yield w, "second object"
  if copy
    c = CCS.deserialize(buffer: o.serialize)
    check(c.class == o.class, "a restored copy is a #{c.class}, not a #{o.class}")
    check(c.refcount == 1, "a restored copy has #{c.refcount} references")
    yield c, "restored copy"
  end
end

def fresh(o, what)
  check(o.refcount == 1, "#{what}: a new object has #{o.refcount} references")
  o
end

def fpar(name = "f", lower: -5.0, upper: 5.0, default: 0.5) CCS::NumericalParameter::Float.new(name: name, lower: lower, upper: upper, default: default) end
def ipar(name = "i") CCS::NumericalParameter::Int.new(name: name, lower: -3, upper: 9, default: 2) end
def cpar(name = "c", values = ["a", 2, 1.5, true, nil]) CCS::CategoricalParameter.new(name: name, values: values, default_index: 1) end

VALUES = [nil, true, false, CCS::Inactive, 0, 1, -1, 2, IntMax, IntMin, 0.0, -0.0, 1.5, -2.25, INF, ::Float::NAN, "", "a", "b c", "\xC3\xA9", LONG]

suite(:codes) {
  c = choose(34) - 31
  ptr = CCS::MemoryPointer.new(:pointer)
  f = Fiddle::Function.new(MC::LIB["ccs_get_result_name"], [Fiddle::TYPE_INT, Fiddle::TYPE_VOIDP], Fiddle::TYPE_INT)
  r = f.call(c, ptr.address)
  sym = CCS::Error.from_native(c, nil)
  obs(c, sym)
  if r == 0
    same(sym.to_s, ptr.read_pointer.read_string, "name of code #{c}")
    same(CCS::CCSError.to_native(sym), c, "code of #{sym}")
    next if c >= 0
    e = begin CCS.error_check(sym); nil; rescue CCS::CCSError => x; x; end
    check(e, "code #{c} raised nothing")
    same(e.code, c, "code of the exception for #{c}")
    check(e.message.start_with?("#{sym}:"), "message of #{c}: #{e.message}")
  else
    check(!sym.is_a?(Symbol), "#{c} is no result code but the bindings name it #{sym}")
  end
}

# every kind of value, in and out, twice through the same datum, and as an element of a map
suite(:datums) {
  mk = lambda { |i|
    case i - VALUES.size
    when 0 then CCS::Rng.new
    when 1 then ipar
    when 2 then CCS::Object.new(FFI::Pointer.new(0x123450), retain: false, auto_release: false)
    else VALUES[i]
    end
  }
  i, j = choose(VALUES.size + 3, "first"), choose(VALUES.size + 3, "second")
  shard_point
  a, b = mk[i], mk[j]
  same(CCS::Datum.from_value(a).value, a, "datum")
  d = CCS::Datum.new
  d.value = a
  same(d.value, a, "datum after a value")
  check(d.flags == CCS::Datum.from_value(a).flags, "flags of a datum set to #{a.inspect}")
  d.value = b
  same(d.value, b, "datum after two values")
  check(d.flags == CCS::Datum.from_value(b).flags, "flags of a datum set to #{b.inspect} after #{a.inspect}")
  ss, os = [], []
  d2 = CCS::Datum.new.set_value(a, string_store: ss, object_store: os)
  same(d2.value, a, "datum with stores")
  m = CCS::Map.new
  m[a] = b
  obs(i, j)
  nan = a.is_a?(::Float) && a.nan?
  same(m[a], b, "map element") unless nan
  same(m.include?(a), true, "key is there") unless nan
  same(m.keys, [a], "keys")
  same(m.values, [b], "values")
  same(m.pairs, [[a, b]], "pairs")
  same(m.size, 1, "size")
  same(CCS::Datum::NONE.value, nil, "none")
  same(CCS::Datum::TRUE.value, true, "true")
  same(CCS::Datum::FALSE.value, false, "false")
  same(CCS::Datum::INACTIVE.value, CCS::Inactive, "inactive")
}

suite(:map_histories) {
  keys = [1, "k", nil, 1.0]
  m = CCS::Map.new
  ref = {}
  n = tier_bound(4, 5)
  n.times { |t|
    k = pick(keys, "key")
    shard_point if t == 1
    v = pick([t, "v#{t}", nil], "value")
    m[k] = v
    ref[k] = v
  }
  views(m) { |x, w|
    same(x.size, ref.size, "#{w}: size")
    p = x.pairs
    check(p.map { |a| val(a) }.sort_by(&:inspect) == ref.to_a.map { |a| val(a) }.sort_by(&:inspect), "#{w}: pairs #{p} are not #{ref.to_a}")
    same(x.keys, p.map(&:first), "#{w}: keys")
    same(x.values, p.map(&:last), "#{w}: values")
    got = []
    r = x.each { |a, b| got.push [a, b] }
    same(got, p, "#{w}: each")
    same(x.each.to_a, p, "#{w}: each without a block")
    same(x.each_key.to_a, p.map(&:first), "#{w}: each_key")
    same(x.each_value.to_a, p.map(&:last), "#{w}: each_value")
    keys.each { |k|
      same(x.include?(k), ref.key?(k), "#{w}: include? #{k.inspect}")
      if ref.key?(k)
        same(x[k], ref[k], "#{w}: element #{k.inspect}")
      else
        same(x[k], nil, "#{w}: missing element #{k.inspect}")
      end
    }
  }
  obs(ref)
  e = CCS::Map.new
  same([e.size, e.keys, e.values, e.pairs], [0, [], [], []], "empty map")
}

NAMES = ["p", "", "a b", "\xC3\xA9t\xC3\xA9", LONG, :s, :a_b, :x1?, :a!]

suite(:numerical) {
  name = pick(NAMES, "name")
  shard_point
  if flip("float")
    lo, hi, q, d = pick([[0.0, 1.0, 0.0, 0.0], [-2.5, 7.0, 0.5, 1.5], [-INF, INF, 0.0, 3.25], [1e-300, 1e300, 0.0, 1.0], [-0.0, 4.0, 0.0, 3.5], [0.0, 5e-324, 0.0, 0.0]])
    o = CCS::NumericalParameter::Float.new(name: name, lower: lo, upper: hi, quantization: q, default: d)
    t, klass = :CCS_NUMERIC_TYPE_FLOAT, CCS::NumericalParameter::Float
    ok, ko = [d, [lo, -1e308].max], [hi == INF ? "a" : hi, 1, nil, true, "a", CCS::Inactive, ::Float::NAN]
  else
    lo, hi, q, d = pick([[0, 100, 0, 0], [-5, 7, 2, 3], [IntMin / 2 + 1, IntMax / 2, 0, -1], [-1, 2, 0, 1]])
    o = CCS::NumericalParameter::Int.new(name: name, lower: lo, upper: hi, quantization: q, default: d)
    t, klass = :CCS_NUMERIC_TYPE_INT, CCS::NumericalParameter::Int
    ok, ko = [d, lo, hi - 1], [hi, lo - 1, 0.5, nil, true, "a", CCS::Inactive]
  end
  fresh(o, "parameter")
  obs(name, lo, hi, q, d)
  views(o) { |x, w|
    check(x.class == klass, "#{w} is a #{x.class}")
    same(x.type, :CCS_PARAMETER_TYPE_NUMERICAL, "#{w}: type")
    same(x.object_type, :CCS_OBJECT_TYPE_PARAMETER, "#{w}: object type")
    2.times {
      same([x.name, x.lower, x.upper, x.quantization, x.default_value, x.data_type], [name, lo, hi, q, d, t], "#{w}: properties")
    }
    ok.each { |v| same(x.check_value(v), true, "#{w}: #{v.inspect} is a value") }
    ko.each { |v| same(x.check_value(v), false, "#{w}: #{v.inspect} is no value") }
    same(x.check_values(ok + ko), [true] * ok.size + [false] * ko.size, "#{w}: check_values")
    same(x.check_values([]), [], "#{w}: check_values of nothing")
    next if lo == -INF || hi == 1e300
    dd = x.default_distribution
    fresh(dd, "default distribution")
    same([dd.lower, dd.upper, dd.data_type], [lo, hi, t], "#{w}: default distribution")
    r1, r2 = CCS::Rng.new, CCS::Rng.new
    r1.seed = 7
    r2.seed = 7
    if q == 0
      same(x.samples(5, rng: r1), dd.samples(r2, 5), "#{w}: samples")
      same(x.sample(rng: r1), dd.sample(r2), "#{w}: sample") if t == :CCS_NUMERIC_TYPE_INT || lo == 0.0
      same(x.sample(distribution: dd, rng: r1), dd.sample(r2), "#{w}: sample") if t == :CCS_NUMERIC_TYPE_INT
    end
    same(x.samples(0), [], "#{w}: no samples")
    check(x.samples(20).all? { |v| x.check_value(v) }, "#{w}: a sample is no value")
  }
  check(o == CCS::Object.from_handle(o.handle) && o != ipar, "equality of parameters")
}

suite(:valued) {
  name = pick(NAMES, "name")
  shard_point
  kind = choose(4, "kind")
  if kind == 3
    o = fresh(CCS::StringParameter.new(name: name), "string parameter")
    views(o) { |x, w|
      same([x.name, x.type, x.default_value], [name, :CCS_PARAMETER_TYPE_STRING, ""], "#{w}: string parameter") if x.default_value.is_a?(String)
      same(x.name, name, "#{w}: name")
      same(x.type, :CCS_PARAMETER_TYPE_STRING, "#{w}: type")
      same(x.check_values(["", "a", LONG, 1, nil]), [true, true, true, false, false], "#{w}: check_values")
    }
    obs(name)
    next
  end
  all = kind == 2 ? [-3, -1, 0, 2, IntMax] : ["a", 2, "b c", 1.5, true, nil, LONG, false, ""]
  n = pick([1, 2, all.size], "how many")
  at = choose(n, "default")
  vals = all[0, n]
  klass, type = [[CCS::CategoricalParameter, :CCS_PARAMETER_TYPE_CATEGORICAL], [CCS::OrdinalParameter, :CCS_PARAMETER_TYPE_ORDINAL],
                 [CCS::DiscreteParameter, :CCS_PARAMETER_TYPE_DISCRETE]][kind]
  o = fresh(klass.new(name: name, values: vals, default_index: at), "parameter")
  obs(name, kind, n, at)
  out = [77, "zz", CCS::Inactive, 7.25] + (all - vals)
  views(o) { |x, w|
    check(x.class == klass, "#{w} is a #{x.class}")
    2.times {
      same([x.name, x.type, x.default_value, x.values], [name, type, vals[at], vals], "#{w}: properties")
    }
    same(x.check_values(vals + out), [true] * n + [false] * out.size, "#{w}: check_values")
    (vals + out).each { |v| same(x.check_value(v), vals.include?(v), "#{w}: check_value #{v.inspect}") }
    if kind == 1
      n.times { |i| n.times { |j| same(x.compare(vals[i], vals[j]), i <=> j, "#{w}: order of #{vals[i].inspect} and #{vals[j].inspect}") } }
      same(refused("comparing no value") { x.compare(vals[0], 77) }.code, -2, "#{w}: code")
    end
    d = fresh(x.default_distribution, "default distribution")
    r1, r2 = CCS::Rng.new, CCS::Rng.new
    r1.seed, r2.seed = 3, 3
    want = d.samples(r2, 8)
    want = want.map { |k| vals[k] }
    same(x.samples(8, rng: r1), want, "#{w}: samples")
    check(vals.include?(x.sample), "#{w}: sample is no value")
  }
  same(refused("no values") { klass.new(name: name, values: []) }.code, -2, "code for no values")
  same(refused("default out of range") { klass.new(name: name, values: vals, default_index: n) }.code, -2, "code for the default")
}

def dist(i)
  case i
  when 0 then CCS::UniformDistribution::Float.new
  when 1 then CCS::UniformDistribution::Int.new
  when 2 then CCS::UniformDistribution::Float.new(lower: 1.0, upper: 100.0, scale: :CCS_SCALE_TYPE_LOGARITHMIC, quantization: 0.5)
  when 3 then CCS::UniformDistribution::Int.new(lower: 1, upper: 1000, scale: :CCS_SCALE_TYPE_LOGARITHMIC, quantization: 3)
  when 4 then CCS::NormalDistribution::Float.new
  when 5 then CCS::NormalDistribution::Int.new
  when 6 then CCS::NormalDistribution::Float.new(mu: -1.5, sigma: 0.25, quantization: 0.125)
  when 7 then CCS::NormalDistribution::Int.new(mu: 5.5, sigma: 2.0, quantization: 2)
  when 8 then CCS::NormalDistribution::Float.new(mu: 1.0, sigma: 0.5, scale: :CCS_SCALE_TYPE_LOGARITHMIC)
  when 9 then CCS::RouletteDistribution.new(areas: [1.0])
  when 10 then CCS::RouletteDistribution.new(areas: [1.0, 2.0, 0.5, 0.5])
  end
end
NDIST = 11
F, I = :CCS_NUMERIC_TYPE_FLOAT, :CCS_NUMERIC_TYPE_INT
LIN, LOG = :CCS_SCALE_TYPE_LINEAR, :CCS_SCALE_TYPE_LOGARITHMIC
DPROPS = [[F, 0.0, 1.0, LIN, 0.0], [I, 0, 100, LIN, 0], [F, 1.0, 100.0, LOG, 0.5], [I, 1, 1000, LOG, 3],
          [F, 0.0, 1.0, LIN, 0.0], [I, 0.0, 1.0, LIN, 0], [F, -1.5, 0.25, LIN, 0.125], [I, 5.5, 2.0, LIN, 2], [F, 1.0, 0.5, LOG, 0.0], [I], [I]]

def raw_samples(d, n, seed)
  r = CCS::Rng.new
  r.seed = seed
  k = d.dimension
  ptr = CCS::MemoryPointer.new(:double, n * k)
  CCS.error_check CCS.ccs_distribution_samples(d.handle, r.handle, n, ptr)
  t = CCS::MemoryPointer.new(:int32, k)
  CCS.error_check CCS.ccs_distribution_get_data_types(d.handle, t)
  n.times.map { |i| a = k.times.map { |j| t.get_int32(4 * j) == 2 ? ptr.get_double(8 * (i * k + j)) : ptr.get_int64(8 * (i * k + j)) }; k == 1 ? a[0] : a }
end

def seeded(s)
  r = CCS::Rng.new
  r.seed = s
  r
end

def dcommon(x, w, types)
  same([x.dimension, x.data_types], [types.size, types], "#{w}: dimension and types")
  same(x.samples(seeded(11), 6), raw_samples(x, 6, 11), "#{w}: samples")
  same(x.samples(seeded(11), 0), [], "#{w}: no samples")
  same(x.sample(seeded(12)), raw_samples(x, 1, 12)[0], "#{w}: sample")
  ptr = CCS::MemoryPointer.new(40, types.size)
  CCS.error_check CCS.ccs_distribution_get_bounds(x.handle, ptr)
  want = types.size.times.map { |i|
    p = ptr + 32 * i
    fl = p.get_int32(0) == 2
    [fl ? F : I, fl ? p.get_double(8) : p.get_int64(8), fl ? p.get_double(16) : p.get_int64(16), p.get_int32(24) != 0, p.get_int32(28) != 0]
  }
  b = x.bounds
  b = [b] unless types.size > 1
  same(b.map { |i| [i.type, i.lower, i.upper, i.lower_included?, i.upper_included?] }, want, "#{w}: bounds")
end

suite(:distributions) {
  i = choose(NDIST, "distribution")
  shard_point
  d = fresh(dist(i), "distribution")
  obs(i)
  t, a, b, sc, q = DPROPS[i]
  views(d) { |x, w|
    dcommon(x, w, [t])
    same(x.data_type, t, "#{w}: data type")
    case i
    when 0..3 then same([x.type, x.lower, x.upper, x.scale, x.quantization], [:CCS_DISTRIBUTION_TYPE_UNIFORM, a, b, sc, q], "#{w}: properties")
    when 4..8 then same([x.type, x.mu, x.sigma, x.scale, x.quantization], [:CCS_DISTRIBUTION_TYPE_NORMAL, a, b, sc, q], "#{w}: properties")
    else
      same(x.type, :CCS_DISTRIBUTION_TYPE_ROULETTE, "#{w}: type")
      same([x.num_areas, x.areas], i == 9 ? [1, [1.0]] : [4, [0.25, 0.5, 0.125, 0.125]], "#{w}: areas")
    end
    [[0, 2, true, false], [-5000, 5000, true, true], [1, 1000, true, false]].each { |lo, hi, li, ui|
      lo, hi = lo.to_f, hi.to_f if t == F
      iv = CCS::Interval.new(type: t, lower: lo, upper: hi, lower_included: li, upper_included: ui)
      ptr = CCS::MemoryPointer.new(:int32)
      CCS.error_check CCS.ccs_distribution_check_oversampling(x.handle, iv, ptr)
      same(x.oversampling?(iv), ptr.read_int32 != 0, "#{w}: oversampling")
    }
  }
}

suite(:composite) {
  i, j, k = choose(NDIST, "first"), choose(NDIST, "second"), choose(3, "third")
  shard_point
  multi = flip("multivariate")
  ds = [i, j]
  ds.push 4 if k == 1
  ds.push i if k == 2
  types = ds.map { |n| DPROPS[n][0] }
  prune if !multi && types.uniq.size > 1
  parts = ds.map { |n| dist(n) }
  ws = multi ? nil : pick([nil, [1.0, 3.0, 4.0][0, ds.size]], "weights")
  d = multi ? CCS::MultivariateDistribution.new(distributions: parts) : CCS::MixtureDistribution.new(distributions: parts, weights: ws)
  obs(ds, multi, ws)
  fresh(d, "distribution")
  views(d) { |x, w|
    dcommon(x, w, multi ? types : types[0, 1])
    same(x.type, multi ? :CCS_DISTRIBUTION_TYPE_MULTIVARIATE : :CCS_DISTRIBUTION_TYPE_MIXTURE, "#{w}: type")
    same(x.num_distributions, ds.size, "#{w}: number")
    got = x.distributions
    same(got.map(&:class).map(&:name), parts.map(&:class).map(&:name), "#{w}: classes")
    same(got, parts, "#{w}: parts") if w != "restored copy"
    got.each_with_index { |g, n| same(raw_samples(g, 3, 5), raw_samples(parts[n], 3, 5), "#{w}: part #{n}") }
    unless multi
      s = (ws || [1.0] * ds.size)
      sum = s.inject(:+)
      x.weights.each_with_index { |g, n| check((g - s[n] / sum).abs < 1e-12, "#{w}: weight #{n} is #{g}") }
      same(x.weights.size, ds.size, "#{w}: weights")
    end
  }
  if multi
    ivs = types.map { |t| CCS::Interval.new(type: t, lower: t == F ? 0.0 : 0, upper: t == F ? 2.0 : 2) }
    n = d.dimension
    raw, got = CCS::MemoryPointer.new(32, n), CCS::MemoryPointer.new(:int32, n)
    ivs.each_with_index { |v, q| raw.put_bytes(32 * q, v.to_ptr.read_bytes(32)) }
    CCS.error_check CCS.ccs_distribution_check_oversampling(d.handle, raw, got)
    same(d.oversampling?(ivs), got.read_array_of_int32(n).map { |b| b != 0 }, "oversampling")
    same(refused("intervals missing") { d.oversampling?(ivs[0, 1]) }.code, -2, "code for intervals missing")
  end
  same(refused("weights missing") { CCS::MixtureDistribution.new(distributions: parts, weights: [1.0]) }.code, -2, "code")
}

BIN = { Or: :CCS_EXPRESSION_TYPE_OR, And: :CCS_EXPRESSION_TYPE_AND, Equal: :CCS_EXPRESSION_TYPE_EQUAL, NotEqual: :CCS_EXPRESSION_TYPE_NOT_EQUAL,
        Less: :CCS_EXPRESSION_TYPE_LESS, Greater: :CCS_EXPRESSION_TYPE_GREATER, LessOrEqual: :CCS_EXPRESSION_TYPE_LESS_OR_EQUAL,
        GreaterOrEqual: :CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, Add: :CCS_EXPRESSION_TYPE_ADD, Substract: :CCS_EXPRESSION_TYPE_SUBSTRACT,
        Multiply: :CCS_EXPRESSION_TYPE_MULTIPLY, Divide: :CCS_EXPRESSION_TYPE_DIVIDE, Modulo: :CCS_EXPRESSION_TYPE_MODULO }
OPS = { Or: :"||", And: :"&&", Equal: :==, NotEqual: :"!=", Less: :<, Greater: :>, LessOrEqual: :<=, GreaterOrEqual: :>=, Add: :+, Substract: :-,
        Multiply: :*, Divide: :/, Modulo: :% }
UNA = { Positive: :CCS_EXPRESSION_TYPE_POSITIVE, Negative: :CCS_EXPRESSION_TYPE_NEGATIVE, Not: :CCS_EXPRESSION_TYPE_NOT }
PREC = { Or: 0, And: 1, Equal: 2, NotEqual: 2, Less: 3, Greater: 3, LessOrEqual: 3, GreaterOrEqual: 3, Add: 4, Substract: 4, Multiply: 5, Divide: 5,
         Modulo: 5, Positive: 6, Negative: 6, Not: 6, In: 7 }

# [operation, operand...] built through the bindings
def ebuild(t, pars)
  return pars[t] if t.is_a?(Symbol)
  return t unless t.is_a?(Array)
  op, *a = t
  case op
  when :List then E::List.new(values: a.map { |x| ebuild(x, pars) })
  when :lit then E::Literal.new(value: a[0])
  when :var then E::Variable.new(parameter: pars[a[0]])
  else
    k = E.const_get(op)
    if a.size == 1 then k.new(node: ebuild(a[0], pars)) else k.new(left: ebuild(a[0], pars), right: ebuild(a[1], pars)) end
  end
end

def eshape(x, t, pars, w)
  case t
  when Array
    op, *a = t
    if op == :lit
      same([x.type, x.value, x.num_nodes], [:CCS_EXPRESSION_TYPE_LITERAL, a[0], 0], "#{w}: literal")
      check(x.class == E::Literal, "#{w}: class #{x.class}")
    elsif op == :var
      eshape(x, a[0], pars, w)
    else
      type = BIN[op] || UNA[op] || { In: :CCS_EXPRESSION_TYPE_IN, List: :CCS_EXPRESSION_TYPE_LIST }[op]
      same([x.type, x.num_nodes], [type, a.size], "#{w}: type and number of nodes")
      check(x.class == E.const_get(op), "#{w}: class #{x.class}")
      ns = x.nodes
      same(ns.size, a.size, "#{w}: nodes")
      ns.each_with_index { |n, i| eshape(n, a[i], pars, w) }
    end
  when Symbol
    same(x.type, :CCS_EXPRESSION_TYPE_VARIABLE, "#{w}: type")
    check(x.class == E::Variable, "#{w}: class #{x.class}")
    same(x.parameter.name, pars[t].name, "#{w}: parameter")
    same(x.to_s, pars[t].name.to_s, "#{w}: text of a variable")
  else
    same([x.type, x.value], [:CCS_EXPRESSION_TYPE_LITERAL, t], "#{w}: literal")
  end
end

def etext(t, pars)
  case t
  when Array
    op, *a = t
    return etext(a[0], pars) if op == :lit || op == :var
    return "[ #{a.map { |x| etext(x, pars) }.join(", ")} ]" if op == :List
    p = lambda { |x|
      s = etext(x, pars)
      x.is_a?(Array) && PREC[x[0]] && PREC[x[0]] < PREC[op] ? "(#{s})" : s
    }
    a.size == 1 ? { Positive: "+", Negative: "-", Not: "!" }[op] + p[a[0]] : "#{p[a[0]]} #{op == :In ? "#" : OPS[op]} #{p[a[1]]}"
  when Symbol then pars[t].name.to_s
  when nil then "none"
  when true, false then t.to_s
  when String then t.inspect
  else t.to_s
  end
end

def evars(t) t.is_a?(Array) ? (t[0] == :lit ? [] : t[1..-1].flat_map { |x| evars(x) }) : t.is_a?(Symbol) ? [t] : [] end

def eval_ref(t, env)
  case t
  when Array
    op, *a = t
    return a[0] if op == :lit
    return env[a[0]] if op == :var
    return a.map { |x| eval_ref(x, env) } if op == :List
    v = a.map { |x| eval_ref(x, env) }
    raise ZeroDivisionError if (op == :Divide || op == :Modulo) && v[1] == 0
    case op
    when :Or then v[0] || v[1]
    when :And then v[0] && v[1]
    when :Not then !v[0]
    when :Positive then v[0]
    when :Negative then -v[0]
    when :In then v[1].include?(v[0])
    when :Divide then v[0].is_a?(Integer) && v[1].is_a?(Integer) ? v[0].quo(v[1]).truncate : v[0] / v[1]
    when :Modulo then v[0].is_a?(Integer) && v[1].is_a?(Integer) ? v[0].remainder(v[1]) : v[0].to_f.remainder(v[1])
    else v[0].send(OPS[op], v[1])
    end
  when Symbol then env[t]
  else t
  end
end

# operators over small trees with variables, literals of each kind and nested operators
suite(:expressions) {
  num = [:x, :y, 3, -2, 2.5, [:lit, 4], [:var, :x]]
  inner = [[:Add, :x, 1], [:Multiply, 2, :y], [:Substract, :x, :y], [:Negative, :x]]
  bool = [[:Less, :x, :y], [:Equal, :x, 1], [:Not, [:Greater, :x, 1]], true, [:And, [:Less, :x, 2], true]]
  t = case choose(5, "form")
      when 0
        op = pick([:Add, :Substract, :Multiply, :Divide, :Less, :Greater, :LessOrEqual, :GreaterOrEqual, :Equal, :NotEqual, :Modulo], "operator")
        [op, pick(num + inner, "left"), pick(num + inner, "right")]
      when 1 then [pick([:Or, :And], "operator"), pick(bool, "left"), pick(bool, "right")]
      when 2 then [pick([:Positive, :Negative], "operator"), pick(num + inner, "node")]
      when 3 then [:Not, pick(bool, "node")]
      when 4 then [:In, pick([:x, 3, [:Add, :x, 1]], "left"), pick([[:List, 1, 3], [:List], [:List, 2, 4, :y], [:List, [:lit, 3], :y, :x]], "right")]
      end
  shard_point
  pars = { x: ipar("x"), y: CCS::NumericalParameter::Float.new(name: :y, lower: -10.0, upper: 10.0), c: CCS::CategoricalParameter.new(name: "c", values: ["a", "b c"]) }
  cs = CCS::ConfigurationSpace.new(name: "s")
  cs.add_parameters(pars.values)
  e = fresh(ebuild(t, pars), "expression")
  env = { x: pick([3, -1], "x"), y: pick([1.5, 3.0], "y"), c: "b c" }
  want = begin eval_ref(t, env); rescue ZeroDivisionError; :zero; end
  obs(t, want)
  views(e, copy: evars(t).empty?) { |x, w|
    eshape(x, t, pars, w)
    same(x.to_s, etext(t, pars), "#{w}: text")
    same(x.parameters.map { |p| p.name.to_s }.sort, evars(t).map { |v| pars[v].name.to_s }.uniq.sort, "#{w}: parameters")
    next if w == "restored copy"
    same(x.parameters.map { |p| p.handle.address }.sort, evars(t).map { |v| pars[v].handle.address }.uniq.sort, "#{w}: parameters")
    check(x.check_context(cs).equal?(x), "#{w}: check_context")
    if evars(t).empty?
      same(x.eval, want, "#{w}: value without a context") unless want == :zero
    else
      refused("#{w}: evaluated without a context") { x.eval } unless t[0] == :In
      refused("#{w}: a context without the variables") { x.check_context(CCS::ConfigurationSpace.new(name: "o")) }
    end
    same(x.eval(context: cs, values: [env[:x], env[:y], env[:c]]), want, "#{w}: value") unless want == :zero
    same(refused("#{w}: values missing") { x.eval(context: cs, values: [1]) }.code, -2, "#{w}: code for values missing")
    same(refused("#{w}: a context without values") { x.eval(context: cs) }.code, -2, "#{w}: code for a context without values")
    same(refused("#{w}: values without a context") { x.eval(values: [1, 2.0, "a"]) }.code, -2, "#{w}: code for values without a context")
  }
}

# the text of each literal, alone and in an expression
suite(:literals) {
  v = pick([nil, true, false, 0, -7, (1 << 62), 2.5, -0.5, 1e300, "", "a b", "q\"uo\\te", "t\nn", LONG], "value")
  shard_point
  w = pick([nil, true, false, 3, "x"], "second value")
  txt = lambda { |x|
    case x
    when nil then "none"
    when true, false, Numeric then x.to_s
    when String then x.inspect
    end
  }
  obs(v, w)
  views(fresh(E::Literal.new(value: v), "literal")) { |l, n|
    same([l.value, l.to_s, l.eval, l.type], [v, txt[v], v, :CCS_EXPRESSION_TYPE_LITERAL], "#{n}: literal")
  }
  views(fresh(E::Equal.new(left: v, right: w), "comparison")) { |e, n|
    same(e.to_s, "#{txt[v]} == #{txt[w]}", "#{n}: text")
    same(e.nodes.map(&:value), [v, w], "#{n}: nodes")
  }
}

suite(:lists) {
  a, b = pick([:x, 1, "a", nil, 2.5], "first"), pick([:x, true, "b c", LONG], "second")
  shard_point
  pars = { x: ipar("x") }
  cs = CCS::ConfigurationSpace.new(name: "s").add_parameter(pars[:x])
  l = ebuild([:List, a, b], pars)
  obs(a, b)
  views(l, copy: a != :x && b != :x) { |x, w|
    eshape(x, [:List, a, b], pars, w)
    next if w == "restored copy"
    [a, b].each_with_index { |v, i|
      same(x.eval(i, context: cs, values: [5]), v == :x ? 5 : v, "#{w}: node #{i}")
      same(x.eval(i), v, "#{w}: node #{i} without a context") unless v == :x
    }
    refused("#{w}: node 2") { x.eval(2) }
    same(refused("#{w}: values missing") { x.eval(0, context: cs, values: []) }.code, -2, "#{w}: code")
    same(refused("#{w}: a context alone") { x.eval(0, context: cs) }.code, -2, "#{w}: code")
  }
}

# ways of naming the i-th parameter
def key(ps, i, how)
  case how
  when 0 then i
  when 1 then ps[i]
  when 2 then ps[i].name
  end
end

def space(k)
  ps = [fpar("f"), ipar(:i), cpar("c"), CCS::OrdinalParameter.new(name: "o p", values: ["lo", "mid", "hi"], default_index: 2), CCS::DiscreteParameter.new(name: :d, values: [1, 4, 9])]
  cs = CCS::ConfigurationSpace.new(name: pick_name(k))
  [cs, ps]
end
def pick_name(k) ["space", "", "a \xC3\xA9", LONG][k] end

def cspace_check(x, w, ps, name, conds, forb)
  n = ps.size
  same([x.name, x.num_parameters, x.object_type], [name, n, :CCS_OBJECT_TYPE_CONFIGURATION_SPACE], "#{w}: name and size")
  same(x.parameters.map(&:name), ps.map(&:name), "#{w}: parameters")
  copied = w == "restored copy"
  same(x.parameters, ps, "#{w}: parameters") unless copied
  n.times { |i|
    same(x.parameter(i).name, ps[i].name, "#{w}: parameter #{i}")
    same(x.parameter(i).class.name, ps[i].class.name, "#{w}: class of parameter #{i}")
    same(x.parameter_by_name(ps[i].name).name, ps[i].name, "#{w}: parameter by name")
    same(x.parameter_index_by_name(ps[i].name), i, "#{w}: index by name")
    same(x.parameter_index(x.parameter(i)), i, "#{w}: index of a parameter")
    3.times { |how|
      k = key(x.parameters, i, how)
      c = x.condition(k)
      same(c && c.to_s, conds[i], "#{w}: condition of #{i}")
      same(x.validate_value(k, ps[i].default_value), ps[i].default_value, "#{w}: validation")
      refused("#{w}: a value out of the domain") { x.validate_value(k, "zzz") }
    }
  }
  same(x.conditions.map { |c| c && c.to_s }, (0...n).map { |i| conds[i] }, "#{w}: conditions")
  same(x.conditional_parameters.map(&:name), (0...n).select { |i| conds[i] }.map { |i| ps[i].name }, "#{w}: conditional parameters")
  same(x.unconditional_parameters.map(&:name), (0...n).reject { |i| conds[i] }.map { |i| ps[i].name }, "#{w}: unconditional parameters")
  same(x.num_forbidden_clauses, forb.size, "#{w}: number of clauses")
  same(x.forbidden_clauses.map(&:to_s), forb, "#{w}: clauses")
  forb.size.times { |i| same(x.forbidden_clause(i).to_s, forb[i], "#{w}: clause #{i}") }
  refused("#{w}: clause out of range") { x.forbidden_clause(forb.size) }
  refused("#{w}: parameter out of range") { x.parameter(n) }
  refused("#{w}: unknown name") { x.parameter_by_name("unknown") }
  refused("#{w}: unknown symbol") { x.parameter_index_by_name(:unknown) }
  refused("#{w}: unknown parameter") { x.parameter_index(fpar("zz")) }
end

# spaces grown step by step
suite(:configuration_spaces) {
  nk = choose(4, "name")
  how = choose(4, "parameters added")
  hw = choose(3, "naming")
  shard_point
  cond, forb, joint = choose(4, "conditions"), choose(3, "forbidden"), choose(3, "distributions")
  cs, ps = space(nk)
  fresh(cs, "space")
  same([cs.num_parameters, cs.parameters, cs.conditions, cs.forbidden_clauses], [0, [], [], []], "an empty space")
  case how
  when 0 then ps.each { |p| check(cs.add_parameter(p).equal?(cs), "add_parameter") }
  when 1 then check(cs.add_parameters(ps).equal?(cs), "add_parameters")
  when 2
    cs.add_parameter(ps[0], distribution: CCS::NormalDistribution::Float.new(mu: 1.0, sigma: 0.5))
    cs.add_parameters(ps[1..-1])
  when 3
    ds = ps.map(&:default_distribution)
    ds[0] = CCS::UniformDistribution::Float.new(lower: 0.0, upper: 2.0)
    cs.add_parameters(ps, distributions: ds)
    same(refused("distributions missing") { CCS::ConfigurationSpace.new(name: "n").add_parameters(ps, distributions: ds[0, 2]) }.code, -2, "code")
  end
  refused("the parameter again") { cs.add_parameter(ps[1]) }
  cs.add_parameters([])
  conds, forbs = {}, []
  if cond > 0
    cs.set_condition(key(ps, 2, hw), E::Less.new(left: ps[0] && E::Variable.new(parameter: ps[0]), right: 1.0))
    conds[2] = "f < 1.0"
  end
  if cond > 1
    cs.set_condition(key(ps, 4, hw), E::Equal.new(left: E::Variable.new(parameter: ps[3]), right: "hi"))
    conds[4] = "o p == \"hi\""
  end
  refused("a second condition") { cs.set_condition(key(ps, 2, hw), E::Literal.new(value: true)) } if cond > 2
  if forb > 0
    a = E::Greater.new(left: E::Variable.new(parameter: ps[0]), right: E::Variable.new(parameter: ps[1]))
    if forb == 1
      cs.add_forbidden_clause(a)
      forbs = ["f > i"]
    else
      cs.add_forbidden_clauses([a, E::Equal.new(left: E::Variable.new(parameter: ps[4]), right: 9)])
      forbs = ["f > i", "d == 9"]
    end
    cs.add_forbidden_clauses([])
  end
  dj = nil
  if joint > 0
    dj = CCS::MultivariateDistribution.new(distributions: [CCS::UniformDistribution::Int.new(lower: 0, upper: 3), CCS::UniformDistribution::Float.new(lower: -1.0, upper: 0.0)])
    check(cs.set_distribution(dj, [key(ps, 1, hw), key(ps, 0, joint == 1 ? hw : 0)]).equal?(cs), "set_distribution")
    same(refused("too few parameters") { cs.set_distribution(dj, [0]) }.code, -2, "code")
  end
  r = CCS::Rng.new
  r.seed = 42
  r0 = cs.rng
  cs.rng = r
  same(cs.rng, r, "rng")
  CCS::Object.from_handle(cs.handle).rng = r0
  same(cs.rng, r0, "rng set through another object")
  cs.rng = r
  same(cs.rng, r, "rng set again")
  obs(nk, how, hw, cond, forb, joint)
  views(cs) { |x, w|
    cspace_check(x, w, ps, pick_name(nk), conds, forbs)
    same([x.rng.min, x.rng.max], [r.min, r.max], "#{w}: rng")
    ps.each_with_index { |p, i|
      d, at = x.get_parameter_distribution(key(x.parameters, i, hw))
      if dj && i < 2
        same([d.class.name, at], [dj.class.name, 1 - i], "#{w}: distribution of #{i}")
        same(d, dj, "#{w}: distribution of #{i}") if w != "restored copy"
      else
        same(at, 0, "#{w}: place in the distribution")
        want = how == 2 && i == 0 ? CCS::NormalDistribution::Float : how == 3 && i == 0 ? CCS::UniformDistribution::Float : ps[i].default_distribution.class
        same(d.class.name, want.name, "#{w}: distribution of #{i}")
      end
    }
    dc = x.default_configuration
    fresh(dc, "default configuration")
    same(dc.values, ps.each_with_index.map { |p, i| (i == 2 && cond > 0 && !(0.5 < 1.0)) ? CCS::Inactive : p.default_value }, "#{w}: defaults")
    same([x.check(dc), dc.check, x.check_values(dc.values)], [true] * 3, "#{w}: defaults are valid")
    x.rng.seed = 9
    s1 = x.samples(4)
    x.rng.seed = 9
    s2 = x.samples(4)
    same(s1.map(&:values), s2.map(&:values), "#{w}: samples")
    s1.each { |s| fresh(s, "sample"); check(x.check(s) && s.check && x.check_values(s.values), "#{w}: a sample is not valid") }
    same(x.samples(0), [], "#{w}: no samples")
    s = fresh(x.sample, "sample")
    check(s.check, "#{w}: a sample is not valid")
    if dj
      check((0..2).include?(s.value(1)) && s.value(0) < 0.0, "#{w}: sample #{s.values} does not follow the distribution")
    end
    check(s.configuration_space == x || s.configuration_space.handle == x.handle, "#{w}: space of a sample")
    bad = dc.values
    bad[3] = "none of them"
    same(x.check_values(bad), false, "#{w}: an invalid value")
    bad = [5.0 - 1e-9, -3, CCS::Inactive, "hi", 1]
    same(x.check_values(bad), forb == 0 && cond > 0, "#{w}: forbidden values")
    bad[2] = "a"
    same(x.check_values(bad), forb == 0 && cond == 0, "#{w}: an inactive value given")
    c = CCS::Configuration.new(configuration_space: x, values: [0.0, 3, "a", "lo", CCS::Inactive])
    same([c.check, x.check(c)], [cond > 1] * 2, "#{w}: an inactive value")
    same(refused("values missing") { x.check_values([1.0]) }.code, -2, "code for values missing")
  }
}

BV = { "f" => [-5.0, 1.25, 4.5], :i => [-3, 0, 8], "c" => ["a", 2, nil], "o p" => ["lo", "hi", "mid"], :d => [1, 9, 4] }

# every value set and read in every way
suite(:bindings) {
  kind = choose(3, "kind")
  i, how = choose(5, "parameter"), choose(3, "naming")
  shard_point
  j, how2 = choose(5, "second parameter"), choose(3, "naming")
  vi, vj = choose(3, "value"), choose(3, "second value")
  _, ps = space(0)
  case kind
  when 0
    sp = CCS::ConfigurationSpace.new(name: "s").add_parameters(ps)
    mk = lambda { |v| CCS::Configuration.new(configuration_space: sp, values: v) }
  when 1
    sp = CCS::FeaturesSpace.new(name: "s").add_parameters(ps)
    mk = lambda { |v| CCS::Features.new(features_space: sp, values: v) }
  when 2
    sp = CCS::ObjectiveSpace.new(name: "s").add_parameters(ps)
    cs = CCS::ConfigurationSpace.new(name: "t").add_parameter(fpar)
    cf = CCS::Configuration.new(configuration_space: cs, values: [1.5])
    mk = lambda { |v| CCS::Evaluation.new(objective_space: sp, configuration: cf, values: v) }
  end
  base = ps.map(&:default_value)
  b = fresh(mk[base], "binding")
  same(b.values, base, "values")
  same(b.num_values, 5, "number of values")
  o = mk[base]
  same([b <=> o, b == o], [0, true], "comparison of equals") unless kind == 2
  same(b.hash, o.hash, "hash of equals")
  ref = base.dup
  check(b.set_value(key(ps, i, how), BV[ps[i].name][vi]).equal?(b), "set_value")
  ref[i] = BV[ps[i].name][vi]
  b.set_value(key(ps, j, how2), BV[ps[j].name][vj])
  ref[j] = BV[ps[j].name][vj]
  obs(kind, ref)
  views(b, copy: false) { |x, w|
    same(x.values, ref, "#{w}: values")
    same(x.context, sp, "#{w}: context")
    same(x.to_h.to_a, ps.map(&:name).zip(ref), "#{w}: to_h")
    5.times { |k| 3.times { |h| same(x.value(key(ps, k, h)), ref[k], "#{w}: value #{k}") } }
  }
  m = mk[ref]
  same(m.hash, b.hash, "hash after the same values")
  ptr = CCS::MemoryPointer.new(:int)
  unless kind == 2
    same(m <=> b, 0, "comparison after the same values")
    CCS.error_check CCS.ccs_binding_cmp(b.handle, o.handle, ptr)
    same([b <=> o, o <=> b, b == o], [ptr.read_int, -ptr.read_int, ref == base], "comparison")
    check(ref == base || ptr.read_int != 0, "different bindings compare equal")
  end
  check(b.set_values(base).equal?(b), "set_values")
  same(b.values, base, "values set together")
  refused("a parameter out of range") { b.value(5) }
  refused("an unknown name") { b.value("none") }
  refused("an unknown symbol") { b.set_value(:none, 1) }
  refused("an unknown parameter") { b.value(fpar("zz")) }
  same(refused("a key of no kind") { b.value(nil) }.code, -2, "code for a key")
  same(refused("a key of no kind") { b.set_value(1.5, 1) }.code, -2, "code for a key")
  same(refused("no values") { b.set_values([]) }.code, -2, "code for no values")
  refused("values missing") { b.set_values([1]) }
  same(refused("no values") { mk[[]] }.code, -2, "code for no values")
  refused("values missing") { mk[[1.0]] }
  same(mk[nil].num_values, 5, "values of a binding without values")
  check(sp.respond_to?(:check_values), "check_values")
  same(sp.check_values(ref), true, "check_values")
  same(sp.check_values([ref[0], 77, *ref[2..-1]]), false, "check_values of a wrong value")
  same(b.check, true, "check")
  same(sp.check(b), true, "check by the space") if kind < 2
}
