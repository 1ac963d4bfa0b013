// Comparison and hash of values, configurations, features, evaluations and tree configurations:
// a total order, equal exactly when the contents are, hashes of equals are equal, however built.
#include "ccsx.hpp"

enum { CONF, FEAT, EVAL, FEVAL, TEVAL, BOUND, TCONF = BOUND, KINDS };
static const char *kinds[] = {"configuration", "features", "evaluation", "features evaluation", "tree evaluation", "tree configuration"};
enum { CREATED, TRANSIENT, SET, SET_GENERIC, OVERWRITTEN, RESTORED, COPIED, HOWS };
static const char *hows[] = {"created", "created from passing strings", "set value by value", "set through the generic interface", "overwritten", "restored", "copied"};

typedef ccs_result_t (*cmp_t)(ccs_object_t, ccs_object_t, int *);
typedef ccs_result_t (*hash_t)(ccs_object_t, ccs_hash_t *);
typedef ccs_result_t (*set_t)(ccs_object_t, size_t, ccs_datum_t);
typedef ccs_result_t (*get_t)(ccs_object_t, size_t, ccs_datum_t *, size_t *);
static const cmp_t  cmps[]   = {(cmp_t)ccs_configuration_cmp, (cmp_t)ccs_features_cmp, (cmp_t)ccs_evaluation_cmp, (cmp_t)ccs_features_evaluation_cmp, (cmp_t)ccs_tree_evaluation_cmp, (cmp_t)ccs_tree_configuration_cmp};
static const hash_t hashes[] = {(hash_t)ccs_configuration_hash, (hash_t)ccs_features_hash, (hash_t)ccs_evaluation_hash, (hash_t)ccs_features_evaluation_hash, (hash_t)ccs_tree_evaluation_hash, (hash_t)ccs_tree_configuration_hash};
static const set_t  sets[]   = {(set_t)ccs_configuration_set_value, (set_t)ccs_features_set_value, (set_t)ccs_evaluation_set_value, (set_t)ccs_features_evaluation_set_value, (set_t)ccs_tree_evaluation_set_value};
static const get_t  gets[]   = {(get_t)ccs_configuration_get_values, (get_t)ccs_features_get_values, (get_t)ccs_evaluation_get_values, (get_t)ccs_features_evaluation_get_values, (get_t)ccs_tree_evaluation_get_values};

static int compare(int k, ccs_object_t a, ccs_object_t b)
{
	int s = 77;
	OKX(cmps[k](a, b, &s));
	if (s < -1 || s > 1)
		mc::fail("comparing two %ss gives %d, neither -1, 0 nor 1", kinds[k], s);
	if (k < BOUND) {
		int g = 77;
		OKX(ccs_binding_cmp((ccs_binding_t)a, (ccs_binding_t)b, &g));
		if (g != s)
			mc::fail("comparing two %ss gives %d, and %d through the generic interface", kinds[k], s, g);
	}
	return s;
}
static ccs_hash_t hashof(int k, ccs_object_t a)
{
	ccs_hash_t s = 77, g = 78;
	OKX(hashes[k](a, &s));
	if (k < BOUND) {
		OKX(ccs_binding_hash((ccs_binding_t)a, &g));
		if (g != s)
			mc::fail("hash of a %s is %x, and %x through the generic interface", kinds[k], (unsigned)s, (unsigned)g);
	}
	return s;
}

// what an object is made of; two objects are equal exactly when these are
struct Content {
	int                              ctx = 0; // which of the two spaces of the same parameters
	std::vector<int>                 v;       // values, as indices in the grid
	int                              result = 0;
	int                              cfg = 0, fea = 0; // content classes of the evaluated configuration and features
	int                              copy = 0;         // which of several equal configurations and features; not compared
	std::vector<size_t>              pos;
	bool operator==(const Content &o) const { return ctx == o.ctx && v == o.v && result == o.result && cfg == o.cfg && fea == o.fea && pos == o.pos; }
};
static const std::vector<ccs_datum_t> &grid()
{
	static std::vector<ccs_datum_t> g;
	if (g.empty())
		g = {ccs_int(0), ccs_int(1), ccs_int(-1), ccs_int(256), ccs_int(INT64_MAX), ccs_float(0.0), ccs_float(1.0), ccs_float(-1e300), ccs_true, ccs_false,
		     ccs_string(""), ccs_string("a"), ccs_string("ab"), ccs_string("b"), ccs_string("\xff"), ccs_string("1"), ccs_string("a much longer string, with the same beginning 1"), ccs_string("a much longer string, with the same beginning 2"),
		     ccs_float(-0.0), ccs_float(NAN), ccs_float(INFINITY), ccs_float(5e-324), ccs_int(INT64_MIN), ccs_int(INT64_C(1) << 53), ccs_int((INT64_C(1) << 53) + 1)};
	return g;
}
static const int INACT = 100;
static ccs_datum_t val(int i) { return i == INACT ? ccs_inactive : grid()[(size_t)i]; }

struct World {
	Par p[2], q[2];
	CSp cs[2];
	FSp fs[2];
	OSp os[2];
	Tre root[2];
	TSp ts[2];
	// configurations and features that evaluations refer to: [class][copy]
	Cfg cfg[3][2];
	Fea fea[2][2];
	TCf tcf[3][2];
	Map map;
	static Tre tree()
	{
		Tre t;
		OKX(ccs_create_tree(2, ccs_int(0), t.ret()));
		for (size_t i = 0; i < 2; i++) {
			Tre c;
			OKX(ccs_create_tree(2, ccs_int(1), c.ret()));
			OKX(ccs_tree_set_child(t, i, c));
			for (size_t j = 0; j < 2; j++) {
				Tre d;
				OKX(ccs_create_tree(0, ccs_int(2), d.ret()));
				OKX(ccs_tree_set_child(c, j, d));
			}
		}
		return t;
	}
	World()
	{
		p[0] = pcat("p", grid());
		q[0] = pcat("q", grid(), 3);
		for (int i = 0; i < 2; i++) {
			cs[i]   = mkcs("s", {p[0], q[0]});
			fs[i]   = mkfs("s", {p[0], q[0]});
			os[i]   = mkos("s", {p[0], q[0]});
			root[i] = tree();
			OKX(ccs_create_static_tree_space("s", root[i], ts[i].ret()));
		}
		for (int c = 0; c < 3; c++)
			for (int i = 0; i < 2; i++) {
				ccs_datum_t d[2] = {val(11), val(c == 2 ? 1 : 3)};
				OKX(ccs_create_configuration(cs[c == 1], 2, d, cfg[c][i].ret()));
				if (c < 2)
					OKX(ccs_create_features(fs[c], 2, d, fea[c][i].ret()));
				size_t pos[2] = {0, (size_t)(c == 2)};
				OKX(ccs_create_tree_configuration(ts[c == 1], 2, pos, tcf[c][i].ret()));
			}
		OKX(ccs_create_map(map.ret()));
		for (int i = 0; i < 2; i++)
			for (ccs_object_t o : {(ccs_object_t)cs[i].get(), (ccs_object_t)fs[i].get(), (ccs_object_t)os[i].get(), (ccs_object_t)ts[i].get()}) {
				ccs_datum_t d = ccs_object(o);
				d.flags |= CCS_DATUM_FLAG_ID;
				OKX(ccs_map_set(map, d, ccs_object(o)));
			}
	}
	ccs_result_t create(int k, const Content &c, size_t n, ccs_datum_t *d, ccs_object_t *ret)
	{
		ccs_evaluation_result_t r = (ccs_evaluation_result_t)c.result;
		switch (k) {
		case CONF: return ccs_create_configuration(cs[c.ctx], n, d, (ccs_configuration_t *)ret);
		case FEAT: return ccs_create_features(fs[c.ctx], n, d, (ccs_features_t *)ret);
		case EVAL: return ccs_create_evaluation(os[c.ctx], cfg[c.cfg][c.copy], r, n, d, (ccs_evaluation_t *)ret);
		case FEVAL: return ccs_create_features_evaluation(os[c.ctx], cfg[c.cfg][c.copy], fea[c.fea][c.copy], r, n, d, (ccs_features_evaluation_t *)ret);
		case TEVAL: return ccs_create_tree_evaluation(os[c.ctx], tcf[c.cfg][c.copy], r, n, d, (ccs_tree_evaluation_t *)ret);
		default: return ccs_create_tree_configuration(ts[c.ctx], c.pos.size(), const_cast<size_t *>(c.pos.data()), (ccs_tree_configuration_t *)ret);
		}
	}
	Obj restored(ccs_object_t o)
	{
		std::vector<char> b = ser(o);
		Obj               r;
		OKX(ccs_object_deserialize(r.ret(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_HANDLE_MAP, map.get(), CCS_DESERIALIZE_OPTION_END));
		return r;
	}
	Obj make(int k, const Content &c, int how)
	{
		Obj  o;
		Data d;
		for (int i : c.v)
			d.push_back(val(i));
		if (k == TCONF) {
			std::vector<size_t> at = c.pos;
			OKX(create(k, c, 0, nullptr, o.ret()));
			std::fill(at.begin(), at.end(), 77);
			if (how == RESTORED)
				return restored(o);
			if (how == COPIED) {
				std::vector<size_t> p2(c.pos.size());
				if (p2.size())
					OKX(ccs_tree_configuration_get_position((ccs_tree_configuration_t)o.get(), p2.size(), p2.data(), nullptr));
				Content e = c;
				e.pos     = p2;
				Obj r;
				OKX(create(k, e, 0, nullptr, r.ret()));
				return r;
			}
			return o;
		}
		switch (how) {
		case CREATED:
		case RESTORED:
		case COPIED:
			OKX(create(k, c, d.size(), d.data(), o.ret()));
			if (how == RESTORED)
				return restored(o);
			if (how == COPIED) {
				size_t n = 0;
				OKX(gets[k](o, 0, nullptr, &n));
				Data e(n);
				OKX(gets[k](o, n, e.data(), nullptr));
				Obj r;
				OKX(create(k, c, n, e.data(), r.ret()));
				return r;
			}
			break;
		case TRANSIENT: {
			std::vector<std::string> hold(d.size());
			for (size_t i = 0; i < d.size(); i++)
				if (d[i].type == CCS_DATA_TYPE_STRING) {
					hold[i] = d[i].value.s;
					d[i]    = tstr(hold[i].c_str());
				}
			OKX(create(k, c, d.size(), d.data(), o.ret()));
			for (auto &h : hold)
				for (auto &ch : h)
					ch = '#';
			break;
		}
		default: {
			Data start = d;
			for (size_t i = 0; i < d.size(); i++)
				if (c.v[i] != INACT)
					start[i] = val(how == OVERWRITTEN ? (c.v[i] + 1) % (int)grid().size() : 0);
			OKX(create(k, c, start.size(), start.data(), o.ret()));
			hashof(k, o);
			for (size_t i = d.size(); i--;)
				if (c.v[i] != INACT) {
					std::string s;
					ccs_datum_t x = d[i];
					if (x.type == CCS_DATA_TYPE_STRING) {
						s = x.value.s;
						x = tstr(s.c_str());
					}
					if (how == SET_GENERIC)
						OKX(ccs_binding_set_value((ccs_binding_t)o.get(), i, x));
					else
						OKX(sets[k](o, i, x));
				}
		}
		}
		return o;
	}
};

static std::vector<Content> contents(int k)
{
	std::vector<Content> r;
	if (k == TCONF) {
		for (int ctx = 0; ctx < 2; ctx++) {
			Content c;
			c.ctx = ctx;
			r.push_back(c);
			for (size_t a = 0; a < 2; a++) {
				c.pos = {a};
				r.push_back(c);
				for (size_t b = 0; b < 2; b++) {
					c.pos = {a, b};
					r.push_back(c);
				}
			}
		}
		return r;
	}
	std::vector<int> first, second = {3, 10};
	if (k == CONF || k == FEAT) {
		for (int i = 0; i < (int)grid().size(); i++)
			first.push_back(i);
		second = {0, 1, 3, 8, 10};
	} else
		first = {0, 3, 5, 11, 13};
	if (k == CONF)
		first.push_back(INACT);
	for (int ctx = 0; ctx < 2; ctx++)
		for (int a : first)
			for (int b : second) {
				if (ctx && second.size() > 2 && b > 1)
					continue;
				Content c;
				c.ctx = ctx;
				c.v   = {a, b};
				if (k == CONF || k == FEAT) {
					r.push_back(c);
					continue;
				}
				for (int res : {0, 1, -1})
					for (int cf = 0; cf < 3; cf++)
						for (int fe = 0; fe < (k == FEVAL ? 2 : 1); fe++)
							for (int copy = 0; copy < 2; copy++) {
								if (ctx && (res || (cf && fe) || copy))
									continue;
								if (copy && a > 5)
									continue;
								if (k == FEVAL && fe && res)
									continue;
								c.result = res, c.cfg = cf, c.fea = fe, c.copy = copy;
								r.push_back(c);
							}
			}
	return r;
}

// every object against every other of its kind, and every third: the order is total and follows the contents
MC_SUITE(order)
{
	int                  k = mc::choose(KINDS, "kind");
	int                  how = mc::choose(HOWS, "how the first is made"), other = mc::choose(mc::thorough() ? HOWS : 2, "how the others are made");
	std::vector<Content> cs = contents(k);
	int                  i = mc::choose((int)cs.size(), "first");
	mc::shard_point();
	mc::nontrivial();
	World            w;
	Obj              x = w.make(k, cs[(size_t)i], how);
	ccs_hash_t       hx = hashof(k, x);
	std::vector<Obj> all;
	std::vector<int> to;
	for (auto &c : cs)
		all.push_back(w.make(k, c, other));
	if (compare(k, x, x))
		mc::fail("a %s (%s) differs from itself", kinds[k], hows[how]);
	for (size_t j = 0; j < cs.size(); j++) {
		int a = compare(k, x, all[j]), b = compare(k, all[j], x);
		if (a != -b)
			mc::fail("%ss %d (%s) and %zu (%s): one order says %d, the other %d", kinds[k], i, hows[how], j, hows[other], a, b);
		bool same = cs[(size_t)i] == cs[j];
		if (same != (a == 0))
			mc::fail("%ss %d (%s) and %zu (%s) have %s contents and compare %d", kinds[k], i, hows[how], j, hows[other], same ? "the same" : "different", a);
		if (same && hashof(k, all[j]) != hx)
			mc::fail("%ss %d (%s) and %zu (%s) are equal and have different hashes", kinds[k], i, hows[how], j, hows[other]);
		to.push_back(a);
	}
	// transitivity: x <= y and y <= z imply x <= z
	for (size_t y = 0; y < cs.size(); y++)
		if (to[y] <= 0)
			for (size_t z = y % 3; z < cs.size(); z += mc::thorough() ? 1 : 3)
				if (to[z] > 0 && compare(k, all[y], all[z]) <= 0)
					mc::fail("%ss: %d comes before %zu, %zu before %zu, but %d after %zu", kinds[k], i, y, y, z, i, z);
}

// objects of all kinds against each other through the generic interface
MC_SUITE(kinds)
{
	int first = mc::choose(64, "object");
	mc::shard_point();
	World                                   w;
	std::vector<std::pair<int, Content>>    cs;
	for (int k = 0; k < BOUND; k++)
		for (int ctx = 0; ctx < 2; ctx++)
			for (int v : {0, 11, 13})
				for (int copy = 0; copy < (k >= EVAL ? 2 : 1); copy++) {
					Content c;
					c.ctx = ctx, c.v = {v, 3}, c.copy = copy;
					cs.push_back({k, c});
				}
	if (first >= (int)cs.size())
		mc::prune();
	mc::nontrivial();
	std::vector<Obj> all;
	for (auto &c : cs)
		all.push_back(w.make(c.first, c.second, CREATED));
	auto cmp = [&](size_t i, size_t j) {
		int s = 77;
		OKX(ccs_binding_cmp((ccs_binding_t)all[i].get(), (ccs_binding_t)all[j].get(), &s));
		if (s < -1 || s > 1)
			mc::fail("ccs_binding_cmp gives %d", s);
		return s;
	};
	size_t i = (size_t)first;
	for (size_t j = 0; j < cs.size(); j++) {
		int  a = cmp(i, j), b = cmp(j, i);
		bool same = cs[i].first == cs[j].first && cs[i].second == cs[j].second;
		if (a != -b || same != (a == 0))
			mc::fail("%s %zu and %s %zu (%s) compare %d one way and %d the other", kinds[cs[i].first], i, kinds[cs[j].first], j, same ? "equal" : "different", a, b);
		for (size_t l = 0; l < cs.size(); l++)
			if (a <= 0 && cmp(j, l) <= 0 && cmp(i, l) > 0)
				mc::fail("%s %zu, %s %zu, %s %zu: not in order", kinds[cs[i].first], i, kinds[cs[j].first], j, kinds[cs[l].first], l);
	}
}

// two objects changed in turn: at every moment they compare by what they hold then
MC_SUITE(changes)
{
	int k     = mc::choose(KINDS - 1, "kind");
	int depth = mc::tier_bound(3, 5);
	struct Op {
		int which, what, value;
	};
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		Op o;
		o.which = mc::choose(2, "object");
		o.what  = mc::choose(k >= EVAL ? 3 : 2, "what");
		o.value = mc::choose(3, "value");
		ops.push_back(o);
	}
	mc::shard_point();
	mc::nontrivial();
	World            w;
	Content          c[2];
	Obj              o[2];
	static const int vals[3] = {11, 3, 12};
	for (int i = 0; i < 2; i++) {
		c[i].v    = {3, 3};
		c[i].copy = i;
		o[i]      = w.make(k, c[i], CREATED);
	}
	std::map<std::vector<int>, ccs_hash_t> seen; // content -> hash
	auto look = [&]() {
		int a = compare(k, o[0], o[1]), b = compare(k, o[1], o[0]);
		if (a != -b || (c[0] == c[1]) != (a == 0))
			mc::fail("%ss with %s contents compare %d one way and %d the other", kinds[k], c[0] == c[1] ? "the same" : "different", a, b);
		for (int i = 0; i < 2; i++) {
			std::vector<int> key = {c[i].v[0], c[i].v[1], c[i].result};
			ccs_hash_t       h   = hashof(k, o[i]);
			if (seen.insert({key, h}).first->second != h)
				mc::fail("%s: the same content has had another hash", kinds[k]);
		}
	};
	look();
	for (auto &op : ops) {
		ccs_object_t x = o[op.which];
		if (op.what == 2) {
			ccs_evaluation_result_t r = (ccs_evaluation_result_t)(op.value - 1);
			if (k == EVAL)
				OKX(ccs_evaluation_set_result((ccs_evaluation_t)x, r));
			else if (k == FEVAL)
				OKX(ccs_features_evaluation_set_result((ccs_features_evaluation_t)x, r));
			else
				OKX(ccs_tree_evaluation_set_result((ccs_tree_evaluation_t)x, r));
			c[op.which].result = r;
		} else {
			std::string s;
			ccs_datum_t d = val(vals[op.value]);
			if (d.type == CCS_DATA_TYPE_STRING) {
				s = d.value.s;
				d = tstr(s.c_str());
			}
			OKX(sets[k](x, (size_t)op.what, d));
			for (auto &ch : s)
				ch = '#';
			c[op.which].v[(size_t)op.what] = vals[op.value];
		}
		look();
	}
}

// the evaluated configuration or features change under two evaluations
MC_SUITE(parts)
{
	int k = EVAL + mc::choose(2, "kind"), depth = mc::tier_bound(3, 4);
	struct Op {
		int which, part, value;
	};
	std::vector<Op> ops;
	for (int i = 0; i < depth; i++) {
		int which = mc::choose(2), part = mc::choose(k == FEVAL ? 2 : 1), value = mc::choose(3);
		ops.push_back({which, part, value});
	}
	mc::shard_point();
	mc::nontrivial();
	World            w;
	Obj              o[2];
	int              held[2][2] = {{3, 3}, {3, 3}};
	static const int vals[3]    = {10, 3, 16};
	Content          c;
	c.v = {3, 3};
	for (int i = 0; i < 2; i++) {
		c.copy = i;
		o[i]   = w.make(k, c, CREATED);
	}
	std::map<std::pair<int, int>, ccs_hash_t> seen;
	auto look = [&]() {
		bool same = held[0][0] == held[1][0] && held[0][1] == held[1][1];
		int  a = compare(k, o[0], o[1]), b = compare(k, o[1], o[0]);
		if (a != -b || same != (a == 0))
			mc::fail("%ss of %s parts compare %d one way and %d the other", kinds[k], same ? "the same" : "different", a, b);
		for (int i = 0; i < 2; i++) {
			ccs_hash_t h = hashof(k, o[i]);
			if (seen.insert({{held[i][0], held[i][1]}, h}).first->second != h)
				mc::fail("%s: the same content has had another hash", kinds[k]);
		}
	};
	look();
	for (auto &op : ops) {
		if (op.part)
			OKX(ccs_features_set_value(w.fea[0][op.which], 1, val(vals[op.value])));
		else
			OKX(ccs_configuration_set_value(w.cfg[0][op.which], 1, val(vals[op.value])));
		held[op.which][op.part] = vals[op.value];
		look();
	}
}

// bound before and after a parameter joined the context
MC_SUITE(grown)
{
	int  k  = mc::choose(3, "kind");
	int  a = mc::choose(4), b = mc::choose(4), d = mc::choose(4);
	mc::shard_point();
	mc::nontrivial();
	Par p = pcat("p", grid()), q = pcat("q", grid());
	CSp cs = mkcs("s", {p}), ecs = mkcs("s", {p});
	FSp fs = mkfs("s", {p});
	OSp os = mkos("s", {p});
	Cfg ec;
	OKX(ccs_create_configuration(ecs, 0, nullptr, ec.ret()));
	static const int vals[] = {0, 3, 11, 13};
	auto make = [&](std::vector<int> v) {
		Data x;
		for (int i : v)
			x.push_back(val(vals[i]));
		Obj o;
		if (k == 0)
			OKX(ccs_create_configuration(cs, x.size(), x.data(), (ccs_configuration_t *)o.ret()));
		else if (k == 1)
			OKX(ccs_create_features(fs, x.size(), x.data(), (ccs_features_t *)o.ret()));
		else
			OKX(ccs_create_evaluation(os, ec, CCS_RESULT_SUCCESS, x.size(), x.data(), (ccs_evaluation_t *)o.ret()));
		return o;
	};
	int              kind = k == 2 ? EVAL : k;
	std::vector<Obj> all;
	all.push_back(make({a}));
	all.push_back(make({b}));
	if (k == 0)
		OKX(ccs_configuration_space_add_parameter(cs, q, nullptr));
	else if (k == 1)
		OKX(ccs_features_space_add_parameter(fs, q));
	else
		OKX(ccs_objective_space_add_parameter(os, q));
	all.push_back(make({a, d}));
	all.push_back(make({b, d}));
	all.push_back(make({b, a}));
	std::vector<std::vector<int>> c = {{a}, {b}, {a, d}, {b, d}, {b, a}};
	for (size_t i = 0; i < c.size(); i++)
		for (size_t j = 0; j < c.size(); j++) {
			int s = compare(kind, all[i], all[j]), t = compare(kind, all[j], all[i]);
			if (s != -t || (c[i] == c[j]) != (s == 0))
				mc::fail("%ss %zu and %zu around the growth of their space compare %d one way, %d the other", kinds[kind], i, j, s, t);
			if (c[i] == c[j] && hashof(kind, all[i]) != hashof(kind, all[j]))
				mc::fail("%ss %zu and %zu are equal and have different hashes", kinds[kind], i, j);
			for (size_t l = 0; l < c.size(); l++)
				if (s <= 0 && compare(kind, all[j], all[l]) <= 0 && compare(kind, all[i], all[l]) > 0)
					mc::fail("%ss %zu, %zu, %zu around the growth of their space are not in order", kinds[kind], i, j, l);
		}
}

// ccs_datum_cmp over all pairs and triples of values
MC_SUITE(values)
{
	static char          s1[] = "ab", s2[] = "ab";
	static std::string   nul;
	ccs_datum_t          nullstr = ccs_string(nullptr);
	std::vector<ccs_datum_t> g = grid();
	std::vector<int>         cls;
	for (size_t i = 0; i < g.size(); i++)
		cls.push_back(i == 18 ? 5 : (int)i); // plain values: -0.0 is 0.0
	auto add = [&](ccs_datum_t d, int c) { g.push_back(d), cls.push_back(c); };
	add(ccs_none, 50), add(ccs_inactive, 51), add(nullstr, 52), add(nullstr, 52);
	add(ccs_string(s1), 12), add(tstr(s2), 12);
	add(ccs_float(NAN), 19), add(ccs_float(-INFINITY), 55), add(ccs_float(5e-324), 21), add(ccs_float(-0.5), 59), add(ccs_float(2.0), 60);
	add(ccs_int(INT64_MIN), 22), add(ccs_int(1), 1), add(ccs_float(1.0), 6), add(ccs_bool(CCS_TRUE), 8), add(ccs_int(-256), 58);
	int i = mc::choose((int)g.size() + 3), first = i;
	mc::shard_point();
	mc::nontrivial();
	Par a = pint("a", 0, 1, 0), b = pint("b", 0, 1, 0);
	add(od(a), 70), add(od(b), 71), add(od(a), 70);
	g.back().flags |= CCS_DATUM_FLAG_ID;
	auto cmp = [&](size_t x, size_t y) {
		mc::step();
		int s = ccs_datum_cmp(g[x], g[y]);
		if (s < -1 || s > 1)
			mc::fail("ccs_datum_cmp of %s and %s gives %d, neither -1, 0 nor 1", dstr(g[x]).c_str(), dstr(g[y]).c_str(), s);
		return s;
	};
	for (size_t y = 0; y < g.size(); y++) {
		int s = cmp((size_t)first, y), t = cmp(y, (size_t)first);
		if (s != -t || (cls[(size_t)first] == cls[y]) != (s == 0))
			mc::fail("values %s and %s compare %d one way, %d the other", dstr(g[(size_t)first]).c_str(), dstr(g[y]).c_str(), s, t);
		for (size_t z = 0; z < g.size(); z++)
			if (s <= 0 && cmp(y, z) <= 0 && cmp((size_t)first, z) > 0)
				mc::fail("values %s, %s, %s are not in order", dstr(g[(size_t)first]).c_str(), dstr(g[y]).c_str(), dstr(g[z]).c_str());
	}
}

// objects of many values, or of long strings, differing in exactly one place
static const size_t many[] = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300};
static const size_t longs[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 5000};
static std::vector<size_t> places(size_t n)
{
	std::set<size_t> s;
	for (size_t i = 0; i < n; i++)
		if (i < 3 || i + 2 >= n || i == n / 2 || (i & (i - 1)) == 0 || ((i + 1) & i) == 0)
			s.insert(i);
	return std::vector<size_t>(s.begin(), s.end());
}
static void in_order(int kind, const std::vector<Obj> &o, const std::vector<std::string> &c)
{
	for (size_t i = 0; i < o.size(); i++)
		for (size_t j = 0; j < o.size(); j++) {
			int s = compare(kind, o[i], o[j]), t = compare(kind, o[j], o[i]);
			if (s != -t || (c[i] == c[j]) != (s == 0))
				mc::fail("%ss with %s contents (%zu, %zu) compare %d one way, %d the other", kinds[kind], c[i] == c[j] ? "the same" : "different", i, j, s, t);
			if (c[i] == c[j] && hashof(kind, o[i]) != hashof(kind, o[j]))
				mc::fail("%ss %zu and %zu are equal and have different hashes", kinds[kind], i, j);
			for (size_t l = 0; l < o.size(); l++)
				if (s <= 0 && compare(kind, o[j], o[l]) <= 0 && compare(kind, o[i], o[l]) > 0)
					mc::fail("%ss %zu, %zu, %zu are not in order", kinds[kind], i, j, l);
		}
}
MC_SUITE(sizes)
{
	int    kind = mc::choose(KINDS, "kind");
	size_t n    = many[mc::choose((int)(sizeof(many) / sizeof(*many)), "values")];
	mc::shard_point();
	std::vector<size_t> at = places(n);
	size_t p1 = mc::pick(at, "first difference"), p2 = mc::pick(at, "second difference");
	int    ty = kind == TCONF ? 0 : mc::choose(3, "integers / floats / strings");
	if (p2 < p1)
		mc::prune();
	mc::nontrivial();
	mc::obs(n * 1000 + p1 * 7 + p2);
	std::vector<Obj>         o;
	std::vector<std::string> c;
	if (kind == TCONF) {
		Tre root;
		OKX(ccs_create_tree(3, ccs_int(0), root.ret()));
		ccs_tree_t cur = root;
		for (size_t i = 0; i < n; i++) {
			Tre nx;
			OKX(ccs_create_tree(3, ccs_int((ccs_int_t)i), nx.ret()));
			OKX(ccs_tree_set_child(cur, 1, nx));
			cur = nx;
		}
		TSp ts;
		OKX(ccs_create_static_tree_space("s", root, ts.ret()));
		auto mk = [&](size_t len, int last) {
			std::vector<size_t> pos(len, 1);
			std::string         s(len, 'b');
			if (len && last != 1)
				pos[len - 1] = (size_t)last, s[len - 1] = (char)('a' + last);
			TCf t;
			OKX(ccs_create_tree_configuration(ts, len, pos.data(), t.ret()));
			Obj r;
			*r.ret() = t.get();
			OKX(ccs_retain_object(t.get()));
			o.push_back(std::move(r));
			c.push_back(s);
		};
		mk(n, 1), mk(n, 1), mk(p1 + 1, 0), mk(p1 + 1, 2), mk(p2 + 1, 0), mk(p2 + 1, 1), mk(0, 1), mk(p1, 1);
		in_order(kind, o, c);
		return;
	}
	std::vector<Par>             ps;
	std::vector<ccs_parameter_t> raw;
	for (size_t i = 0; i < n; i++) {
		std::string nm = strf("p%zu", i);
		ps.push_back(ty == 0 ? pint(nm.c_str(), -1000, 1000, 0) : ty == 1 ? pflt(nm.c_str(), -1000.0, 1000.0, 0.0) : pcat(nm.c_str(), grid(), 11));
		raw.push_back(ps.back());
	}
	Par e  = pint("e", 0, 10, 0);
	CSp cs = kind == CONF ? CSp() : mkcs("c", {e});
	FSp fs;
	OSp os;
	if (kind == CONF) {
		OKX(ccs_create_configuration_space("s", cs.ret()));
		OKX(ccs_configuration_space_add_parameters(cs, n, raw.data(), nullptr));
	} else if (kind == FEAT) {
		OKX(ccs_create_features_space("s", fs.ret()));
		OKX(ccs_features_space_add_parameters(fs, n, raw.data()));
	} else {
		OKX(ccs_create_objective_space("s", os.ret()));
		OKX(ccs_objective_space_add_parameters(os, n, raw.data()));
		if (kind == FEVAL)
			fs = mkfs("f", {e});
	}
	Tre root;
	TSp ts;
	OKX(ccs_create_tree(0, ccs_int(0), root.ret()));
	OKX(ccs_create_static_tree_space("t", root, ts.ret()));
	static const ccs_int_t   iv[3] = {7, -7, 900};
	static const ccs_float_t fv[3] = {7.5, -7.5, 900.25};
	static const int         sv[3] = {11, 12, 16};
	auto mk = [&](int w1, int w2) {
		std::vector<int> which(n, 0);
		which[p1] = w1;
		if (w2)
			which[p2] = w2;
		Data        d;
		std::string key;
		for (int w : which) {
			d.push_back(ty == 0 ? ccs_int(iv[w]) : ty == 1 ? ccs_float(fv[w]) : val(sv[w]));
			key += (char)('0' + w);
		}
		Obj r;
		if (kind == CONF)
			OKX(ccs_create_configuration(cs, n, d.data(), (ccs_configuration_t *)r.ret()));
		else if (kind == FEAT)
			OKX(ccs_create_features(fs, n, d.data(), (ccs_features_t *)r.ret()));
		else if (kind == EVAL || kind == FEVAL) {
			Cfg cf;
			OKX(ccs_create_configuration(cs, 0, nullptr, cf.ret()));
			OKX(ccs_configuration_set_value(cf, 0, ccs_int(0)));
			if (kind == EVAL)
				OKX(ccs_create_evaluation(os, cf, CCS_RESULT_SUCCESS, n, d.data(), (ccs_evaluation_t *)r.ret()));
			else {
				ccs_datum_t z = ccs_int(0);
				Fea         fe;
				OKX(ccs_create_features(fs, 1, &z, fe.ret()));
				OKX(ccs_create_features_evaluation(os, cf, fe, CCS_RESULT_SUCCESS, n, d.data(), (ccs_features_evaluation_t *)r.ret()));
			}
		} else {
			TCf tc;
			OKX(ccs_create_tree_configuration(ts, 0, nullptr, tc.ret()));
			OKX(ccs_create_tree_evaluation(os, tc, CCS_RESULT_SUCCESS, n, d.data(), (ccs_tree_evaluation_t *)r.ret()));
		}
		o.push_back(std::move(r));
		c.push_back(key);
	};
	mk(0, 0), mk(0, 0), mk(1, 0), mk(2, 0), mk(0, 1), mk(1, 2), mk(2, 1);
	in_order(kind, o, c);
}
MC_SUITE(long_strings)
{
	int    kind = mc::choose(3, "features / configuration / bare values");
	size_t n    = longs[mc::choose((int)(sizeof(longs) / sizeof(*longs)), "length")];
	mc::shard_point();
	std::vector<size_t> at = places(n);
	size_t              p = mc::pick(at, "difference");
	mc::nontrivial();
	mc::obs(n * 10000 + p);
	std::string base(n, 'm');
	for (size_t i = 0; i < n; i++)
		base[i] = (char)('a' + i * 7 % 26);
	std::vector<std::string> t = {base, base, base, base, base + "x", base.substr(0, p)};
	t[2][p] = (char)1, t[3][p] = (char)0xfe;
	std::vector<ccs_datum_t> d;
	for (auto &s : t)
		d.push_back(ccs_string(s.c_str()));
	std::vector<std::string> c = t;
	if (kind == 2) {
		for (size_t i = 0; i < d.size(); i++)
			for (size_t j = 0; j < d.size(); j++) {
				int s = ccs_datum_cmp(d[i], d[j]);
				if ((s == 0) != (t[i] == t[j]) || s != -ccs_datum_cmp(d[j], d[i]))
					mc::fail("strings of %zu characters, different at %zu, compare %d", n, p, s);
				for (size_t l = 0; l < d.size(); l++)
					if (s <= 0 && ccs_datum_cmp(d[j], d[l]) <= 0 && ccs_datum_cmp(d[i], d[l]) > 0)
						mc::fail("strings of %zu characters are not in order", n);
			}
		return;
	}
	std::vector<Obj> o;
	if (kind == 0) {
		Par         sp = pstr("s"), q = pint("q", 0, 10, 0);
		FSp         fs = mkfs("fs", {sp, q});
		for (auto &s : t) {
			std::string pass = s;
			ccs_datum_t v[2] = {tstr(pass.c_str()), ccs_int(1)};
			Obj         r;
			OKX(ccs_create_features(fs, 2, v, (ccs_features_t *)r.ret()));
			o.push_back(std::move(r));
		}
		in_order(FEAT, o, c);
	} else {
		std::vector<ccs_datum_t> u(d.begin() + 1, d.end());
		Par                      cp = pcat("c", u);
		CSp                      cs = mkcs("cs", {cp});
		for (auto &s : t) {
			std::string pass = s;
			ccs_datum_t v    = tstr(pass.c_str());
			Obj         r;
			OKX(ccs_create_configuration(cs, 1, &v, (ccs_configuration_t *)r.ret()));
			o.push_back(std::move(r));
		}
		in_order(CONF, o, c);
	}
}
