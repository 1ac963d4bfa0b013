// The public interface as a book of calls: each with valid arguments, and with every argument made invalid.
#pragma once
#include "catalog.hpp"
#include <deque>

// one object of everything, linked up
struct Fix {
	World                     w;
	std::vector<ccs_object_t> all; // of different kinds: the last of a type stands for it as an argument of the wrong kind
	ccs_rng_t                 r, r2;
	ccs_parameter_t           x, c, y, pf, ps, o1, o2, pord_, pdis_, q1, q2, q3, foreign;
	ccs_distribution_t        du, dn, dr, dm, dv, df;
	ccs_expression_t          lit, var, less, list, other, ever;
	ccs_configuration_space_t cs, cs2, cs3;
	ccs_configuration_t       cf, cf2, cfo;
	ccs_features_space_t      fs, fs2, fs3;
	ccs_features_t            fe, fe2, feo;
	ccs_objective_space_t     os, os2;
	ccs_evaluation_t          ev, ev2;
	ccs_features_evaluation_t fv, fv2;
	ccs_tree_t                tr, tc, free_tree, dtr;
	ccs_tree_space_t          ts, dts;
	ccs_tree_configuration_t  tf, tf2;
	ccs_tree_evaluation_t     te, te2;
	ccs_tuner_t               tu, utu;
	ccs_features_tuner_t      ftu, uftu;
	ccs_tree_tuner_t          ttu, uttu;
	ccs_map_t                 map;
	ccs_int_t                 key = 0; // an absent key of map
	UD                       *ud[4];
	std::vector<char>         blob;
	template <class T> T k(Own<T> o)
	{
		T t = w.keep(o.take());
		all.push_back((ccs_object_t)t);
		return t;
	}
	Fix() : w(false)
	{
		r = w.rng(), r2 = w.rng();
		all.push_back((ccs_object_t)r);
		x = k(pint("x", 0, 10, 1)), c = k(pcat("c", {ccs_string("a"), ccs_string("b"), ccs_int(3)}, 1)), y = k(pflt("y", 0, 10, 5));
		pf = k(pcat("f", {ccs_string("f0"), ccs_string("f1")})), ps = k(pstr("s")), o1 = k(pflt("o1", -10, 10, 0)), o2 = k(pflt("o2", -10, 10, 0));
		pord_ = k(pord("po", {ccs_int(1), ccs_string("two"), ccs_int(3)})), pdis_ = k(pdis("pd", {ccs_int(1), ccs_int(2), ccs_int(4)}));
		q1 = k(pint("q1", 0, 5, 1)), q2 = k(pint("q2", 0, 5, 1)), q3 = k(pint("q3", 0, 5, 1)), foreign = k(pint("x", 0, 5, 1));
		Dis d;
		OKX(ccs_create_uniform_int_distribution(0, 10, CCS_SCALE_TYPE_LINEAR, 0, d.ret())); du = k(std::move(d));
		OKX(ccs_create_uniform_float_distribution(0, 10, CCS_SCALE_TYPE_LINEAR, 0, d.ret())); df = k(std::move(d));
		OKX(ccs_create_normal_int_distribution(0, 1, CCS_SCALE_TYPE_LINEAR, 0, d.ret())); dn = k(std::move(d));
		double ar[3] = {1, 2, 3};
		OKX(ccs_create_roulette_distribution(3, ar, d.ret())); dr = k(std::move(d));
		ccs_distribution_t dd[2] = {du, dr};
		OKX(ccs_create_mixture_distribution(2, dd, ar, d.ret())); dm = k(std::move(d));
		dd[0] = df, dd[1] = du;
		OKX(ccs_create_multivariate_distribution(2, dd, d.ret())); dv = k(std::move(d));
		lit = k(elit(ccs_string("literal"))), var = k(evar(x)), less = k(ebin(CCS_EXPRESSION_TYPE_LESS, ccs_object((ccs_object_t)var), ccs_int(5)));
		list = k(enary(CCS_EXPRESSION_TYPE_LIST, {ccs_int(7), ccs_object((ccs_object_t)var)})), other = k(ebin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object((ccs_object_t)var), ccs_int(9)));
		ever = k(ebin(CCS_EXPRESSION_TYPE_ADD, ccs_object((ccs_object_t)k(evar(o1))), ccs_object((ccs_object_t)k(evar(o2)))));
		cs = k(mkcs("cs", {x, c, y})), cs2 = k(mkcs("cs2", {q1})), cs3 = k(mkcs("cs3", {x}));
		OKX(ccs_configuration_space_set_rng(cs, r));
		OKX(ccs_configuration_space_set_rng(cs2, r));
		OKX(ccs_configuration_space_set_rng(cs3, r));
		size_t ix[2] = {2, 0};
		OKX(ccs_configuration_space_set_distribution(cs, dv, ix));
		OKX(ccs_configuration_space_set_condition(cs, 1, less));
		OKX(ccs_configuration_space_add_forbidden_clause(cs, k(ebin(CCS_EXPRESSION_TYPE_EQUAL, ccs_object((ccs_object_t)var), ccs_int(7)))));
		fs = k(mkfs("fs", {pf, ps})), fs2 = k(mkfs("fs2", {pf})), fs3 = k(mkfs("fs3", {pf}));
		os = k(mkos("os", {o1, o2})), os2 = k(mkos("os2", {o1}));
		OKX(ccs_objective_space_add_objective(os, k(evar(o1)), CCS_OBJECTIVE_TYPE_MINIMIZE));
		OKX(ccs_objective_space_add_objective(os, k(evar(o2)), CCS_OBJECTIVE_TYPE_MAXIMIZE));
		OKX(ccs_objective_space_add_objective(os2, k(evar(o1)), CCS_OBJECTIVE_TYPE_MINIMIZE));
		Cfg g;
		OKX(ccs_configuration_space_get_default_configuration(cs, g.ret())); cf = k(std::move(g));
		ccs_datum_t v3[3] = {ccs_int(6), ccs_inactive, ccs_float(1.5)};
		OKX(ccs_create_configuration(cs, 3, v3, g.ret())); cf2 = k(std::move(g));
		OKX(ccs_configuration_space_get_default_configuration(cs3, g.ret())); cfo = k(std::move(g));
		Fea         e;
		ccs_datum_t v2[2] = {ccs_string("f0"), ccs_string("some string")};
		OKX(ccs_create_features(fs, 2, v2, e.ret())); fe = k(std::move(e));
		OKX(ccs_create_features(fs3, 1, v2, e.ret())); feo = k(std::move(e));
		v2[0] = ccs_string("f1");
		OKX(ccs_create_features(fs, 2, v2, e.ret())); fe2 = k(std::move(e));
		ev = eval(0), ev2 = eval(1), fv = feval(0), fv2 = feval(1);
		Tre t, t2;
		OKX(ccs_create_tree(2, ccs_string("root"), t.ret())); tr = k(std::move(t));
		OKX(ccs_create_tree(2, ccs_int(1), t.ret())); tc = k(std::move(t));
		OKX(ccs_create_tree(0, ccs_int(2), t2.ret()));
		OKX(ccs_tree_set_child(tr, 0, tc));
		OKX(ccs_tree_set_child(tc, 1, t2));
		OKX(ccs_create_tree(1, ccs_int(3), t.ret())); free_tree = k(std::move(t));
		OKX(ccs_create_tree(2, ccs_int(4), t.ret())); dtr = k(std::move(t));
		for (auto &u : ud)
			u = w.newud("state");
		TSp s;
		OKX(ccs_create_dynamic_tree_space("dts", dtr, &vec_d, ud[3], s.ret())); dts = k(std::move(s));
		OKX(ccs_create_static_tree_space("ts", tr, s.ret())); ts = k(std::move(s));
		OKX(ccs_tree_space_set_rng(ts, r));
		OKX(ccs_tree_space_set_rng(dts, r));
		TCf    tfo;
		size_t pos[2] = {0, 1};
		OKX(ccs_create_tree_configuration(ts, 2, pos, tfo.ret())); tf = k(std::move(tfo));
		OKX(ccs_create_tree_configuration(ts, 1, pos, tfo.ret())); tf2 = k(std::move(tfo));
		te = teval(0), te2 = teval(1);
		Tun a;
		FTu b;
		TTu h;
		OKX(ccs_create_user_defined_tuner("utu", cs, os, &vec_t, ud[0], a.ret())); utu = k(std::move(a));
		OKX(ccs_create_random_tuner("tu", cs, os, a.ret())); tu = k(std::move(a));
		OKX(ccs_create_user_defined_features_tuner("uftu", cs, fs, os, &vec_f, ud[1], b.ret())); uftu = k(std::move(b));
		OKX(ccs_create_random_features_tuner("ftu", cs, fs, os, b.ret())); ftu = k(std::move(b));
		OKX(ccs_create_user_defined_tree_tuner("uttu", ts, os, &vec_r, ud[2], h.ret())); uttu = k(std::move(h));
		OKX(ccs_create_random_tree_tuner("ttu", ts, os, h.ret())); ttu = k(std::move(h));
		Map m;
		OKX(ccs_create_map(m.ret())); map = k(std::move(m));
	}
	// the i-th of some evaluations none of which dominates another
	ccs_evaluation_t eval(int i)
	{
		Eva         o;
		ccs_datum_t v[2] = {ccs_float(i * 0.5), ccs_float(i * 0.25)};
		OKX(ccs_create_evaluation(os, cf, CCS_RESULT_SUCCESS, 2, v, o.ret()));
		return k(std::move(o));
	}
	ccs_features_evaluation_t feval(int i)
	{
		FEv         o;
		ccs_datum_t v[2] = {ccs_float(i * 0.5), ccs_float(i * 0.25)};
		OKX(ccs_create_features_evaluation(os, cf, fe, CCS_RESULT_SUCCESS, 2, v, o.ret()));
		return k(std::move(o));
	}
	ccs_tree_evaluation_t teval(int i)
	{
		TEv         o;
		ccs_datum_t v[2] = {ccs_float(i * 0.5), ccs_float(i * 0.25)};
		OKX(ccs_create_tree_evaluation(os, tf, CCS_RESULT_SUCCESS, 2, v, o.ret()));
		return k(std::move(o));
	}
	// everything, as text, and all reference counts
	std::string text(bool rngs, std::map<void *, int> *counts, std::map<void *, int> *ids = nullptr)
	{
		Describe d;
		d.rngs = rngs;
		d.user = ud_text;
		for (auto o : all)
			d.obj(o);
		for (auto &u : ud)
			d.p("user state [%s] %zu %zu deleted %d restored %d\n", u->state.c_str(), u->history.size(), u->optima.size(), u->deleted, u->restored);
		if (ids)
			for (auto &q : d.id)
				(*ids)[(void *)q.first] = (int)q.second;
		if (counts) {
			for (auto &q : d.id)
				(*counts)[q.first] = refcount((ccs_object_t)q.first);
		}
		return d.out;
	}
};
static inline int type_of(ccs_object_t o)
{
	ccs_object_type_t t;
	OKX(ccs_object_get_type(o, &t));
	return (int)t;
}
// what a failing call may legitimately leave behind: draws consumed, nodes of a dynamic tree, the first
// answers of an array of positions, the first ones of several things to add, the first ones of several samples
enum { DRAWS = 1, GROWS = 2, INDEXES = 8, PARTS = 16, SOME = 32, NOERROR = 64 };
const ccs_result_t BADV = CCS_RESULT_ERROR_INVALID_VALUE, BADO = CCS_RESULT_ERROR_INVALID_OBJECT, OOB = CCS_RESULT_ERROR_OUT_OF_BOUNDS;

// The arguments of one call
struct Ctx {
	Fix                      &f;
	int                       bads; // how many arguments may still be made invalid
	std::vector<ccs_result_t> expect;
	std::string               what;
	struct Slot {
		char             *p;
		std::vector<char> before;
		std::function<std::string(std::map<void *, int> &)> text; // what it holds, in words that do not depend on addresses
	};
	template <class T> static std::string word(const T &v, std::map<void *, int> &id)
	{
		std::string pat(sizeof(T), (char)0xa5);
		if (!std::is_same_v<T, char> && !memcmp(&v, pat.data(), sizeof(T)))
			return "untouched";
		if constexpr (std::is_same_v<T, const char *>)
			return v ? std::string(v) : "none";
		else if constexpr (std::is_same_v<T, ccs_datum_t>) {
			if (v.type == CCS_DATA_TYPE_OBJECT)
				return strf("object %d", id.count(v.value.o) ? id[v.value.o] : -1);
			return dstr(v);
		} else if constexpr (std::is_same_v<T, ccs_interval_t>)
			return strf("%d %lx %lx %d %d", (int)v.type, (long)v.lower.i, (long)v.upper.i, (int)v.lower_included, (int)v.upper_included);
		else if constexpr (std::is_same_v<T, ccs_hash_t> || std::is_same_v<T, void *> || std::is_same_v<T, char>)
			return "";
		else if constexpr (std::is_pointer_v<T>)
			return strf("object %d", id.count((void *)v) ? id[(void *)v] : -1);
		else {
			std::string o;
			for (size_t i = 0; i < sizeof(T); i++)
				o += strf("%02x", ((const unsigned char *)&v)[i]);
			return o;
		}
	}
	template <class T> T *typed(size_t n)
	{
		T *p              = (T *)slot(sizeof(T) * n);
		slots.back().text = [p, n](std::map<void *, int> &id) {
			std::string              o;
			std::vector<std::string> w;
			for (size_t i = 0; i < n; i++)
				w.push_back(word(p[i], id));
			if (std::is_pointer_v<T>) // in an order that may depend on addresses
				std::sort(w.begin(), w.end());
			for (auto &q : w)
				o += q + " ";
			return o;
		};
		return p;
	}
	std::string text(std::map<void *, int> &id)
	{
		std::string o;
		for (auto &s : slots)
			if (s.text)
				o += s.text(id) + "\n";
		return o;
	}
	std::vector<Slot>                       slots;
	std::vector<std::pair<ccs_object_t *, size_t>> made;
	std::deque<std::vector<char>>           mem;
	Ctx(Fix &f_, int b) : f(f_), bads(b) {}
	// 0: the valid value, i: the i-th invalid one
	int bad(const char *name, std::initializer_list<ccs_result_t> codes)
	{
		if (!bads)
			return 0;
		int v = mc::choose(1 + (int)codes.size(), name);
		if (v) {
			bads--;
			expect.push_back(codes.begin()[v - 1]);
			what += strf(" %s (variant %d)", name, v);
		}
		return v;
	}
	char *slot(size_t n)
	{
		char *p = new char[n ? n : 1]; // exactly n bytes: writing beyond is seen
		memset(p, 0xa5, n);
		slots.push_back({p, std::vector<char>(p, p + n), nullptr});
		return p;
	}
	~Ctx()
	{
		for (auto &s : slots)
			delete[] s.p;
	}
	void unchanged(const char *name)
	{
		for (auto &s : slots)
			if (memcmp(s.p, s.before.data(), s.before.size()))
				mc::fail("%s failed but wrote its output%s", name, what.c_str());
	}
	void nothing_made(const char *name)
	{
		for (auto &m : made)
			for (size_t i = 0; i < m.second; i++)
				if (memcmp(&m.first[i], std::string(8, (char)0xa5).data(), 8) && m.first[i])
					mc::fail("%s failed but gave an object%s", name, what.c_str());
	}
	// some of the objects may have been given, the rest none
	void some_made(const char *name)
	{
		for (auto &m : made) {
			bool any = false;
			for (size_t i = 0; i < m.second; i++)
				any |= memcmp(&m.first[i], std::string(8, (char)0xa5).data(), 8) && m.first[i];
			if (!any)
				continue;
			for (size_t i = 0; i < m.second; i++) {
				if (!memcmp(&m.first[i], std::string(8, (char)0xa5).data(), 8))
					mc::fail("%s failed and gave some objects, but does not say how many%s", name, what.c_str());
				if (m.first[i])
					OKX(ccs_release_object(m.first[i]));
			}
		}
	}
	void release()
	{
		for (auto &m : made)
			for (size_t i = 0; i < m.second; i++)
				OKX(ccs_release_object(m.first[i]));
	}
	// an object: none, or one of every other type
	template <class T> T h(T o, std::set<int> types = {})
	{
		if (types.empty())
			types.insert(type_of((ccs_object_t)o));
		if (!bads)
			return o;
		std::map<int, ccs_object_t> wrong;
		for (auto q : f.all)
			if (!types.count(type_of(q)))
				wrong[type_of(q)] = q;
		if (!expect.empty())
			wrong.clear(); // after another invalid argument: none only
		int v = mc::choose(2 + (int)wrong.size(), "object");
		if (!v)
			return o;
		bads--;
		expect.push_back(BADO);
		if (v == 1) {
			what += " no object";
			return nullptr;
		}
		auto it = wrong.begin();
		std::advance(it, v - 2);
		what += strf(" object of type %d", it->first);
		return (T)it->second;
	}
	template <class T> T hctx(T o) { return h(o, {CCS_OBJECT_TYPE_CONFIGURATION_SPACE, CCS_OBJECT_TYPE_FEATURES_SPACE, CCS_OBJECT_TYPE_OBJECTIVE_SPACE}); }
	template <class T> T hbind(T o) { return h(o, {CCS_OBJECT_TYPE_CONFIGURATION, CCS_OBJECT_TYPE_FEATURES, CCS_OBJECT_TYPE_EVALUATION, CCS_OBJECT_TYPE_FEATURES_EVALUATION, CCS_OBJECT_TYPE_TREE_EVALUATION}); }
	// a parameter of the given object: another one, none, or an object of another type
	ccs_parameter_t param(ccs_parameter_t p)
	{
		if (bad("foreign parameter", {CCS_RESULT_ERROR_INVALID_PARAMETER}))
			return f.foreign;
		ccs_parameter_t q = h(p);
		if (q != p)
			expect.push_back(CCS_RESULT_ERROR_INVALID_PARAMETER);
		return q;
	}
	// an operand: no object or an object that is not an operand
	ccs_datum_t operand(ccs_datum_t v)
	{
		int b = bad("operand", {BADO, BADV});
		return b == 0 ? v : b == 1 ? ccs_object(nullptr) : ccs_object((ccs_object_t)f.r);
	}
	template <class T> T any(T o) { return bad("no object", {BADO}) ? nullptr : o; }
	// a required output
	template <class T> T *out() { return bad("no output", {BADV}) ? nullptr : typed<T>(1); }
	template <class T> T *outs(size_t n) { return bad("no output array", {BADV}) ? nullptr : std::is_same_v<T, char> ? (T *)slot(sizeof(T) * n) : typed<T>(n); }
	template <class T> T *optional() { return typed<T>(1); }
	template <class T> T *make(size_t n = 1)
	{
		if (bad("no output for the object", {BADV}))
			return nullptr;
		T *p = (T *)slot(sizeof(T) * n);
		made.push_back({(ccs_object_t *)p, n});
		return p;
	}
	const char *s(const char *v) { return bad("no string", {BADV}) ? nullptr : v; }
	const char *name(const char *v)
	{
		int b = bad("name", {BADV, CCS_RESULT_ERROR_INVALID_NAME, CCS_RESULT_ERROR_INVALID_NAME});
		return b == 0 ? v : b == 1 ? nullptr : b == 2 ? "absent" : "";
	}
	size_t ix(size_t v, size_t n, ccs_result_t code = OOB)
	{
		int b = bad("position", {code, code});
		return b == 0 ? v : b == 1 ? n : SIZE_MAX;
	}
	template <class T> T e(T v, std::initializer_list<long> wrong, ccs_result_t code = BADV)
	{
		if (!bads)
			return v;
		int b = mc::choose(1 + (int)wrong.size(), "value");
		if (!b)
			return v;
		bads--;
		expect.push_back(code);
		what += strf(" value %ld", wrong.begin()[b - 1]);
		return (T)wrong.begin()[b - 1];
	}
	ccs_float_t fl(double v, std::initializer_list<double> wrong)
	{
		if (!bads)
			return v;
		int b = mc::choose(1 + (int)wrong.size(), "value");
		if (!b)
			return v;
		bads--;
		expect.push_back(BADV);
		what += strf(" value %g", wrong.begin()[b - 1]);
		return wrong.begin()[b - 1];
	}
	template <class T> T *ary(std::vector<T> v, bool nullable = false)
	{
		if (!nullable && bad("no array", {BADV}))
			return nullptr;
		mem.emplace_back((char *)v.data(), (char *)(v.data() + v.size()));
		return (T *)mem.back().data();
	}
	template <class T> T *hary(std::vector<T> v)
	{
		int b = bad("array of objects", {BADV, BADO, BADO});
		if (b == 1)
			return nullptr;
		if (b >= 2)
			v[v.size() - 1] = b == 2 ? nullptr : (T)(type_of((ccs_object_t)v[0]) == CCS_OBJECT_TYPE_RNG ? (ccs_object_t)f.map : (ccs_object_t)f.r);
		mem.emplace_back((char *)v.data(), (char *)(v.data() + v.size()));
		return (T *)mem.back().data();
	}
	ccs_datum_t d(ccs_datum_t v, std::vector<ccs_datum_t> wrong = {}, ccs_result_t code = BADV)
	{
		if (!bads || wrong.empty())
			return v;
		int b = mc::choose(1 + (int)wrong.size(), "datum");
		if (!b)
			return v;
		bads--;
		expect.push_back(code);
		what += " datum " + dstr(wrong[(size_t)b - 1]);
		return wrong[(size_t)b - 1];
	}
	// output array with its size
	template <class T> struct List {
		size_t  n;
		T      *p;
		size_t *r;
	};
	template <class T> List<T> lst(size_t n, bool both = true)
	{
		List<T> l{n, nullptr, nullptr};
		int     b = bad("list", {BADV, BADV, BADV});
		if (b == 1 && !both)
			mc::prune();
		if (b == 1) {
			l.n = 0;
			return l;
		}
		l.r = typed<size_t>(1);
		if (b == 2)
			return l;
		if (b == 3) {
			if (!n)
				mc::prune();
			l.n = n - 1;
		}
		l.p = typed<T>(l.n);
		return l;
	}
};
struct Call {
	const char                                 *name;
	std::function<ccs_result_t(Fix &, Ctx &)>   run;
	int                                         flags = 0;
	int                                         preps = 1;
	std::function<void(Fix &, int)>             prep;
};
// fill a map so that the next insertion makes its table grow
inline void map_prep(Fix &f, int k)
{
	if (k == 0) // empty
		return;
	int n = 2;
	if (k == 2) { // about to grow
		Map  m;
		long base = 0;
		OKX(ccs_create_map(m.ret()));
		for (n = 0; n < 2000; n++) {
			mc::alloc_fail_at(0);
			OKX(ccs_map_set(m, ccs_int(n), ccs_int(n)));
			if (n == 1)
				base = mc::alloc_count();
			if (n > 1 && mc::alloc_count() > base)
				break;
		}
	}
	for (int i = 0; i < n; i++)
		OKX(ccs_map_set(f.map, ccs_int(i), ccs_int(i)));
	if (k == 1)
		OKX(ccs_map_set(f.map, ccs_string("key"), ccs_object((ccs_object_t)f.x)));
	f.key = n;
}
#define CB [](Fix & f, Ctx & c) -> ccs_result_t
#define G(fn, ...)                                                             \
	{                                                                      \
		#fn, CB { (void)f; (void)c; return fn(__VA_ARGS__); }          \
	}
#define GL(fn, T, N_, ...)                                                      \
	{                                                                      \
		#fn, CB { auto l = c.lst<T>(N_); return fn(__VA_ARGS__, l.n, l.p, l.r); } \
	}
#define O(x) ccs_object((ccs_object_t)(x))

#define CONTEXT_CALLS(P, H, o, par, n, nm)                                     \
	G(P##_get_name, H(o), c.out<const char *>()),                          \
	G(P##_get_num_parameters, H(o), c.out<size_t>()),                      \
	G(P##_get_parameter, H(o), c.ix(0, n), c.out<ccs_parameter_t>()),      \
	G(P##_get_parameter_by_name, H(o), c.name(nm), c.out<ccs_parameter_t>()), \
	G(P##_get_parameter_index_by_name, H(o), c.name(nm), c.out<size_t>()), \
	{#P "_get_parameter_index", CB {                                       \
		return P##_get_parameter_index(H(o), c.param(par), c.out<size_t>()); \
	}},                                                                    \
	{#P "_get_parameter_indexes", CB {                                     \
		std::vector<ccs_parameter_t> v = {par, par};                   \
		if (c.bad("foreign parameter", {CCS_RESULT_ERROR_INVALID_PARAMETER})) \
			v[1] = f.foreign;                                      \
		ccs_parameter_t *a = c.hary(v);                                \
		if (a && (!a[1] || (void *)a[1] == (void *)f.r))               \
			c.expect.push_back(CCS_RESULT_ERROR_INVALID_PARAMETER); \
		return P##_get_parameter_indexes(H(o), 2, a, c.outs<size_t>(2)); \
	}, INDEXES},                                                           \
	GL(P##_get_parameters, ccs_parameter_t, n, H(o))

#define BINDING_CALLS(P, H, o, o2, n, nm)                                      \
	G(P##_get_value, H(o), c.ix(0, n), c.out<ccs_datum_t>()),              \
	G(P##_get_value_by_name, H(o), c.name(nm), c.out<ccs_datum_t>()),      \
	GL(P##_get_values, ccs_datum_t, n, H(o)),                              \
	G(P##_hash, H(o), c.out<ccs_hash_t>()),                                \
	G(P##_cmp, H(o), H(o2), c.out<int>())
#define EVAL_CALLS(P, o, o2)                                                   \
	BINDING_CALLS(P, c.h, o, o2, 2, "o1"),                                 \
	G(P##_set_value, c.h(o), c.ix(0, 2), ccs_float(1)),                    \
	G(P##_get_objective_space, c.h(o), c.out<ccs_objective_space_t>()),    \
	G(P##_get_result, c.h(o), c.out<ccs_evaluation_result_t>()),           \
	G(P##_set_result, c.h(o), CCS_RESULT_ERROR_INVALID_VALUE),             \
	G(P##_check, c.h(o), c.out<ccs_bool_t>()),                             \
	G(P##_get_objective_value, c.h(o), c.ix(0, 2), c.out<ccs_datum_t>()),  \
	GL(P##_get_objective_values, ccs_datum_t, 2, c.h(o)),                  \
	G(P##_compare, c.h(o), c.h(o2), c.out<ccs_comparison_t>())
#define TUNER_CALLS(P, T, o)                                                   \
	G(P##_get_name, c.h(o), c.out<const char *>()),                        \
	G(P##_get_type, c.h(o), c.out<T##_type_t>()),                          \
	G(P##_get_objective_space, c.h(o), c.out<ccs_objective_space_t>())

inline void tell_prep(Fix &f, int k)
{
	// nothing told; one; or as many as fit before the lists grow
	int n = k == 0 ? 0 : k == 1 ? 1 : 8;
	for (int i = 0; i < n; i++) {
		ccs_evaluation_t          a = f.eval(10 + i);
		ccs_features_evaluation_t b = f.feval(10 + i);
		ccs_tree_evaluation_t     d = f.teval(10 + i);
		OKX(ccs_tuner_tell(f.tu, 1, &a));
		OKX(ccs_tuner_tell(f.utu, 1, &a));
		OKX(ccs_features_tuner_tell(f.ftu, 1, &b));
		OKX(ccs_features_tuner_tell(f.uftu, 1, &b));
		OKX(ccs_tree_tuner_tell(f.ttu, 1, &d));
		OKX(ccs_tree_tuner_tell(f.uttu, 1, &d));
	}
}
// parameters (and clauses, objectives) until the arrays are about to grow
inline void space_prep(Fix &f, int k)
{
	for (int i = 0; i < (k == 0 ? 0 : 8); i++) {
		char b[8];
		snprintf(b, sizeof b, "z%d", i);
		ccs_parameter_t p = f.k(pint(b, 0, 5, 1));
		if (i < 7) {
			OKX(ccs_configuration_space_add_parameter(f.cs2, p, nullptr));
			OKX(ccs_features_space_add_parameter(f.fs2, p));
			OKX(ccs_objective_space_add_parameter(f.os2, p));
			ccs_expression_t e = f.k(ebin(CCS_EXPRESSION_TYPE_EQUAL, O(f.k(evar(f.q1))), ccs_int(5)));
			OKX(ccs_configuration_space_add_forbidden_clause(f.cs2, e));
			OKX(ccs_objective_space_add_objective(f.os2, f.k(evar(p)), CCS_OBJECTIVE_TYPE_MINIMIZE));
		} else
			OKX(ccs_configuration_space_add_forbidden_clause(f.cs2, f.k(ebin(CCS_EXPRESSION_TYPE_EQUAL, O(f.k(evar(f.q1))), ccs_int(4)))));
	}
}
inline const std::vector<Call> &book()
{
	static const ccs_numeric_t I0 = CCSI(0), I10 = CCSI(10), I1 = CCSI(1);
	static const long          BADE = 1000;
	static const std::vector<Call> b = {
		// base
		{"ccs_get_result_name", CB { return ccs_get_result_name(CCS_RESULT_ERROR_INVALID_VALUE, c.out<const char *>()); }},
		G(ccs_object_get_type, c.any((ccs_object_t)f.x), c.out<ccs_object_type_t>()),
		G(ccs_object_get_refcount, c.any((ccs_object_t)f.x), c.out<int32_t>()),
		G(ccs_object_get_user_data, c.any((ccs_object_t)f.x), c.out<void *>()),
		G(ccs_object_set_user_data, c.any((ccs_object_t)f.x), (void *)"u"),
		{"ccs_object_set_destroy_callback", CB {
			 auto cb = c.bad("no callback", {BADV}) ? nullptr : +[](ccs_object_t, void *) {};
			 return ccs_object_set_destroy_callback(c.any((ccs_object_t)f.x), cb, nullptr);
		 }, 0, 3, [](Fix &f, int k) {
			 for (int i = 0; i < (k == 0 ? 0 : k == 1 ? 1 : 8); i++)
				 OKX(ccs_object_set_destroy_callback((ccs_object_t)f.x, [](ccs_object_t, void *) {}, nullptr));
		 }},
		G(ccs_object_set_serialize_callback, c.any((ccs_object_t)f.x), ud_ser, nullptr),
		// generators
		G(ccs_create_rng, c.make<ccs_rng_t>()),
		G(ccs_create_rng_with_type, c.bad("no type", {BADV}) ? nullptr : gsl_rng_rand, c.make<ccs_rng_t>()),
		G(ccs_rng_get_type, c.h(f.r), c.out<const gsl_rng_type *>()),
		G(ccs_rng_set_seed, c.h(f.r), 5),
		{"ccs_rng_get", CB { return ccs_rng_get(c.h(f.r), c.out<unsigned long>()); }, DRAWS},
		{"ccs_rng_uniform", CB { return ccs_rng_uniform(c.h(f.r), c.out<ccs_float_t>()); }, DRAWS},
		G(ccs_rng_get_gsl_rng, c.h(f.r), c.out<gsl_rng *>()),
		G(ccs_rng_min, c.h(f.r), c.out<unsigned long>()),
		G(ccs_rng_max, c.h(f.r), c.out<unsigned long>()),
		// parameters
		{"ccs_create_numerical_parameter", CB {
			 return ccs_create_numerical_parameter(c.s("n"), c.e(CCS_NUMERIC_TYPE_INT, {BADE, -1, CCS_DATA_TYPE_STRING}, CCS_RESULT_ERROR_INVALID_TYPE), c.bad("lower", {BADV}) ? I10 : I0, I10, c.bad("quantization", {BADV, BADV}) ? CCSI(-1) : I0, c.bad("default", {BADV}) ? I10 : I1, c.make<ccs_parameter_t>());
		 }},
		{"ccs_create_int_numerical_parameter", CB { return ccs_create_int_numerical_parameter(c.s("n"), c.e<ccs_int_t>(0, {10, 11}), 10, c.e<ccs_int_t>(0, {-1, 11}), c.e<ccs_int_t>(1, {10, -1}), c.make<ccs_parameter_t>()); }},
		{"ccs_create_float_numerical_parameter", CB { return ccs_create_float_numerical_parameter(c.s("n"), c.fl(0, {10, 11, NAN}), c.fl(10, {NAN, -1}), c.fl(0, {-1, 11, NAN}), c.fl(1, {10, -1, NAN}), c.make<ccs_parameter_t>()); }},
		{"ccs_numerical_parameter_get_properties", CB { return ccs_numerical_parameter_get_properties(c.h(f.x), c.optional<ccs_numeric_type_t>(), c.optional<ccs_numeric_t>(), c.optional<ccs_numeric_t>(), c.optional<ccs_numeric_t>()); }},
		{"ccs_create_categorical_parameter", CB { return ccs_create_categorical_parameter(c.s("n"), 3, c.ary<ccs_datum_t>({ccs_string("one"), ccs_int(2), c.d(ccs_true, {ccs_string("one"), ccs_int(2)})}), c.ix(1, 3, BADV), c.make<ccs_parameter_t>()); }},
		{"ccs_create_ordinal_parameter", CB { return ccs_create_ordinal_parameter(c.s("n"), 3, c.ary<ccs_datum_t>({ccs_string("one"), ccs_int(2), c.d(ccs_true, {ccs_string("one"), ccs_int(2)})}), c.ix(1, 3, BADV), c.make<ccs_parameter_t>()); }},
		{"ccs_create_discrete_parameter", CB { return ccs_create_discrete_parameter(c.s("n"), 3, c.ary<ccs_datum_t>({ccs_int(1), ccs_int(2), c.d(ccs_int(3), {ccs_int(1), ccs_int(2), ccs_string("one")})}), c.ix(1, 3, BADV), c.make<ccs_parameter_t>()); }},
		G(ccs_create_string_parameter, c.s("n"), c.make<ccs_parameter_t>()),
		GL(ccs_categorical_parameter_get_values, ccs_datum_t, 3, c.h(f.c)),
		GL(ccs_ordinal_parameter_get_values, ccs_datum_t, 3, c.h(f.pord_)),
		GL(ccs_discrete_parameter_get_values, ccs_datum_t, 3, c.h(f.pdis_)),
		{"ccs_ordinal_parameter_compare_values", CB { return ccs_ordinal_parameter_compare_values(c.h(f.pord_), c.d(ccs_int(1), {ccs_int(2), ccs_none}), c.d(ccs_string("two"), {ccs_string("three")}), c.out<ccs_int_t>()); }},
		G(ccs_parameter_get_type, c.h(f.x), c.out<ccs_parameter_type_t>()),
		G(ccs_parameter_get_default_value, c.h(f.x), c.out<ccs_datum_t>()),
		G(ccs_parameter_get_name, c.h(f.x), c.out<const char *>()),
		{"ccs_parameter_get_default_distribution", CB { return ccs_parameter_get_default_distribution(c.h(std::vector<ccs_parameter_t>{f.x, f.y, f.c, f.pdis_}[(size_t)(f.key % 4)]), c.make<ccs_distribution_t>()); }, 0, 4, [](Fix &f, int k) { f.key = k; }},
		G(ccs_parameter_check_value, c.h(f.x), ccs_int(1), c.out<ccs_bool_t>()),
		G(ccs_parameter_check_values, c.h(f.x), 2, c.ary<ccs_datum_t>({ccs_int(1), ccs_int(2)}), c.outs<ccs_bool_t>(2)),
		G(ccs_parameter_validate_value, c.h(f.x), ccs_int(1), c.out<ccs_datum_t>(), c.out<ccs_bool_t>()),
		G(ccs_parameter_validate_values, c.h(f.x), 2, c.ary<ccs_datum_t>({ccs_int(1), ccs_int(2)}), c.outs<ccs_datum_t>(2), c.outs<ccs_bool_t>(2)),
		{"ccs_parameter_validate_value string", CB { return ccs_parameter_validate_value(c.h(f.ps), tstr("fresh"), c.out<ccs_datum_t>(), c.out<ccs_bool_t>()); }},
		{"ccs_parameter_validate_values string", CB { return ccs_parameter_validate_values(c.h(f.ps), 3, c.ary<ccs_datum_t>({tstr("fresh"), tstr("some string"), tstr("fresher")}), c.outs<ccs_datum_t>(3), c.outs<ccs_bool_t>(3)); }},
		G(ccs_parameter_convert_samples, c.h(f.x), CCS_FALSE, 2, c.ary<ccs_numeric_t>({I0, I1}), c.outs<ccs_datum_t>(2)),
		{"ccs_parameter_sample", CB { return ccs_parameter_sample(c.h(f.x), c.h(f.du), c.h(f.r2), c.out<ccs_datum_t>()); }, DRAWS},
		{"ccs_parameter_samples", CB { return ccs_parameter_samples(c.h(f.x), c.h(f.du), c.h(f.r2), 3, c.outs<ccs_datum_t>(3)); }, DRAWS},
		{"ccs_parameter_samples oversampling", CB { return ccs_parameter_samples(c.h(f.x), c.h(f.dn), c.h(f.r2), 3, c.outs<ccs_datum_t>(3)); }, DRAWS},
		{"ccs_parameter_samples categorical", CB { return ccs_parameter_samples(c.h(f.c), c.h(f.dn), c.h(f.r2), 3, c.outs<ccs_datum_t>(3)); }, DRAWS},
		{"ccs_parameter_samples discrete", CB { return ccs_parameter_samples(c.h(f.pdis_), c.h(f.dr), c.h(f.r2), 3, c.outs<ccs_datum_t>(3)); }, DRAWS},
		G(ccs_parameter_sampling_interval, c.h(f.x), c.out<ccs_interval_t>()),
		// distributions
		{"ccs_create_normal_distribution", CB { return ccs_create_normal_distribution(c.e(CCS_NUMERIC_TYPE_INT, {BADE, -1, CCS_DATA_TYPE_STRING}, CCS_RESULT_ERROR_INVALID_TYPE), 0, 1, c.e(CCS_SCALE_TYPE_LINEAR, {BADE, -1}, CCS_RESULT_ERROR_INVALID_SCALE), c.bad("quantization", {BADV}) ? CCSI(-1) : I0, c.make<ccs_distribution_t>()); }},
		G(ccs_create_normal_int_distribution, 0, 1, CCS_SCALE_TYPE_LINEAR, c.e<ccs_int_t>(0, {-1}), c.make<ccs_distribution_t>()),
		G(ccs_create_normal_float_distribution, 0, 1, CCS_SCALE_TYPE_LINEAR, c.fl(0, {-1}), c.make<ccs_distribution_t>()),
		{"ccs_create_uniform_distribution", CB { return ccs_create_uniform_distribution(c.e(CCS_NUMERIC_TYPE_INT, {BADE, -1, CCS_DATA_TYPE_STRING}, CCS_RESULT_ERROR_INVALID_TYPE), c.bad("lower", {BADV}) ? I10 : I0, I10, c.e(CCS_SCALE_TYPE_LINEAR, {BADE, -1}, CCS_RESULT_ERROR_INVALID_SCALE), c.bad("quantization", {BADV}) ? CCSI(-1) : I0, c.make<ccs_distribution_t>()); }},
		G(ccs_create_uniform_int_distribution, c.e<ccs_int_t>(0, {10, 11}), 10, CCS_SCALE_TYPE_LINEAR, c.e<ccs_int_t>(0, {-1, 11}), c.make<ccs_distribution_t>()),
		G(ccs_create_uniform_float_distribution, c.fl(0, {10, 11}), 10, CCS_SCALE_TYPE_LINEAR, c.fl(0, {-1, 11}), c.make<ccs_distribution_t>()),
		{"ccs_create_roulette_distribution", CB { return ccs_create_roulette_distribution(c.e<size_t>(3, {0}), c.ary<ccs_float_t>({1, 2, c.fl(3, {-1, NAN, HUGE_VAL})}), c.make<ccs_distribution_t>()); }},
		{"ccs_create_mixture_distribution", CB { return ccs_create_mixture_distribution(c.e<size_t>(2, {0}), c.hary<ccs_distribution_t>({f.du, f.dr}), c.ary<ccs_float_t>({1, c.fl(3, {-1, NAN, HUGE_VAL})}), c.make<ccs_distribution_t>()); }},
		{"ccs_create_multivariate_distribution", CB { return ccs_create_multivariate_distribution(c.e<size_t>(2, {0}), c.hary<ccs_distribution_t>({f.du, f.dv}), c.make<ccs_distribution_t>()); }},
		G(ccs_distribution_get_type, c.h(f.du), c.out<ccs_distribution_type_t>()),
		G(ccs_distribution_get_dimension, c.h(f.dv), c.out<size_t>()),
		G(ccs_distribution_get_data_types, c.h(f.dv), c.outs<ccs_numeric_type_t>(2)),
		G(ccs_distribution_get_bounds, c.h(f.dv), c.outs<ccs_interval_t>(2)),
		{"ccs_distribution_check_oversampling", CB { ccs_interval_t i = {CCS_NUMERIC_TYPE_FLOAT, CCSF(0.0), CCSF(1.0), CCS_TRUE, CCS_TRUE}, j = {CCS_NUMERIC_TYPE_INT, CCSI(0), CCSI(1), CCS_TRUE, CCS_TRUE}; return ccs_distribution_check_oversampling(c.h(f.dv), c.ary<ccs_interval_t>({i, j}), c.outs<ccs_bool_t>(2)); }},
		{"ccs_normal_distribution_get_properties", CB { return ccs_normal_distribution_get_properties(c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.du : c.h(f.dn), c.optional<ccs_float_t>(), c.optional<ccs_float_t>(), c.optional<ccs_scale_type_t>(), c.optional<ccs_numeric_t>()); }},
		{"ccs_uniform_distribution_get_properties", CB { return ccs_uniform_distribution_get_properties(c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.du), c.optional<ccs_numeric_t>(), c.optional<ccs_numeric_t>(), c.optional<ccs_scale_type_t>(), c.optional<ccs_numeric_t>()); }},
		{"ccs_roulette_distribution_get_num_areas", CB { return ccs_roulette_distribution_get_num_areas(c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dr), c.out<size_t>()); }},
		GL(ccs_roulette_distribution_get_areas, ccs_float_t, 3, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dr)),
		G(ccs_mixture_distribution_get_num_distributions, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dm), c.out<size_t>()),
		GL(ccs_mixture_distribution_get_distributions, ccs_distribution_t, 2, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dm)),
		GL(ccs_mixture_distribution_get_weights, ccs_float_t, 2, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dm)),
		G(ccs_multivariate_distribution_get_num_distributions, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dv), c.out<size_t>()),
		GL(ccs_multivariate_distribution_get_distributions, ccs_distribution_t, 2, c.bad("other distribution", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dn : c.h(f.dv)),
		{"ccs_distribution_sample", CB { return ccs_distribution_sample(c.h(f.dv), c.h(f.r2), c.outs<ccs_numeric_t>(2)); }, DRAWS},
		{"ccs_distribution_samples", CB { return ccs_distribution_samples(c.h(f.dv), c.h(f.r2), 3, c.outs<ccs_numeric_t>(6)); }, DRAWS},
		{"ccs_distribution_samples mixture", CB { return ccs_distribution_samples(c.h(f.dm), c.h(f.r2), 3, c.outs<ccs_numeric_t>(3)); }, DRAWS},
		{"ccs_distribution_strided_samples", CB { return ccs_distribution_strided_samples(c.h(f.dv), c.h(f.r2), 2, c.e<size_t>(3, {0, 1}), c.outs<ccs_numeric_t>(6)); }, DRAWS},
		{"ccs_distribution_soa_samples", CB { ccs_numeric_t *a = c.optional<ccs_numeric_t>(), *b = c.optional<ccs_numeric_t>(); return ccs_distribution_soa_samples(c.h(f.dv), c.h(f.r2), 1, c.ary<ccs_numeric_t *>({a, b})); }, DRAWS},
		{"ccs_distribution_parameters_samples", CB { return ccs_distribution_parameters_samples(c.h(f.dv), c.h(f.r2), c.hary<ccs_parameter_t>({f.y, f.x}), 2, c.outs<ccs_datum_t>(4)); }, DRAWS},
		{"ccs_distribution_parameters_sample", CB { return ccs_distribution_parameters_sample(c.h(f.dv), c.h(f.r2), c.hary<ccs_parameter_t>({f.y, f.x}), c.outs<ccs_datum_t>(2)); }, DRAWS},
		// expressions
		{"ccs_create_expression", CB { return ccs_create_expression(c.e(CCS_EXPRESSION_TYPE_LIST, {BADE, -1, CCS_EXPRESSION_TYPE_LITERAL, CCS_EXPRESSION_TYPE_VARIABLE, CCS_EXPRESSION_TYPE_AND}), 3, c.ary<ccs_datum_t>({O(f.less), ccs_int(1), c.operand(O(f.x))}), c.make<ccs_expression_t>()); }},
		{"ccs_create_expression string", CB { return ccs_create_expression(CCS_EXPRESSION_TYPE_LIST, 2, c.ary<ccs_datum_t>({tstr("string"), c.d(ccs_int(1), {}, BADV)}), c.make<ccs_expression_t>()); }},
		{"ccs_create_binary_expression", CB { return ccs_create_binary_expression(c.e(CCS_EXPRESSION_TYPE_ADD, {BADE, CCS_EXPRESSION_TYPE_NOT, CCS_EXPRESSION_TYPE_LITERAL, CCS_EXPRESSION_TYPE_VARIABLE}), c.operand(O(f.x)), c.operand(tstr("string")), c.make<ccs_expression_t>()); }},
		{"ccs_create_unary_expression", CB { return ccs_create_unary_expression(c.e(CCS_EXPRESSION_TYPE_NOT, {BADE, CCS_EXPRESSION_TYPE_AND, CCS_EXPRESSION_TYPE_LITERAL, CCS_EXPRESSION_TYPE_VARIABLE}), c.operand(tstr("string")), c.make<ccs_expression_t>()); }},
		{"ccs_create_literal", CB { return ccs_create_literal(c.d(tstr("string"), {O(f.x), O(nullptr)}), c.make<ccs_expression_t>()); }},
		G(ccs_create_variable, c.h(f.x), c.make<ccs_expression_t>()),
		G(ccs_expression_get_type, c.h(f.less), c.out<ccs_expression_type_t>()),
		G(ccs_expression_get_num_nodes, c.h(f.less), c.out<size_t>()),
		GL(ccs_expression_get_nodes, ccs_expression_t, 2, c.h(f.less)),
		G(ccs_literal_get_value, c.bad("other expression", {CCS_RESULT_ERROR_INVALID_EXPRESSION}) ? f.less : c.h(f.lit), c.out<ccs_datum_t>()),
		G(ccs_variable_get_parameter, c.bad("other expression", {CCS_RESULT_ERROR_INVALID_EXPRESSION}) ? f.less : c.h(f.var), c.out<ccs_parameter_t>()),
		{"ccs_expression_eval", CB { return ccs_expression_eval(c.h(f.less), c.hctx((ccs_context_t)f.cs), c.ary<ccs_datum_t>({ccs_int(1), ccs_string("a"), ccs_float(1)}), c.out<ccs_datum_t>()); }},
		{"ccs_expression_list_eval_node", CB { return ccs_expression_list_eval_node(c.bad("other expression", {CCS_RESULT_ERROR_INVALID_EXPRESSION}) ? f.less : c.h(f.list), c.hctx((ccs_context_t)f.cs), c.ary<ccs_datum_t>({ccs_int(1), ccs_string("a"), ccs_float(1)}), c.ix(1, 2), c.out<ccs_datum_t>()); }},
		GL(ccs_expression_get_parameters, ccs_parameter_t, 1, c.h(f.less)),
		GL(ccs_expression_get_parameters, ccs_parameter_t, 2, c.h(f.ever)),
		{"ccs_expression_check_context", CB { 
			 int b = c.bad("context", {CCS_RESULT_ERROR_INVALID_PARAMETER, BADV});
			 return ccs_expression_check_context(c.h(f.less), b == 1 ? (ccs_context_t)f.os : b == 2 ? nullptr : (ccs_context_t)f.cs);
		 }},
		// contexts
		CONTEXT_CALLS(ccs_context, c.hctx, (ccs_context_t)f.cs, f.x, 3, "x"),
		{"ccs_context_validate_value", CB { return ccs_context_validate_value(c.hctx((ccs_context_t)f.cs), c.ix(1, 3), c.d(tstr("a"), {tstr("absent"), ccs_none}, CCS_RESULT_ERROR_INVALID_VALUE), c.out<ccs_datum_t>()); }, INDEXES},
		CONTEXT_CALLS(ccs_configuration_space, c.h, f.cs, f.x, 3, "x"),
		CONTEXT_CALLS(ccs_features_space, c.h, f.fs, f.pf, 2, "f"),
		CONTEXT_CALLS(ccs_objective_space, c.h, f.os, f.o1, 2, "o1"),
		G(ccs_features_space_validate_value, c.h(f.fs), c.ix(1, 2), tstr("fresh"), c.out<ccs_datum_t>()),
		G(ccs_objective_space_validate_value, c.h(f.os), c.ix(1, 2), ccs_float(1), c.out<ccs_datum_t>()),
		G(ccs_configuration_space_validate_value, c.h(f.cs), c.ix(1, 3), tstr("a"), c.out<ccs_datum_t>()),
		// configuration spaces
		G(ccs_create_configuration_space, c.s("cs"), c.make<ccs_configuration_space_t>()),
		G(ccs_configuration_space_set_rng, c.h(f.cs), c.h(f.r2)),
		G(ccs_configuration_space_get_rng, c.h(f.cs), c.out<ccs_rng_t>()),
		{"ccs_configuration_space_add_parameter", CB { return ccs_configuration_space_add_parameter(c.h(f.cs2), c.bad("name taken", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.q1 : c.h(f.q2), c.bad("distribution of two dimensions", {CCS_RESULT_ERROR_INVALID_DISTRIBUTION}) ? f.dv : f.du); }, 0, 2, space_prep},
		{"ccs_configuration_space_add_parameter default", CB { return ccs_configuration_space_add_parameter(c.h(f.cs2), c.h(f.q2), nullptr); }, 0, 2, space_prep},
		{"ccs_configuration_space_add_parameter first", CB { return ccs_configuration_space_add_parameter((ccs_configuration_space_t)f.all.back(), c.h(f.q2), nullptr); }, 0, 1, [](Fix &f, int) { f.k(mkcs("empty", {})); }},
		{"ccs_configuration_space_add_parameters", CB { return ccs_configuration_space_add_parameters(c.h(f.cs2), 2, c.hary<ccs_parameter_t>({f.q2, f.q3}), c.ary<ccs_distribution_t>({f.du, nullptr}, true)); }, PARTS, 2, space_prep},
		{"ccs_configuration_space_set_distribution", CB { return ccs_configuration_space_set_distribution(c.h(f.cs), c.h(f.dv), c.ary<size_t>({c.ix(0, 3, BADV), 2})); }, 0, 1, [](Fix &f, int) { size_t i = 1; OKX(ccs_configuration_space_set_distribution(f.cs, f.dr, &i)); }},
		{"ccs_configuration_space_set_distribution twice", CB { return ccs_configuration_space_set_distribution(c.h(f.cs), c.h(f.dv), c.ary<size_t>({2, c.bad("same position", {BADV}) ? (size_t)2 : (size_t)1})); }},
		{"ccs_configuration_space_get_parameter_distribution", CB { return ccs_configuration_space_get_parameter_distribution(c.h(f.cs), c.ix(0, 3), c.out<ccs_distribution_t>(), c.out<size_t>()); }},
		{"ccs_configuration_space_set_condition", CB { return ccs_configuration_space_set_condition(c.h(f.cs), c.ix(2, 3), c.bad("foreign expression", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.ever : c.h(f.less)); }},
		{"ccs_configuration_space_set_condition cycle", CB { return ccs_configuration_space_set_condition(c.h(f.cs), c.bad("cycle", {CCS_RESULT_ERROR_INVALID_GRAPH, CCS_RESULT_ERROR_INVALID_GRAPH}) ? (size_t)0 : (size_t)2, (ccs_expression_t)f.all.back()); }, 0, 1, [](Fix &f, int) { f.k(ebin(CCS_EXPRESSION_TYPE_EQUAL, O(f.c), ccs_string("b"))); }},
		{"ccs_configuration_space_get_condition", CB { return ccs_configuration_space_get_condition(c.h(f.cs), c.ix(1, 3), c.out<ccs_expression_t>()); }},
		GL(ccs_configuration_space_get_conditions, ccs_expression_t, 3, c.h(f.cs)),
		{"ccs_configuration_space_add_forbidden_clause", CB { return ccs_configuration_space_add_forbidden_clause(c.h(f.cs), c.bad("foreign expression", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.ever : c.bad("forbids the default", {CCS_RESULT_ERROR_INVALID_CONFIGURATION}) ? f.less : c.h(f.other)); }},
		{"ccs_configuration_space_add_forbidden_clause more", CB { return ccs_configuration_space_add_forbidden_clause(c.h(f.cs2), (ccs_expression_t)f.all.back()); }, 0, 2, [](Fix &f, int k) { space_prep(f, k); f.k(ebin(CCS_EXPRESSION_TYPE_EQUAL, O(f.k(evar(f.q1))), ccs_int(3))); }},
		{"ccs_configuration_space_add_forbidden_clauses", CB { return ccs_configuration_space_add_forbidden_clauses(c.h(f.cs), 2, c.hary<ccs_expression_t>({f.other, f.other})); }, PARTS},
		{"ccs_configuration_space_get_forbidden_clause", CB { return ccs_configuration_space_get_forbidden_clause(c.h(f.cs), c.ix(0, 1), c.out<ccs_expression_t>()); }},
		GL(ccs_configuration_space_get_forbidden_clauses, ccs_expression_t, 1, c.h(f.cs)),
		G(ccs_configuration_space_check_configuration, c.h(f.cs), c.bad("foreign configuration", {CCS_RESULT_ERROR_INVALID_CONFIGURATION}) ? f.cfo : c.h(f.cf), c.out<ccs_bool_t>()),
		G(ccs_configuration_space_check_configuration_values, c.h(f.cs), c.e<size_t>(3, {0, 2, 4}, CCS_RESULT_ERROR_INVALID_CONFIGURATION), c.ary<ccs_datum_t>({ccs_int(1), ccs_string("a"), ccs_float(1), ccs_none}), c.out<ccs_bool_t>()),
		G(ccs_configuration_space_get_default_configuration, c.h(f.cs), c.make<ccs_configuration_t>()),
		{"ccs_configuration_space_sample", CB { return ccs_configuration_space_sample(c.h(f.cs), c.make<ccs_configuration_t>()); }, DRAWS},
		{"ccs_configuration_space_samples", CB { return ccs_configuration_space_samples(c.h(f.cs), 3, c.make<ccs_configuration_t>(3)); }, SOME | DRAWS},
		{"ccs_create_configuration", CB { return ccs_create_configuration(c.h(f.cs), c.e<size_t>(3, {2, 4, 0}), c.ary<ccs_datum_t>({ccs_int(1), tstr("a"), ccs_float(1), ccs_none}), c.make<ccs_configuration_t>()); }},
		{"ccs_create_configuration empty", CB { return ccs_create_configuration(c.h(f.cs), 0, nullptr, c.make<ccs_configuration_t>()); }},
		G(ccs_configuration_get_configuration_space, c.h(f.cf), c.out<ccs_configuration_space_t>()),
		BINDING_CALLS(ccs_configuration, c.h, f.cf, f.cf2, 3, "c"),
		G(ccs_configuration_set_value, c.h(f.cf), c.ix(0, 3), ccs_int(2)),
		G(ccs_configuration_check, c.h(f.cf), c.out<ccs_bool_t>()),
		// bindings
		BINDING_CALLS(ccs_binding, c.hbind, (ccs_binding_t)f.cf, (ccs_binding_t)f.cf2, 3, "c"),
		G(ccs_binding_get_context, c.hbind((ccs_binding_t)f.cf), c.out<ccs_context_t>()),
		G(ccs_binding_set_value, c.hbind((ccs_binding_t)f.fe), c.ix(1, 2), tstr("fresh")),
		G(ccs_binding_set_values, c.hbind((ccs_binding_t)f.fe), c.e<size_t>(2, {0, 1, 3}), c.ary<ccs_datum_t>({tstr("f1"), tstr("fresh"), ccs_none})),
		G(ccs_binding_set_value_by_name, c.hbind((ccs_binding_t)f.fe), c.name("s"), tstr("fresh")),
		G(ccs_binding_set_value_by_parameter, c.hbind((ccs_binding_t)f.fe), c.param(f.ps), tstr("fresh")),
		G(ccs_binding_get_value_by_parameter, c.hbind((ccs_binding_t)f.fe), c.param(f.ps), c.out<ccs_datum_t>()),
		// features
		G(ccs_create_features_space, c.s("fs"), c.make<ccs_features_space_t>()),
		{"ccs_features_space_add_parameter", CB { return ccs_features_space_add_parameter(c.h(f.fs2), c.bad("name taken", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.pf : c.h(f.q2)); }, 0, 2, space_prep},
		{"ccs_features_space_add_parameter first", CB { return ccs_features_space_add_parameter((ccs_features_space_t)f.all.back(), c.h(f.q2)); }, 0, 1, [](Fix &f, int) { f.k(mkfs("empty", {})); }},
		{"ccs_features_space_add_parameters", CB { return ccs_features_space_add_parameters(c.h(f.fs2), 2, c.hary<ccs_parameter_t>({f.q2, f.q3})); }, PARTS, 2, space_prep},
		G(ccs_features_space_check_features, c.h(f.fs), c.bad("foreign features", {CCS_RESULT_ERROR_INVALID_FEATURES}) ? f.feo : c.h(f.fe), c.out<ccs_bool_t>()),
		G(ccs_features_space_check_features_values, c.h(f.fs), c.e<size_t>(2, {0, 1, 3}, CCS_RESULT_ERROR_INVALID_FEATURES), c.ary<ccs_datum_t>({ccs_string("f0"), ccs_string("x"), ccs_none}), c.out<ccs_bool_t>()),
		{"ccs_create_features", CB { return ccs_create_features(c.h(f.fs), c.e<size_t>(2, {0, 1, 3}), c.ary<ccs_datum_t>({tstr("f0"), tstr("fresh"), ccs_none}), c.make<ccs_features_t>()); }},
		G(ccs_features_get_features_space, c.h(f.fe), c.out<ccs_features_space_t>()),
		BINDING_CALLS(ccs_features, c.h, f.fe, f.fe2, 2, "f"),
		G(ccs_features_set_value, c.h(f.fe), c.ix(1, 2), tstr("fresh")),
		G(ccs_features_check, c.h(f.fe), c.out<ccs_bool_t>()),
		// objectives and evaluations
		G(ccs_create_objective_space, c.s("os"), c.make<ccs_objective_space_t>()),
		{"ccs_objective_space_add_parameter", CB { return ccs_objective_space_add_parameter(c.h(f.os2), c.bad("name taken", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.o1 : c.h(f.q2)); }, 0, 2, space_prep},
		{"ccs_objective_space_add_parameter first", CB { return ccs_objective_space_add_parameter((ccs_objective_space_t)f.all.back(), c.h(f.q2)); }, 0, 1, [](Fix &f, int) { f.k(mkos("empty", {})); }},
		{"ccs_objective_space_add_parameters", CB { return ccs_objective_space_add_parameters(c.h(f.os2), 2, c.hary<ccs_parameter_t>({f.q2, f.q3})); }, PARTS, 2, space_prep},
		G(ccs_objective_space_check_evaluation_values, c.h(f.os), c.e<size_t>(2, {0, 1, 3}, CCS_RESULT_ERROR_INVALID_EVALUATION), c.ary<ccs_datum_t>({ccs_float(0), ccs_float(1), ccs_none}), c.out<ccs_bool_t>()),
		{"ccs_objective_space_add_objective", CB { return ccs_objective_space_add_objective(c.h(f.os), c.bad("foreign expression", {CCS_RESULT_ERROR_INVALID_PARAMETER}) ? f.less : c.h(f.ever), CCS_OBJECTIVE_TYPE_MINIMIZE); }},
		{"ccs_objective_space_add_objective more", CB { return ccs_objective_space_add_objective(c.h(f.os2), (ccs_expression_t)f.all.back(), CCS_OBJECTIVE_TYPE_MAXIMIZE); }, 0, 2, [](Fix &f, int k) { space_prep(f, k); f.k(evar(f.o1)); }},
		{"ccs_objective_space_add_objectives", CB { return ccs_objective_space_add_objectives(c.h(f.os), 2, c.hary<ccs_expression_t>({f.ever, f.ever}), c.ary<ccs_objective_type_t>({CCS_OBJECTIVE_TYPE_MINIMIZE, CCS_OBJECTIVE_TYPE_MAXIMIZE})); }, PARTS},
		{"ccs_objective_space_get_objective", CB { return ccs_objective_space_get_objective(c.h(f.os), c.ix(1, 2), c.out<ccs_expression_t>(), c.out<ccs_objective_type_t>()); }},
		{"ccs_objective_space_get_objectives", CB { auto l = c.lst<ccs_expression_t>(2); return ccs_objective_space_get_objectives(c.h(f.os), l.n, l.p, l.p ? c.typed<ccs_objective_type_t>(l.n) : nullptr, l.r); }},
		{"ccs_create_evaluation", CB { return ccs_create_evaluation(c.h(f.os), c.h(f.cf), CCS_RESULT_SUCCESS, c.e<size_t>(2, {1, 3, 0}), c.ary<ccs_datum_t>({ccs_float(0), ccs_float(1), ccs_none}), c.make<ccs_evaluation_t>()); }},
		EVAL_CALLS(ccs_evaluation, f.ev, f.ev2),
		G(ccs_evaluation_get_configuration, c.h(f.ev), c.out<ccs_configuration_t>()),
		{"ccs_create_features_evaluation", CB { return ccs_create_features_evaluation(c.h(f.os), c.h(f.cf), c.h(f.fe), CCS_RESULT_SUCCESS, c.e<size_t>(2, {1, 3, 0}), c.ary<ccs_datum_t>({ccs_float(0), ccs_float(1), ccs_none}), c.make<ccs_features_evaluation_t>()); }},
		EVAL_CALLS(ccs_features_evaluation, f.fv, f.fv2),
		G(ccs_features_evaluation_get_configuration, c.h(f.fv), c.out<ccs_configuration_t>()),
		G(ccs_features_evaluation_get_features, c.h(f.fv), c.out<ccs_features_t>()),
		{"ccs_create_tree_evaluation", CB { return ccs_create_tree_evaluation(c.h(f.os), c.h(f.tf), CCS_RESULT_SUCCESS, c.e<size_t>(2, {1, 3, 0}), c.ary<ccs_datum_t>({ccs_float(0), ccs_float(1), ccs_none}), c.make<ccs_tree_evaluation_t>()); }},
		EVAL_CALLS(ccs_tree_evaluation, f.te, f.te2),
		G(ccs_tree_evaluation_get_configuration, c.h(f.te), c.out<ccs_tree_configuration_t>()),
		// trees
		{"ccs_create_tree", CB { return ccs_create_tree(2, c.d(tstr("value"), {O(f.x), ccs_inactive}), c.make<ccs_tree_t>()); }},
		G(ccs_tree_get_value, c.h(f.tr), c.out<ccs_datum_t>()),
		G(ccs_tree_get_arity, c.h(f.tr), c.out<size_t>()),
		{"ccs_tree_set_child", CB { return ccs_tree_set_child(c.h(f.tr), c.bad("taken", {BADV}) ? (size_t)0 : c.ix(1, 2), c.bad("already a child", {CCS_RESULT_ERROR_INVALID_TREE}) ? f.tc : c.h(f.free_tree)); }},
		G(ccs_tree_get_child, c.h(f.tr), c.ix(0, 2), c.out<ccs_tree_t>()),
		GL(ccs_tree_get_children, ccs_tree_t, 2, c.h(f.tr)),
		G(ccs_tree_get_parent, c.h(f.tc), c.out<ccs_tree_t>(), c.optional<size_t>()),
		GL(ccs_tree_get_position, size_t, 1, c.h(f.tc)),
		GL(ccs_tree_get_values, ccs_datum_t, 2, c.h(f.tc)),
		G(ccs_tree_position_is_valid, c.h(f.tr), 2, c.ary<size_t>({0, 1}), c.out<ccs_bool_t>()),
		{"ccs_tree_get_values_at_position", CB { return ccs_tree_get_values_at_position(c.h(f.tr), 2, c.ary<size_t>({c.ix(0, 2), 1}), c.e<size_t>(3, {2, 0}), c.outs<ccs_datum_t>(3)); }, INDEXES},
		G(ccs_tree_get_node_at_position, c.h(f.tr), 2, c.ary<size_t>({c.ix(0, 2), 1}), c.out<ccs_tree_t>()),
		G(ccs_tree_get_weight, c.h(f.tr), c.out<ccs_float_t>()),
		G(ccs_tree_set_weight, c.h(f.tc), c.fl(2, {-1, NAN, HUGE_VAL})),
		G(ccs_tree_get_bias, c.h(f.tc), c.out<ccs_float_t>()),
		G(ccs_tree_set_bias, c.h(f.tc), c.fl(2, {-1, NAN, HUGE_VAL})),
		{"ccs_tree_sample", CB { return ccs_tree_sample(c.h(f.tr), c.h(f.r2), c.out<size_t>()); }, DRAWS},
		{"ccs_tree_samples", CB { return ccs_tree_samples(c.h(f.tr), c.h(f.r2), 3, c.outs<size_t>(3)); }, DRAWS},
		G(ccs_create_static_tree_space, c.s("ts"), c.h(f.free_tree), c.make<ccs_tree_space_t>()),
		{"ccs_create_dynamic_tree_space", CB {
			 ccs_dynamic_tree_space_vector_t v = vec_d;
			 int b = c.bad("missing callback", {BADV, BADV});
			 if (b == 1) v.del = nullptr;
			 if (b == 2) v.get_child = nullptr;
			 return ccs_create_dynamic_tree_space(c.s("ts"), c.h(f.free_tree), c.ary<ccs_dynamic_tree_space_vector_t>({v}), f.w.newud("made"), c.make<ccs_tree_space_t>());
		 }},
		G(ccs_tree_space_get_type, c.h(f.ts), c.out<ccs_tree_space_type_t>()),
		G(ccs_tree_space_get_name, c.h(f.ts), c.out<const char *>()),
		G(ccs_tree_space_set_rng, c.h(f.ts), c.h(f.r2)),
		G(ccs_tree_space_get_rng, c.h(f.ts), c.out<ccs_rng_t>()),
		G(ccs_tree_space_get_tree, c.h(f.ts), c.out<ccs_tree_t>()),
		{"ccs_tree_space_get_node_at_position", CB { return ccs_tree_space_get_node_at_position(c.h(f.ts), 2, c.ary<size_t>({c.ix(0, 2), 1}), c.out<ccs_tree_t>()); }},
		{"ccs_tree_space_get_values_at_position", CB { return ccs_tree_space_get_values_at_position(c.h(f.ts), 2, c.ary<size_t>({c.ix(0, 2), 1}), c.e<size_t>(3, {2, 0}), c.outs<ccs_datum_t>(3)); }, INDEXES},
		{"ccs_tree_space_get_node_at_position dynamic", CB { return ccs_tree_space_get_node_at_position(c.h(f.dts), 2, c.ary<size_t>({0, 1}), c.out<ccs_tree_t>()); }, GROWS},
		{"ccs_tree_space_get_values_at_position dynamic", CB { return ccs_tree_space_get_values_at_position(c.h(f.dts), 2, c.ary<size_t>({0, 1}), 3, c.outs<ccs_datum_t>(3)); }, GROWS},
		G(ccs_tree_space_check_position, c.h(f.ts), 2, c.ary<size_t>({0, 1}), c.out<ccs_bool_t>()),
		{"ccs_tree_space_check_position dynamic", CB { return ccs_tree_space_check_position(c.h(f.dts), 2, c.ary<size_t>({0, 1}), c.out<ccs_bool_t>()); }, GROWS},
		G(ccs_tree_space_check_configuration, c.h(f.ts), c.h(f.tf), c.out<ccs_bool_t>()),
		{"ccs_tree_space_sample", CB { return ccs_tree_space_sample(c.h(f.ts), c.make<ccs_tree_configuration_t>()); }, DRAWS},
		{"ccs_tree_space_samples", CB { return ccs_tree_space_samples(c.h(f.ts), 3, c.make<ccs_tree_configuration_t>(3)); }, SOME | DRAWS},
		{"ccs_tree_space_samples dynamic", CB { return ccs_tree_space_samples(c.h(f.dts), 3, c.make<ccs_tree_configuration_t>(3)); }, SOME | DRAWS | GROWS},
		G(ccs_dynamic_tree_space_get_tree_space_data, c.bad("static space", {CCS_RESULT_ERROR_INVALID_TREE_SPACE}) ? f.ts : c.h(f.dts), c.out<void *>()),
		{"ccs_create_tree_configuration", CB { return ccs_create_tree_configuration(c.h(f.ts), 2, c.ary<size_t>({0, 1}), c.make<ccs_tree_configuration_t>()); }},
		{"ccs_create_tree_configuration dynamic", CB { return ccs_create_tree_configuration(c.h(f.dts), 2, c.ary<size_t>({0, 1}), c.make<ccs_tree_configuration_t>()); }, GROWS},
		G(ccs_tree_configuration_get_tree_space, c.h(f.tf), c.out<ccs_tree_space_t>()),
		GL(ccs_tree_configuration_get_position, size_t, 2, c.h(f.tf)),
		GL(ccs_tree_configuration_get_values, ccs_datum_t, 3, c.h(f.tf)),
		G(ccs_tree_configuration_get_node, c.h(f.tf), c.out<ccs_tree_t>()),
		G(ccs_tree_configuration_check, c.h(f.tf), c.out<ccs_bool_t>()),
		G(ccs_tree_configuration_hash, c.h(f.tf), c.out<ccs_hash_t>()),
		G(ccs_tree_configuration_cmp, c.h(f.tf), c.h(f.tf2), c.out<int>()),
		// tuners
		TUNER_CALLS(ccs_tuner, ccs_tuner, f.tu), TUNER_CALLS(ccs_features_tuner, ccs_features_tuner, f.ftu), TUNER_CALLS(ccs_tree_tuner, ccs_tree_tuner, f.ttu),
		G(ccs_tuner_get_configuration_space, c.h(f.tu), c.out<ccs_configuration_space_t>()),
		G(ccs_features_tuner_get_configuration_space, c.h(f.ftu), c.out<ccs_configuration_space_t>()),
		G(ccs_features_tuner_get_features_space, c.h(f.ftu), c.out<ccs_features_space_t>()),
		G(ccs_tree_tuner_get_tree_space, c.h(f.ttu), c.out<ccs_tree_space_t>()),
		G(ccs_create_random_tuner, c.s("t"), c.h(f.cs), c.h(f.os), c.make<ccs_tuner_t>()),
		G(ccs_create_random_features_tuner, c.s("t"), c.h(f.cs), c.h(f.fs), c.h(f.os), c.make<ccs_features_tuner_t>()),
		G(ccs_create_random_tree_tuner, c.s("t"), c.h(f.ts), c.h(f.os), c.make<ccs_tree_tuner_t>()),
		{"ccs_create_user_defined_tuner", CB {
			 auto v = vec_t;
			 int  b = c.bad("missing callback", {BADV, BADV, BADV, BADV, BADV});
			 if (b == 1) v.del = nullptr;
			 if (b == 2) v.ask = nullptr;
			 if (b == 3) v.tell = nullptr;
			 if (b == 4) v.get_optima = nullptr;
			 if (b == 5) v.get_history = nullptr;
			 return ccs_create_user_defined_tuner(c.s("t"), c.h(f.cs), c.h(f.os), c.ary<ccs_user_defined_tuner_vector_t>({v}), f.w.newud("made"), c.make<ccs_tuner_t>());
		 }},
		{"ccs_create_user_defined_features_tuner", CB {
			 auto v = vec_f;
			 int  b = c.bad("missing callback", {BADV, BADV, BADV, BADV, BADV});
			 if (b == 1) v.del = nullptr;
			 if (b == 2) v.ask = nullptr;
			 if (b == 3) v.tell = nullptr;
			 if (b == 4) v.get_optima = nullptr;
			 if (b == 5) v.get_history = nullptr;
			 return ccs_create_user_defined_features_tuner(c.s("t"), c.h(f.cs), c.h(f.fs), c.h(f.os), c.ary<ccs_user_defined_features_tuner_vector_t>({v}), f.w.newud("made"), c.make<ccs_features_tuner_t>());
		 }},
		{"ccs_create_user_defined_tree_tuner", CB {
			 auto v = vec_r;
			 int  b = c.bad("missing callback", {BADV, BADV, BADV, BADV, BADV});
			 if (b == 1) v.del = nullptr;
			 if (b == 2) v.ask = nullptr;
			 if (b == 3) v.tell = nullptr;
			 if (b == 4) v.get_optima = nullptr;
			 if (b == 5) v.get_history = nullptr;
			 return ccs_create_user_defined_tree_tuner(c.s("t"), c.h(f.ts), c.h(f.os), c.ary<ccs_user_defined_tree_tuner_vector_t>({v}), f.w.newud("made"), c.make<ccs_tree_tuner_t>());
		 }},
		G(ccs_user_defined_tuner_get_tuner_data, c.bad("random tuner", {CCS_RESULT_ERROR_INVALID_TUNER}) ? f.tu : c.h(f.utu), c.out<void *>()),
		G(ccs_user_defined_features_tuner_get_tuner_data, c.bad("random tuner", {CCS_RESULT_ERROR_INVALID_FEATURES_TUNER}) ? f.ftu : c.h(f.uftu), c.out<void *>()),
		G(ccs_user_defined_tree_tuner_get_tuner_data, c.bad("random tuner", {CCS_RESULT_ERROR_INVALID_TUNER}) ? f.ttu : c.h(f.uttu), c.out<void *>()),
		{"ccs_tuner_ask", CB { return ccs_tuner_ask(c.h(f.tu), 2, c.make<ccs_configuration_t>(2), c.optional<size_t>()); }, SOME | DRAWS, 2, tell_prep},
		{"ccs_features_tuner_ask", CB { return ccs_features_tuner_ask(c.h(f.ftu), c.h(f.fe), 2, c.make<ccs_configuration_t>(2), c.optional<size_t>()); }, SOME | DRAWS, 2, tell_prep},
		{"ccs_tree_tuner_ask", CB { return ccs_tree_tuner_ask(c.h(f.ttu), 2, c.make<ccs_tree_configuration_t>(2), c.optional<size_t>()); }, SOME | DRAWS, 2, tell_prep},
		{"ccs_tuner_tell", CB { return ccs_tuner_tell(c.h(f.tu), 2, c.hary<ccs_evaluation_t>({f.ev, f.ev2})); }, 0, 3, tell_prep},
		{"ccs_features_tuner_tell", CB { return ccs_features_tuner_tell(c.h(f.ftu), 2, c.hary<ccs_features_evaluation_t>({f.fv, f.fv2})); }, 0, 3, tell_prep},
		{"ccs_tree_tuner_tell", CB { return ccs_tree_tuner_tell(c.h(f.ttu), 2, c.hary<ccs_tree_evaluation_t>({f.te, f.te2})); }, 0, 3, tell_prep},
		{"ccs_tuner_tell one", CB { return ccs_tuner_tell(c.h(f.tu), 1, c.hary<ccs_evaluation_t>({f.ev})); }, 0, 3, tell_prep},
		{"ccs_features_tuner_tell one", CB { return ccs_features_tuner_tell(c.h(f.ftu), 1, c.hary<ccs_features_evaluation_t>({f.fv})); }, 0, 3, tell_prep},
		{"ccs_tree_tuner_tell one", CB { return ccs_tree_tuner_tell(c.h(f.ttu), 1, c.hary<ccs_tree_evaluation_t>({f.te})); }, 0, 3, tell_prep},
		{"ccs_tuner_suggest", CB { return ccs_tuner_suggest(c.h(f.tu), c.make<ccs_configuration_t>()); }, DRAWS, 2, tell_prep},
		{"ccs_features_tuner_suggest", CB { return ccs_features_tuner_suggest(c.h(f.ftu), c.h(f.fe), c.make<ccs_configuration_t>()); }, DRAWS, 2, tell_prep},
		{"ccs_tree_tuner_suggest", CB { return ccs_tree_tuner_suggest(c.h(f.ttu), c.make<ccs_tree_configuration_t>()); }, DRAWS, 2, tell_prep},
		{"ccs_tuner_get_optima", CB { auto l = c.lst<ccs_evaluation_t>(8); return ccs_tuner_get_optima(c.h(f.tu), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		{"ccs_tuner_get_history", CB { auto l = c.lst<ccs_evaluation_t>(8); return ccs_tuner_get_history(c.h(f.tu), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		{"ccs_tree_tuner_get_optima", CB { auto l = c.lst<ccs_tree_evaluation_t>(8); return ccs_tree_tuner_get_optima(c.h(f.ttu), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		{"ccs_tree_tuner_get_history", CB { auto l = c.lst<ccs_tree_evaluation_t>(8); return ccs_tree_tuner_get_history(c.h(f.ttu), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		{"ccs_features_tuner_get_optima", CB { auto l = c.lst<ccs_features_evaluation_t>(8); return ccs_features_tuner_get_optima(c.h(f.ftu), f.fe, l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		{"ccs_features_tuner_get_history", CB { auto l = c.lst<ccs_features_evaluation_t>(8); return ccs_features_tuner_get_history(c.h(f.ftu), f.fe, l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { tell_prep(f, 2); }},
		// maps
		G(ccs_create_map, c.make<ccs_map_t>()),
		{"ccs_map_set", CB { return ccs_map_set(c.h(f.map), ccs_int(f.key), tstr("value")); }, 0, 3, map_prep},
		{"ccs_map_set replace", CB { return ccs_map_set(c.h(f.map), ccs_int(1), tstr("value")); }, 0, 3, [](Fix &f, int k) {
			 if (k == 0) // the only entry
				 OKX(ccs_map_set(f.map, ccs_int(1), ccs_int(1)));
			 else
				 map_prep(f, k);
		 }},
		{"ccs_map_set object", CB { return ccs_map_set(c.h(f.map), c.d(O(f.y), {O(nullptr)}, BADO), c.d(O(f.x), {O(nullptr)}, BADO)); }, 0, 3, map_prep},
		{"ccs_map_set string", CB { return ccs_map_set(c.h(f.map), tstr("key"), O(f.r)); }, 0, 2, map_prep},
		G(ccs_map_exist, c.h(f.map), ccs_int(1), c.out<ccs_bool_t>()),
		{"ccs_map_get", CB { return ccs_map_get(c.h(f.map), ccs_string("key"), c.out<ccs_datum_t>()); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		{"ccs_map_del", CB { return ccs_map_del(c.h(f.map), c.d(ccs_string("key"), {ccs_string("absent"), ccs_int(77)})); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		{"ccs_map_get_keys", CB { auto l = c.lst<ccs_datum_t>(3); return ccs_map_get_keys(c.h(f.map), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		{"ccs_map_get_values", CB { auto l = c.lst<ccs_datum_t>(3); return ccs_map_get_values(c.h(f.map), l.n, l.p, l.r); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		{"ccs_map_get_pairs", CB { auto l = c.lst<ccs_datum_t>(3); return ccs_map_get_pairs(c.h(f.map), l.n, l.p, l.p ? c.typed<ccs_datum_t>(l.n) : nullptr, l.r); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		{"ccs_map_clear", CB { return ccs_map_clear(c.h(f.map)); }, 0, 1, [](Fix &f, int) { map_prep(f, 1); }},
		// intervals
		{"ccs_interval_empty", CB { ccs_interval_t i = {CCS_NUMERIC_TYPE_INT, I0, I10, CCS_TRUE, CCS_TRUE}; return ccs_interval_empty(c.ary<ccs_interval_t>({i}), c.out<ccs_bool_t>()); }},
		{"ccs_interval_intersect", CB { ccs_interval_t i = {CCS_NUMERIC_TYPE_INT, I0, I10, CCS_TRUE, CCS_TRUE}; return ccs_interval_intersect(c.ary<ccs_interval_t>({i}), c.ary<ccs_interval_t>({i}), c.out<ccs_interval_t>()); }},
		{"ccs_interval_union", CB { ccs_interval_t i = {CCS_NUMERIC_TYPE_INT, I0, I10, CCS_TRUE, CCS_TRUE}; return ccs_interval_union(c.ary<ccs_interval_t>({i}), c.ary<ccs_interval_t>({i}), c.out<ccs_interval_t>()); }},
		{"ccs_interval_equal", CB { ccs_interval_t i = {CCS_NUMERIC_TYPE_INT, I0, I10, CCS_TRUE, CCS_TRUE}; return ccs_interval_equal(c.ary<ccs_interval_t>({i}), c.ary<ccs_interval_t>({i}), c.out<ccs_bool_t>()); }},
		// serialization
		{"ccs_object_serialize size", CB { return ccs_object_serialize(c.any((ccs_object_t)f.tu), c.e(CCS_SERIALIZE_FORMAT_BINARY, {BADE, -1}), c.e(CCS_SERIALIZE_OPERATION_SIZE, {BADE, -1}), c.out<size_t>(), CCS_SERIALIZE_OPTION_END); }, INDEXES},
		{"ccs_object_serialize memory", CB { size_t n = 20000; return ccs_object_serialize(c.any((ccs_object_t)f.tu), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, c.outs<char>(n), CCS_SERIALIZE_OPTION_END); }},
		{"ccs_object_deserialize memory", CB {
			 ccs_object_t *o = c.make<ccs_object_t>();
			 return ccs_object_deserialize(o, c.e(CCS_SERIALIZE_FORMAT_BINARY, {BADE, -1}), c.e(CCS_SERIALIZE_OPERATION_MEMORY, {BADE, -1}), f.blob.size(), c.bad("no data", {BADV}) ? nullptr : f.blob.data(), CCS_DESERIALIZE_OPTION_END);
		 }, 0, 2, [](Fix &f, int k) {
			 ccs_object_t o = k ? (ccs_object_t)f.ftu : (ccs_object_t)f.ttu;
			 size_t       n = 0;
			 tell_prep(f, 1);
			 OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END));
			 f.blob.resize(n);
			 OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, f.blob.data(), CCS_SERIALIZE_OPTION_END));
		 }},
		{"ccs_create_error_stack", CB { return ccs_create_error_stack(c.make<ccs_error_stack_t>(), CCS_RESULT_ERROR_SYSTEM, "%d %s", 5, "text"); }, NOERROR},
	};
	return b;
}
