// Parameters and values by position, by name and by handle, in every kind of context and of bound values.
#include "ccsx.hpp"

enum { CONF, FEAT, OBJV, KINDS };
static const char *kinds[] = {"configuration space", "features space", "objective space"};
struct Api {
	ccs_result_t (*num)(ccs_object_t, size_t *);
	ccs_result_t (*get)(ccs_object_t, size_t, ccs_parameter_t *);
	ccs_result_t (*byname)(ccs_object_t, const char *, ccs_parameter_t *);
	ccs_result_t (*ixname)(ccs_object_t, const char *, size_t *);
	ccs_result_t (*index)(ccs_object_t, ccs_parameter_t, size_t *);
	ccs_result_t (*indexes)(ccs_object_t, size_t, ccs_parameter_t *, size_t *);
	ccs_result_t (*list)(ccs_object_t, size_t, ccs_parameter_t *, size_t *);
	ccs_result_t (*name)(ccs_object_t, const char **);
	ccs_result_t (*validate)(ccs_object_t, size_t, ccs_datum_t, ccs_datum_t *);
};
#define API(P)                                                                 \
	{                                                                      \
		(decltype(Api::num))P##_get_num_parameters, (decltype(Api::get))P##_get_parameter, (decltype(Api::byname))P##_get_parameter_by_name, (decltype(Api::ixname))P##_get_parameter_index_by_name, \
			(decltype(Api::index))P##_get_parameter_index, (decltype(Api::indexes))P##_get_parameter_indexes, (decltype(Api::list))P##_get_parameters, (decltype(Api::name))P##_get_name, (decltype(Api::validate))P##_validate_value \
	}
static const Api specific[KINDS] = {API(ccs_configuration_space), API(ccs_features_space), API(ccs_objective_space)};
static const Api generic         = API(ccs_context);
struct BApi {
	ccs_result_t (*get)(ccs_object_t, size_t, ccs_datum_t *);
	ccs_result_t (*byname)(ccs_object_t, const char *, ccs_datum_t *);
	ccs_result_t (*list)(ccs_object_t, size_t, ccs_datum_t *, size_t *);
	ccs_result_t (*set)(ccs_object_t, size_t, ccs_datum_t);
};
#define BAPI(P)                                                                \
	{                                                                      \
		(decltype(BApi::get))P##_get_value, (decltype(BApi::byname))P##_get_value_by_name, (decltype(BApi::list))P##_get_values, (decltype(BApi::set))P##_set_value \
	}
enum { B_CONF, B_FEAT, B_EVAL, B_FEVAL, B_TEVAL };
static const BApi bspecific[] = {BAPI(ccs_configuration), BAPI(ccs_features), BAPI(ccs_evaluation), BAPI(ccs_features_evaluation), BAPI(ccs_tree_evaluation)};
static const BApi bgeneric    = BAPI(ccs_binding);

struct Item {
	std::string     name;
	ccs_parameter_t p;
};
template <class T> struct Buf { // exactly n entries on the heap: anything written beyond is seen
	T     *p;
	size_t n;
	explicit Buf(size_t n_) : p((T *)malloc(n_ * sizeof(T) + !n_)), n(n_) { memset((void *)p, 0x5a, n * sizeof(T)); }
	~Buf() { free(p); }
	bool untouched() const
	{
		for (size_t i = 0; i < n * sizeof(T); i++)
			if (((unsigned char *)p)[i] != 0x5a)
				return false;
		return true;
	}
};
#define WANT(code, call)                                                       \
	do {                                                                   \
		mc::step();                                                    \
		ccs_result_t r_ = (call);                                      \
		if (r_ != (code))                                              \
			mc::fail("%s: %s returned %d instead of %d", what.c_str(), #call, (int)r_, (int)(code)); \
	} while (0)

// all lookups in a context whose parameters are `have`, for the names and parameters of `pool` and some more names
static void lookups(const std::string &what, const Api &a, ccs_object_t o, const std::vector<Item> &have, const std::vector<Item> &pool, const char *name)
{
	size_t      n = have.size(), got = 777;
	const char *nm = nullptr;
	WANT(CCS_RESULT_SUCCESS, a.name(o, &nm));
	if (!nm || strcmp(nm, name))
		mc::fail("%s: name is %s", what.c_str(), nm);
	WANT(CCS_RESULT_SUCCESS, a.num(o, &got));
	if (got != n)
		mc::fail("%s: %zu parameters instead of %zu", what.c_str(), got, n);
	for (size_t i = 0; i < n + 3; i++) {
		Buf<ccs_parameter_t> b(1);
		size_t               ix = i == n + 2 ? SIZE_MAX : i;
		if (ix < n) {
			WANT(CCS_RESULT_SUCCESS, a.get(o, ix, b.p));
			if (*b.p != have[ix].p)
				mc::fail("%s: parameter %zu is another", what.c_str(), ix);
		} else {
			WANT(CCS_RESULT_ERROR_OUT_OF_BOUNDS, a.get(o, ix, b.p));
			if (!b.untouched())
				mc::fail("%s: refused position %zu wrote its output", what.c_str(), ix);
		}
	}
	std::set<std::string> names = {"", "absent", "A", "a ", "aa", "abc"};
	for (auto &q : pool) {
		names.insert(q.name);
		names.insert(q.name + "x");
		if (!q.name.empty())
			names.insert(q.name.substr(0, q.name.size() - 1));
	}
	for (auto &s : names) {
		std::string          copy = s; // not the string the parameter was made with
		Buf<ccs_parameter_t> b(1);
		Buf<size_t>          x(1);
		size_t               at = n;
		for (size_t i = 0; i < n; i++)
			if (have[i].name == s)
				at = i;
		if (at < n) {
			WANT(CCS_RESULT_SUCCESS, a.byname(o, copy.c_str(), b.p));
			WANT(CCS_RESULT_SUCCESS, a.ixname(o, copy.c_str(), x.p));
			if (*b.p != have[at].p || *x.p != at)
				mc::fail("%s: name \"%s\" gives another parameter (position %zu instead of %zu)", what.c_str(), s.c_str(), *x.p, at);
		} else {
			WANT(CCS_RESULT_ERROR_INVALID_NAME, a.byname(o, copy.c_str(), b.p));
			WANT(CCS_RESULT_ERROR_INVALID_NAME, a.ixname(o, copy.c_str(), x.p));
			if (!b.untouched() || !x.untouched())
				mc::fail("%s: refused name \"%s\" wrote its output", what.c_str(), s.c_str());
		}
	}
	auto position = [&](ccs_parameter_t p) {
		for (size_t i = 0; i < n; i++)
			if (have[i].p == p)
				return i;
		return SIZE_MAX;
	};
	std::vector<Item> all = pool;
	for (auto &q : have)
		all.push_back(q);
	for (auto &q : all) {
		Buf<size_t> x(1);
		if (position(q.p) != SIZE_MAX) {
			WANT(CCS_RESULT_SUCCESS, a.index(o, q.p, x.p));
			if (*x.p != position(q.p))
				mc::fail("%s: parameter \"%s\" is said to be at %zu instead of %zu", what.c_str(), q.name.c_str(), *x.p, position(q.p));
		} else {
			WANT(CCS_RESULT_ERROR_INVALID_PARAMETER, a.index(o, q.p, x.p));
			if (!x.untouched())
				mc::fail("%s: refused parameter wrote its output", what.c_str());
		}
	}
	if (all.size() < 20)
		for (auto &q : all)
			for (auto &r : all) {
				Buf<size_t>          x(2);
				Buf<ccs_parameter_t> in(2);
				in.p[0] = q.p, in.p[1] = r.p;
				if (position(q.p) != SIZE_MAX && position(r.p) != SIZE_MAX) {
					WANT(CCS_RESULT_SUCCESS, a.indexes(o, 2, in.p, x.p));
					if (x.p[0] != position(q.p) || x.p[1] != position(r.p))
						mc::fail("%s: positions of \"%s\", \"%s\" are said to be %zu, %zu", what.c_str(), q.name.c_str(), r.name.c_str(), x.p[0], x.p[1]);
				} else
					WANT(CCS_RESULT_ERROR_INVALID_PARAMETER, a.indexes(o, 2, in.p, x.p));
			}
	else {
		Buf<size_t>          x(n);
		Buf<ccs_parameter_t> in(n);
		for (size_t i = 0; i < n; i++)
			in.p[i] = have[n - 1 - i].p;
		WANT(CCS_RESULT_SUCCESS, a.indexes(o, n, in.p, x.p));
		for (size_t i = 0; i < n; i++)
			if (x.p[i] != n - 1 - i)
				mc::fail("%s: position %zu of all is said to be %zu", what.c_str(), n - 1 - i, x.p[i]);
	}
	WANT(CCS_RESULT_SUCCESS, a.indexes(o, 0, nullptr, nullptr));
	got = 777;
	WANT(CCS_RESULT_SUCCESS, a.list(o, 0, nullptr, &got));
	if (got != n)
		mc::fail("%s: list of %zu instead of %zu", what.c_str(), got, n);
	WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, 0, nullptr, nullptr));
	WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, 1, nullptr, &got));
	for (size_t sz = n > 8 ? n - 1 : 0; sz < n + 3; sz++)
		for (int wr = 0; wr < 2; wr++) {
			Buf<ccs_parameter_t> b(sz);
			got                   = 777;
			if (sz < n) {
				WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, sz, b.p, wr ? &got : nullptr));
				if (!b.untouched() || got != 777)
					mc::fail("%s: list refused for a size of %zu wrote its output", what.c_str(), sz);
				continue;
			}
			WANT(CCS_RESULT_SUCCESS, a.list(o, sz, b.p, wr ? &got : nullptr));
			if (wr && got != n)
				mc::fail("%s: list of %zu instead of %zu", what.c_str(), got, n);
			for (size_t i = 0; i < sz; i++)
				if (b.p[i] != (i < n ? have[i].p : nullptr))
					mc::fail("%s: entry %zu of the list for a size of %zu differs", what.c_str(), i, sz);
		}
}
// a value only parameter i of the list has
static ccs_datum_t nth(size_t i, int round) { return ccs_int((ccs_int_t)(10 * i) + round); }
static Item item(std::vector<Par> &keep, const std::string &name, size_t i)
{
	keep.push_back(pint(name.c_str(), -1000000, 1000000, (ccs_int_t)i));
	return {name, keep.back()};
}
struct Space {
	int kind;
	Obj o;
	explicit Space(int k) : kind(k)
	{
		if (k == CONF)
			OKX(ccs_create_configuration_space("the space", (ccs_configuration_space_t *)o.ret()));
		if (k == FEAT)
			OKX(ccs_create_features_space("the space", (ccs_features_space_t *)o.ret()));
		if (k == OBJV)
			OKX(ccs_create_objective_space("the space", (ccs_objective_space_t *)o.ret()));
	}
	ccs_result_t add(ccs_parameter_t p)
	{
		mc::step();
		return kind == CONF ? ccs_configuration_space_add_parameter((ccs_configuration_space_t)o.o, p, nullptr) : kind == FEAT ? ccs_features_space_add_parameter((ccs_features_space_t)o.o, p) : ccs_objective_space_add_parameter((ccs_objective_space_t)o.o, p);
	}
	ccs_result_t add(std::vector<ccs_parameter_t> v)
	{
		mc::step();
		return kind == CONF ? ccs_configuration_space_add_parameters((ccs_configuration_space_t)o.o, v.size(), v.data(), nullptr) : kind == FEAT ? ccs_features_space_add_parameters((ccs_features_space_t)o.o, v.size(), v.data()) : ccs_objective_space_add_parameters((ccs_objective_space_t)o.o, v.size(), v.data());
	}
};
// other objects evaluations need
struct Rest {
	CSp cs;
	Cfg cf;
	FSp fs;
	Fea fe;
	Tre t;
	TSp ts;
	TCf tc;
	Rest()
	{
		cs = mkcs("other cs", {});
		OKX(ccs_configuration_space_get_default_configuration(cs, cf.ret()));
		fs = mkfs("other fs", {});
		OKX(ccs_create_features(fs, 0, nullptr, fe.ret()));
		OKX(ccs_create_tree(0, ccs_int(0), t.ret()));
		OKX(ccs_create_static_tree_space("other ts", t, ts.ret()));
		OKX(ccs_create_tree_configuration(ts, 0, nullptr, tc.ret()));
	}
};
static Obj bound(int bk, ccs_object_t space, Rest &r, Data &v)
{
	Obj o;
	if (bk == B_CONF)
		OKX(ccs_create_configuration((ccs_configuration_space_t)space, v.size(), v.data(), (ccs_configuration_t *)o.ret()));
	if (bk == B_FEAT)
		OKX(ccs_create_features((ccs_features_space_t)space, v.size(), v.data(), (ccs_features_t *)o.ret()));
	if (bk == B_EVAL)
		OKX(ccs_create_evaluation((ccs_objective_space_t)space, r.cf, CCS_RESULT_SUCCESS, v.size(), v.data(), (ccs_evaluation_t *)o.ret()));
	if (bk == B_FEVAL)
		OKX(ccs_create_features_evaluation((ccs_objective_space_t)space, r.cf, r.fe, CCS_RESULT_SUCCESS, v.size(), v.data(), (ccs_features_evaluation_t *)o.ret()));
	if (bk == B_TEVAL)
		OKX(ccs_create_tree_evaluation((ccs_objective_space_t)space, r.tc, CCS_RESULT_SUCCESS, v.size(), v.data(), (ccs_tree_evaluation_t *)o.ret()));
	return o;
}
static void values(const std::string &what, const BApi &a, ccs_object_t o, const std::vector<Item> &have, const std::vector<Item> &pool, const Data &v)
{
	size_t n = v.size(), got;
	for (size_t i = 0; i < n + 3; i++) {
		Buf<ccs_datum_t> b(1);
		size_t           ix = i == n + 2 ? SIZE_MAX : i;
		if (ix < n) {
			WANT(CCS_RESULT_SUCCESS, a.get(o, ix, b.p));
			if (!deq(*b.p, v[ix]))
				mc::fail("%s: value %zu is %s instead of %s", what.c_str(), ix, dstr(*b.p).c_str(), dstr(v[ix]).c_str());
		} else {
			WANT(CCS_RESULT_ERROR_OUT_OF_BOUNDS, a.get(o, ix, b.p));
			if (!b.untouched())
				mc::fail("%s: refused position %zu wrote its output", what.c_str(), ix);
		}
	}
	for (auto &q : pool) {
		Buf<ccs_datum_t> b(1), c(1);
		size_t           by = SIZE_MAX, ha = SIZE_MAX;
		for (size_t i = 0; i < have.size(); i++) {
			if (have[i].name == q.name)
				by = i;
			if (have[i].p == q.p)
				ha = i;
		}
		std::string copy = q.name;
		if (by < n) {
			WANT(CCS_RESULT_SUCCESS, a.byname(o, copy.c_str(), b.p));
			if (!deq(*b.p, v[by]))
				mc::fail("%s: the value named %s is %s instead of %s", what.c_str(), q.name.c_str(), dstr(*b.p).c_str(), dstr(v[by]).c_str());
		} else { // absent, or declared after the values were bound
			WANT(by == SIZE_MAX ? CCS_RESULT_ERROR_INVALID_NAME : CCS_RESULT_ERROR_OUT_OF_BOUNDS, a.byname(o, copy.c_str(), b.p));
			if (!b.untouched())
				mc::fail("%s: refused name wrote its output", what.c_str());
		}
		if (ha < n) {
			WANT(CCS_RESULT_SUCCESS, ccs_binding_get_value_by_parameter((ccs_binding_t)o, q.p, c.p));
			if (!deq(*c.p, v[ha]))
				mc::fail("%s: the value of parameter %s is %s instead of %s", what.c_str(), q.name.c_str(), dstr(*c.p).c_str(), dstr(v[ha]).c_str());
		} else {
			WANT(ha == SIZE_MAX ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_binding_get_value_by_parameter((ccs_binding_t)o, q.p, c.p));
			if (!c.untouched())
				mc::fail("%s: refused parameter wrote its output", what.c_str());
		}
	}
	got = 777;
	WANT(CCS_RESULT_SUCCESS, a.list(o, 0, nullptr, &got));
	if (got != n)
		mc::fail("%s: %zu values instead of %zu", what.c_str(), got, n);
	WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, 0, nullptr, nullptr));
	WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, 1, nullptr, &got));
	for (size_t sz = 0; sz < n + 3; sz++)
		for (int wr = 0; wr < 2; wr++) {
			Buf<ccs_datum_t> b(sz);
			got               = 777;
			if (sz < n) {
				WANT(CCS_RESULT_ERROR_INVALID_VALUE, a.list(o, sz, b.p, wr ? &got : nullptr));
				if (!b.untouched() || got != 777)
					mc::fail("%s: values refused for a size of %zu wrote the output", what.c_str(), sz);
				continue;
			}
			WANT(CCS_RESULT_SUCCESS, a.list(o, sz, b.p, wr ? &got : nullptr));
			if (wr && got != n)
				mc::fail("%s: %zu values instead of %zu", what.c_str(), got, n);
			for (size_t i = 0; i < sz; i++)
				if (!deq(b.p[i], i < n ? v[i] : ccs_none))
					mc::fail("%s: entry %zu of the values for a size of %zu is %s", what.c_str(), i, sz, dstr(b.p[i]).c_str());
		}
}
static void bound_lookups(const std::string &where, int bk, ccs_object_t space, const std::vector<Item> &have, const std::vector<Item> &pool, size_t bound_n, Obj &o, Data &v)
{
	std::string what = where + strf(", bound values of kind %d", bk);
	auto        check = [&](const char *after) {
		values(what + after, bgeneric, o, have, pool, v);
		values(what + after, bspecific[bk], o, have, pool, v);
		ccs_context_t c = nullptr;
		OKX(ccs_binding_get_context((ccs_binding_t)o.o, &c));
		if ((ccs_object_t)c != space)
			mc::fail("%s: its context is another", what.c_str());
	};
	check("");
	int round = 1;
	for (size_t i = 0; i < bound_n + 1; i++) { // set one, see all
		WANT(i < bound_n ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_OUT_OF_BOUNDS, bspecific[bk].set(o, i, nth(i, round)));
		if (i < bound_n)
			v[i] = nth(i, round);
		check(" after setting by position");
		round++;
		WANT(i < bound_n ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_OUT_OF_BOUNDS, ccs_binding_set_value((ccs_binding_t)o.o, i, nth(i, round)));
		if (i < bound_n)
			v[i] = nth(i, round);
		check(" after setting by position");
		round++;
	}
	for (auto &q : pool)
		for (int by_handle = 0; by_handle < 2; by_handle++) {
			size_t at = SIZE_MAX;
			for (size_t i = 0; i < have.size(); i++)
				if (by_handle ? have[i].p == q.p : have[i].name == q.name)
					at = i;
			ccs_result_t want = at == SIZE_MAX ? (by_handle ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_ERROR_INVALID_NAME) : at < bound_n ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_OUT_OF_BOUNDS;
			std::string  copy = q.name;
			ccs_datum_t  d    = nth(at == SIZE_MAX ? 0 : at, ++round);
			if (by_handle)
				WANT(want, ccs_binding_set_value_by_parameter((ccs_binding_t)o.o, q.p, d));
			else
				WANT(want, ccs_binding_set_value_by_name((ccs_binding_t)o.o, copy.c_str(), d));
			if (at < bound_n)
				v[at] = d;
			check(by_handle ? " after setting by parameter" : " after setting by name");
		}
	for (size_t sz = 0; sz < bound_n + 2; sz++) {
		Data nv;
		for (size_t i = 0; i < sz; i++)
			nv.push_back(nth(i, round));
		round++;
		WANT(sz == bound_n ? CCS_RESULT_SUCCESS : CCS_RESULT_ERROR_INVALID_VALUE, ccs_binding_set_values((ccs_binding_t)o.o, sz, nv.data()));
		if (sz == bound_n)
			v = nv;
		check(" after setting all");
	}
}
MC_SUITE(lists)
{
	static const char *names[] = {"a", "b", "ab", "a", "", "a longer name than the others"};
	const int          NP      = 6;
	int                kind = mc::choose(KINDS, "kind"), len = mc::choose(mc::tier_bound(4, 5), "additions"), bulk = len ? mc::choose(2, "at once") : 0;
	std::vector<Par>   keep;
	std::vector<Item>  pool, have;
	for (int i = 0; i < NP; i++)
		pool.push_back(item(keep, names[i], (size_t)i));
	std::vector<int> add;
	for (int i = 0; i < len; i++)
		add.push_back(mc::choose(NP, "parameter"));
	mc::shard_point();
	Rest        rest;
	Space       s(kind);
	std::string what = kinds[kind];
	struct B {
		int    bk;
		size_t n;
		Obj    o;
		Data   v;
	};
	std::vector<B> bs;
	auto           bind = [&]() {
                for (int bk = kind == CONF ? B_CONF : kind == FEAT ? B_FEAT : B_EVAL; bk <= (kind == CONF ? B_CONF : kind == FEAT ? B_FEAT : B_TEVAL); bk++) {
                        Data v;
                        for (size_t i = 0; i < have.size(); i++)
                                v.push_back(nth(i, 0));
                        B b{bk, have.size(), bound(bk, s.o, rest, v), v};
                        bs.push_back(std::move(b));
                }
	};
	auto check = [&]() {
		lookups(what, specific[kind], s.o, have, pool, "the space");
		lookups(what + " as a context", generic, s.o, have, pool, "the space");
	};
	auto clash = [&](const Item &q) {
		for (auto &h : have)
			if (h.name == q.name)
				return true;
		return false;
	};
	check();
	bind();
	if (bulk) {
		std::vector<ccs_parameter_t> v;
		ccs_result_t                 want = CCS_RESULT_SUCCESS;
		for (int i : add) {
			v.push_back(pool[(size_t)i].p);
			if (want == CCS_RESULT_SUCCESS && clash(pool[(size_t)i]))
				want = CCS_RESULT_ERROR_INVALID_PARAMETER;
			else if (want == CCS_RESULT_SUCCESS)
				have.push_back(pool[(size_t)i]);
		}
		WANT(want, s.add(v));
		check();
		bind();
	} else
		for (int i : add) {
			bool c = clash(pool[(size_t)i]);
			WANT(c ? CCS_RESULT_ERROR_INVALID_PARAMETER : CCS_RESULT_SUCCESS, s.add(pool[(size_t)i].p));
			if (!c)
				have.push_back(pool[(size_t)i]);
			check();
			if (!c)
				bind();
		}
	for (auto &b : bs)
		bound_lookups(what, b.bk, s.o, have, pool, b.n, b.o, b.v);
	for (size_t i = 0; i < have.size() + 2; i++) { // values are validated by the parameter at the position
		Buf<ccs_datum_t> b(1);
		for (auto *a : {&specific[kind], &generic})
			if (i < have.size()) {
				WANT(CCS_RESULT_SUCCESS, a->validate(s.o, i, ccs_int(5), b.p));
				if (!deq(*b.p, ccs_int(5)))
					mc::fail("%s: validated value is %s", what.c_str(), dstr(*b.p).c_str());
				WANT(CCS_RESULT_ERROR_INVALID_VALUE, a->validate(s.o, i, ccs_int(5000000), b.p));
			} else
				WANT(CCS_RESULT_ERROR_OUT_OF_BOUNDS, a->validate(s.o, i, ccs_int(5), b.p));
	}
	if (!have.empty())
		mc::nontrivial();
	// the same lookups in a restored copy
	std::vector<char> bytes = ser(s.o);
	Obj               copy;
	OKX(ccs_object_deserialize(copy.ret(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, bytes.size(), bytes.data(), CCS_DESERIALIZE_OPTION_END));
	std::vector<Item> have2;
	for (size_t i = 0; i < have.size(); i++) {
		ccs_parameter_t p  = nullptr;
		const char     *nm = nullptr;
		WANT(CCS_RESULT_SUCCESS, generic.get(copy, i, &p));
		OKX(ccs_parameter_get_name(p, &nm));
		if (have[i].name != nm)
			mc::fail("%s: parameter %zu of the restored one is named \"%s\"", what.c_str(), i, nm);
		have2.push_back({nm, p});
	}
	lookups("restored " + what, specific[kind], copy, have2, pool, "the space");
	lookups("restored " + what + " as a context", generic, copy, have2, pool, "the space");
	mc::obs(have.size());
	for (auto &h : have)
		mc::obs_bytes(h.name.data(), h.name.size());
}
// many parameters: lookups stay right while the index structures grow
MC_SUITE(many)
{
	int  kind = mc::choose(KINDS, "kind"), scheme = mc::choose(5, "names"), late = mc::choose(4, "checked at");
	mc::shard_point();
	int               max = mc::tier_bound(700, 3000);
	std::vector<Par>  keep;
	std::vector<Item> have, pool;
	Space             s(kind);
	std::string       what = kinds[kind];
	for (int i = 0; i < max; i++) {
		std::string nm = scheme == 0 ? strf("p%d", i) : scheme == 1 ? strf("%d", i) : scheme == 2 ? std::string((size_t)(i % 50), 'x') + strf("%d", i / 50) : scheme == 3 ? std::string(5000, 'y') + strf("%d", i) : strf("%d", i) + std::string(300, 'z');
		have.push_back(item(keep, nm, (size_t)i));
		WANT(CCS_RESULT_SUCCESS, s.add(have.back().p));
		if ((i + 1) % (max / 4) == late) {
			lookups(what, specific[kind], s.o, have, pool, "the space");
			lookups(what + " as a context", generic, s.o, have, pool, "the space");
			for (auto &h : have) {
				ccs_parameter_t p;
				size_t          x;
				WANT(CCS_RESULT_SUCCESS, specific[kind].byname(s.o, h.name.c_str(), &p));
				WANT(CCS_RESULT_SUCCESS, specific[kind].ixname(s.o, h.name.c_str(), &x));
				if (p != h.p || have[x].p != p)
					mc::fail("%s of %zu: \"%s\" is another parameter", what.c_str(), have.size(), h.name.c_str());
			}
			mc::nontrivial();
		}
	}
	Par dup = pint(have[(size_t)max / 2].name.c_str(), 0, 10, 1);
	WANT(CCS_RESULT_ERROR_INVALID_PARAMETER, s.add(dup));
	mc::obs((uint64_t)kind);
}
// a value of any kind replaced by one of any other, by every way of setting it
MC_SUITE(replaced)
{
	int  bk = mc::choose(B_TEVAL + 1, "bound kind"), way = mc::choose(5, "way");
	int  kind = bk == B_CONF ? CONF : bk == B_FEAT ? FEAT : OBJV;
	std::vector<Par>  keep;
	std::vector<Item> have, pool;
	Rest              rest;
	Space             s(kind);
	static const char lit[] = "text";
	const Data        kindsof = {ccs_none, ccs_inactive, ccs_int(0), ccs_int(5), ccs_int(INT64_MIN), ccs_float(0.0), ccs_float(-0.0), ccs_float(5.0), ccs_true, ccs_false, ccs_string(lit), ccs_string(lit + 1), ccs_string("")};
	int               old = mc::choose((int)kindsof.size(), "previous value");
	mc::shard_point();
	for (int i = 0; i < 3; i++) {
		have.push_back(item(keep, strf("p%d", i).c_str(), (size_t)i));
		OKX(s.add(have.back().p));
	}
	pool             = have;
	std::string what = strf("bound values of kind %d, way %d", bk, way);
	for (size_t at = 0; at < 3; at++)
		for (auto &nw : kindsof) {
			Data v = {nth(0, 0), nth(1, 0), nth(2, 0)};
			v[at]  = kindsof[(size_t)old];
			Obj           o = bound(bk, s.o, rest, v);
			ccs_binding_t b = (ccs_binding_t)o.o;
			values(what + ", created", bgeneric, o, have, pool, v);
			v[at] = nw;
			switch (way) {
			case 0: WANT(CCS_RESULT_SUCCESS, bspecific[bk].set(o, at, nw)); break;
			case 1: WANT(CCS_RESULT_SUCCESS, ccs_binding_set_value(b, at, nw)); break;
			case 2: WANT(CCS_RESULT_SUCCESS, ccs_binding_set_value_by_name(b, have[at].name.c_str(), nw)); break;
			case 3: WANT(CCS_RESULT_SUCCESS, ccs_binding_set_value_by_parameter(b, have[at].p, nw)); break;
			default: WANT(CCS_RESULT_SUCCESS, ccs_binding_set_values(b, 3, v.data()));
			}
			values(what + ", set", bgeneric, o, have, pool, v);
			values(what + ", set", bspecific[bk], o, have, pool, v);
		}
	if (old)
		mc::nontrivial();
	mc::obs((uint64_t)(bk * 100 + way));
}
