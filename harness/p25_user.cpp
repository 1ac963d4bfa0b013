// User defined tuners, features tuners, tree tuners and dynamic tree spaces: every request reaches
// its callback once with the caller's arguments, answers and errors come back, each call possibly failing.
#include "ccsx.hpp"

// ---- the user's side ------------------------------------------------------------
struct State { // what the user keeps behind a component
	std::vector<Obj> history;
	std::string      blob;
	int              deleted = 0;
};
struct Call {
	std::string               name;
	ccs_object_t              self = nullptr, features = nullptr;
	size_t                    n = 0;
	bool                      array = false, ret = false;
	std::vector<ccs_object_t> objs;  // input objects, or those handed out
	std::vector<size_t>       sizes; // anything else
	std::string               bytes;
	State                    *st = nullptr;
	ccs_result_t              answer = CCS_RESULT_SUCCESS;
};
static std::vector<Call> calls;
static int               faults;  // how many callbacks may still fail
static bool              failed;  // one did since the last reset
static ccs_result_t      failure; // with this
static const ccs_result_t codes[] = {CCS_RESULT_ERROR_EXTERNAL, CCS_RESULT_ERROR_OUT_OF_MEMORY, (ccs_result_t)-1234};
static size_t            budget(size_t n) { return n > 1 ? n - 1 : n; } // how many of n asked the user hands out
// records the call; what it answers if not success
static ccs_result_t enter(Call &&c)
{
	if (faults && mc::choose(2, c.name.c_str())) {
		faults--;
		failed   = true;
		failure  = codes[mc::choose(mc::thorough() ? 3 : 2, "code")];
		c.answer = failure;
	}
	calls.push_back(std::move(c));
	return calls.back().answer;
}
template <class T> static State *state_of(T t);
template <> State *state_of(ccs_tuner_t t)
{
	void *p = nullptr;
	OKX(ccs_user_defined_tuner_get_tuner_data(t, &p));
	return (State *)p;
}
template <> State *state_of(ccs_features_tuner_t t)
{
	void *p = nullptr;
	OKX(ccs_user_defined_features_tuner_get_tuner_data(t, &p));
	return (State *)p;
}
template <> State *state_of(ccs_tree_tuner_t t)
{
	void *p = nullptr;
	OKX(ccs_user_defined_tree_tuner_get_tuner_data(t, &p));
	return (State *)p;
}
template <> State *state_of(ccs_tree_space_t t)
{
	void *p = nullptr;
	OKX(ccs_dynamic_tree_space_get_tree_space_data(t, &p));
	return (State *)p;
}
static std::vector<ccs_object_t> pool; // configurations the user hands out
template <class T> static Call made(const char *name, T self)
{
	Call c;
	c.name = name;
	c.self = (ccs_object_t)self;
	c.st   = state_of(self);
	return c;
}
template <class T> static ccs_result_t u_del(T self)
{
	Call c = made("del", self);
	c.st->deleted++;
	std::vector<Obj>().swap(c.st->history);
	return enter(std::move(c));
}
template <class T, class C> static ccs_result_t u_ask(T self, ccs_features_t f, size_t n, C *arr, size_t *ret)
{
	Call c     = made("ask", self);
	c.features = (ccs_object_t)f;
	c.n        = n;
	c.array    = arr;
	c.ret      = ret;
	size_t k   = ret ? budget(n) : n;
	if (arr)
		for (size_t i = 0; i < k; i++)
			c.objs.push_back(pool[i % pool.size()]);
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	if (arr)
		for (size_t i = 0; i < n; i++) {
			arr[i] = i < k ? (C)pool[i % pool.size()] : nullptr;
			if (arr[i])
				OKX(ccs_retain_object((ccs_object_t)arr[i]));
		}
	if (ret)
		*ret = arr ? k : 42;
	return r;
}
template <class T, class E> static ccs_result_t u_tell(T self, size_t n, E *e)
{
	Call c  = made("tell", self);
	c.n     = n;
	c.array = e;
	for (size_t i = 0; i < n; i++)
		c.objs.push_back((ccs_object_t)e[i]);
	State       *st = c.st;
	ccs_result_t r  = enter(std::move(c));
	if (r == CCS_RESULT_SUCCESS)
		for (size_t i = 0; i < n; i++) {
			OKX(ccs_retain_object((ccs_object_t)e[i]));
			st->history.emplace_back((ccs_object_t)e[i]);
		}
	return r;
}
static std::vector<ccs_object_t> optima_of(State *s)
{
	std::vector<ccs_object_t> v;
	for (size_t i = 0; i < s->history.size(); i += 2)
		v.push_back(s->history[i]);
	return v;
}
static std::vector<ccs_object_t> history_of(State *s)
{
	std::vector<ccs_object_t> v;
	for (auto &o : s->history)
		v.push_back(o);
	return v;
}
template <class T, class E> static ccs_result_t u_list(const char *name, T self, ccs_features_t f, size_t n, E *arr, size_t *ret)
{
	Call c     = made(name, self);
	c.features = (ccs_object_t)f;
	c.n        = n;
	c.array    = arr;
	c.ret      = ret;
	auto v     = strcmp(name, "get_optima") ? history_of(c.st) : optima_of(c.st);
	c.objs     = v;
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	if (arr) {
		if (n < v.size())
			return CCS_RESULT_ERROR_INVALID_VALUE;
		for (size_t i = 0; i < n; i++)
			arr[i] = i < v.size() ? (E)v[i] : nullptr;
	}
	if (ret)
		*ret = v.size();
	return r;
}
template <class T> static ccs_result_t u_suggest(T self, ccs_features_t f, ccs_object_t *ret)
{
	Call c         = made("suggest", self);
	c.features     = (ccs_object_t)f;
	c.ret          = ret;
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	*ret = pool[1];
	OKX(ccs_retain_object(*ret));
	return r;
}
template <class T> static ccs_result_t u_save(T self, size_t n, void *at, size_t *ret)
{
	Call c         = made("save", self);
	c.n            = n;
	c.array        = at;
	c.ret          = ret;
	State       *s = c.st;
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	if (!at && n)
		mc::fail("the state callback is given %zu bytes nowhere", n);
	if (at) {
		if (n < s->blob.size())
			mc::fail("the state callback is given %zu bytes instead of %zu", n, s->blob.size());
		memcpy(at, s->blob.data(), s->blob.size());
	}
	if (ret)
		*ret = s->blob.size();
	return r;
}
template <class T, class E> static ccs_result_t u_load(T self, size_t nh, E *h, size_t no, E *o, size_t n, const void *at)
{
	Call c  = made("load", self);
	c.sizes = {nh, no};
	for (size_t i = 0; i < nh; i++)
		c.objs.push_back((ccs_object_t)h[i]);
	for (size_t i = 0; i < no; i++) {
		bool in = false;
		for (size_t j = 0; j < nh; j++)
			in = in || o[i] == h[j];
		if (!in)
			mc::fail("a restored optimum is not in the restored history");
		c.objs.push_back((ccs_object_t)o[i]);
	}
	c.bytes        = std::string((const char *)at, n);
	State       *s = c.st;
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	s->blob.assign((const char *)at, n);
	for (size_t i = 0; i < nh; i++) {
		OKX(ccs_retain_object((ccs_object_t)h[i]));
		s->history.emplace_back((ccs_object_t)h[i]);
	}
	return r;
}

// ---- the three kinds of tuners --------------------------------------------------
struct Env {
	Par              cp, fp, y;
	CSp              cs;
	FSp              fs;
	OSp              os;
	Tre              root;
	TSp              ts;
	std::vector<Cfg> cfg;
	std::vector<TCf> tcf;
	Fea              fea[2];
	Env()
	{
		cp = pint("x", 0, 100, 0);
		fp = pint("f", 0, 100, 0);
		y  = pint("y", 0, 100, 0);
		cs = mkcs("cs", {cp});
		fs = mkfs("fs", {fp});
		os = mkos("os", {y});
		OKX(ccs_objective_space_add_objective(os, evar(y), CCS_OBJECTIVE_TYPE_MINIMIZE));
		OKX(ccs_create_tree(4, ccs_int(0), root.ret()));
		for (size_t i = 0; i < 4; i++) {
			Tre t;
			OKX(ccs_create_tree(0, ccs_int(1), t.ret()));
			OKX(ccs_tree_set_child(root, i, t));
		}
		OKX(ccs_create_static_tree_space("ts", root, ts.ret()));
		bind();
	}
	// configurations and features of the present spaces
	void bind()
	{
		cfg.clear();
		tcf.clear();
		for (int i = 0; i < 4; i++) {
			ccs_datum_t d = ccs_int(i);
			cfg.emplace_back();
			OKX(ccs_create_configuration(cs, 1, &d, cfg.back().ret()));
			size_t p = (size_t)i;
			tcf.emplace_back();
			OKX(ccs_create_tree_configuration(ts, 1, &p, tcf.back().ret()));
			if (i < 2)
				OKX(ccs_create_features(fs, 1, &d, fea[i].ret()));
		}
	}
};
struct Plain {
	typedef ccs_tuner_t                     T;
	typedef ccs_evaluation_t                E;
	typedef ccs_configuration_t             C;
	typedef ccs_user_defined_tuner_vector_t V;
	static constexpr bool                   features = false;
	static V vec() { return {u_del<T>, [](T t, size_t n, C *c, size_t *r) { return u_ask(t, (ccs_features_t) nullptr, n, c, r); }, u_tell<T, E>, [](T t, size_t n, E *e, size_t *r) { return u_list("get_optima", t, (ccs_features_t) nullptr, n, e, r); },
				 [](T t, size_t n, E *e, size_t *r) { return u_list("get_history", t, (ccs_features_t) nullptr, n, e, r); }, [](T t, C *c) { return u_suggest(t, (ccs_features_t) nullptr, (ccs_object_t *)c); }, u_save<T>, u_load<T, E>}; }
	static ccs_result_t create(Env &e, V *v, void *d, ccs_object_t *t) { return ccs_create_user_defined_tuner("t", e.cs, e.os, v, d, (T *)t); }
	static ccs_object_t conf(Env &e, size_t i) { return (ccs_object_t)e.cfg[i].get(); }
	static ccs_result_t eval(Env &e, size_t i, ccs_datum_t *v, ccs_object_t *r) { return ccs_create_evaluation(e.os, e.cfg[i % 4], CCS_RESULT_SUCCESS, 1, v, (E *)r); }
	static ccs_result_t ask(T t, ccs_features_t, size_t n, C *c, size_t *r) { return ccs_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_tuner_tell(t, n, e); }
	static void adopt(Env &e, T t) // the spaces of a restored tuner
	{
		ccs_configuration_space_t cs = nullptr;
		ccs_objective_space_t os = nullptr;
		OKX(ccs_tuner_get_configuration_space(t, &cs));
		OKX(ccs_retain_object((ccs_object_t)cs));
		e.cs = decltype(e.cs)(cs);
		OKX(ccs_tuner_get_objective_space(t, &os));
		OKX(ccs_retain_object((ccs_object_t)os));
		e.os = decltype(e.os)(os);
		e.bind();
	}
	static ccs_result_t optima(T t, ccs_features_t, size_t n, E *e, size_t *r) { return ccs_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(T t, ccs_features_t, size_t n, E *e, size_t *r) { return ccs_tuner_get_history(t, n, e, r); }
	static ccs_result_t suggest(T t, ccs_features_t, C *c) { return ccs_tuner_suggest(t, c); }
};
struct Featured {
	typedef ccs_features_tuner_t                     T;
	typedef ccs_features_evaluation_t                E;
	typedef ccs_configuration_t                      C;
	typedef ccs_user_defined_features_tuner_vector_t V;
	static constexpr bool                            features = true;
	static V vec() { return {u_del<T>, [](T t, ccs_features_t f, size_t n, C *c, size_t *r) { return u_ask(t, f, n, c, r); }, u_tell<T, E>, [](T t, ccs_features_t f, size_t n, E *e, size_t *r) { return u_list("get_optima", t, f, n, e, r); },
				 [](T t, ccs_features_t f, size_t n, E *e, size_t *r) { return u_list("get_history", t, f, n, e, r); }, [](T t, ccs_features_t f, C *c) { return u_suggest(t, f, (ccs_object_t *)c); }, u_save<T>, u_load<T, E>}; }
	static ccs_result_t create(Env &e, V *v, void *d, ccs_object_t *t) { return ccs_create_user_defined_features_tuner("t", e.cs, e.fs, e.os, v, d, (T *)t); }
	static ccs_object_t conf(Env &e, size_t i) { return (ccs_object_t)e.cfg[i].get(); }
	static ccs_result_t eval(Env &e, size_t i, ccs_datum_t *v, ccs_object_t *r) { return ccs_create_features_evaluation(e.os, e.cfg[i % 4], e.fea[i % 2], CCS_RESULT_SUCCESS, 1, v, (E *)r); }
	static ccs_result_t ask(T t, ccs_features_t f, size_t n, C *c, size_t *r) { return ccs_features_tuner_ask(t, f, n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_features_tuner_tell(t, n, e); }
	static void adopt(Env &e, T t) // the spaces of a restored tuner
	{
		ccs_configuration_space_t cs = nullptr;
		ccs_features_space_t fs = nullptr;
		ccs_objective_space_t os = nullptr;
		OKX(ccs_features_tuner_get_configuration_space(t, &cs));
		OKX(ccs_retain_object((ccs_object_t)cs));
		e.cs = decltype(e.cs)(cs);
		OKX(ccs_features_tuner_get_features_space(t, &fs));
		OKX(ccs_retain_object((ccs_object_t)fs));
		e.fs = decltype(e.fs)(fs);
		OKX(ccs_features_tuner_get_objective_space(t, &os));
		OKX(ccs_retain_object((ccs_object_t)os));
		e.os = decltype(e.os)(os);
		e.bind();
	}
	static ccs_result_t optima(T t, ccs_features_t f, size_t n, E *e, size_t *r) { return ccs_features_tuner_get_optima(t, f, n, e, r); }
	static ccs_result_t history(T t, ccs_features_t f, size_t n, E *e, size_t *r) { return ccs_features_tuner_get_history(t, f, n, e, r); }
	static ccs_result_t suggest(T t, ccs_features_t f, C *c) { return ccs_features_tuner_suggest(t, f, c); }
};
struct OfTrees {
	typedef ccs_tree_tuner_t                     T;
	typedef ccs_tree_evaluation_t                E;
	typedef ccs_tree_configuration_t             C;
	typedef ccs_user_defined_tree_tuner_vector_t V;
	static constexpr bool                        features = false;
	static V vec() { return {u_del<T>, [](T t, size_t n, C *c, size_t *r) { return u_ask(t, (ccs_features_t) nullptr, n, c, r); }, u_tell<T, E>, [](T t, size_t n, E *e, size_t *r) { return u_list("get_optima", t, (ccs_features_t) nullptr, n, e, r); },
				 [](T t, size_t n, E *e, size_t *r) { return u_list("get_history", t, (ccs_features_t) nullptr, n, e, r); }, [](T t, C *c) { return u_suggest(t, (ccs_features_t) nullptr, (ccs_object_t *)c); }, u_save<T>, u_load<T, E>}; }
	static ccs_result_t create(Env &e, V *v, void *d, ccs_object_t *t) { return ccs_create_user_defined_tree_tuner("t", e.ts, e.os, v, d, (T *)t); }
	static ccs_object_t conf(Env &e, size_t i) { return (ccs_object_t)e.tcf[i].get(); }
	static ccs_result_t eval(Env &e, size_t i, ccs_datum_t *v, ccs_object_t *r) { return ccs_create_tree_evaluation(e.os, e.tcf[i % 4], CCS_RESULT_SUCCESS, 1, v, (E *)r); }
	static ccs_result_t ask(T t, ccs_features_t, size_t n, C *c, size_t *r) { return ccs_tree_tuner_ask(t, n, c, r); }
	static ccs_result_t tell(T t, size_t n, E *e) { return ccs_tree_tuner_tell(t, n, e); }
	static void adopt(Env &e, T t) // the spaces of a restored tuner
	{
		ccs_tree_space_t ts = nullptr;
		ccs_objective_space_t os = nullptr;
		OKX(ccs_tree_tuner_get_tree_space(t, &ts));
		OKX(ccs_retain_object((ccs_object_t)ts));
		e.ts = decltype(e.ts)(ts);
		OKX(ccs_tree_tuner_get_objective_space(t, &os));
		OKX(ccs_retain_object((ccs_object_t)os));
		e.os = decltype(e.os)(os);
		e.bind();
	}
	static ccs_result_t optima(T t, ccs_features_t, size_t n, E *e, size_t *r) { return ccs_tree_tuner_get_optima(t, n, e, r); }
	static ccs_result_t history(T t, ccs_features_t, size_t n, E *e, size_t *r) { return ccs_tree_tuner_get_history(t, n, e, r); }
	static ccs_result_t suggest(T t, ccs_features_t, C *c) { return ccs_tree_tuner_suggest(t, c); }
};
static std::string told(ccs_object_t e)
{
	ccs_datum_t d = ccs_none;
	OKX(ccs_binding_get_value((ccs_binding_t)e, 0, &d));
	return dstr(d);
}
static void reset(int n)
{
	calls.clear();
	failed  = false;
	failure = CCS_RESULT_SUCCESS;
	faults  = n;
}
// exactly this one callback ran; the operation answers what it answered
static const Call &single(const char *op, const char *callback, ccs_object_t self, State *st, ccs_result_t r)
{
	if (calls.size() != 1 || calls[0].name != callback)
		mc::fail("%s ran %zu callbacks (first: %s) instead of %s once", op, calls.size(), calls.size() ? calls[0].name.c_str() : "none", callback);
	if (calls[0].self != self || calls[0].st != st)
		mc::fail("%s: the callback is given another tuner or other data", op);
	if (r != calls[0].answer)
		mc::fail("%s returned %d, its callback %d", op, (int)r, (int)calls[0].answer);
	return calls[0];
}
enum { ASK_COUNT, ASK_ONE, ASK_MORE, TELL_NONE, TELL_ONE, TELL_TWO, OPTIMA, HISTORY, SUGGEST, SAVE, RESTORE, NOPS, ASK_MANY, TELL_MANY };
static size_t      many;             // how many they ask and tell
static std::string blob_ = "the state";

template <class K> static void tuners(int variant, const std::vector<int> &ops, int nfaults)
{
	Env              e;
	State            states[8];
	int              used = 0;
	typename K::V    vec  = K::vec();
	if (variant == 1)
		vec.suggest = nullptr, vec.serialize_user_state = nullptr, vec.deserialize_state = nullptr;
	if (variant == 2)
		vec.deserialize_state = nullptr;
	if (variant == 3)
		vec.serialize_user_state = nullptr;
	pool.clear();
	for (size_t i = 0; i < 4; i++)
		pool.push_back(K::conf(e, i));
	State *st = &states[used++];
	st->blob  = blob_;
	reset(0);
	Obj tun;
	OKX(K::create(e, &vec, st, tun.ret()));
	if (calls.size())
		mc::fail("creation ran a callback");
	typename K::V wiped = vec;
	memset((void *)&vec, 0x5a, sizeof vec); // the tuner keeps its own copy
	std::swap(wiped, vec);
	std::vector<std::string> model; // what was told, as text
	typedef typename K::T T;
	typedef typename K::C C;
	typedef typename K::E E;
	std::vector<Obj>      evals;
	size_t                next = 0;
	auto                  check_history = [&](const char *after) {
                int keep = faults;
                reset(0);
                size_t n = 77;
                OKX(K::history((T)tun.get(), nullptr, 0, nullptr, &n));
                if (n != model.size())
                        mc::fail("after %s: history of %zu instead of %zu", after, n, model.size());
                std::vector<E> h(n);
                if (n)
                        OKX(K::history((T)tun.get(), nullptr, n, h.data(), nullptr));
                for (size_t i = 0; i < n; i++)
                        if (told((ccs_object_t)h[i]) != model[i])
                                mc::fail("after %s: history entry %zu is %s instead of %s", after, i, told((ccs_object_t)h[i]).c_str(), model[i].c_str());
                reset(keep);
	};
	faults = nfaults;
	for (int op : ops) {
		reset(faults);
		T              t = (T)tun.get();
		ccs_features_t f = K::features ? e.fea[op % 2].get() : nullptr;
		switch (op) {
		case ASK_COUNT:
		case ASK_ONE:
		case ASK_MORE:
		case ASK_MANY: {
			size_t         n = op == ASK_COUNT ? 0 : op == ASK_ONE ? 1 : op == ASK_MORE ? 3 : many, got = 77;
			std::vector<C> c(n, nullptr);
			mc::step();
			ccs_result_t r = K::ask(t, f, n, n ? c.data() : nullptr, op == ASK_ONE ? nullptr : &got);
			const Call  &k = single("ask", "ask", tun, st, r);
			if (k.n != n || k.array != (n > 0) || k.ret != (op != ASK_ONE) || k.features != (ccs_object_t)f)
				mc::fail("ask of %zu reached its callback with other arguments", n);
			if (r == CCS_RESULT_SUCCESS) {
				size_t want = op == ASK_COUNT ? 42 : budget(n);
				if (op != ASK_ONE && got != want)
					mc::fail("ask of %zu gives %zu instead of %zu", n, got, want);
				for (size_t i = 0; i < n; i++)
					if ((ccs_object_t)c[i] != (i < want ? pool[i % pool.size()] : nullptr))
						mc::fail("ask of %zu: configuration %zu is not the callback's", n, i);
			}
			for (auto x : c)
				if (x)
					OKX(ccs_release_object((ccs_object_t)x));
			break;
		}
		case TELL_NONE:
		case TELL_ONE:
		case TELL_TWO:
		case TELL_MANY: {
			size_t         n = op == TELL_MANY ? many : (size_t)(op - TELL_NONE);
			std::vector<E> v;
			for (size_t i = 0; i < n; i++) {
				ccs_datum_t d = ccs_int((ccs_int_t)(10 + next));
				evals.emplace_back();
				OKX(K::eval(e, next, &d, evals.back().ret()));
				v.push_back((E)evals.back().get());
				next++;
			}
			mc::step();
			ccs_result_t r = K::tell(t, n, n ? v.data() : nullptr);
			const Call  &k = single("tell", "tell", tun, st, r);
			if (k.n != n || k.array != (n > 0))
				mc::fail("tell of %zu reached its callback as %zu", n, k.n);
			for (size_t i = 0; i < n; i++) {
				if (k.objs[i] != (ccs_object_t)v[i])
					mc::fail("tell: evaluation %zu reached the callback as another", i);
				if (r == CCS_RESULT_SUCCESS)
					model.push_back(told((ccs_object_t)v[i]));
			}
			break;
		}
		case OPTIMA:
		case HISTORY: {
			const char *name = op == OPTIMA ? "get_optima" : "get_history";
			size_t      want = op == OPTIMA ? (model.size() + 1) / 2 : model.size(), got = 77, n = want + 1;
			for (int step = 0; step < 3; step++) {
				reset(faults);
				std::vector<E> v(n, nullptr);
				size_t         given = step == 0 ? 0 : step == 1 ? n : want;
				if (step == 2 && !want)
					break;
				mc::step();
				ccs_result_t r = op == OPTIMA ? K::optima(t, f, given, step ? v.data() : nullptr, step < 2 ? &got : nullptr) : K::history(t, f, given, step ? v.data() : nullptr, step < 2 ? &got : nullptr);
				const Call  &k = single(name, name, tun, st, r);
				if (k.n != given || k.array != (step > 0) || k.ret != (step < 2) || k.features != (ccs_object_t)f)
					mc::fail("%s reached its callback with other arguments", name);
				if (r != CCS_RESULT_SUCCESS)
					continue;
				if (step < 2 && got != want)
					mc::fail("%s gives %zu instead of %zu", name, got, want);
				for (size_t i = 0; step && i < given; i++)
					if ((ccs_object_t)v[i] != (i < want ? k.objs[i] : nullptr))
						mc::fail("%s: entry %zu is not the callback's", name, i);
			}
			break;
		}
		case SUGGEST: {
			C c = nullptr;
			mc::step();
			ccs_result_t r = K::suggest(t, f, &c);
			if (!vec.suggest) {
				if (calls.size() || r != CCS_RESULT_ERROR_UNSUPPORTED_OPERATION)
					mc::fail("suggest, which is not provided, returned %d", (int)r);
				break;
			}
			const Call &k = single("suggest", "suggest", tun, st, r);
			if (k.features != (ccs_object_t)f || !k.ret)
				mc::fail("suggest reached its callback with other arguments");
			if (r == CCS_RESULT_SUCCESS && (ccs_object_t)c != pool[1])
				mc::fail("suggest gives another configuration than its callback");
			if (c)
				OKX(ccs_release_object((ccs_object_t)c));
			break;
		}
		case SAVE:
		case RESTORE: {
			size_t sz = 0;
			mc::step();
			ccs_result_t r = ccs_object_serialize(tun.get(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END);
			if (r != failure)
				mc::fail("measuring returned %d, its callbacks %d", (int)r, (int)failure);
			for (auto &k : calls)
				if (k.self != tun.get() || k.st != st || (k.name != "save" && k.name != "get_history" && k.name != "get_optima"))
					mc::fail("measuring ran %s", k.name.c_str());
			check_history("measuring");
			if (r != CCS_RESULT_SUCCESS)
				break;
			reset(faults);
			std::vector<char> b(sz);
			mc::step();
			r = ccs_object_serialize(tun.get(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b.data(), CCS_SERIALIZE_OPTION_END);
			if (r != failure)
				mc::fail("serializing returned %d, its callbacks %d", (int)r, (int)failure);
			for (auto &k : calls)
				if (k.self != tun.get() || k.st != st || (k.name != "save" && k.name != "get_history" && k.name != "get_optima"))
					mc::fail("serializing ran %s", k.name.c_str());
			check_history("serializing");
			if (r != CCS_RESULT_SUCCESS || op == SAVE || used == 8)
				break;
			reset(faults);
			State *fresh = &states[used++];
			fresh->blob  = "nothing yet";
			ccs_object_t o = nullptr;
			mc::step();
			r = ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_VECTOR, &vec, CCS_DESERIALIZE_OPTION_DATA, (void *)fresh, CCS_DESERIALIZE_OPTION_END);
			// a fault in the deletion of what a fault left unfinished hides behind the first
			ccs_result_t first = CCS_RESULT_SUCCESS;
			for (auto &k : calls)
				if (k.answer != CCS_RESULT_SUCCESS && first == CCS_RESULT_SUCCESS)
					first = k.answer;
			if (r != first)
				mc::fail("restoring returned %d, its callbacks %d", (int)r, (int)first);
			std::vector<std::string> heard;
			int                      loads = 0, dels = 0;
			for (auto &k : calls) {
				if (k.st != fresh || (r == CCS_RESULT_SUCCESS && k.self != o))
					mc::fail("restoring: a callback is given another tuner or other data");
				if (k.name == "load") {
					loads++;
					if (k.sizes[0] != model.size() || k.sizes[1] != (model.size() + 1) / 2)
						mc::fail("restoring: %zu evaluations and %zu optima instead of %zu and %zu", k.sizes[0], k.sizes[1], model.size(), (model.size() + 1) / 2);
					if (k.bytes != (vec.serialize_user_state ? st->blob : std::string()))
						mc::fail("restoring: state of %zu bytes is another", k.bytes.size());
				} else if (k.name == "del")
					dels++;
				else if (k.name != "tell")
					mc::fail("restoring ran %s", k.name.c_str());
				if (k.name != "del" && r == CCS_RESULT_SUCCESS)
					for (size_t i = 0; i < (k.name == "load" ? k.sizes[0] : k.objs.size()); i++)
						heard.push_back(told(k.objs[i]));
			}
			if (loads != (vec.deserialize_state ? 1 : 0))
				mc::fail("restoring ran the restoring callback %d times", loads);
			if (dels != (r == CCS_RESULT_SUCCESS ? 0 : 1) || fresh->deleted != dels)
				mc::fail("restoring returned %d and ran the deletion callback %d times", (int)r, dels);
			if (r != CCS_RESULT_SUCCESS) {
				if (o)
					mc::fail("restoring failed and gives an object");
				break;
			}
			if (heard != model)
				mc::fail("restoring: the history of %zu evaluations is not the one of %zu", heard.size(), model.size());
			// go on with the restored tuner
			int keep = faults;
			faults   = 0;
			tun      = Obj(o); // the first is deleted
			faults   = keep;
			K::adopt(e, (T)tun.get());
			pool.clear();
			for (size_t i = 0; i < 4; i++)
				pool.push_back(K::conf(e, i));
			if (st->deleted != 1)
				mc::fail("a released tuner was deleted %d times", st->deleted);
			st = fresh;
			break;
		}
		}
		if (st->deleted)
			mc::fail("the tuner was deleted");
		check_history("an operation");
		ccs_clear_thread_error();
	}
	// the last reference
	reset(faults);
	ccs_object_t o = tun.take();
	OKX(ccs_retain_object(o));
	OKX(ccs_release_object(o));
	if (calls.size())
		mc::fail("releasing one of two references ran a callback");
	mc::step();
	ccs_result_t r = ccs_release_object(o);
	single("release", "del", o, st, r);
	for (int i = 0; i < used; i++)
		if (states[i].deleted != 1)
			mc::fail("component %d was deleted %d times", i, states[i].deleted);
	ccs_clear_thread_error();
}
MC_SUITE(tuners)
{
	int              kind = mc::choose(3, "kind"), variant = mc::choose(4, "callbacks provided");
	int              depth = mc::tier_bound(3, 4);
	std::vector<int> ops;
	for (int i = 0; i < depth; i++)
		ops.push_back(mc::choose(NOPS, "operation"));
	mc::shard_point();
	mc::nontrivial();
	int n = mc::tier_bound(1, 1);
	if (kind == 0)
		tuners<Plain>(variant, ops, n);
	else if (kind == 1)
		tuners<Featured>(variant, ops, n);
	else
		tuners<OfTrees>(variant, ops, n);
}
// many at once: buffers, long histories and long states
MC_SUITE(sizes)
{
	int kind = mc::choose(3, "kind"), variant = mc::choose(4, "callbacks provided");
	size_t b = 9;
	if (mc::flip("a long history"))
		many = mc::pick(std::vector<size_t>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}, "how many");
	else {
		many = 4;
		b    = mc::pick(std::vector<size_t>{0, 1, 127, 128, 129, 255, 256, 4096, 16383, 16384, 16385, 70000}, "bytes of state");
	}
	bool   t = mc::flip("told at once");
	mc::shard_point();
	blob_.clear();
	for (size_t i = 0; i < b; i++)
		blob_ += (char)(i * 37 + i / 256);
	std::vector<int> ops = {ASK_MANY};
	if (t)
		ops.push_back(TELL_MANY);
	else
		ops.insert(ops.end(), many, TELL_ONE);
	for (int o : {TELL_TWO, OPTIMA, HISTORY, SUGGEST, RESTORE, HISTORY, TELL_ONE, OPTIMA, RESTORE})
		ops.push_back(o);
	mc::nontrivial();
	if (kind == 0)
		tuners<Plain>(variant, ops, 0);
	else if (kind == 1)
		tuners<Featured>(variant, ops, 0);
	else
		tuners<OfTrees>(variant, ops, 0);
	blob_ = "the state";
}
// two callbacks fail
MC_SUITE(twice)
{
	int              kind = mc::choose(3, "kind"), variant = mc::choose(mc::thorough() ? 4 : 2, "callbacks provided");
	std::vector<int> ops = {TELL_TWO};
	int              depth = mc::tier_bound(1, 2);
	for (int i = 0; i < depth; i++)
		ops.push_back(mc::choose(NOPS, "operation"));
	ops.push_back(RESTORE);
	mc::shard_point();
	mc::nontrivial();
	if (kind == 0)
		tuners<Plain>(variant, ops, 2);
	else if (kind == 1)
		tuners<Featured>(variant, ops, 2);
	else
		tuners<OfTrees>(variant, ops, 2);
}
// a missing mandatory callback
MC_SUITE(incomplete)
{
	int kind = mc::choose(4, "kind"), which = mc::choose(8, "callback");
	mc::shard_point();
	mc::nontrivial();
	Env   e;
	State st;
	Obj   t;
	reset(0);
	ccs_result_t r;
	bool         mandatory = kind < 3 ? which < 5 : which < 2;
	auto         drop      = [&](auto &v) { memset((char *)&v + sizeof(void *) * (size_t)which, 0, sizeof(void *)); };
	ccs_object_t before    = (ccs_object_t)&st;
	ccs_object_t o         = before;
	mc::step();
	if (kind == 0) {
		auto v = Plain::vec();
		drop(v);
		r = Plain::create(e, &v, &st, &o);
	} else if (kind == 1) {
		auto v = Featured::vec();
		drop(v);
		r = Featured::create(e, &v, &st, &o);
	} else if (kind == 2) {
		auto v = OfTrees::vec();
		drop(v);
		r = OfTrees::create(e, &v, &st, &o);
	} else {
		if (which >= 4)
			mc::prune();
		ccs_dynamic_tree_space_vector_t v = {u_del<ccs_tree_space_t>, [](ccs_tree_space_t, ccs_tree_t, size_t, ccs_tree_t *) { return CCS_RESULT_ERROR_EXTERNAL; }, u_save<ccs_tree_space_t>, [](ccs_tree_space_t, size_t, const void *) { return CCS_RESULT_SUCCESS; }};
		drop(v);
		Tre root;
		OKX(ccs_create_tree(2, ccs_int(0), root.ret()));
		r = ccs_create_dynamic_tree_space("d", root, &v, &st, (ccs_tree_space_t *)&o);
	}
	if (mandatory) {
		if (r != CCS_RESULT_ERROR_INVALID_VALUE || o != before)
			mc::fail("a vector without callback %d gives %d", which, (int)r);
	} else {
		if (r != CCS_RESULT_SUCCESS)
			mc::fail("a vector without optional callback %d gives %d", which, (int)r);
		Obj own(o);
	}
	ccs_clear_thread_error();
}

// ---- dynamic tree spaces --------------------------------------------------------
typedef std::vector<size_t> Pos;
static std::set<Pos>        grown; // nodes that exist
static ccs_tree_t           elsewhere;
static ccs_tree_space_t     now;
static size_t               arity_at(size_t depth) { return depth == 0 ? 3 : depth == 1 ? 2 : 0; }
static Pos position_of(ccs_tree_t t)
{
	size_t n = 0;
	OKX(ccs_tree_get_position(t, 0, nullptr, &n));
	Pos p(n);
	if (n)
		OKX(ccs_tree_get_position(t, n, p.data(), nullptr));
	return p;
}
static bool bad_child; // the last failure was a child that cannot be attached
static ccs_result_t u_child(ccs_tree_space_t s, ccs_tree_t parent, size_t index, ccs_tree_t *child)
{
	Call c  = made("get_child", s);
	Pos  p  = position_of(parent);
	p.push_back(index);
	c.sizes = p;
	if (p.size() > 1 && !grown.count(Pos(p.begin(), p.end() - 1)))
		mc::fail("the parent given to the callback was never created");
	if (index >= arity_at(p.size() - 1))
		mc::fail("the callback is given index %zu of %zu", index, arity_at(p.size() - 1));
	if (grown.count(p))
		mc::fail("the callback is asked again for a node it has created");
	if (faults && mc::choose(2, "unusable child")) {
		faults--;
		failed = bad_child = true;
		calls.push_back(c);
		if (mc::choose(2, "none or attached elsewhere")) {
			OKX(ccs_retain_object(elsewhere));
			*child = elsewhere;
		}
		return CCS_RESULT_SUCCESS;
	}
	ccs_result_t r = enter(std::move(c));
	if (r != CCS_RESULT_SUCCESS)
		return r;
	OKX(ccs_create_tree(arity_at(p.size()), ccs_int((ccs_int_t)(10 * p.size() + index)), child));
	grown.insert(p);
	return r;
}
static ccs_result_t u_space_load(ccs_tree_space_t s, size_t n, const void *at)
{
	Call c         = made("load", s);
	c.bytes        = std::string((const char *)at, n);
	State       *st = c.st;
	ccs_result_t r = enter(std::move(c));
	if (r == CCS_RESULT_SUCCESS)
		st->blob.assign((const char *)at, n);
	return r;
}
enum { NODE, VALUES, CHECK, SAMPLE, SAVED, RESTORED };
static void spaces(int variant, const std::vector<std::pair<int, Pos>> &ops, const std::string &blob, int allowed);
MC_SUITE(spaces)
{
	static const std::vector<Pos> where = {{}, {0}, {1}, {0, 1}, {1, 0}, {3}, {0, 2}, {1, 1, 0}};
	int                           variant = mc::choose(4, "callbacks provided"), depth = mc::tier_bound(3, 4);
	std::vector<std::pair<int, Pos>> ops;
	for (int i = 0; i < depth; i++) {
		int op = mc::choose(6, "operation");
		ops.push_back({op, op <= CHECK ? mc::pick(where, "position") : Pos()});
	}
	mc::shard_point();
	spaces(variant, ops, "of the space", 1);
}
// states of any length
MC_SUITE(space_sizes)
{
	int    variant = mc::choose(4, "callbacks provided");
	size_t b       = mc::pick(std::vector<size_t>{0, 1, 2, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 16385, 65535, 65536, 65537, 70000, 1 << 20}, "bytes of state");
	int    what    = mc::choose(3, "before");
	mc::shard_point();
	std::string blob;
	for (size_t i = 0; i < b; i++)
		blob += (char)(i * 37 + i / 256);
	std::vector<std::pair<int, Pos>> ops;
	if (what)
		ops.push_back({what == 1 ? NODE : SAMPLE, what == 1 ? Pos{0, 1} : Pos()});
	for (int i = 0; i < 3; i++)
		ops.push_back({RESTORED, Pos()});
	spaces(variant, ops, blob, 1);
}
static void spaces(int variant, const std::vector<std::pair<int, Pos>> &ops, const std::string &blob, int allowed)
{
	mc::nontrivial();
	Tre root, other, otherroot;
	OKX(ccs_create_tree(3, ccs_int(0), root.ret()));
	OKX(ccs_create_tree(1, ccs_int(0), otherroot.ret()));
	OKX(ccs_create_tree(0, ccs_int(0), other.ret()));
	OKX(ccs_tree_set_child(otherroot, 0, other));
	elsewhere = other;
	grown.clear();
	State                           states[8];
	int                             used = 0;
	ccs_dynamic_tree_space_vector_t vec  = {u_del<ccs_tree_space_t>, u_child, u_save<ccs_tree_space_t>, u_space_load};
	if (variant & 1)
		vec.serialize_user_state = nullptr;
	if (variant & 2)
		vec.deserialize_state = nullptr;
	State *st = &states[used++];
	st->blob  = blob;
	reset(0);
	Obj sp;
	OKX(ccs_create_dynamic_tree_space("d", root, &vec, st, (ccs_tree_space_t *)sp.ret()));
	if (calls.size())
		mc::fail("creation ran a callback");
	faults = allowed;
	for (auto &op : ops) {
		reset(faults);
		bad_child          = false;
		ccs_tree_space_t s = (ccs_tree_space_t)sp.get();
		const Pos       &p = op.second;
		std::set<Pos>    had = grown;
		// what a walk along p has to create, in order; and whether p is real
		std::vector<Pos> want;
		bool             real = true;
		for (size_t i = 0; i < p.size() && real; i++) {
			if (p[i] >= arity_at(i))
				real = false;
			else if (!had.count(Pos(p.begin(), p.begin() + (long)i + 1)))
				want.push_back(Pos(p.begin(), p.begin() + (long)i + 1));
		}
		ccs_result_t r = CCS_RESULT_SUCCESS;
		auto         walked = [&](const char *name) {
                        for (size_t i = 0; i < calls.size(); i++)
                                if (calls[i].name != "get_child" || calls[i].self != sp.get() || calls[i].st != st || i >= want.size() || calls[i].sizes != want[i])
                                        mc::fail("%s: callback %zu (%s) is not the next one needed", name, i, calls[i].name.c_str());
                        if (!failed && calls.size() != want.size())
                                mc::fail("%s ran %zu callbacks instead of %zu", name, calls.size(), want.size());
                        if (failed && !bad_child && r != failure)
                                mc::fail("%s returned %d, its callback %d", name, (int)r, (int)failure);
                        if (bad_child && r >= 0)
                                mc::fail("%s returned %d with an unusable child", name, (int)r);
		};
		switch (op.first) {
		case NODE: {
			ccs_tree_t t = nullptr;
			mc::step();
			r = ccs_tree_space_get_node_at_position(s, p.size(), const_cast<size_t *>(p.data()), &t);
			walked("node");
			if (!failed && real != (r == CCS_RESULT_SUCCESS))
				mc::fail("node: returned %d at a position that is%s real", (int)r, real ? "" : " not");
			if (r == CCS_RESULT_SUCCESS && position_of(t) != p)
				mc::fail("node: another node");
			break;
		}
		case VALUES: {
			std::vector<ccs_datum_t> v(p.size() + 1, ccs_none);
			mc::step();
			r = ccs_tree_space_get_values_at_position(s, p.size(), const_cast<size_t *>(p.data()), v.size(), v.data());
			walked("values");
			if (!failed && real != (r == CCS_RESULT_SUCCESS))
				mc::fail("values: returned %d at a position that is%s real", (int)r, real ? "" : " not");
			if (r == CCS_RESULT_SUCCESS)
				for (size_t i = 1; i < v.size(); i++)
					if (!deq(v[i], ccs_int((ccs_int_t)(10 * i + p[i - 1]))))
						mc::fail("values: %s at depth %zu", dstr(v[i]).c_str(), i);
			break;
		}
		case CHECK: {
			ccs_bool_t b = 77;
			mc::step();
			r = ccs_tree_space_check_position(s, p.size(), const_cast<size_t *>(p.data()), &b);
			walked("check");
			if (!failed && (r != CCS_RESULT_SUCCESS || (b == CCS_TRUE) != real))
				mc::fail("check: returned %d and %d at a position that is%s real", (int)r, (int)b, real ? "" : " not");
			break;
		}
		case SAMPLE: {
			ccs_tree_configuration_t c = nullptr;
			mc::step();
			r = ccs_tree_space_sample(s, &c);
			for (auto &k : calls)
				if (k.name != "get_child" || k.self != sp.get() || k.st != st)
					mc::fail("sampling ran %s", k.name.c_str());
			if ((failed && !bad_child && r != failure) || (bad_child && r >= 0) || (!failed && r != CCS_RESULT_SUCCESS))
				mc::fail("sampling returned %d, its callback %d", (int)r, (int)failure);
			if (failed && c)
				mc::fail("sampling failed and gives a configuration");
			if (c) {
				TCf    own(c);
				size_t n = 0;
				OKX(ccs_tree_configuration_get_position(own, 0, nullptr, &n));
				Pos q(n);
				if (n)
					OKX(ccs_tree_configuration_get_position(own, n, q.data(), nullptr));
				for (size_t i = 1; i < n; i++) // it stops at a child that is not there yet
					if (!grown.count(Pos(q.begin(), q.begin() + (long)i)))
						mc::fail("sampling gives a node that was never created");
			}
			break;
		}
		case SAVED:
		case RESTORED: {
			size_t sz = 0;
			mc::step();
			r = ccs_object_serialize(sp.get(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END);
			if (r != failure)
				mc::fail("measuring returned %d, its callbacks %d", (int)r, (int)failure);
			if (r != CCS_RESULT_SUCCESS)
				break;
			std::vector<char> b(sz);
			mc::step();
			r = ccs_object_serialize(sp.get(), CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b.data(), CCS_SERIALIZE_OPTION_END);
			if (r != failure)
				mc::fail("serializing returned %d, its callbacks %d", (int)r, (int)failure);
			for (auto &k : calls)
				if (k.name != "save" || k.self != sp.get() || k.st != st)
					mc::fail("serializing ran %s", k.name.c_str());
			if (r != CCS_RESULT_SUCCESS || op.first == SAVED || used == 8)
				break;
			reset(faults);
			State *fresh = &states[used++];
			fresh->blob  = "nothing yet";
			ccs_object_t o = nullptr;
			mc::step();
			r = ccs_object_deserialize(&o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, b.size(), b.data(), CCS_DESERIALIZE_OPTION_VECTOR, &vec, CCS_DESERIALIZE_OPTION_DATA, (void *)fresh, CCS_DESERIALIZE_OPTION_END);
			if (r != failure)
				mc::fail("restoring returned %d, its callbacks %d", (int)r, (int)failure);
			int loads = 0, dels = 0;
			for (auto &k : calls) {
				if (k.st != fresh || (r == CCS_RESULT_SUCCESS && k.self != o))
					mc::fail("restoring: a callback is given another space or other data");
				if (k.name == "load") {
					loads++;
					if (k.bytes != (vec.serialize_user_state ? st->blob : std::string()))
						mc::fail("restoring: another state");
				} else if (k.name == "del")
					dels++;
				else
					mc::fail("restoring ran %s", k.name.c_str());
			}
			if (loads != (vec.deserialize_state ? 1 : 0) || dels != (r != CCS_RESULT_SUCCESS) || fresh->deleted != dels)
				mc::fail("restoring returned %d, ran the restoring callback %d times, the deletion callback %d times", (int)r, loads, dels);
			if (r != CCS_RESULT_SUCCESS) {
				if (o)
					mc::fail("restoring failed and gives an object");
				break;
			}
			int keep = faults;
			faults   = 0;
			sp       = Obj(o);
			faults   = keep;
			if (st->deleted != 1)
				mc::fail("a released space was deleted %d times", st->deleted);
			st = fresh;
			break;
		}
		}
		// the nodes created are there, and no other
		ccs_tree_t now_root = nullptr;
		OKX(ccs_tree_space_get_tree((ccs_tree_space_t)sp.get(), &now_root));
		for (size_t i = 0; i < 3; i++) {
			ccs_tree_t c = (ccs_tree_t)&states;
			OKX(ccs_tree_get_child(now_root, i, &c));
			if ((c != nullptr) != (grown.count({i}) > 0))
				mc::fail("node %zu is%s there", i, c ? "" : " not");
			for (size_t j = 0; c && j < 2; j++) {
				ccs_tree_t d = nullptr;
				OKX(ccs_tree_get_child(c, j, &d));
				if ((d != nullptr) != (grown.count({i, j}) > 0))
					mc::fail("node %zu, %zu is%s there", i, j, d ? "" : " not");
			}
		}
		ccs_tree_t par = nullptr;
		OKX(ccs_tree_get_parent(elsewhere, &par, nullptr));
		if (par != otherroot.get() || refcount((ccs_object_t)elsewhere) != 2)
			mc::fail("a node attached elsewhere was touched");
		if (st->deleted)
			mc::fail("the space was deleted");
		ccs_clear_thread_error();
	}
	reset(faults);
	ccs_object_t o = sp.take();
	OKX(ccs_retain_object(o));
	OKX(ccs_release_object(o));
	if (calls.size())
		mc::fail("releasing one of two references ran a callback");
	mc::step();
	ccs_result_t r = ccs_release_object(o);
	single("release", "del", o, st, r);
	for (int i = 0; i < used; i++)
		if (states[i].deleted != 1)
			mc::fail("space %d was deleted %d times", i, states[i].deleted);
	ccs_clear_thread_error();
}
