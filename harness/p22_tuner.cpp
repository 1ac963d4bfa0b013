// P22: random tuner history and optima for every ask/tell history.
#include "tuner_ref.hpp"
using namespace mc;
typedef TPlain K;

static std::vector<RP> params() { return {RP::numf("a", -100, 100, 0), RP::numf("b", -100, 100, 0), RP::numi("c", -100, 100, 0)}; }
static std::vector<RO> objectives(int n, int dirs)
{
	std::vector<RO> o;
	for (int i = 0; i < n; i++)
		o.push_back({eV(i), (dirs >> i & 1) != 0});
	return o;
}
// all sequences of tells of outcomes from a grid, one at a time, all queries after each
static void tells(int nobj, int len, int grid, bool failing)
{
	int dirs = choose(1 << nobj, "directions");
	std::vector<Told> seq;
	int total = 1;
	for (int i = 0; i < nobj; i++)
		total *= grid;
	for (int i = 0; i < len; i++) {
		int  x = choose(total + (failing ? 1 : 0), "outcome");
		Told t;
		t.failed = x == total;
		t.c      = i;
		int y    = t.failed ? 0 : x;
		for (int k = 0; k < 3; k++) {
			int q = k < nobj ? y % grid : 0;
			if (k < nobj)
				y /= grid;
			t.v.push_back(k == 2 ? V::I(q) : V::F(q));
		}
		seq.push_back(t);
	}
	shard_point();
	nontrivial();
	TunerWorld<K> w(len + 1, 1, params(), objectives(nobj, dirs));
	for (auto &t : seq) {
		w.tell({w.mk(t)});
		w.check();
	}
	w.suggest(-1);
	w.check(true);
}
MC_SUITE(two_objectives) { tells(2, tier_bound(4, 5), 3, false); }
MC_SUITE(two_objectives_failing) { tells(2, tier_bound(5, 6), 2, true); }
MC_SUITE(three_objectives) { tells(3, tier_bound(3, 4), 2, false); }
MC_SUITE(one_objective) { tells(1, tier_bound(5, 7), 3, true); }
// grouped tells, repeated evaluations, asks and suggestions in between
MC_SUITE(mixed)
{
	struct Op { int kind; std::vector<int> ids; };
	int             len = tier_bound(4, 5), n = 3, shape = choose(3, "outcomes");
	std::vector<Op> ops;
	for (int i = 0; i < len; i++) {
		Op o;
		o.kind = choose(4, "operation"); // 0 tell one, 1 tell two, 2 ask, 3 suggest
		if (o.kind == 0)
			o.ids = {choose(n, "evaluation")};
		if (o.kind == 1)
			o.ids = {choose(n, "evaluation"), choose(n, "evaluation")};
		ops.push_back(o);
	}
	shard_point();
	nontrivial();
	TunerWorld<K> w(4, 1, params(), objectives(2, 2));
	static const int out[3][3][2] = {{{0, 0}, {1, 1}, {2, 0}}, {{1, 1}, {1, 1}, {0, 2}}, {{0, 0}, {0, 1}, {1, 1}}};
	for (int i = 0; i < n; i++) {
		Told t;
		t.v      = {V::F(out[shape][i][0]), V::F(out[shape][i][1]), V::I(0)};
		t.c      = i;
		t.failed = shape == 2 && i == 2;
		w.mk(t);
	}
	w.check(true);
	for (auto &o : ops) {
		if (o.kind < 2)
			w.tell(o.ids);
		else if (o.kind == 2)
			w.ask(-1, 2);
		else
			w.suggest(-1);
		w.check();
	}
	w.tell({});
	w.check(true);
}
// outcomes that cannot be ordered: undefined, ill-typed, or objectives that cannot be computed
MC_SUITE(unusual)
{
	int                         len = tier_bound(4, 5), kind = choose(3, "objective");
	std::vector<std::vector<V>> out = {{V::F(0), V::F(0), V::I(1)}, {V::F(1), V::F(0), V::I(2)}, {V::F(NAN), V::F(0), V::I(0)}, {V::none(), V::F(0), V::I(1)}, {V::F(0), V::F(0), V::I(0)}, {V::F(-1), V::F(0), V::I(-1)}};
	std::vector<RO> o;
	if (kind == 0)
		o = {{eV(0), false}};
	else if (kind == 1)
		o = {{eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(6)), eV(2)), false}};
	else
		o = {{eV(0), true}, {eB(CCS_EXPRESSION_TYPE_ADD, eV(0), eV(2)), false}};
	std::vector<int> seq;
	for (int i = 0; i < len; i++)
		seq.push_back(choose((int)out.size(), "outcome"));
	shard_point();
	nontrivial();
	TunerWorld<K> w(len + 1, 1, params(), o);
	for (int i = 0; i < len; i++) {
		Told t;
		t.v = out[(size_t)seq[(size_t)i]];
		t.c = i;
		w.tell({w.mk(t)});
		w.check();
	}
	w.suggest(-1);
	w.ask(-1, 3);
}
// evaluations of another objective space are kept in the history and never evict anything
MC_SUITE(foreign)
{
	int len = 4, m = choose(1 << len, "foreign"), perm = choose(6);
	shard_point();
	nontrivial();
	TunerWorld<K> w(len + 1, 1, params(), objectives(2, 0)), x(len + 1, 1, params(), objectives(2, 0));
	static const int p[6][2] = {{0, 1}, {1, 0}, {0, 0}, {1, 1}, {0, 2}, {2, 0}};
	std::vector<Own<K::E>> foreign;
	for (int i = 0; i < len; i++) {
		Told t;
		t.v = {V::F(p[(size_t)(perm + i) % 6][0]), V::F(p[(size_t)(perm + 2 * i) % 6][1]), V::I(0)};
		t.c = i;
		if (m >> i & 1) {
			Data d;
			for (auto &v : t.v)
				d.push_back(v.datum());
			K::E e = nullptr;
			MC_OK(K::create(w.env, x.os, i, 0, CCS_RESULT_SUCCESS, 3, d.data(), &e));
			foreign.push_back(Own<K::E>(e));
			ccs_result_t rc = K::tell(w.t, 1, &e);
			step("tell foreign -> %d", (int)rc);
		} else {
			w.tell({w.mk(t)});
		}
		// whatever happened to the foreign ones, own outcomes stay represented
		size_t n = 0;
		MC_OK(K::optima(w.env, w.t, -1, 0, nullptr, &n));
		std::vector<K::E> a(n + 1);
		if (n)
			MC_OK(K::optima(w.env, w.t, -1, n, a.data(), nullptr));
		for (int id : w.front(-1)) {
			bool rep = false;
			for (size_t k = 0; k < n; k++) {
				int q = w.id_of(a[k]);
				rep   = rep || (q >= 0 && (q == id || w.dom(q, id) == EQUAL));
			}
			MC_REQ(rep, "non-dominated evaluation %s is no longer among the optima", vstr(w.told[(size_t)id].v).c_str());
		}
		for (size_t k = 0; k < n; k++) {
			int q = w.id_of(a[k]);
			if (q >= 0) {
				auto f = w.front(-1);
				MC_REQ(std::find(f.begin(), f.end(), q) != f.end(), "a dominated evaluation is reported optimal");
			}
		}
		obs(n);
	}
}
MC_SUITE(long_histories) { long_histories<K>(); }
