// P23: the features tuner keeps what is told under different features apart.
#include "tuner_ref.hpp"
using namespace mc;
typedef TFeat K;

static std::vector<RP> params() { return {RP::numf("a", -100, 100, 0), RP::numf("b", -100, 100, 0), RP::numi("c", -100, 100, 0)}; }
static std::vector<RO> objectives(int n, int dirs)
{
	std::vector<RO> o;
	for (int i = 0; i < n; i++)
		o.push_back({eV(i), (dirs >> i & 1) != 0});
	return o;
}
// all sequences of tells: outcome x features; features objects alternate between the two equal copies
static void tells(int nobj, int len, int grid, int nfea, bool failing, bool anydir)
{
	int dirs = anydir ? choose(1 << nobj, "directions") : 1;
	std::vector<Told> seq;
	int total = 1;
	for (int i = 0; i < nobj; i++)
		total *= grid;
	for (int i = 0; i < len; i++) {
		int  x = choose(total + (failing ? 1 : 0), "outcome");
		Told t;
		t.failed = x == total;
		t.c      = i;
		t.f      = choose(nfea, "features") + (i % 2 ? nfea : 0);
		int y    = t.failed ? 0 : x;
		for (int k = 0; k < 3; k++) {
			int q = k < nobj ? y % grid : 0;
			if (k < nobj)
				y /= grid;
			t.v.push_back(k == 2 ? V::I(q) : V::F(q));
		}
		seq.push_back(t);
	}
	shard_point();
	nontrivial();
	TunerWorld<K> w(len + 1, nfea, params(), objectives(nobj, dirs));
	for (auto &t : seq) {
		w.tell({w.mk(t)});
		w.check();
	}
	for (int f = 0; f < nfea; f++)
		w.suggest(f);
	w.suggest(nfea);
	w.check(true);
}
MC_SUITE(two_objectives) { tells(2, tier_bound(4, 5), 2, 2, false, true); }
MC_SUITE(three_features) { tells(1, tier_bound(4, 5), 2, 3, true, true); }
MC_SUITE(one_objective) { tells(1, tier_bound(5, 6), 2, 2, true, false); }
// two observed features, of which one alone may differ; grouped tells, asks and suggestions
MC_SUITE(mixed)
{
	struct Op { int kind; std::vector<int> ids; int f; };
	int             len = tier_bound(4, 5), n = 3, shape = choose(3, "outcomes");
	std::vector<Op> ops;
	for (int i = 0; i < len; i++) {
		Op o;
		o.f    = 0;
		o.kind = choose(4, "operation");
		if (o.kind == 0)
			o.ids = {choose(n, "evaluation")};
		if (o.kind == 1)
			o.ids = {choose(n, "evaluation"), choose(n, "evaluation")};
		if (o.kind >= 2)
			o.f = choose(3, "features");
		ops.push_back(o);
	}
	shard_point();
	nontrivial();
	TunerWorld<K>    w(4, 2, params(), objectives(2, 2));
	static const int out[3][3][2] = {{{0, 0}, {1, 1}, {2, 0}}, {{1, 1}, {1, 1}, {0, 2}}, {{0, 0}, {0, 1}, {1, 1}}};
	for (int i = 0; i < n; i++) {
		Told t;
		t.v      = {V::F(out[shape][i][0]), V::F(out[shape][i][1]), V::I(0)};
		t.c      = i;
		t.f      = i == 1 ? 1 : i == 2 ? 2 : 0; // features 0, 1 and a copy of 0
		t.failed = shape == 2 && i == 2;
		w.mk(t);
	}
	w.check(true);
	for (auto &o : ops) {
		if (o.kind < 2)
			w.tell(o.ids);
		else if (o.kind == 2)
			w.ask(o.f, 2);
		else
			w.suggest(o.f);
		w.check();
	}
	w.tell({});
	w.check(true);
}
MC_SUITE(unusual)
{
	int                         len = tier_bound(3, 4), kind = choose(2, "objective");
	std::vector<std::vector<V>> out = {{V::F(0), V::F(0), V::I(1)}, {V::F(1), V::F(0), V::I(2)}, {V::F(NAN), V::F(0), V::I(0)}, {V::none(), V::F(0), V::I(1)}, {V::F(-1), V::F(0), V::I(0)}};
	std::vector<RO> o;
	if (kind == 0)
		o = {{eV(0), false}};
	else
		o = {{eB(CCS_EXPRESSION_TYPE_DIVIDE, eL(V::I(6)), eV(2)), false}};
	std::vector<int> seq, fs;
	for (int i = 0; i < len; i++) {
		seq.push_back(choose((int)out.size(), "outcome"));
		fs.push_back(choose(2, "features"));
	}
	shard_point();
	nontrivial();
	TunerWorld<K> w(len + 1, 2, params(), o);
	for (int i = 0; i < len; i++) {
		Told t;
		t.v = out[(size_t)seq[(size_t)i]];
		t.c = i;
		t.f = fs[(size_t)i];
		w.tell({w.mk(t)});
		w.check();
	}
	w.suggest(0);
	w.suggest(1);
	w.ask(0, 3);
}
// features that are not features of the tuner's space, or carry values outside it, are refused and change nothing
MC_SUITE(refused)
{
	int pre = choose(3, "told before"), kind = choose(4, "features"), call = choose(2, "call");
	shard_point();
	nontrivial();
	TunerWorld<K> w(4, 2, params(), objectives(1, 0)), x(4, 2, params(), objectives(1, 0));
	for (int i = 0; i < pre; i++) {
		Told t;
		t.v = {V::F(i), V::F(0), V::I(0)};
		t.c = i, t.f = i;
		w.tell({w.mk(t)});
	}
	Fea            own;
	ccs_features_t f = nullptr;
	if (kind == 0)
		f = x.env.fea[0]; // another space
	else if (kind == 1) {
		ccs_datum_t d = ccs_int(5);
		OKX(ccs_create_features(w.env.fs, 1, &d, own.ret()));
		f = own;
	} else if (kind == 2) {
		OKX(ccs_create_features(w.env.fs, 0, nullptr, own.ret()));
		OKX(ccs_features_set_value(own, 0, ccs_inactive));
		f = own;
	} else
		f = (ccs_features_t)(ccs_object_t)w.env.cfg[0].get(); // not features
	if (call == 0) {
		ccs_configuration_t c[2] = {(ccs_configuration_t)8, (ccs_configuration_t)8};
		size_t              n    = 77;
		MC_ERR(ccs_features_tuner_ask(w.t, f, 2, c, &n));
		MC_CHECK(c[0] == (ccs_configuration_t)8 && c[1] == (ccs_configuration_t)8 && n == 77);
	} else {
		ccs_configuration_t c = (ccs_configuration_t)8;
		MC_ERR(ccs_features_tuner_suggest(w.t, f, &c));
		MC_CHECK(c == (ccs_configuration_t)8);
		if (kind != 3) {
			size_t n = 77;
			MC_OK(ccs_features_tuner_get_history(w.t, f, 0, nullptr, &n));
			MC_CHECK(n == 0);
			n = 77;
			MC_OK(ccs_features_tuner_get_optima(w.t, f, 0, nullptr, &n));
			MC_CHECK(n == 0);
		}
	}
	w.check(true);
}
// features of several parameters are told apart by any of them
MC_SUITE(several_parameters)
{
	int len = tier_bound(3, 4);
	std::vector<int> fv, ov;
	for (int i = 0; i < len; i++)
		fv.push_back(choose(4)), ov.push_back(choose(2));
	shard_point();
	nontrivial();
	Par x = pint("x", 0, 10, 0), a = pint("a", 0, 10, 0), b = pstr("b"), o = pint("o", -10, 10, 0);
	CSp cs = mkcs("cs", {x});
	FSp fs = mkfs("fs", {a, b});
	OSp os = mkos("os", {o});
	Exp e  = evar(o);
	OKX(ccs_objective_space_add_objective(os, e, CCS_OBJECTIVE_TYPE_MINIMIZE));
	Own<ccs_features_tuner_t> t;
	OKX(ccs_create_random_features_tuner("t", cs, fs, os, t.ret()));
	Cfg c;
	OKX(ccs_create_configuration(cs, 0, nullptr, c.ret()));
	std::vector<Fea> f(4), g(4);
	for (int k = 0; k < 8; k++) {
		ccs_datum_t d[2] = {ccs_int(k & 1), tstr(k & 2 ? "a long feature value, variant one" : "a long feature value, variant two")};
		OKX(ccs_create_features(fs, 2, d, (k < 4 ? f : g)[(size_t)k % 4].ret()));
	}
	std::vector<Own<ccs_features_evaluation_t>> ev((size_t)len);
	for (int i = 0; i < len; i++) {
		ccs_datum_t d = ccs_int(ov[(size_t)i]);
		OKX(ccs_create_features_evaluation(os, c, f[(size_t)fv[(size_t)i]], CCS_RESULT_SUCCESS, 1, &d, ev[(size_t)i].ret()));
		ccs_features_evaluation_t h = ev[(size_t)i];
		MC_OK(ccs_features_tuner_tell(t, 1, &h));
		for (int k = 0; k < 4; k++) {
			std::vector<ccs_features_evaluation_t> want, got(16);
			int best = 99, nbest = 0;
			for (int j = 0; j <= i; j++)
				if (fv[(size_t)j] == k) {
					want.push_back(ev[(size_t)j]);
					best = std::min(best, ov[(size_t)j]);
				}
			nbest    = want.empty() ? 0 : 1;
			size_t n = 0;
			MC_OK(ccs_features_tuner_get_history(t, g[(size_t)k], 16, got.data(), &n));
			got.resize(n);
			MC_CHECK(got == want);
			got.assign(16, nullptr);
			MC_OK(ccs_features_tuner_get_optima(t, g[(size_t)k], 16, got.data(), &n));
			MC_REQ((int)n == nbest, "%zu optima for features %d", n, k);
			if (n) {
				ccs_datum_t v;
				OKX(ccs_features_evaluation_get_value(got[0], 0, &v));
				MC_CHECK(v.value.i == best);
			}
			obs(n);
		}
	}
}
MC_SUITE(long_histories) { long_histories<K>(); }
