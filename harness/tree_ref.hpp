// Reference model of tree nodes: shape, weights and biases, and the roulette walk.
#pragma once
#include "ccsx.hpp"

struct TNode {
	int              arity = 0;
	std::vector<int> child; // -1: unset
	int              parent = -1, index = 0;
	double           w = 1, b = 1;
	ccs_datum_t      value;
};
// weight of the choices of node n: its children (unset: 1), then itself
inline double t_sum(const std::vector<TNode> &t, int n)
{
	double s = t[(size_t)n].w;
	for (int c : t[(size_t)n].child)
		s += c < 0 ? 1.0 : t_sum(t, c) * t[(size_t)c].b;
	return s;
}
inline std::vector<double> t_choices(const std::vector<TNode> &t, int n)
{
	std::vector<double> w;
	for (int c : t[(size_t)n].child)
		w.push_back(c < 0 ? 1.0 : t_sum(t, c) * t[(size_t)c].b);
	w.push_back(t[(size_t)n].w);
	return w;
}
// is choosing entry i for the uniform draw u right? exact when the total is a power of two and
// the weights are short dyadic numbers; otherwise rounding of the shares is allowed for
inline bool t_share(const std::vector<double> &w, size_t i, double u)
{
	double total = 0, lo = 0;
	for (double x : w)
		total += x;
	if (i >= w.size() || !(w[i] > 0))
		return false;
	for (size_t k = 0; k < i; k++)
		lo += w[k];
	double hi  = lo + w[i];
	int    e   = 0;
	double eps = std::frexp(total, &e) == 0.5 ? 0 : 1e-9;
	return u * total >= lo - eps * total && (eps == 0 ? u * total < hi : u * total < hi + eps * total);
}
inline std::vector<size_t> t_position(const std::vector<TNode> &t, int n)
{
	std::vector<size_t> p;
	while (t[(size_t)n].parent >= 0) {
		p.insert(p.begin(), (size_t)t[(size_t)n].index);
		n = t[(size_t)n].parent;
	}
	return p;
}
// node at a position below root; -1: none
inline int t_at(const std::vector<TNode> &t, int root, const std::vector<size_t> &p)
{
	for (size_t x : p) {
		if (x >= (size_t)t[(size_t)root].arity || t[(size_t)root].child[x] < 0)
			return -1;
		root = t[(size_t)root].child[x];
	}
	return root;
}
// a position is valid when every index is a slot of an existing node; the last slot may be unset
inline bool t_reach(const std::vector<TNode> &t, int root, const std::vector<size_t> &p)
{
	for (size_t x : p) {
		if (root < 0 || x >= (size_t)t[(size_t)root].arity)
			return false;
		root = t[(size_t)root].child[x];
	}
	return true;
}
// all positions of length <= len with indices in 0..max
inline std::vector<std::vector<size_t>> t_positions(int len, int max)
{
	std::vector<std::vector<size_t>> r = {{}};
	for (size_t k = 0, e = 1; len-- > 0; k = e, e = r.size())
		for (size_t i = k; i < e; i++)
			for (int x = 0; x <= max; x++) {
				auto p = r[i];
				p.push_back((size_t)x);
				r.push_back(p);
			}
	return r;
}
struct TreeWorld {
	std::vector<TNode>      m;
	std::vector<ccs_tree_t> h;
	std::vector<char>       held; // the user's own reference
	int                     root_refs = 0; // held on node 0 by others
	int                     add(int arity, ccs_datum_t v)
	{
		TNode n;
		n.arity = arity;
		n.child.assign((size_t)arity, -1);
		n.value      = v;
		ccs_tree_t t = nullptr;
		MC_OK(ccs_create_tree((size_t)arity, v, &t));
		m.push_back(n), h.push_back(t), held.push_back(1);
		return (int)m.size() - 1;
	}
	~TreeWorld()
	{
		for (size_t i = 0; i < h.size(); i++)
			if (held[i])
				ccs_release_object(h[i]);
	}
	bool alive(int n) const { return held[(size_t)n] || m[(size_t)n].parent >= 0; }
	bool under(int n, int top) const // n is top or below it
	{
		for (; n >= 0; n = m[(size_t)n].parent)
			if (n == top)
				return true;
		return false;
	}
	void set_child(int p, int i, int c)
	{
		ccs_result_t rc = ccs_tree_set_child(h[(size_t)p], (size_t)i, h[(size_t)c]);
		bool ok = i < m[(size_t)p].arity && m[(size_t)p].child[(size_t)i] < 0 && m[(size_t)c].parent < 0 && !under(p, c);
		mc::step("set_child(%d, %d, %d) -> %d", p, i, c, (int)rc);
		MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "attaching node %d at index %d of node %d returned %d", c, i, p, (int)rc);
		if (ok) {
			m[(size_t)p].child[(size_t)i] = c;
			m[(size_t)c].parent           = p;
			m[(size_t)c].index            = i;
		}
	}
	void set_weight(int n, double w)
	{
		ccs_result_t rc = ccs_tree_set_weight(h[(size_t)n], w);
		bool         ok = w >= 0 && w < INFINITY;
		mc::step("set_weight(%d, %g) -> %d", n, w, (int)rc);
		MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "setting weight %g returned %d", w, (int)rc);
		if (ok)
			m[(size_t)n].w = w;
	}
	void set_bias(int n, double b)
	{
		ccs_result_t rc = ccs_tree_set_bias(h[(size_t)n], b);
		bool         ok = b >= 0 && b < INFINITY;
		mc::step("set_bias(%d, %g) -> %d", n, b, (int)rc);
		MC_REQ((rc == CCS_RESULT_SUCCESS) == ok, "setting bias %g returned %d", b, (int)rc);
		if (ok)
			m[(size_t)n].b = b;
	}
	// the user's reference goes; nodes nobody holds disappear and their children become roots
	void release(int n)
	{
		mc::step("release(%d)", n);
		MC_OK(ccs_release_object(h[(size_t)n]));
		held[(size_t)n] = 0;
		bury(n);
	}
	void bury(int n)
	{
		if (alive(n))
			return;
		for (int &c : m[(size_t)n].child)
			if (c >= 0) {
				int k = c;
				c     = -1;
				m[(size_t)k].parent = -1, m[(size_t)k].index = 0;
				bury(k);
			}
	}
	// probes the choice weights of a node by sampling at draws inside and at the ends of every share
	void check_sampling(int n)
	{
		auto   w     = t_choices(m, n);
		double total = 0;
		for (double x : w)
			total += x;
		std::vector<uint32_t> raws = {0, 0xFFFFFFFFu};
		double                lo   = 0;
		if (total > 0)
			for (double x : w) {
				for (double u : {lo / total, (lo + x / 2) / total, (lo + x) / total}) {
					double r = std::floor(u * 4294967296.0);
					for (double k : {r - 1, r, r + 1})
						if (k >= 0 && k <= 4294967295.0)
							raws.push_back((uint32_t)k);
				}
				lo += x;
			}
		for (uint32_t r : raws) {
			mc::tape_fixed({r, r, r});
			Rng    g(mc::tape_rng());
			size_t i = 12345, j[2] = {12345, 12345};
			ccs_result_t rc = ccs_tree_sample(h[(size_t)n], g, &i);
			mc::step();
			if (!(total > 0)) {
				MC_REQ(rc == CCS_RESULT_ERROR_INVALID_DISTRIBUTION, "sampling a node without weight returned %d", (int)rc);
				MC_CHECK(ccs_tree_samples(h[(size_t)n], g, 2, j) == CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
				continue;
			}
			MC_REQ(rc == CCS_RESULT_SUCCESS, "sampling returned %d", (int)rc);
			MC_REQ(t_share(w, i, mc::tape_unit(r)), "draw %.9g chooses %zu of %zu choices", mc::tape_unit(r), i, w.size());
			MC_OK(ccs_tree_samples(h[(size_t)n], g, 2, j));
			MC_CHECK(j[0] == i && j[1] == i);
		}
	}
	int find(ccs_tree_t t) const
	{
		for (size_t i = 0; i < h.size(); i++)
			if (h[i] == t && alive((int)i))
				return (int)i;
		return t ? -2 : -1;
	}
	void check(bool sampling = true, bool deep = true)
	{
		for (int n = 0; n < (int)m.size(); n++)
			if (alive(n))
				check_node(n, sampling, deep);
	}
	void check_node(int n, bool sampling, bool deep)
	{
		const TNode &k = m[(size_t)n];
		ccs_tree_t   t = h[(size_t)n];
		size_t       a = 99;
		MC_OK(ccs_tree_get_arity(t, &a));
		MC_CHECK(a == (size_t)k.arity);
		ccs_datum_t v = ccs_none;
		MC_OK(ccs_tree_get_value(t, &v));
		MC_CHECK(deq(v, k.value));
		double x = -1;
		MC_OK(ccs_tree_get_weight(t, &x));
		MC_REQ(x == k.w, "node %d has weight %g, set %g", n, x, k.w);
		MC_OK(ccs_tree_get_bias(t, &x));
		MC_REQ(x == k.b, "node %d has bias %g, set %g", n, x, k.b);
		ccs_tree_t p   = (ccs_tree_t)8;
		size_t     idx = 77;
		MC_OK(ccs_tree_get_parent(t, &p, &idx));
		MC_REQ(find(p) == k.parent && (k.parent < 0 || idx == (size_t)k.index), "node %d reports another parent or index", n);
		MC_OK(ccs_tree_get_parent(t, &p, nullptr));
		MC_REQ(refcount(t) == held[(size_t)n] + (k.parent >= 0) + (n == 0 ? root_refs : 0), "node %d has %d references", n, refcount(t));
		for (size_t i = 0; i <= (size_t)k.arity + 1; i++) {
			ccs_tree_t   c  = (ccs_tree_t)8;
			ccs_result_t rc = ccs_tree_get_child(t, i, &c);
			if (i < (size_t)k.arity)
				MC_REQ(rc == CCS_RESULT_SUCCESS && find(c) == k.child[i], "node %d reports another child %zu", n, i);
			else
				MC_REQ(rc == CCS_RESULT_ERROR_OUT_OF_BOUNDS && c == (ccs_tree_t)8, "child %zu of node %d of arity %d: %d", i, n, k.arity, (int)rc);
		}
		auto pos = t_position(m, n);
		std::vector<ccs_datum_t> path;
		for (int q = n; q >= 0; q = m[(size_t)q].parent)
			path.insert(path.begin(), m[(size_t)q].value);
		size_t sz = 99;
		MC_OK(ccs_tree_get_children(t, 0, nullptr, &sz));
		MC_CHECK(sz == (size_t)k.arity);
		MC_OK(ccs_tree_get_position(t, 0, nullptr, &sz));
		MC_REQ(sz == pos.size(), "node %d reports depth %zu, is at %zu", n, sz, pos.size());
		MC_OK(ccs_tree_get_values(t, 0, nullptr, &sz));
		MC_CHECK(sz == path.size());
		size_t top = std::max(path.size(), (size_t)k.arity) + 2;
		for (size_t len = deep ? 1 : top; len <= top; len++) {
			std::unique_ptr<ccs_tree_t[]>  cc(new ccs_tree_t[len]);
			std::unique_ptr<size_t[]>      pp(new size_t[len]);
			std::unique_ptr<ccs_datum_t[]> vv(new ccs_datum_t[len]);
			for (size_t i = 0; i < len; i++)
				cc[i] = (ccs_tree_t)8, pp[i] = 4242, vv[i] = ccs_int(4242);
			ccs_result_t rc = ccs_tree_get_children(t, len, cc.get(), &sz);
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (len >= (size_t)k.arity), "%d children in an array of %zu: %d", k.arity, len, (int)rc);
			for (size_t i = 0; i < len; i++)
				MC_CHECK(rc ? cc[i] == (ccs_tree_t)8 : i < (size_t)k.arity ? find(cc[i]) == k.child[i] : cc[i] == nullptr);
			rc = ccs_tree_get_position(t, len, pp.get(), &sz);
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (len >= pos.size()), "position of %zu entries in an array of %zu: %d", pos.size(), len, (int)rc);
			for (size_t i = 0; i < len; i++)
				MC_REQ(pp[i] == (rc ? 4242 : i < pos.size() ? pos[i] : 0), "node %d: entry %zu of the position is %zu", n, i, pp[i]);
			rc = ccs_tree_get_values(t, len, vv.get(), &sz);
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (len >= path.size()), "%zu values in an array of %zu: %d", path.size(), len, (int)rc);
			for (size_t i = 0; i < len; i++)
				MC_CHECK(deq(vv[i], rc ? ccs_int(4242) : i < path.size() ? path[i] : ccs_none));
		}
		int root = n;
		if (deep) {
			int height = 0, maxar = 0;
			for (int q = 0; q < (int)m.size(); q++)
				if (alive(q) && under(q, root))
					height = std::max(height, (int)(t_position(m, q).size() - pos.size())), maxar = std::max(maxar, m[(size_t)q].arity);
			for (auto &q : t_positions(std::min(height + 1, 3), maxar))
				check_at(root, q);
		}
		if (sampling)
			check_sampling(n);
	}
	void check_at(int root, const std::vector<size_t> &q)
	{
		ccs_tree_t t    = h[(size_t)root];
		int        want = t_at(m, root, q);
		ccs_bool_t b    = 7;
		const size_t *pq = q.empty() ? nullptr : q.data();
		MC_OK(ccs_tree_position_is_valid(t, q.size(), pq, &b));
		MC_REQ(b == (t_reach(m, root, q) ? CCS_TRUE : CCS_FALSE), "a position that %s is judged %d", want >= 0 ? "exists" : "does not exist", (int)b);
		ccs_tree_t   r  = (ccs_tree_t)8;
		ccs_result_t rc = ccs_tree_get_node_at_position(t, q.size(), pq, &r);
		MC_REQ((rc == CCS_RESULT_SUCCESS) == (want >= 0) && (want < 0 ? r == (ccs_tree_t)8 : find(r) == want), "node at a position: %d, expected node %d", (int)rc, want);
		for (size_t len = q.size(); len <= q.size() + 2; len++) {
			if (!len)
				continue;
			std::unique_ptr<ccs_datum_t[]> vv(new ccs_datum_t[len]);
			rc = ccs_tree_get_values_at_position(t, q.size(), pq, len, vv.get());
			MC_REQ((rc == CCS_RESULT_SUCCESS) == (want >= 0 && len > q.size()), "values at a position of %zu in an array of %zu: %d", q.size(), len, (int)rc);
			if (rc)
				continue;
			for (size_t i = 0; i < len; i++) {
				int k = i <= q.size() ? t_at(m, root, std::vector<size_t>(q.begin(), q.begin() + (long)i)) : -1;
				MC_CHECK(deq(vv[i], k >= 0 ? m[(size_t)k].value : ccs_none));
			}
		}
	}
};
