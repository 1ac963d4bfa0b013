// Reference semantics of expressions over plain values, independent of the library.
#pragma once
#include "ccsx.hpp"

struct V { // a value, or an error
	enum T { NONE, INT, FLT, BOOL, STR, INACTIVE, ERR } t = NONE;
	int64_t     i = 0;
	double      f = 0;
	std::string s;
	static V none() { return V(); }
	static V I(int64_t x) { V v; v.t = INT; v.i = x; return v; }
	static V F(double x) { V v; v.t = FLT; v.f = x; return v; }
	static V B(bool x) { V v; v.t = BOOL; v.i = x; return v; }
	static V S(const std::string &x) { V v; v.t = STR; v.s = x; return v; }
	static V inactive() { V v; v.t = INACTIVE; return v; }
	static V err() { V v; v.t = ERR; return v; }
	bool num() const { return t == INT || t == FLT; }
	double d() const { return t == INT ? (double)i : f; }
	bool operator==(const V &o) const
	{
		if (t != o.t)
			return false;
		switch (t) {
		case INT: case BOOL: return i == o.i;
		case FLT: return f == o.f || (f != f && o.f != o.f);
		case STR: return s == o.s;
		default: return true;
		}
	}
	bool operator!=(const V &o) const { return !(*this == o); }
	std::string str() const
	{
		switch (t) {
		case NONE: return "none";
		case INT: return strf("%ld", (long)i);
		case FLT: return strf("%.17gf", f);
		case BOOL: return i ? "true" : "false";
		case STR: return "'" + s + "'";
		case INACTIVE: return "inactive";
		default: return "error";
		}
	}
	ccs_datum_t datum() const // strings point into this object
	{
		switch (t) {
		case INT: return ccs_int(i);
		case FLT: return ccs_float(f);
		case BOOL: return ccs_bool(i ? CCS_TRUE : CCS_FALSE);
		case STR: return ccs_string(s.c_str());
		case INACTIVE: return ccs_inactive;
		default: return ccs_none;
		}
	}
	static V from(const ccs_datum_t &d)
	{
		switch (d.type) {
		case CCS_DATA_TYPE_NONE: return none();
		case CCS_DATA_TYPE_INT: return I(d.value.i);
		case CCS_DATA_TYPE_FLOAT: return F(d.value.f);
		case CCS_DATA_TYPE_BOOL: return B(d.value.i != 0);
		case CCS_DATA_TYPE_STRING: return S(d.value.s ? d.value.s : "<null>");
		case CCS_DATA_TYPE_INACTIVE: return inactive();
		default: return err();
		}
	}
};
// reference parameter
struct RP {
	enum K { NUMI, NUMF, CAT, ORD, DIS, STRING } k;
	std::string    name;
	double         lo = 0, hi = 0; // numerical: [lo, hi)
	std::vector<V> vals;           // enumerated kinds
	V              def;
	bool has(const V &v) const
	{
		switch (k) {
		case NUMI: return v.t == V::INT && v.i >= (int64_t)lo && v.i < (int64_t)hi;
		case NUMF: return v.t == V::FLT && v.f >= lo && v.f < hi;
		case STRING: return v.t == V::STR;
		default:
			for (auto &x : vals)
				if (x == v)
					return true;
			return false;
		}
	}
	int rank(const V &v) const
	{
		for (size_t i = 0; i < vals.size(); i++)
			if (vals[i] == v)
				return (int)i;
		return -1;
	}
	Par make() const
	{
		switch (k) {
		case NUMI: return pint(name.c_str(), (ccs_int_t)lo, (ccs_int_t)hi, def.i);
		case NUMF: return pflt(name.c_str(), lo, hi, def.f);
		case STRING: return pstr(name.c_str());
		default: {
			Data d;
			for (auto &v : vals)
				d.push_back(v.datum());
			size_t di = (size_t)rank(def);
			return k == CAT ? pcat(name.c_str(), d, di) : k == ORD ? pord(name.c_str(), d, di) : pdis(name.c_str(), d, di);
		}
		}
	}
	static RP numi(const char *n, int l, int u, int d) { RP p; p.k = NUMI; p.name = n; p.lo = l; p.hi = u; p.def = V::I(d); return p; }
	static RP numf(const char *n, double l, double u, double d) { RP p; p.k = NUMF; p.name = n; p.lo = l; p.hi = u; p.def = V::F(d); return p; }
	static RP en(K k, const char *n, std::vector<V> v, size_t d = 0) { RP p; p.k = k; p.name = n; p.vals = v; p.def = v[d]; return p; }
	static RP str(const char *n) { RP p; p.k = STRING; p.name = n; p.def = V::S(""); return p; }
};

struct E;
typedef std::shared_ptr<E> EP;
struct E {
	int              op = CCS_EXPRESSION_TYPE_LITERAL;
	V                lit;
	int              var = -1;
	std::vector<EP>  kids;
};
inline EP eL(const V &v) { auto e = std::make_shared<E>(); e->lit = v; return e; }
inline EP eV(int i) { auto e = std::make_shared<E>(); e->op = CCS_EXPRESSION_TYPE_VARIABLE; e->var = i; return e; }
inline EP eO(int op, std::vector<EP> k) { auto e = std::make_shared<E>(); e->op = op; e->kids = std::move(k); return e; }
inline EP eB(int op, EP a, EP b) { return eO(op, {a, b}); }

// build the library object. direct: give parameters and literals as data instead of sub expressions
inline Exp build(const E &e, const std::vector<ccs_parameter_t> &ps, bool direct = false)
{
	if (e.op == CCS_EXPRESSION_TYPE_LITERAL)
		return elit(e.lit.datum());
	if (e.op == CCS_EXPRESSION_TYPE_VARIABLE)
		return evar(ps[(size_t)e.var]);
	std::vector<Exp> keep;
	Data             d;
	for (auto &k : e.kids) {
		if (direct && k->op == CCS_EXPRESSION_TYPE_LITERAL)
			d.push_back(k->lit.datum());
		else if (direct && k->op == CCS_EXPRESSION_TYPE_VARIABLE)
			d.push_back(ccs_object(ps[(size_t)k->var]));
		else {
			keep.push_back(build(*k, ps, direct));
			d.push_back(od(keep.back()));
		}
	}
	Exp r;
	OKX(ccs_create_expression((ccs_expression_type_t)e.op, d.size(), d.data(), r.ret()));
	return r;
}
inline std::string estr(const E &e, const std::vector<RP> *ps = nullptr)
{
	static const char *sy[] = {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "+", "-", "!", "#", "list"};
	if (e.op == CCS_EXPRESSION_TYPE_LITERAL)
		return e.lit.str();
	if (e.op == CCS_EXPRESSION_TYPE_VARIABLE)
		return ps ? (*ps)[(size_t)e.var].name : strf("x%d", e.var);
	std::string r = std::string("(") + sy[e.op];
	for (auto &k : e.kids)
		r += " " + estr(*k, ps);
	return r + ")";
}
inline void evars(const E &e, std::set<int> &s)
{
	if (e.op == CCS_EXPRESSION_TYPE_VARIABLE)
		s.insert(e.var);
	for (auto &k : e.kids)
		evars(*k, s);
}

// does the type pair have a defined equality; value in eq
inline bool ref_eq(const V &a, const V &b, bool &eq)
{
	if (a.num() && b.num()) {
		eq = a.t == V::INT && b.t == V::INT ? a.i == b.i : a.d() == b.d();
		return true;
	}
	eq = false;
	if (a.t != b.t)
		return false;
	eq = a == b;
	return true;
}
inline V ref_eval(const E &e, const std::vector<RP> &ps, const std::vector<V> &vals);
// the value an operand side accepts from the other side when it is a variable
inline bool ref_accepts(const E &side, const std::vector<RP> &ps, const V &other)
{
	if (side.op != CCS_EXPRESSION_TYPE_VARIABLE)
		return true;
	const RP &p = ps[(size_t)side.var];
	switch (p.k) {
	case RP::ORD: case RP::CAT: return p.has(other);
	case RP::NUMI: case RP::NUMF: case RP::DIS: return other.num();
	default: return true;
	}
}
inline V ref_eval(const E &e, const std::vector<RP> &ps, const std::vector<V> &vals)
{
	auto kid = [&](size_t i) { return ref_eval(*e.kids[i], ps, vals); };
	auto isvar = [&](size_t i) { return e.kids[i]->op == CCS_EXPRESSION_TYPE_VARIABLE; };
	auto kind = [&](size_t i, RP::K k) { return isvar(i) && ps[(size_t)e.kids[i]->var].k == k; };
	switch (e.op) {
	case CCS_EXPRESSION_TYPE_LITERAL: return e.lit;
	case CCS_EXPRESSION_TYPE_VARIABLE: return vals[(size_t)e.var];
	case CCS_EXPRESSION_TYPE_LIST: return V::err();
	case CCS_EXPRESSION_TYPE_OR: {
		V a = kid(0), b = kid(1);
		auto ok = [](const V &v) { return v.t == V::BOOL || v.t == V::INACTIVE; };
		if (!ok(a) || !ok(b))
			return V::err();
		if ((a.t == V::BOOL && a.i) || (b.t == V::BOOL && b.i))
			return V::B(true);
		if (a.t == V::INACTIVE || b.t == V::INACTIVE)
			return V::inactive();
		return V::B(false);
	}
	case CCS_EXPRESSION_TYPE_AND: {
		V a = kid(0), b = kid(1);
		if (a.t == V::ERR || b.t == V::ERR)
			return V::err();
		if (a.t == V::INACTIVE || b.t == V::INACTIVE)
			return V::inactive();
		if (a.t != V::BOOL || b.t != V::BOOL)
			return V::err();
		return V::B(a.i && b.i);
	}
	case CCS_EXPRESSION_TYPE_EQUAL:
	case CCS_EXPRESSION_TYPE_NOT_EQUAL: {
		V a = kid(0), b = kid(1);
		if (a.t == V::ERR || b.t == V::ERR)
			return V::err();
		if (a.t == V::INACTIVE || b.t == V::INACTIVE)
			return V::inactive();
		if (!ref_accepts(*e.kids[0], ps, b) || !ref_accepts(*e.kids[1], ps, a))
			return V::err();
		bool eq, def = ref_eq(a, b, eq);
		if (!def && !isvar(0) && !isvar(1))
			return V::err();
		return V::B(e.op == CCS_EXPRESSION_TYPE_EQUAL ? eq : !eq);
	}
	case CCS_EXPRESSION_TYPE_LESS:
	case CCS_EXPRESSION_TYPE_GREATER:
	case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL:
	case CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL: {
		V a = kid(0), b = kid(1);
		if (a.t == V::ERR || b.t == V::ERR || kind(0, RP::CAT) || kind(1, RP::CAT))
			return V::err();
		if (a.t == V::INACTIVE || b.t == V::INACTIVE)
			return V::inactive();
		if (!ref_accepts(*e.kids[0], ps, b) || !ref_accepts(*e.kids[1], ps, a))
			return V::err();
		int c;
		if (kind(0, RP::ORD) || kind(1, RP::ORD)) {
			const RP &p = ps[(size_t)e.kids[kind(0, RP::ORD) ? 0 : 1]->var];
			int       ra = p.rank(a), rb = p.rank(b);
			if (ra < 0 || rb < 0)
				return V::err();
			c = ra < rb ? -1 : ra > rb;
		} else if (a.t == V::INT && b.t == V::INT)
			c = a.i < b.i ? -1 : a.i > b.i;
		else if (a.num() && b.num())
			c = a.d() < b.d() ? -1 : a.d() > b.d();
		else if (a.t == V::STR && b.t == V::STR)
			c = a.s < b.s ? -1 : a.s > b.s;
		else
			return V::err();
		return V::B(e.op == CCS_EXPRESSION_TYPE_LESS ? c < 0 : e.op == CCS_EXPRESSION_TYPE_GREATER ? c > 0 :
			    e.op == CCS_EXPRESSION_TYPE_LESS_OR_EQUAL ? c <= 0 : c >= 0);
	}
	case CCS_EXPRESSION_TYPE_ADD:
	case CCS_EXPRESSION_TYPE_SUBSTRACT:
	case CCS_EXPRESSION_TYPE_MULTIPLY:
	case CCS_EXPRESSION_TYPE_DIVIDE:
	case CCS_EXPRESSION_TYPE_MODULO: {
		V a = kid(0), b = kid(1);
		if (a.t == V::ERR || b.t == V::ERR)
			return V::err();
		if (a.t == V::INACTIVE || b.t == V::INACTIVE)
			return V::inactive();
		if (!a.num() || !b.num())
			return V::err();
		bool dm = e.op == CCS_EXPRESSION_TYPE_DIVIDE || e.op == CCS_EXPRESSION_TYPE_MODULO;
		if (dm && b.d() == 0)
			return V::err();
		if (a.t == V::INT && b.t == V::INT) {
			switch (e.op) {
			case CCS_EXPRESSION_TYPE_ADD: return V::I(a.i + b.i);
			case CCS_EXPRESSION_TYPE_SUBSTRACT: return V::I(a.i - b.i);
			case CCS_EXPRESSION_TYPE_MULTIPLY: return V::I(a.i * b.i);
			case CCS_EXPRESSION_TYPE_DIVIDE:
				if (a.i == INT64_MIN && b.i == -1)
					return V::err(); // not representable
				return V::I(a.i / b.i);
			default: return V::I(b.i == -1 ? 0 : a.i % b.i);
			}
		}
		switch (e.op) {
		case CCS_EXPRESSION_TYPE_ADD: return V::F(a.d() + b.d());
		case CCS_EXPRESSION_TYPE_SUBSTRACT: return V::F(a.d() - b.d());
		case CCS_EXPRESSION_TYPE_MULTIPLY: return V::F(a.d() * b.d());
		case CCS_EXPRESSION_TYPE_DIVIDE: return V::F(a.d() / b.d());
		default: return V::F(fmod(a.d(), b.d()));
		}
	}
	case CCS_EXPRESSION_TYPE_POSITIVE:
	case CCS_EXPRESSION_TYPE_NEGATIVE: {
		V a = kid(0);
		if (a.t == V::INACTIVE)
			return a;
		if (!a.num())
			return V::err();
		if (e.op == CCS_EXPRESSION_TYPE_POSITIVE)
			return a;
		return a.t == V::INT ? V::I(-a.i) : V::F(-a.f);
	}
	case CCS_EXPRESSION_TYPE_NOT: {
		V a = kid(0);
		if (a.t == V::INACTIVE)
			return a;
		return a.t == V::BOOL ? V::B(!a.i) : V::err();
	}
	case CCS_EXPRESSION_TYPE_IN: {
		if (e.kids[1]->op != CCS_EXPRESSION_TYPE_LIST)
			return V::err();
		V a = kid(0);
		if (a.t == V::ERR || a.t == V::INACTIVE)
			return a;
		bool inact = false;
		for (auto &k : e.kids[1]->kids) { // elements are considered in order until one matches
			V b = ref_eval(*k, ps, vals);
			if (b.t == V::ERR)
				return V::err();
			if (b.t == V::INACTIVE) {
				inact = true;
				continue;
			}
			if (!ref_accepts(*e.kids[0], ps, b))
				return V::err();
			bool eq;
			ref_eq(a, b, eq);
			if (eq)
				return V::B(true);
		}
		return inact ? V::inactive() : V::B(false);
	}
	}
	return V::err();
}
