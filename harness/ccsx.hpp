// Small owning wrapper and constructors around the public C interface.
#pragma once
#include "mc.hpp"
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <cmath>
#include <memory>
using mc::strf;
using mc::dstr;
using mc::deq;

template <class T> struct Own {
	T o = nullptr;
	Own() {}
	explicit Own(T x) : o(x) {}
	Own(const Own &) = delete;
	Own &operator=(const Own &) = delete;
	Own(Own &&x) noexcept : o(x.o) { x.o = nullptr; }
	Own &operator=(Own &&x) noexcept
	{
		if (this != &x) {
			reset();
			o   = x.o;
			x.o = nullptr;
		}
		return *this;
	}
	~Own() { reset(); }
	void reset()
	{
		if (o) {
			T t = o;
			o   = nullptr;
			ccs_result_t r = ccs_release_object((ccs_object_t)t);
			if (r != CCS_RESULT_SUCCESS)
				mc::fail("ccs_release_object returned %d", (int)r);
		}
	}
	T  *ret() { reset(); return &o; }
	T   get() const { return o; }
	T   take() { T t = o; o = nullptr; return t; }
	operator T() const { return o; }
};
typedef Own<ccs_object_t>              Obj;
typedef Own<ccs_parameter_t>           Par;
typedef Own<ccs_distribution_t>        Dis;
typedef Own<ccs_expression_t>          Exp;
typedef Own<ccs_configuration_space_t> CSp;
typedef Own<ccs_configuration_t>       Cfg;
typedef Own<ccs_features_space_t>      FSp;
typedef Own<ccs_features_t>            Fea;
typedef Own<ccs_objective_space_t>     OSp;
typedef Own<ccs_evaluation_t>          Eva;
typedef Own<ccs_features_evaluation_t> FEv;
typedef Own<ccs_tree_t>                Tre;
typedef Own<ccs_tree_space_t>          TSp;
typedef Own<ccs_tree_configuration_t>  TCf;
typedef Own<ccs_tree_evaluation_t>     TEv;
typedef Own<ccs_tuner_t>               Tun;
typedef Own<ccs_features_tuner_t>      FTu;
typedef Own<ccs_tree_tuner_t>          TTu;
typedef Own<ccs_map_t>                 Map;
typedef Own<ccs_rng_t>                 Rng;
typedef std::vector<ccs_datum_t>       Data;

#define OKX(call)                                                              \
	do {                                                                   \
		mc::step();                                                    \
		ccs_result_t r_ = (call);                                      \
		if (r_ != CCS_RESULT_SUCCESS)                                  \
			mc::fail("%s returned %d", #call, (int)r_);            \
	} while (0)

inline ccs_datum_t tstr(const char *s)
{
	ccs_datum_t d = ccs_string(s);
	d.flags       = CCS_DATUM_FLAG_TRANSIENT;
	return d;
}
inline int refcount(ccs_object_t o)
{
	int32_t r = -1;
	if (ccs_object_get_refcount(o, &r) != CCS_RESULT_SUCCESS)
		mc::fail("ccs_object_get_refcount failed");
	return r;
}
inline Par pint(const char *n, ccs_int_t l, ccs_int_t u, ccs_int_t d, ccs_int_t q = 0)
{
	Par p;
	OKX(ccs_create_int_numerical_parameter(n, l, u, q, d, p.ret()));
	return p;
}
inline Par pflt(const char *n, double l, double u, double d, double q = 0)
{
	Par p;
	OKX(ccs_create_float_numerical_parameter(n, l, u, q, d, p.ret()));
	return p;
}
inline Par pcat(const char *n, Data v, size_t d = 0)
{
	Par p;
	OKX(ccs_create_categorical_parameter(n, v.size(), v.data(), d, p.ret()));
	return p;
}
inline Par pord(const char *n, Data v, size_t d = 0)
{
	Par p;
	OKX(ccs_create_ordinal_parameter(n, v.size(), v.data(), d, p.ret()));
	return p;
}
inline Par pdis(const char *n, Data v, size_t d = 0)
{
	Par p;
	OKX(ccs_create_discrete_parameter(n, v.size(), v.data(), d, p.ret()));
	return p;
}
inline Par pstr(const char *n)
{
	Par p;
	OKX(ccs_create_string_parameter(n, p.ret()));
	return p;
}
inline Exp elit(ccs_datum_t v)
{
	Exp e;
	OKX(ccs_create_literal(v, e.ret()));
	return e;
}
inline Exp evar(ccs_parameter_t p)
{
	Exp e;
	OKX(ccs_create_variable(p, e.ret()));
	return e;
}
inline Exp ebin(ccs_expression_type_t t, ccs_datum_t a, ccs_datum_t b)
{
	Exp e;
	OKX(ccs_create_binary_expression(t, a, b, e.ret()));
	return e;
}
inline Exp euna(ccs_expression_type_t t, ccs_datum_t a)
{
	Exp e;
	OKX(ccs_create_unary_expression(t, a, e.ret()));
	return e;
}
inline Exp enary(ccs_expression_type_t t, Data v)
{
	Exp e;
	OKX(ccs_create_expression(t, v.size(), v.data(), e.ret()));
	return e;
}
template <class T> ccs_datum_t od(const Own<T> &o) { return ccs_object((ccs_object_t)o.get()); }
inline CSp mkcs(const char *n, const std::vector<ccs_parameter_t> &ps)
{
	CSp s;
	OKX(ccs_create_configuration_space(n, s.ret()));
	for (auto p : ps)
		OKX(ccs_configuration_space_add_parameter(s, p, nullptr));
	return s;
}
inline FSp mkfs(const char *n, const std::vector<ccs_parameter_t> &ps)
{
	FSp s;
	OKX(ccs_create_features_space(n, s.ret()));
	for (auto p : ps)
		OKX(ccs_features_space_add_parameter(s, p));
	return s;
}
inline OSp mkos(const char *n, const std::vector<ccs_parameter_t> &ps)
{
	OSp s;
	OKX(ccs_create_objective_space(n, s.ret()));
	for (auto p : ps)
		OKX(ccs_objective_space_add_parameter(s, p));
	return s;
}
// bytes of the binary serialization of an object
inline std::vector<char> ser(ccs_object_t o)
{
	size_t sz = 0;
	OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END));
	std::vector<char> b(sz);
	OKX(ccs_object_serialize(o, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, sz, b.data(), CCS_SERIALIZE_OPTION_END));
	return b;
}
