#include "use.hpp"
namespace use_elem {
#define BINOP(name, op, T, R) \
    void name##_vv(T a, T b) { require(a.dims == b.dims); auto r = a op b; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] op b.safe[i])); } \
    void name##_vs(T a, R b) { auto r = a op b; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] op b)); } \
    void name##_sv(R b, T a) { auto r = b op a; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], b op a.safe[i])); } \
    void name##_rv(T a, T b) { require(a.dims == b.dims); T o = a; auto r = std::move(a) op b; expect(r.dims == b.dims); for (uint_t i : range(b)) expect(same(r.safe[i], o.safe[i] op b.safe[i])); } \
    void name##_vr(T a, T b) { require(a.dims == b.dims); T o = b; auto r = a op std::move(b); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] op o.safe[i])); } \
    void name##_rr(T a, T b) { require(a.dims == b.dims); T o = a; T p = b; auto r = std::move(a) op std::move(b); expect(r.dims == o.dims); for (uint_t i : range(o)) expect(same(r.safe[i], o.safe[i] op p.safe[i])); } \
    void name##_rs(T a, R b) { T o = a; auto r = std::move(a) op b; expect(r.dims == o.dims); for (uint_t i : range(o)) expect(same(r.safe[i], o.safe[i] op b)); } \
    void name##_sr(R b, T a) { T o = a; auto r = b op std::move(a); expect(r.dims == o.dims); for (uint_t i : range(o)) expect(same(r.safe[i], b op o.safe[i])); }
    BINOP(add, +, vec1d, double) BINOP(sub, -, vec1d, double) BINOP(mul, *, vec1d, double) BINOP(div, /, vec1d, double)
    BINOP(add2, +, vec2d, double) BINOP(sub2, -, vec2d, double)
    BINOP(addi, +, vec1i, int_t) BINOP(subi, -, vec1i, int_t) BINOP(muli, *, vec1i, int_t)
    BINOP(lt, <, vec1d, double) BINOP(le, <=, vec1d, double) BINOP(gt, >, vec1d, double) BINOP(ge, >=, vec1d, double) BINOP(eq, ==, vec1d, double) BINOP(ne, !=, vec1d, double)
    BINOP(land, &&, vec1b, bool) BINOP(lor, ||, vec1b, bool)
    void mod_vv(vec1i a, vec1i b) { require(a.dims == b.dims); for (uint_t i : range(b)) require(b.safe[i] > 0 && a.safe[i] >= 0); auto r = a % b; for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] % b.safe[i])); }
#define COMPOUND(name, op, T, R) \
    void name##_vv(T a, T b) { require(a.dims == b.dims); T o = a; a op##= b; expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i] op b.safe[i])); } \
    void name##_vs(T a, R b) { T o = a; a op##= b; expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i] op b)); } \
    void name##_view(T a, T b) { require(a.dims == b.dims); T o = a; a[_] op##= b; expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i] op b.safe[i])); } \
    void name##_views(T a, R b) { T o = a; a[_] op##= b; expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i] op b)); } \
    void name##_vw(T a, T b) { require(a.dims == b.dims); T o = a; a op##= b[_]; expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i] op b.safe[i])); }
    COMPOUND(cadd, +, vec1d, double) COMPOUND(csub, -, vec1d, double) COMPOUND(cmul, *, vec1d, double) COMPOUND(cdiv, /, vec1d, double)
    COMPOUND(iadd, +, vec1i, int_t) COMPOUND(isub, -, vec1i, int_t) COMPOUND(imul, *, vec1i, int_t)
    void neg(vec1d a) { auto r = -a; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], -a.safe[i])); }
    void pos(vec1d a) { auto r = +a; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i])); }
    void lnot(vec1b a) { auto r = !a; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(r.safe[i] == !a.safe[i]); }
    void view_arith(vec1d a, vec1d b) { require(a.dims == b.dims); auto r = a[_] - b[_]; expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] - b.safe[i])); }
    void view_left(vec1d a, vec1d b) { require(a.dims == b.dims); auto r = a[_] / b; for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] / b.safe[i])); }
    void mixed_int_double(vec1i a, vec1d b) { require(a.dims == b.dims); auto r = a - b; for (uint_t i : range(b)) expect(same(r.safe[i], a.safe[i] - b.safe[i])); }
#define FUN1(name, cond) void f_##name(vec1d a) { for (uint_t i : range(a)) { double x = a.safe[i]; require(cond); } auto r = name(a); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], std::name(a.safe[i]))); } \
    void fr_##name(vec2d a) { for (uint_t i : range(a)) { double x = a.safe[i]; require(cond); } vec2d o = a; auto r = name(std::move(a)); expect(r.dims == o.dims); for (uint_t i : range(o)) expect(same(r.safe[i], std::name(o.safe[i]))); }
    FUN1(sqrt, x >= 0) FUN1(cos, true) FUN1(sin, true) FUN1(tan, true) FUN1(exp, true) FUN1(log, x > 0) FUN1(log2, x > 0) FUN1(log10, x > 0) FUN1(abs, true) FUN1(floor, true) FUN1(ceil, true) FUN1(round, true)
    FUN1(acos, true) FUN1(asin, true) FUN1(atan, true) FUN1(cosh, true) FUN1(sinh, true) FUN1(tanh, true) FUN1(erf, true) FUN1(erfc, true) FUN1(tgamma, true)
    void f_sqr(vec1d a) { auto r = sqr(a); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i]*a.safe[i])); }
    void f_invsqr(vec1d a) { auto r = invsqr(a); for (uint_t i : range(a)) expect(same(r.safe[i], 1.0/(a.safe[i]*a.safe[i]))); }
    void f_pow(vec1d a, double p) { auto r = pow(a, p); for (uint_t i : range(a)) expect(same(r.safe[i], std::pow(a.safe[i], p))); }
    void f_pow_base(double p, vec1d a) { auto r = pow(p, a); for (uint_t i : range(a)) expect(same(r.safe[i], std::pow(p, a.safe[i]))); }
    void f_clamp(vec1d a, double l, double h) { require(l <= h); auto r = clamp(a, l, h); for (uint_t i : range(a)) { double x = a.safe[i]; require(!is_nan(x)); expect(same(r.safe[i], x < l ? l : (x > h ? h : x))); } }
    void f_finite(vec1d a) { auto r = is_finite(a); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(r.safe[i] == std::isfinite(a.safe[i])); }
    void f_nan(vec1d a) { auto r = is_nan(a); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(r.safe[i] == std::isnan(a.safe[i])); }
    void f_min(vec1d a, vec1d b) { require(a.dims == b.dims); auto r = min(a, b); expect(r.dims == a.dims); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b.safe[i])); expect(same(r.safe[i], a.safe[i] < b.safe[i] ? a.safe[i] : b.safe[i])); } }
    void f_max(vec1d a, vec1d b) { require(a.dims == b.dims); auto r = max(a, b); expect(r.dims == a.dims); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b.safe[i])); expect(same(r.safe[i], a.safe[i] > b.safe[i] ? a.safe[i] : b.safe[i])); } }
    void f_min_s(vec1d a, double b) { auto r = min(a, b); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b)); expect(same(r.safe[i], a.safe[i] < b ? a.safe[i] : b)); } }
    void f_max_s(vec1d a, double b) { auto r = max(a, b); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b)); expect(same(r.safe[i], a.safe[i] > b ? a.safe[i] : b)); } }
    void s_min(double b, vec1d a) { auto r = min(b, a); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b)); expect(same(r.safe[i], a.safe[i] < b ? a.safe[i] : b)); } }
    void s_max(double b, vec1d a) { auto r = max(b, a); for (uint_t i : range(a)) { require(!is_nan(a.safe[i]) && !is_nan(b)); expect(same(r.safe[i], a.safe[i] > b ? a.safe[i] : b)); } }
    void lambda(vec1d a, double k) { auto f = vectorize_lambda([](double x, double y) { return x*y + 1.0; }); auto r = f(a, k); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i]*k + 1.0)); }
    void lambda_first(vec1d a, vec1d k) { require(a.dims == k.dims); auto f = vectorize_lambda([](double x, double y) { return x - y; }); auto r = f(a, k); expect(r.dims == a.dims); for (uint_t i : range(a)) expect(same(r.safe[i], a.safe[i] - k.safe[i])); }
}
