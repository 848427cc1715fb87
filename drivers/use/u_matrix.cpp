#include "use.hpp"
// Laws of matrix algebra (in real arithmetic), for matrices up to 3x3 (2x2 for the decompositions).
namespace use_matrix {
    using namespace vif::matrix;
    void h_finite(const vec2d& v) { for (uint_t i : range(v)) require(is_finite(v.safe[i])); }
    void h_finite(const vec1d& v) { for (uint_t i : range(v)) require(is_finite(v.safe[i])); }
    void product(vec2d a, vec2d b, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(a.dims[1] == b.dims[0] && i < a.dims[0] && j < b.dims[1]); auto r = as_matrix(a)*as_matrix(b); expect(r.dims[0] == a.dims[0] && r.dims[1] == b.dims[1]); double s = 0; for (uint_t k : range(a.dims[1])) s += a.safe(i,k)*b.safe(k,j); expect(same(r.safe(i,j), s)); }
    void product_vector(vec2d a, vec1d b, uint_t i) { i = each(i, 0, 2); require(a.dims[1] == b.size() && i < a.dims[0]); auto r = as_matrix(a)*b; expect(r.size() == a.dims[0]); double s = 0; for (uint_t k : range(b)) s += a.safe(i,k)*b.safe[k]; expect(same(r.safe[i], s)); }
    void vector_product(vec2d a, vec1d b, uint_t i) { i = each(i, 0, 2); require(a.dims[0] == b.size() && i < a.dims[1]); auto r = b*as_matrix(a); expect(r.size() == a.dims[1]); double s = 0; for (uint_t k : range(b)) s += b.safe[k]*a.safe(k,i); expect(same(r.safe[i], s)); }
    void product_in_place(vec2d a, vec2d b) { require(a.dims[0] == a.dims[1] && a.dims == b.dims); mat2d m(a); m *= as_matrix(b); auto r = as_matrix(a)*as_matrix(b); expect(m.dims == r.dims); for (uint_t i : range(a)) expect(same(m.base.safe[i], r.base.safe[i])); }
    void square_in_place(vec2d a) { require(a.dims[0] == a.dims[1]); mat2d m(a); m *= m; auto r = as_matrix(a)*as_matrix(a); expect(m.dims == r.dims); for (uint_t i : range(a)) expect(same(m.base.safe[i], r.base.safe[i])); }
    void transposed(vec2d a, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < a.dims[0] && j < a.dims[1]); auto r = transpose(as_matrix(a)); expect(r.dims[0] == a.dims[1] && r.dims[1] == a.dims[0]); expect(same(r.safe(j,i), a.safe(i,j))); }
    void transposed_product(vec2d a, vec2d b) { require(a.dims[1] == b.dims[0]); mat2d x(a), y(b); mat2d p(transpose(x*y)); mat2d q(transpose(y)*transpose(x)); expect(p.dims == q.dims); for (uint_t i : range(p.base)) expect(same(p.base.safe[i], q.base.safe[i])); }
    void diagonal_reads(vec2d a, uint_t i) { i = each(i, 0, 2); require(a.dims[0] == a.dims[1] && i < a.dims[0]); mat2d m(a); auto d = diagonal(m); expect(d.size() == a.dims[0]); expect(same(d.safe[i], a.safe(i,i))); }
    void diagonal_writes(vec2d a, vec1d v, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(a.dims[0] == a.dims[1] && i < a.dims[0] && j < a.dims[0] && v.size() == a.dims[0]); mat2d m(a); diagonal(m) = v; expect(same(m.safe(i,j), i == j ? v.safe[i] : a.safe(i,j))); }
    void diagonal_of_temporary(vec2d a, uint_t i) { i = each(i, 0, 2); require(a.dims[0] == a.dims[1] && i < a.dims[0]); auto d = diagonal(mat2d(a)); expect(d.size() == a.dims[0]); expect(same(d.safe[i], a.safe(i,i))); }
    void as_diagonal_values(vec1d v, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < v.size() && j < v.size()); auto m = as_diagonal(v); expect(m.dims[0] == v.size() && m.dims[1] == v.size()); expect(same(m.safe(i,j), i == j ? v.safe[i] : 0.0)); }
    void identity_values(uint_t n, uint_t i, uint_t j) { n = each(n, 0, 3); i = each(i, 0, 2); j = each(j, 0, 2); auto m = make_identity(n); expect(m.dims[0] == n && m.dims[1] == n); if (i < n && j < n) expect(same(m.safe(i,j), i == j ? 1.0 : 0.0)); }
    void identity_neutral(vec2d a) { mat2d x(a); auto l = make_identity(a.dims[0])*x; auto r = x*make_identity(a.dims[1]); expect(l.dims == a.dims && r.dims == a.dims); for (uint_t i : range(a)) { expect(same(l.base.safe[i], a.safe[i])); expect(same(r.base.safe[i], a.safe[i])); } }
    vec1d h_pt(double x, double y) { return vec1d{x, y, 1.0}; }
    void scale_moves(double sx, double sy, double x, double y) { auto p = make_scale(sx, sy)*h_pt(x, y); expect(p.size() == 3); expect(same(p.safe[0], sx*x)); expect(same(p.safe[1], sy*y)); expect(same(p.safe[2], 1.0)); }
    void scale_uniform(double s, double x, double y) { auto p = make_scale(s)*h_pt(x, y); expect(p.size() == 3); expect(same(p.safe[0], s*x)); expect(same(p.safe[1], s*y)); expect(same(p.safe[2], 1.0)); }
    void translation_moves(double tx, double ty, double x, double y) { auto p = make_translation(tx, ty)*h_pt(x, y); expect(p.size() == 3); expect(same(p.safe[0], x + tx)); expect(same(p.safe[1], y + ty)); expect(same(p.safe[2], 1.0)); }
    void rotation_moves(double a, double x, double y) { auto p = make_rotation(a)*h_pt(x, y); expect(p.size() == 3); expect(same(p.safe[0], cos(a)*x - sin(a)*y)); expect(same(p.safe[1], sin(a)*x + cos(a)*y)); expect(same(p.safe[2], 1.0)); }
    void symmetrized(vec2d a, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(a.dims[0] == a.dims[1] && i < a.dims[0] && j < a.dims[0]); mat2d m(a); inplace_symmetrize(m); expect(same(m.safe(i,j), i >= j ? a.safe(i,j) : a.safe(j,i))); }
    void sum(vec2d a, vec2d b) { require(a.dims == b.dims); auto p = mat2d(a) + mat2d(b); auto q = mat2d(a) - mat2d(b); expect(p.dims == a.dims && q.dims == a.dims); for (uint_t i : range(a)) { expect(same(p.base.safe[i], a.safe[i]+b.safe[i])); expect(same(q.base.safe[i], a.safe[i]-b.safe[i])); } }
    void sum_named(vec2d a, vec2d b) { require(a.dims == b.dims); mat2d x(a), y(b); auto p = x + y; auto q = x - y; expect(p.dims == a.dims && q.dims == a.dims); for (uint_t i : range(a)) { expect(same(p.base.safe[i], a.safe[i]+b.safe[i])); expect(same(q.base.safe[i], a.safe[i]-b.safe[i])); expect(same(x.base.safe[i], a.safe[i])); expect(same(y.base.safe[i], b.safe[i])); } }
    void scalar_ops(vec2d a, double s) { mat2d x(a); auto p = x*s; auto q = s*x; auto r = x/s; for (uint_t i : range(a)) { expect(same(p.base.safe[i], a.safe[i]*s)); expect(same(q.base.safe[i], a.safe[i]*s)); expect(same(r.base.safe[i], a.safe[i]/s)); expect(same(x.base.safe[i], a.safe[i])); } }
    void scalar_sums(vec2d a, double s) { mat2d x(a); auto p = x+s; auto q = s+x; auto r = x-s; auto t = s-x; for (uint_t i : range(a)) { expect(same(p.base.safe[i], a.safe[i]+s)); expect(same(q.base.safe[i], a.safe[i]+s)); expect(same(r.base.safe[i], a.safe[i]-s)); expect(same(t.base.safe[i], s-a.safe[i])); } }
    void self_ops(vec2d a, vec2d b, double s) { require(a.dims == b.dims); mat2d p(a), q(a), r(a), t(a), u(a), v(a); p += mat2d(b); q -= mat2d(b); r *= s; t /= s; u += s; v -= s; for (uint_t i : range(a)) { expect(same(p.base.safe[i], a.safe[i]+b.safe[i])); expect(same(q.base.safe[i], a.safe[i]-b.safe[i])); expect(same(r.base.safe[i], a.safe[i]*s)); expect(same(t.base.safe[i], a.safe[i]/s)); expect(same(u.base.safe[i], a.safe[i]+s)); expect(same(v.base.safe[i], a.safe[i]-s)); } }
    void negated(vec2d a) { mat2d x(a); auto p = -x; auto q = +x; expect(p.dims == a.dims && q.dims == a.dims); for (uint_t i : range(a)) { expect(same(p.base.safe[i], -a.safe[i])); expect(same(q.base.safe[i], a.safe[i])); } }
    void wrapper_writes(vec2d a, double s, uint_t k) { k = each(k, 0, 2); require(k < a.size()); vec2d o = a; auto m = as_matrix(a); m[k] = s; for (uint_t i : range(o)) expect(same(a.safe[i], i == k ? s : o.safe[i])); }
    void copy_is_independent(vec2d a, double s, uint_t k) { k = each(k, 0, 2); require(k < a.size()); mat2d m(a); mat2d n = m; n[k] = s; expect(n.dims == m.dims); for (uint_t i : range(a)) { expect(same(m.base.safe[i], a.safe[i])); expect(same(n.base.safe[i], i == k ? s : a.safe[i])); } }
    void assign(vec2d a, vec2d b) { mat2d m(a), n(b); m = n; expect(m.dims == b.dims && n.dims == b.dims); for (uint_t i : range(b)) { expect(same(m.base.safe[i], b.safe[i])); expect(same(n.base.safe[i], b.safe[i])); } }
    void move_assign(vec2d a, vec2d b) { mat2d m(a), n(b); m = std::move(n); expect(m.dims == b.dims); for (uint_t i : range(b)) expect(same(m.base.safe[i], b.safe[i])); }
    void lu_solves1(double a, double x) { require(is_finite(a) && is_finite(x) && a != 0); mat2d m(1,1); m.safe(0,0) = a; decompose_lu d; expect(d.decompose(m)); auto r = d.solve(vec1d{x}); expect(r.size() == 1); expect(same(a*r.safe[0], x)); expect(same(d.determinant(), a)); expect(same(d.invert().safe(0,0)*a, 1.0)); }
    void lu_solves(double a, double b, double c, double e, double x, double y) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e) && is_finite(x) && is_finite(y)); vec2d v = {{a, b}, {c, e}}; decompose_lu d; require(d.decompose(mat2d(v))); auto r = d.solve(vec1d{x, y}); expect(r.size() == 2); expect(same(a*r.safe[0] + b*r.safe[1], x)); expect(same(c*r.safe[0] + e*r.safe[1], y)); }
    void lu_inverts(double a, double b, double c, double e) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e)); vec2d v = {{a, b}, {c, e}}; decompose_lu d; require(d.decompose(mat2d(v))); auto r = d.invert(); expect(r.dims[0] == 2 && r.dims[1] == 2); expect(same(a*r.safe(0,0) + b*r.safe(1,0), 1.0)); expect(same(a*r.safe(0,1) + b*r.safe(1,1), 0.0)); expect(same(c*r.safe(0,0) + e*r.safe(1,0), 0.0)); expect(same(c*r.safe(0,1) + e*r.safe(1,1), 1.0)); }
    void lu_determinant(double a, double b, double c, double e) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e)); vec2d v = {{a, b}, {c, e}}; decompose_lu d; require(d.decompose(mat2d(v))); expect(same(d.determinant(), a*e - b*c)); }
    void lu_plain_solves(double a, double b, double c, double e, double x, double y) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e) && is_finite(x) && is_finite(y)); vec2d v = {{a, b}, {c, e}}; decompose_lu d; d.no_pivot = true; require(d.decompose(mat2d(v))); auto r = d.solve(vec1d{x, y}); expect(r.size() == 2); expect(same(a*r.safe[0] + b*r.safe[1], x)); expect(same(c*r.safe[0] + e*r.safe[1], y)); }
    void lu_plain_inverts(double a, double b, double c, double e) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e)); vec2d v = {{a, b}, {c, e}}; decompose_lu d; d.no_pivot = true; require(d.decompose(mat2d(v))); auto r = d.invert(); expect(r.dims[0] == 2 && r.dims[1] == 2); expect(same(a*r.safe(0,0) + b*r.safe(1,0), 1.0)); expect(same(a*r.safe(0,1) + b*r.safe(1,1), 0.0)); expect(same(c*r.safe(0,0) + e*r.safe(1,0), 0.0)); expect(same(c*r.safe(0,1) + e*r.safe(1,1), 1.0)); }
    void lu_swaps(double b, double c, double e) { require(is_finite(b) && is_finite(c) && is_finite(e)); require(b != 0 && c != 0); vec2d v = {{0.0, b}, {c, e}}; decompose_lu d; expect(d.decompose(mat2d(v))); expect(same(d.determinant(), -b*c)); }
    void lu_swaps_solve(double b, double c, double e, double x, double y) { require(is_finite(b) && is_finite(c) && is_finite(e) && is_finite(x) && is_finite(y)); require(b != 0 && c != 0); vec2d v = {{0.0, b}, {c, e}}; decompose_lu d; expect(d.decompose(mat2d(v))); auto r = d.solve(vec1d{x, y}); expect(r.size() == 2); expect(same(b*r.safe[1], x)); expect(same(c*r.safe[0] + e*r.safe[1], y)); }
    void lu_perm3(double a, double b, double c) { require(is_finite(a) && is_finite(b) && is_finite(c)); require(a != 0 && b != 0 && c != 0); vec2d v = {{0.0, a, 0.0}, {0.0, 0.0, b}, {c, 0.0, 0.0}}; decompose_lu d; expect(d.decompose(mat2d(v))); expect(same(d.determinant(), a*b*c)); }
    void lu_perm3_solve(double a, double b, double c, double x, double y, double z) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(x) && is_finite(y) && is_finite(z)); require(a != 0 && b != 0 && c != 0); vec2d v = {{0.0, a, 0.0}, {0.0, 0.0, b}, {c, 0.0, 0.0}}; decompose_lu d; expect(d.decompose(mat2d(v))); auto r = d.solve(vec1d{x, y, z}); expect(same(a*r.safe[1], x)); expect(same(b*r.safe[2], y)); expect(same(c*r.safe[0], z)); auto iv = d.invert(); expect(same(iv.safe(1,0)*a, 1.0)); expect(same(iv.safe(2,1)*b, 1.0)); expect(same(iv.safe(0,2)*c, 1.0)); expect(same(iv.safe(0,0), 0.0)); expect(same(iv.safe(1,2), 0.0)); }
    void lu_singular(double a, double b) { vec2d v = {{0.0, a}, {0.0, b}}; decompose_lu d; expect(!d.decompose(mat2d(v))); }
    void lu_again(double a, double x) { require(is_finite(a) && is_finite(x) && a != 0); mat2d m(1,1), z(1,1); m.safe(0,0) = a; decompose_lu d; expect(!d.decompose(z)); expect(d.decompose(m)); expect(same(d.determinant(), a)); }
    void determinant_value(double a, double b, double c, double e) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(e)); require(a != 0 && c != 0); vec2d v = {{a, b}, {c, e}}; decompose_lu d; require(d.decompose(mat2d(v))); expect(same(determinant(mat2d(v)), a*e - b*c)); }
}
