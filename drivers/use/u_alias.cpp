#include "use.hpp"
namespace use_alias {
    template<typename A, typename B> void eq(const A& v, const B& o) {
        expect(v.size() == o.size());
        for (uint_t i = 0; i < v.size(); ++i) expect(same(v.safe[i], o.safe[i]));
    }
    void add_self(vec1d v) { vec1d o = v; v += v; for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] + o.safe[i])); }
    void sub_elem(vec1d v, uint_t k) { require(k < v.size()); vec1d o = v; v -= v[k]; for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] - o.safe[k])); }
    void mul_elem(vec2d v) { require(!v.empty()); vec2d o = v; v *= v.safe[v.size()-1]; for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] * o.safe[v.size()-1])); }
    void assign_view(vec1d v, vec1u id) {
        for (uint_t i : id) require(i < v.size());
        vec1d o = v; v = v[id];
        expect(v.size() == id.size());
        for (uint_t i : range(id)) expect(same(v.safe[i], o.safe[id.safe[i]]));
    }
    void assign_const_view(vec1d v, vec1u id) {
        for (uint_t i : id) require(i < v.size());
        vec1d o = v; const vec1d& c = v; v = c[id];
        expect(v.size() == id.size());
        for (uint_t i : range(id)) expect(same(v.safe[i], o.safe[id.safe[i]]));
    }
    void view_from_view(vec1d v, vec1u a, vec1u b) {
        require(a.size() == b.size());
        for (uint_t i : range(a)) { require(a.safe[i] < v.size()); require(b.safe[i] < v.size()); for (uint_t j : range(i)) require(a.safe[i] != a.safe[j]); }
        vec1d o = v; v[a] = v[b];
        for (uint_t i : range(a)) expect(same(v.safe[a.safe[i]], o.safe[b.safe[i]]));
        for (uint_t i : range(v)) { bool in = false; for (uint_t j : a) if (i == j) in = true; if (!in) expect(same(v.safe[i], o.safe[i])); }
    }
    void view_from_const_view(vec1d v, vec1u a, vec1u b) {
        require(a.size() == b.size());
        for (uint_t i : range(a)) { require(a.safe[i] < v.size()); require(b.safe[i] < v.size()); for (uint_t j : range(i)) require(a.safe[i] != a.safe[j]); }
        vec1d o = v; const vec1d& c = v; v[a] = c[b];
        for (uint_t i : range(a)) expect(same(v.safe[a.safe[i]], o.safe[b.safe[i]]));
    }
    void view_from_self(vec1d v) {
        vec1d o = v; v[indgen(v.size())] = v;
        eq(v, o);
    }
    void rev_from_self(vec1d v) {
        vec1d o = v; uint_t n = v.size(); v[reverse(indgen(n))] = v;
        for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[n-1-i]));
    }
    void compound_view_self(vec1d v) {
        vec1d o = v; uint_t n = v.size(); v[reverse(indgen(n))] += v;
        for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] + o.safe[n-1-i]));
    }
    void compound_self_view(vec1d v) {
        vec1d o = v; uint_t n = v.size(); v += v[reverse(indgen(n))];
        for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] + o.safe[n-1-i]));
    }
    void compound_view_const_view(vec1d v) {
        require(v.size() > 1);
        vec1d o = v; const vec1d& c = v; uint_t n = v.size(); v[1-_-(n-1)] -= c[0-_-(n-2)];
        expect(same(v.safe[0], o.safe[0]));
        for (uint_t i = 1; i < n; ++i) expect(same(v.safe[i], o.safe[i] - o.safe[i-1]));
    }
    void row_to_rows(vec2d v) {
        require(v.dims[0] > 1);
        vec2d o = v; v(1,_) = v(0,_);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), o.safe(i == 1 ? 0 : i, j)));
    }
    void swap_rows(vec2d v) {
        require(v.dims[0] > 1);
        vec2d o = v; vec1u a = {0,1}, b = {1,0}; v(a,_) = v(b,_);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), o.safe(i < 2 ? 1-i : i, j)));
    }
    void transpose_self(vec2d v) {
        require(v.dims[0] == v.dims[1]);
        vec2d o = v; v = transpose(v);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), o.safe(j,i)));
    }
    void append_self(vec1d v) { vec1d o = v; append(v, v); expect(v.size() == 2*o.size()); for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i % o.size()])); }
    void prepend_self(vec1d v) { vec1d o = v; prepend(v, v); expect(v.size() == 2*o.size()); for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i % o.size()])); }
    void push_back_self(vec1d v) { require(!v.empty()); vec1d o = v; v.push_back(v.safe[0]); expect(v.size() == o.size()+1); expect(same(v.safe[o.size()], o.safe[0])); }
    void self_assign(vec1d v) { vec1d o = v; v = *&v; eq(v, o); }
    void view_scalar_elem(vec1d v, vec1u a) {
        require(!v.empty());
        for (uint_t i : a) require(i < v.size());
        vec1d o = v; v[a] = v.safe[0];
        for (uint_t i : a) expect(same(v.safe[i], o.safe[0]));
    }
    void view_scalar_compound(vec1d v) {
        require(!v.empty());
        vec1d o = v; v[indgen(v.size())] *= v.safe[0];
        for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i] * o.safe[0]));
    }
    void view_of_view(vec1d v) {
        require(v.size() > 2);
        vec1d o = v; vec1u a = {0,1,2}, b = {2,1}; auto w = v[a]; w[b] = w[vec1u{0,2}];
        expect(same(v.safe[2], o.safe[0])); expect(same(v.safe[1], o.safe[2])); expect(same(v.safe[0], o.safe[0]));
    }
    void copy_is_independent(vec1d v) { require(!v.empty()); vec1d o = v; vec1d w = v; w.safe[0] = 0.0; eq(v, o); }
    void concretise_is_independent(vec1d v) { require(!v.empty()); vec1d o = v; vec1d w = v[_]; w += 1.0; eq(v, o); }
    void view_is_reference(vec1d v, double x) { require(!v.empty()); auto w = v[indgen(v.size())]; w[0] = x; expect(same(v.safe[0], x)); }
    // the six orders of three elements
    vec1u h_order(uint_t k) { vec1u r = {0,1,2}; if (k == 1) r = {0,2,1}; if (k == 2) r = {1,0,2}; if (k == 3) r = {1,2,0}; if (k == 4) r = {2,0,1}; if (k == 5) r = {2,1,0}; return r; }
    void view_reordered(uint_t p, uint_t q, double x, double y, double z) { p = each(p, 0, 5); q = each(q, 0, 5); vec1u a = h_order(p), b = h_order(q); vec1d v = {x, y, z}, o = {x, y, z}; v[a] = v[b]; for (uint_t i : range(3)) expect(same(v.safe[a.safe[i]], o.safe[b.safe[i]])); }
    void view_reordered_add(uint_t p, uint_t q, double x, double y, double z) { p = each(p, 0, 5); q = each(q, 0, 5); vec1u a = h_order(p), b = h_order(q); vec1d v = {x, y, z}, o = {x, y, z}; v[a] -= v[b]; for (uint_t i : range(3)) expect(same(v.safe[a.safe[i]], o.safe[a.safe[i]] - o.safe[b.safe[i]])); }
    void view_reordered_const(uint_t p, uint_t q, double x, double y, double z) { p = each(p, 0, 5); q = each(q, 0, 5); vec1u a = h_order(p), b = h_order(q); vec1d v = {x, y, z}, o = {x, y, z}; const vec1d& c = v; v[a] = c[b]; for (uint_t i : range(3)) expect(same(v.safe[a.safe[i]], o.safe[b.safe[i]])); }
    void vector_reordered(uint_t p, double x, double y, double z) { p = each(p, 0, 5); vec1u a = h_order(p); vec1d v = {x, y, z}, o = {x, y, z}, w = v; v[a] = v; for (uint_t i : range(3)) expect(same(v.safe[a.safe[i]], o.safe[i])); w = w[a]; for (uint_t i : range(3)) expect(same(w.safe[i], o.safe[a.safe[i]])); }
    void vector_reordered_sub(uint_t p, double x, double y, double z) { p = each(p, 0, 5); vec1u a = h_order(p); vec1d v = {x, y, z}, o = {x, y, z}, w = v; v[a] -= v; for (uint_t i : range(3)) expect(same(v.safe[a.safe[i]], o.safe[a.safe[i]] - o.safe[i])); w -= w[a]; for (uint_t i : range(3)) expect(same(w.safe[i], o.safe[i] - o.safe[a.safe[i]])); }
    void columns_reordered(uint_t p, uint_t q, double x, double y, double z, double t) { p = each(p, 0, 5); q = each(q, 0, 5); vec1u a = h_order(p), b = h_order(q); vec2d v = {{x, y, z}, {t, x, y}}, o = v; v(_,a) = v(_,b); for (uint_t i : range(2)) for (uint_t j : range(3)) expect(same(v.safe(i,a.safe[j]), o.safe(i,b.safe[j]))); }
    void rows_reordered(uint_t p, uint_t q, double x, double y, double z, double t) { p = each(p, 0, 5); q = each(q, 0, 5); vec1u a = h_order(p), b = h_order(q); vec2d v = {{x, y}, {z, t}, {y, z}}, o = v; v(a,_) = v(b,_); for (uint_t i : range(3)) for (uint_t j : range(2)) expect(same(v.safe(a.safe[i],j), o.safe(b.safe[i],j))); }
    void shifted_ranges(double x, double y, double z, double t) { vec1d v = {x, y, z, t}; v[1-_-3] = v[0-_-2]; expect(same(v.safe[0], x) && same(v.safe[1], x) && same(v.safe[2], y) && same(v.safe[3], z)); v = {x, y, z, t}; v[0-_-2] = v[1-_-3]; expect(same(v.safe[0], y) && same(v.safe[1], z) && same(v.safe[2], t) && same(v.safe[3], t)); v = {x, y, z, t}; v[1-_-3] += v[0-_-2]; expect(same(v.safe[0], x) && same(v.safe[1], y+x) && same(v.safe[2], z+y) && same(v.safe[3], t+z)); }
}
