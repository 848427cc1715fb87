#include "use.hpp"
namespace use_array {
    // order the elements strictly, so that sorting and searching are decided
    void up(const vec1d& v) { for (uint_t i : range(v)) require(!is_nan(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] < v.safe[i]); }
    void sorted(const vec1d& v) { for (uint_t i : range(v)) require(!is_nan(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] <= v.safe[i]); }

    void reverse_is_mirror(vec1d v) { auto r = reverse(v); expect(r.size() == v.size()); for (uint_t i : range(v)) expect(same(r.safe[i], v.safe[v.size()-1-i])); }
    void shift_rotates(vec1d v, int_t k) {
        k = each(k, -4, 4);
        auto r = shift(v, k); expect(r.size() == v.size());
        int_t n = v.size();
        for (int_t i = 0; i < n; ++i) expect(same(r.safe[uint_t((((i + k) % n) + n) % n)], v.safe[uint_t(i)]));
    }
    void transpose_swaps(vec2d v) {
        auto r = transpose(v); expect(r.dims[0] == v.dims[1] && r.dims[1] == v.dims[0]);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(r.safe(j,i), v.safe(i,j)));
    }
    void replicate_scalar(double x) { auto r = replicate(x, 2, 3); expect(r.dims[0] == 2 && r.dims[1] == 3); for (uint_t i : range(r)) expect(same(r.safe[i], x)); }
    void replicate_vector(vec1d v) {
        auto r = replicate(v, 3); expect(r.dims[0] == 3 && r.dims[1] == v.size());
        for (uint_t i : range(3)) for (uint_t j : range(v)) expect(same(r.safe(i,j), v.safe[j]));
    }
    void flatten_keeps_order(vec2d v) { auto r = flatten(v); expect(r.dims[0] == v.size()); for (uint_t i : range(v)) expect(same(r.safe[i], v.safe[i])); }
    void reform_keeps_order(vec1d v) { require(v.size() == 4); auto r = reform(v, 2, 2); expect(r.dims[0] == 2 && r.dims[1] == 2); for (uint_t i : range(v)) expect(same(r.safe[i], v.safe[i])); }
    void reform_moved(vec2d v) { uint_t n = v.size(); vec2d o = v; auto r = reform(std::move(v), n); expect(r.size() == n); for (uint_t i : range(n)) expect(same(r.safe[i], o.safe[i])); }
    void sort_is_permutation(vec1d v) {
        for (uint_t i : range(v)) require(!is_nan(v.safe[i]));
        auto s = sort(v); expect(s.size() == v.size());
        for (uint_t i = 0; i < s.size(); ++i) { expect(s.safe[i] < v.size()); for (uint_t j = 0; j < i; ++j) expect(s.safe[i] != s.safe[j]); }
        for (uint_t i = 1; i < s.size(); ++i) expect(v.safe[s.safe[i-1]] <= v.safe[s.safe[i]]);
    }
    void sort_comp(vec1d v) {
        for (uint_t i : range(v)) require(!is_nan(v.safe[i]));
        auto s = sort(v, [](double a, double b) { return a > b; });
        for (uint_t i = 1; i < s.size(); ++i) expect(v.safe[s.safe[i-1]] >= v.safe[s.safe[i]]);
    }
    void inplace_sort_orders(vec1d v) {
        for (uint_t i : range(v)) require(!is_nan(v.safe[i]));
        vec1d o = v; inplace_sort(v); expect(v.size() == o.size());
        for (uint_t i = 1; i < v.size(); ++i) expect(v.safe[i-1] <= v.safe[i]);
        for (uint_t i : range(o)) { bool f = false; for (uint_t j : range(v)) if (o.safe[i] == v.safe[j]) f = true; expect(f); }
    }
    void is_sorted_true(vec1d v) { up(v); expect(is_sorted(v)); }
    void is_sorted_false(vec1d v, uint_t k) { require(k + 1 < v.size()); require(v.safe[k] > v.safe[k+1]); expect(!is_sorted(v)); }
    void remove_keeps_others(vec1d v, uint_t k) {
        k = each(k, 0, 3); k = each(k, 0, 3); require(k < v.size());
        auto r = remove(v, vec1u{k}); expect(r.size() == v.size() - 1);
        for (uint_t i : range(r)) expect(same(r.safe[i], v.safe[i < k ? i : i+1]));
    }
    void remove_two(vec1d v, uint_t k, uint_t l) {
        k = each(k, 0, 3); l = each(l, 0, 3); require(k < v.size() && l < v.size() && k != l);
        auto r = remove(v, vec1u{k, l}); expect(r.size() == v.size() - 2);
        uint_t q = 0;
        for (uint_t i : range(v)) if (i != k && i != l) { expect(same(r.safe[q], v.safe[i])); ++q; }
    }
    void remove_rows(vec2d v, uint_t k) {
        k = each(k, 0, 3); require(k < v.dims[0]);
        auto r = remove(v, vec1u{k}); expect(r.dims[0] == v.dims[0] - 1); expect(r.dims[1] == v.dims[1]);
        for (uint_t i : range(r.dims[0])) for (uint_t j : range(r.dims[1])) expect(same(r.safe(i,j), v.safe(i < k ? i : i+1, j)));
    }
    void append_concatenates(vec1d a, vec1d b) {
        vec1d o = a; append(a, b); expect(a.size() == o.size() + b.size());
        for (uint_t i : range(o)) expect(same(a.safe[i], o.safe[i]));
        for (uint_t i : range(b)) expect(same(a.safe[o.size()+i], b.safe[i]));
    }
    void prepend_concatenates(vec1d a, vec1d b) {
        vec1d o = a; prepend(a, b); expect(a.size() == o.size() + b.size());
        for (uint_t i : range(b)) expect(same(a.safe[i], b.safe[i]));
        for (uint_t i : range(o)) expect(same(a.safe[b.size()+i], o.safe[i]));
    }
    void append_rows(vec2d a, vec2d b) {
        require(a.dims[1] == b.dims[1]); require(!a.empty() && !b.empty());
        vec2d o = a; append<0>(a, b); expect(a.dims[0] == o.dims[0] + b.dims[0]); expect(a.dims[1] == o.dims[1]);
        for (uint_t i : range(a.dims[0])) for (uint_t j : range(a.dims[1])) expect(same(a.safe(i,j), i < o.dims[0] ? o.safe(i,j) : b.safe(i-o.dims[0],j)));
    }
    void append_cols(vec2d a, vec2d b) {
        require(a.dims[0] == b.dims[0]); require(!a.empty() && !b.empty());
        vec2d o = a; append<1>(a, b); expect(a.dims[1] == o.dims[1] + b.dims[1]); expect(a.dims[0] == o.dims[0]);
        for (uint_t i : range(a.dims[0])) for (uint_t j : range(a.dims[1])) expect(same(a.safe(i,j), j < o.dims[1] ? o.safe(i,j) : b.safe(i,j-o.dims[1])));
    }
    void prepend_cols(vec2d a, vec2d b) {
        require(a.dims[0] == b.dims[0]); require(!a.empty() && !b.empty());
        vec2d o = a; prepend<1>(a, b); expect(a.dims[1] == o.dims[1] + b.dims[1]); expect(a.dims[0] == o.dims[0]);
        for (uint_t i : range(a.dims[0])) for (uint_t j : range(a.dims[1])) expect(same(a.safe(i,j), j < b.dims[1] ? b.safe(i,j) : o.safe(i,j-b.dims[1])));
    }
    void where_selects(vec1b m) {
        auto w = where(m);
        uint_t q = 0;
        for (uint_t i : range(m)) if (m.safe[i]) { expect(q < w.size()); expect(w.safe[q] == i); ++q; }
        expect(w.size() == q);
    }
    void where_2d(vec2b m) {
        auto w = where(m);
        uint_t q = 0;
        for (uint_t i : range(m)) if (m.safe[i]) { expect(q < w.size()); expect(w.safe[q] == i); ++q; }
        expect(w.size() == q);
    }
    void where_first_finds(vec1b m) {
        uint_t r = where_first(m);
        if (r == npos) { for (uint_t i : range(m)) expect(!m.safe[i]); }
        else { expect(r < m.size()); expect(m.safe[r]); for (uint_t i : range(r)) expect(!m.safe[i]); }
    }
    void where_last_finds(vec1b m) {
        uint_t r = where_last(m);
        if (r == npos) { for (uint_t i : range(m)) expect(!m.safe[i]); }
        else { expect(r < m.size()); expect(m.safe[r]); for (uint_t i = r+1; i < m.size(); ++i) expect(!m.safe[i]); }
    }
    void complement_is_rest(vec1d v, vec1b m) {
        require(m.size() == v.size());
        auto c = complement(v, where(m)); auto e = where(!m);
        expect(c.size() == e.size());
        for (uint_t i : range(e)) expect(c.safe[i] == e.safe[i]);
    }
    void any_of(double x, vec1d v) { bool f = false; for (uint_t i : range(v)) if (v.safe[i] == x) f = true; expect(is_any_of(x, v) == f); }
    void any_of_vec(vec1d x, vec1d v) {
        auto r = is_any_of(x, v); expect(r.size() == x.size());
        for (uint_t j : range(x)) { bool f = false; for (uint_t i : range(v)) if (v.safe[i] == x.safe[j]) f = true; expect(r.safe[j] == f); }
    }
    void lower(vec1d v, double x) {
        sorted(v); require(!is_nan(x));
        uint_t r = lower_bound(v, x);
        if (r == npos) { if (!v.empty()) expect(v.safe[0] > x); }
        else { expect(r < v.size()); expect(v.safe[r] <= x); if (r+1 < v.size()) expect(v.safe[r+1] > x); }
    }
    void upper(vec1d v, double x) {
        sorted(v); require(!is_nan(x));
        uint_t r = upper_bound(v, x);
        if (r == npos) { if (!v.empty()) expect(v.safe[v.size()-1] <= x); }
        else { expect(r < v.size()); expect(v.safe[r] > x); if (r > 0) expect(v.safe[r-1] <= x); }
    }
    void bounds_both(vec1d v, double x) {
        sorted(v); require(!is_nan(x));
        auto r = bounds(v, x); expect(r[0] == lower_bound(v, x)); expect(r[1] == upper_bound(v, x));
    }
    void bounds_range(vec1d v, double x, double y) {
        sorted(v); require(x <= y);
        auto r = bounds(v, x, y); expect(r[0] == lower_bound(v, x)); expect(r[1] == upper_bound(v, y));
    }
    void unique_sorted(vec1d v) {
        sorted(v);
        auto u = unique_values_sorted(v);
        for (uint_t i = 1; i < u.size(); ++i) expect(u.safe[i-1] < u.safe[i]);
        for (uint_t i : range(v)) { bool f = false; for (uint_t j : range(u)) if (v.safe[i] == u.safe[j]) f = true; expect(f); }
        for (uint_t i : range(u)) { bool f = false; for (uint_t j : range(v)) if (u.safe[i] == v.safe[j]) f = true; expect(f); }
    }
    void unique_any(vec1d v) {
        for (uint_t i : range(v)) require(!is_nan(v.safe[i]));
        auto u = unique_values(v);
        for (uint_t i = 1; i < u.size(); ++i) for (uint_t j = 0; j < i; ++j) expect(u.safe[j] != u.safe[i]);
        for (uint_t i : range(v)) { bool f = false; for (uint_t j : range(u)) if (v.safe[i] == u.safe[j]) f = true; expect(f); }
        for (uint_t i : range(u)) { bool f = false; for (uint_t j : range(v)) if (u.safe[i] == v.safe[j]) f = true; expect(f); }
    }
    void unique_given(vec1d v) {
        require(v.size() <= 3); for (uint_t i : range(v)) require(is_finite(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] <= v.safe[i]);
        vec1u s(v.size()); for (uint_t i : range(v)) s.safe[i] = i;
        auto u = unique_ids(v, s); auto r = unique_ids_sorted(v); auto w = unique_values(v, s);
        expect(u.size() == r.size()); expect(w.size() == u.size());
        for (uint_t i : range(u)) { expect(u.safe[i] == r.safe[i]); expect(same(w.safe[i], v.safe[u.safe[i]])); }
    }
    void unique_given_reversed(vec1d v) {
        require(v.size() <= 3); for (uint_t i : range(v)) require(is_finite(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] >= v.safe[i]);
        vec1u s(v.size()); for (uint_t i : range(v)) s.safe[i] = v.size()-1-i;
        auto u = unique_ids(v, s);
        for (uint_t i = 1; i < u.size(); ++i) expect(v.safe[u.safe[i-1]] < v.safe[u.safe[i]]);
        for (uint_t i : range(v)) { bool f = false; for (uint_t j : range(u)) f = f || v.safe[u.safe[j]] == v.safe[i]; expect(f); }
    }
    void unique_ids_any(vec1d v) {
        for (uint_t i : range(v)) require(!is_nan(v.safe[i]));
        auto u = unique_ids(v);
        for (uint_t i : range(u)) expect(u.safe[i] < v.size());
        for (uint_t i = 1; i < u.size(); ++i) for (uint_t j = 0; j < i; ++j) expect(v.safe[u.safe[j]] != v.safe[u.safe[i]]);
        for (uint_t i : range(v)) { bool f = false; for (uint_t j : range(u)) if (v.safe[i] == v.safe[u.safe[j]]) f = true; expect(f); }
    }
    void match_pairs(vec1d a, vec1d b) {
        up(a); up(b);
        vec1u ia, ib; match(a, b, ia, ib);
        expect(ia.size() == ib.size());
        for (uint_t i : range(ia)) { expect(ia.safe[i] < a.size()); expect(ib.safe[i] < b.size()); expect(a.safe[ia.safe[i]] == b.safe[ib.safe[i]]); }
        for (uint_t i : range(a)) for (uint_t j : range(b)) if (a.safe[i] == b.safe[j]) {
            bool f = false; for (uint_t k : range(ia)) if (ia.safe[k] == i && ib.safe[k] == j) f = true; expect(f);
        }
    }
    void intersection(vec1d a, vec1d b) {
        up(a); up(b);
        auto s = set_intersection_sorted(a, b);
        for (uint_t i = 1; i < s.size(); ++i) expect(s.safe[i-1] < s.safe[i]);
        for (uint_t k : range(s)) expect(is_any_of(s.safe[k], a) && is_any_of(s.safe[k], b));
        for (uint_t i : range(a)) for (uint_t j : range(b)) if (a.safe[i] == b.safe[j]) expect(is_any_of(a.safe[i], s));
    }
    void set_sum(vec1d a, vec1d b) {
        up(a); up(b);
        auto s = set_union_sorted(a, b);
        for (uint_t i = 1; i < s.size(); ++i) expect(s.safe[i-1] < s.safe[i]);
        for (uint_t k : range(s)) expect(is_any_of(s.safe[k], a) || is_any_of(s.safe[k], b));
        for (uint_t i : range(a)) expect(is_any_of(a.safe[i], s));
        for (uint_t i : range(b)) expect(is_any_of(b.safe[i], s));
    }
    void indgen_counts(uint_t n) { n = each(n, 0, 6); auto v = indgen(n); expect(v.size() == n); for (uint_t i : range(v)) expect(v.safe[i] == i); }
    void indgen_2d(uint_t k) { auto v = indgen(2, 3); for (uint_t i : range(2)) for (uint_t j : range(3)) expect(v.safe(i,j) == i*3+j); }
    void ids_roundtrip(vec2d v, uint_t k) { require(k < v.size()); auto m = mult_ids(v, k); expect(m.size() == 2); expect(m.safe[0] < v.dims[0] && m.safe[1] < v.dims[1]); expect(m.safe[0]*v.dims[1] + m.safe[1] == k); }
    void ids_list(vec2d v, vec1u k) { for (uint_t i : k) require(i < v.size()); auto m = mult_ids(v, k); expect(m.dims[0] == 2 && m.dims[1] == k.size()); for (uint_t i : range(k)) expect(m.safe(0,i)*v.dims[1] + m.safe(1,i) == k.safe[i]); }
    void increment_odometer(uint_t a, uint_t b) { vec1u n = {2, 3}; require(a < 2 && b < 3); vec1u i = {a, b}; increment_index_list(i, n); expect(i.safe[0]*3 + i.safe[1] == (a*3 + b + 1) % 6); expect(i.safe[1] < 3); }
}
