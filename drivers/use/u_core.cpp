#include "use.hpp"
// Laws of the vector class itself: what is read is what was stored.
namespace use_core {
#define ALL(a, b) expect((a).dims == (b).dims); for (uint_t q : range(b)) expect(same((a).safe[q], (b).safe[q]));
    void copy_is_equal(vec2d v) { vec2d c = v; ALL(c, v) }
    void copy_is_independent(vec1d v, double x) { require(!v.empty()); double o = v.safe[0]; vec1d c = v; c.safe[0] = x; expect(same(v.safe[0], o)); expect(same(c.safe[0], x)); }
    void move_keeps_contents(vec2d v) { vec2d o = v; vec2d c = std::move(v); ALL(c, o) }
    void assign_copies(vec2d a, vec2d b) { vec2d o = b; a = b; ALL(a, o) ALL(b, o) }
    void assign_moves(vec2d a, vec2d b) { vec2d o = b; a = std::move(b); ALL(a, o) }
    void assign_self(vec2d a) { vec2d o = a; vec2d& r = a; a = r; ALL(a, o) }
    void assign_scalar_view(vec1d a, double x) { vec1d o = a; a[_] = x; expect(a.dims == o.dims); for (uint_t i : range(a)) expect(same(a.safe[i], x)); }
    void assign_list(vec1d a, double x, double y) { a = {x, y}; expect(a.size() == 2); expect(same(a[0], x)); expect(same(a[1], y)); }
    void construct_list(double x, double y, double z) { vec1d a = {x, y, z}; expect(a.dims[0] == 3); expect(same(a[0], x)); expect(same(a[1], y)); expect(same(a[2], z)); }
    void construct_list2(double x, double y, double z, double w) { vec2d a = {{x, y}, {z, w}}; expect(a.dims[0] == 2 && a.dims[1] == 2); expect(same(a(0,0), x)); expect(same(a(0,1), y)); expect(same(a(1,0), z)); expect(same(a(1,1), w)); }
    void construct_dims(uint_t n, uint_t m) { n = each(n, 0, 3); m = each(m, 0, 3); vec2d a(n, m); expect(a.dims[0] == n && a.dims[1] == m && a.size() == n*m); for (uint_t i : range(a)) expect(same(a.safe[i], 0.0)); }
    void construct_dims_list(uint_t n) { n = each(n, 0, 3); std::array<uint_t,2> d = {{n, 2}}; vec3d a(d, 3); expect(a.dims[0] == n && a.dims[1] == 2 && a.dims[2] == 3 && a.size() == 6*n); }
    void convert_int(vec1i v) { vec1d c = v; expect(c.dims == v.dims); for (uint_t i : range(v)) expect(same(c.safe[i], double(v.safe[i]))); }
    void convert_float(vec2f v) { vec2d c = v; expect(c.dims == v.dims); for (uint_t i : range(v)) expect(same(c.safe[i], double(v.safe[i]))); }
    void convert_mask(vec1i v) { vec1b c = vec1b{v}; expect(c.dims == v.dims); for (uint_t i : range(v)) expect(c.safe[i] == (v.safe[i] != 0)); }
    void convert_assign(vec1d a, vec1i v) { a = v; expect(a.dims == v.dims); for (uint_t i : range(v)) expect(same(a.safe[i], double(v.safe[i]))); }
    void convert_assign_moved(vec1d a, vec1i v) { vec1i o = v; a = std::move(v); expect(a.dims == o.dims); for (uint_t i : range(o)) expect(same(a.safe[i], double(o.safe[i]))); }
    void from_view(vec2d v) { vec2d c = v(_,_); ALL(c, v) }
    void from_column(vec2d v, uint_t k) { k = each(k, 0, 2); require(k < v.dims[1]); vec1d c = v(_,k); expect(c.dims[0] == v.dims[0]); for (uint_t i : range(c)) expect(same(c.safe[i], v.safe(i,k))); }
    void from_row(vec2d v, uint_t k) { k = each(k, 0, 2); require(k < v.dims[0]); vec1d c = v(k,_); expect(c.dims[0] == v.dims[1]); for (uint_t i : range(c)) expect(same(c.safe[i], v.safe(k,i))); }
    void from_ids(vec1d v, vec1u w) { for (uint_t i : w) require(i < v.size()); vec1d c = v[w]; expect(c.dims == w.dims); for (uint_t i : range(w)) expect(same(c.safe[i], v.safe[w.safe[i]])); }
    void from_range(vec1d v, uint_t a, uint_t b) { a = each(a, 0, 3); b = each(b, 0, 3); require(a <= b && b < v.size()); vec1d c = v[a-_-b]; expect(c.size() == b-a+1); for (uint_t i : range(c)) expect(same(c.safe[i], v.safe[a+i])); }
    void from_right_range(vec1d v, uint_t a) { a = each(a, 0, 3); require(a < v.size()); vec1d c = v[a-_]; expect(c.size() == v.size()-a); for (uint_t i : range(c)) expect(same(c.safe[i], v.safe[a+i])); }
    void from_left_range(vec1d v, uint_t b) { b = each(b, 0, 3); require(b < v.size()); vec1d c = v[_-b]; expect(c.size() == b+1); for (uint_t i : range(c)) expect(same(c.safe[i], v.safe[i])); }
    void from_range_2d(vec2d v, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.dims[0] && b < v.dims[1]); vec2d c = v(a-_,_-b); expect(c.dims[0] == v.dims[0]-a && c.dims[1] == b+1);
        for (uint_t i : range(c.dims[0])) for (uint_t j : range(c.dims[1])) expect(same(c.safe(i,j), v.safe(a+i,j))); }
    void from_ids_2d(vec2d v, vec1u w, uint_t k) { k = each(k, 0, 2); for (uint_t i : w) require(i < v.dims[0]); require(k < v.dims[1]); vec1d c = v(w,k); expect(c.dims == w.dims); for (uint_t i : range(w)) expect(same(c.safe[i], v.safe(w.safe[i],k))); }
    void write_ids(vec1d v, uint_t a, uint_t b, double x) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.size() && b < v.size() && a != b); vec1d o = v; v[vec1u{a,b}] = x;
        for (uint_t i : range(o)) expect(same(v.safe[i], i == a || i == b ? x : o.safe[i])); }
    void write_ids_list(vec1d v, uint_t a, uint_t b, vec1d x) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.size() && b < v.size() && a != b && x.size() == 2); vec1d o = v; v[vec1u{a,b}] = x;
        for (uint_t i : range(o)) expect(same(v.safe[i], i == a ? x.safe[0] : (i == b ? x.safe[1] : o.safe[i]))); }
    void write_row(vec2d v, uint_t k, vec1d x) { k = each(k, 0, 2); require(k < v.dims[0] && x.size() == v.dims[1]); vec2d o = v; v(k,_) = x; expect(v.dims == o.dims);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), i == k ? x.safe[j] : o.safe(i,j))); }
    void write_column(vec2d v, uint_t k, vec1d x) { k = each(k, 0, 2); require(k < v.dims[1] && x.size() == v.dims[0]); vec2d o = v; v(_,k) = x; expect(v.dims == o.dims);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), j == k ? x.safe[i] : o.safe(i,j))); }
    void write_element(vec2d v, uint_t a, uint_t b, double x) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.dims[0] && b < v.dims[1]); vec2d o = v; v(a,b) = x; expect(v.dims == o.dims);
        for (uint_t i : range(v.dims[0])) for (uint_t j : range(v.dims[1])) expect(same(v.safe(i,j), i == a && j == b ? x : o.safe(i,j))); }
    void row_major(vec2d v, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.dims[0] && b < v.dims[1]); expect(same(v(a,b), v.data[a*v.dims[1]+b])); expect(same(v[a*v.dims[1]+b], v.data[a*v.dims[1]+b])); }
    void row_major_3d(vec3d v, uint_t a, uint_t b, uint_t c) { a = each(a, 0, 2); b = each(b, 0, 2); c = each(c, 0, 2); require(a < v.dims[0] && b < v.dims[1] && c < v.dims[2]); expect(same(v(a,b,c), v.data[(a*v.dims[1]+b)*v.dims[2]+c])); }
    void negative_index(vec1d v, int_t k) { k = each(k, -3, -1); require(-k <= int_t(v.size())); expect(same(v[k], v.safe[uint_t(int_t(v.size())+k)])); }
    void negative_index_2d(vec2d v, int_t k, int_t l) { k = each(k, -3, -1); l = each(l, -3, -1); require(-k <= int_t(v.dims[0]) && -l <= int_t(v.dims[1])); expect(same(v(k,l), v.safe(uint_t(int_t(v.dims[0])+k), uint_t(int_t(v.dims[1])+l)))); }
    void safe_and_checked_agree(vec2d v, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.dims[0] && b < v.dims[1]); expect(same(v(a,b), v.safe(a,b))); }
    void const_and_mutable_agree(vec2d v, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a < v.dims[0] && b < v.dims[1]); const vec2d& c = v; expect(same(v(a,b), c(a,b))); expect(same(v(_,b)[a], c(_,b)[a])); expect(same(v(a,_)[b], c(a,_)[b])); }
    void view_reads_parent(vec1d v, uint_t a, double x) { a = each(a, 0, 2); require(a < v.size()); auto w = v[_]; v.safe[a] = x; expect(same(w[a], x)); }
    void view_writes_parent(vec1d v, uint_t a, double x) { a = each(a, 0, 2); require(a < v.size()); auto w = v[_]; w[a] = x; expect(same(v.safe[a], x)); }
    void view_of_view(vec1d v, uint_t a) { a = each(a, 0, 2); require(a < v.size()); vec1u id = reverse(indgen<uint_t>(v.size())); auto w = v[id]; vec1d c = w[vec1u{a}]; expect(same(c.safe[0], v.safe[v.size()-1-a])); }
    void view_concretise(vec1d v, vec1u w) { for (uint_t i : w) require(i < v.size()); auto c = v[w].concretise(); expect(c.dims == w.dims); for (uint_t i : range(w)) expect(same(c.safe[i], v.safe[w.safe[i]])); }
    void view_iterates(vec1d v, vec1u w) { for (uint_t i : w) require(i < v.size()); uint_t q = 0; for (double x : v[w]) { expect(same(x, v.safe[w.safe[q]])); ++q; } expect(q == w.size()); }
    void iterates_in_order(vec2d v) { uint_t q = 0; for (double x : v) { expect(same(x, v.safe[q])); ++q; } expect(q == v.size()); }
    void iterates_writable(vec1d v, double x) { for (auto& y : v) y = x; for (uint_t i : range(v)) expect(same(v.safe[i], x)); }
    void push_back_adds(vec1d v, double x) { vec1d o = v; v.push_back(x); expect(v.size() == o.size()+1); for (uint_t i : range(o)) expect(same(v.safe[i], o.safe[i])); expect(same(v.safe[o.size()], x)); }
    void push_back_row(vec2d v, vec1d x) { require(v.dims[1] == x.size() && !v.empty()); vec2d o = v; v.push_back(x); expect(v.dims[0] == o.dims[0]+1 && v.dims[1] == o.dims[1]); for (uint_t i : range(o)) expect(same(v.safe[i], o.safe[i])); for (uint_t i : range(x)) expect(same(v.safe(o.dims[0],i), x.safe[i])); }
    void push_back_self(vec1d v) { require(!v.empty()); vec1d o = v; v.push_back(v.safe[0]); expect(v.size() == o.size()+1); expect(same(v.safe[o.size()], o.safe[0])); }
    void resize_keeps_prefix(vec1d v, uint_t n) { n = each(n, 0, 4); vec1d o = v; v.resize(n); expect(v.size() == n); for (uint_t i : range(v)) expect(same(v.safe[i], i < o.size() ? o.safe[i] : 0.0)); }
    void clear_empties(vec2d v) { v.clear(); expect(v.empty() && v.size() == 0 && v.dims[0] == 0); }
    void swap_exchanges(vec1d a, vec1d b) { vec1d oa = a, ob = b; std::swap(a, b); ALL(a, ob) ALL(b, oa) }
    void front_back(vec1d v) { require(!v.empty()); expect(same(v.front(), v.safe[0])); expect(same(v.back(), v.safe[v.size()-1])); }
    void to_idx_counts(vec1d v, int_t k) { k = each(k, -3, 3); require(k < int_t(v.size()) && -k <= int_t(v.size())); expect(v.to_idx(k) == uint_t(k < 0 ? int_t(v.size())+k : k)); }
    void bool_reads_back(vec1b v, uint_t k, bool x) { k = each(k, 0, 2); require(k < v.size()); v[k] = x; expect(v[k] == x); }
    void string_reads_back(vec1s v, uint_t k) { k = each(k, 0, 2); require(k < v.size()); vec1s c = v; expect(c.dims == v.dims); expect(c[k] == v[k]); }
    void first_last_pos(vec2d v) { vec1d c = v(_,_)[_]; expect(c.size() == v.size()); for (uint_t i : range(v)) expect(same(c.safe[i], v.safe[i])); }
    void pitch_3d(vec3d v, uint_t a) { a = each(a, 0, 2); require(a < v.dims[0]); vec2d c = v(a,_,_); expect(c.dims[0] == v.dims[1] && c.dims[1] == v.dims[2]); for (uint_t i : range(c.dims[0])) for (uint_t j : range(c.dims[1])) expect(same(c.safe(i,j), v.safe(a,i,j))); }
    void middle_3d(vec3d v, uint_t a) { a = each(a, 0, 2); require(a < v.dims[1]); vec2d c = v(_,a,_); expect(c.dims[0] == v.dims[0] && c.dims[1] == v.dims[2]); for (uint_t i : range(c.dims[0])) for (uint_t j : range(c.dims[1])) expect(same(c.safe(i,j), v.safe(i,a,j))); }
}
