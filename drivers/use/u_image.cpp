#include "use.hpp"
// Laws of the image functions.
namespace use_image {
    using namespace vif::astro;
    void enlarged(vec2d m, double d, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 1); auto r = enlarge(m, {{a, b, 1, 0}}, d); expect(r.dims[0] == m.dims[0]+a+1 && r.dims[1] == m.dims[1]+b); for (uint_t i : range(r.dims[0])) for (uint_t j : range(r.dims[1])) if (i >= a && i-a < m.dims[0] && j >= b && j-b < m.dims[1]) expect(same(r.safe(i,j), m.safe(i-a,j-b))); else expect(same(r.safe(i,j), d)); }
    void enlarged_all_sides(vec2d m, double d, uint_t a) { a = each(a, 0, 1); auto r = enlarge(m, a, d); auto s = enlarge(m, {{a, a, a, a}}, d); expect(r.dims == s.dims); for (uint_t i : range(r)) expect(same(r.safe[i], s.safe[i])); }
    void shrunk(vec2d m, uint_t a, uint_t b, uint_t i, uint_t j) { a = each(a, 0, 1); b = each(b, 0, 1); i = each(i, 0, 2); j = each(j, 0, 2); require(a+1 < m.dims[0] && b < m.dims[1]); auto r = shrink(m, {{a, b, 1, 0}}); expect(r.dims[0] == m.dims[0]-a-1 && r.dims[1] == m.dims[1]-b); require(i < r.dims[0] && j < r.dims[1]); expect(same(r.safe(i,j), m.safe(i+a,j+b))); }
    void shrunk_to_nothing(vec2d m, uint_t a) { a = each(a, 0, 2); require(m.dims[0] <= 2*a || m.dims[1] <= 2*a); auto r = shrink(m, a); expect(r.empty()); }
    void shrunk_rows_away(vec2d m, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a+b >= m.dims[0] && m.dims[1] > 0); expect(shrink(m, {{a, 0, b, 0}}).empty()); }
    void shrunk_columns_away(vec2d m, uint_t a, uint_t b) { a = each(a, 0, 2); b = each(b, 0, 2); require(a+b >= m.dims[1] && m.dims[0] > 0); expect(shrink(m, {{0, a, 0, b}}).empty()); }
    void shrink_undoes_enlarge(vec2d m, double d, uint_t a, uint_t b) { a = each(a, 0, 1); b = each(b, 0, 1); require(!m.empty()); auto r = shrink(enlarge(m, {{a, b, b, a}}, d), {{a, b, b, a}}); expect(r.dims == m.dims); for (uint_t i : range(m)) expect(same(r.safe[i], m.safe[i])); }
    void region(vec2d m, double d, int_t x0, int_t y0, uint_t nx, uint_t ny, uint_t i, uint_t j) { x0 = each(x0, -1, 2); y0 = each(y0, -1, 1); nx = each(nx, 1, 2); ny = each(ny, 1, 2); vec1i reg = {x0, y0, x0+int_t(nx)-1, y0+int_t(ny)-1}; auto r = subregion(m, reg, d); expect(r.dims[0] == nx && r.dims[1] == ny); for (int_t i = 0; i < int_t(nx); ++i) for (int_t j = 0; j < int_t(ny); ++j) { bool in = i+x0 >= 0 && i+x0 < int_t(m.dims[0]) && j+y0 >= 0 && j+y0 < int_t(m.dims[1]); if (in) expect(same(r.safe(uint_t(i),uint_t(j)), m.safe(uint_t(i+x0),uint_t(j+y0)))); else expect(same(r.safe(uint_t(i),uint_t(j)), d)); } }
    void region_far(vec2d m, double d) { vec1i reg = {4, 4, 5, 6}; auto r = subregion(m, reg, d); expect(r.dims[0] == 2 && r.dims[1] == 3); for (uint_t i : range(r)) expect(same(r.safe[i], d)); }
    void flipped_x(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < m.dims[0] && j < m.dims[1]); auto r = flip_x(m); expect(r.dims == m.dims); expect(same(r.safe(i,j), m.safe(i,m.dims[1]-1-j))); }
    void flipped_y(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < m.dims[0] && j < m.dims[1]); auto r = flip_y(m); expect(r.dims == m.dims); expect(same(r.safe(i,j), m.safe(m.dims[0]-1-i,j))); }
    void shifted(vec2d m, int_t a, int_t b) { a = each(a, -2, 3); b = each(b, -1, 1); auto r = shift(m, a, b); expect(r.dims == m.dims); int_t n0 = m.dims[0], n1 = m.dims[1]; for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { uint_t k = ((int_t(i)+a)%n0 + n0)%n0, l = ((int_t(j)+b)%n1 + n1)%n1; expect(same(r.safe(k,l), m.safe(i,j))); } }
    void translated(vec2d m, double d, int_t a, int_t b) { a = each(a, -4, 4); b = each(b, -2, 2); auto r = translate_integer(m, a, b, d); expect(r.dims == m.dims); for (int_t i = 0; i < int_t(m.dims[0]); ++i) for (int_t j = 0; j < int_t(m.dims[1]); ++j) { int_t k = i-a, l = j-b; bool in = k >= 0 && k < int_t(m.dims[0]) && l >= 0 && l < int_t(m.dims[1]); if (in) expect(same(r.safe(uint_t(i),uint_t(j)), m.safe(uint_t(k),uint_t(l)))); else expect(same(r.safe(uint_t(i),uint_t(j)), d)); } }
    void recentered(vec2d m, double d, int_t cy, int_t cx, uint_t ny, uint_t nx) { cy = each(cy, -1, 2); cx = each(cx, 0, 1); ny = each(ny, 2, 3); nx = each(nx, 1, 1); auto r = recenter(m, cy, cx, {{ny, nx}}, d); expect(r.dims[0] == ny && r.dims[1] == nx); for (int_t i = 0; i < int_t(ny); ++i) for (int_t j = 0; j < int_t(nx); ++j) { int_t k = i+cy-int_t(ny/2), l = j+cx-int_t(nx/2); bool in = k >= 0 && k < int_t(m.dims[0]) && l >= 0 && l < int_t(m.dims[1]); if (in) expect(same(r.safe(uint_t(i),uint_t(j)), m.safe(uint_t(k),uint_t(l)))); else expect(same(r.safe(uint_t(i),uint_t(j)), d)); } }
    void recentered_same_size(vec2d m, double d, int_t cy, int_t cx) { cy = each(cy, -4, 6); cx = each(cx, 0, 2); require(!m.empty()); auto r = recenter(m, cy, cx, d); auto s = recenter(m, cy, cx, m.dims, d); expect(r.dims == s.dims); for (uint_t i : range(r)) expect(same(r.safe[i], s.safe[i])); }
    void h_conv(const vec2d& m, const vec2d& k) { for (uint_t q : range(k)) require(k.safe[q] != 0); auto r = convolve2d_naive(m, k); expect(r.dims == m.dims); for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { double s = 0; int_t h0 = k.dims[0]/2, h1 = k.dims[1]/2; for (int_t a = -h0; a <= h0; ++a) for (int_t b = -h1; b <= h1; ++b) { int_t x = int_t(i)-a, y = int_t(j)-b; if (x >= 0 && x < int_t(m.dims[0]) && y >= 0 && y < int_t(m.dims[1])) s += m.safe(uint_t(x),uint_t(y))*k.safe(uint_t(a+h0),uint_t(b+h1)); } expect(same(r.safe(i,j), s)); } }
    void convolved_31(vec2d m, double a, double b, double c) { vec2d k(3,1); k.safe[0] = a; k.safe[1] = b; k.safe[2] = c; h_conv(m, k); }
    void convolved_13(vec2d m, double a, double b, double c) { vec2d k(1,3); k.safe[0] = a; k.safe[1] = b; k.safe[2] = c; h_conv(m, k); }
    void convolved_33(vec2d m, double a, double b, double c, double d, double e, double f, double g, double h, double i) { vec2d k = {{a,b,c},{d,e,f},{g,h,i}}; h_conv(m, k); }
    void convolved_51(vec2d m, double a, double b, double c, double d, double e) { vec2d k(5,1); k.safe[0] = a; k.safe[1] = b; k.safe[2] = c; k.safe[3] = d; k.safe[4] = e; h_conv(m, k); }
    void convolved_zeros(vec2d m, double b) { vec2d k(3,3); k.safe(0,1) = b; require(b != 0); auto r = convolve2d_naive(m, k); for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { if (i+1 < m.dims[0]) expect(same(r.safe(i,j), m.safe(i+1,j)*b)); else expect(same(r.safe(i,j), 0.0)); } }
    void box(vec2d m, uint_t h, uint_t i, uint_t j) { h = each(h, 0, 2); i = each(i, 0, 2); j = each(j, 0, 2); require(i < m.dims[0] && j < m.dims[1]); auto r = boxcar(m, h, [](const vec1d& v) { return total(v); }); expect(r.dims == m.dims); double s = 0; for (uint_t x : range(m.dims[0])) for (uint_t y : range(m.dims[1])) if (x+h >= i && x <= i+h && y+h >= j && y <= j+h) s += m.safe(x,y); expect(same(r.safe(i,j), s)); }
    void generated(uint_t n, uint_t l, double a) { n = each(n, 0, 2); l = each(l, 0, 2); auto r = generate_img({{n, l}}, [&](uint_t x, uint_t y) { return a*(10*x + y); }); expect(r.dims[0] == n && r.dims[1] == l); for (uint_t i : range(n)) for (uint_t j : range(l)) expect(same(r.safe(i,j), a*(10*i+j))); }
    void inflated(vec2b m, uint_t d) { d = each(d, 0, 2); require(m.size() <= 4); auto r = mask_inflate(m, d); expect(r.dims == m.dims); for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { bool s = false; for (uint_t x : range(m.dims[0])) for (uint_t y : range(m.dims[1])) { uint_t q = (x > i ? x-i : i-x) + (y > j ? y-j : j-y); if (q <= d && m.safe(x,y)) s = true; } expect(r.safe(i,j) == s); } }
    void h_inflated(const vec2b& m, uint_t d) { auto r = mask_inflate(m, d); expect(r.dims == m.dims); for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { bool s = false; for (uint_t x : range(m.dims[0])) for (uint_t y : range(m.dims[1])) { uint_t q = (x > i ? x-i : i-x) + (y > j ? y-j : j-y); if (q <= d && m.safe(x,y)) s = true; } expect(r.safe(i,j) == s); } }
    void inflated_row_0(bool a, bool b, bool c) { vec2b m = {{a, b, c}}; h_inflated(m, 0); }
    void inflated_row_1(bool a, bool b, bool c) { vec2b m = {{a, b, c}}; h_inflated(m, 1); }
    void inflated_row_2(bool a, bool b, bool c) { vec2b m = {{a, b, c}}; h_inflated(m, 2); }
    void inflated_column_0(bool a, bool b, bool c) { vec2b m = {{a}, {b}, {c}}; h_inflated(m, 0); }
    void inflated_column_1(bool a, bool b, bool c) { vec2b m = {{a}, {b}, {c}}; h_inflated(m, 1); }
    void inflated_column_2(bool a, bool b, bool c) { vec2b m = {{a}, {b}, {c}}; h_inflated(m, 2); }
    void inflated_row4(bool a, bool b, bool c, bool e) { vec2b m = {{a, b, c, e}}; h_inflated(m, 1); }
    void inflated_tall(bool a, bool b, bool c, bool e) { vec2b m = {{a, b}, {c, e}, {false, false}}; h_inflated(m, 1); }
    void inflated_wide(bool a, bool b, bool c, bool e) { vec2b m = {{a, b, false}, {c, e, false}}; h_inflated(m, 1); }
    void whole_pixel_translation(vec2d m, double d, int_t a, int_t b) { a = each(a, -1, 1); b = each(b, -1, 1); require(m.dims[0] >= 1 && m.dims[1] >= 1); auto r = translate(m, double(a), double(b), d); expect(r.dims == m.dims); for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) { int_t k = int_t(i)-a, l = int_t(j)-b; if (k >= 0 && k+1 < int_t(m.dims[0]) && l >= 0 && l+1 < int_t(m.dims[1])) expect(same(r.safe(i,j), m.safe(uint_t(k),uint_t(l)))); if (k < 0 || k >= int_t(m.dims[0]) || l < 0 || l >= int_t(m.dims[1])) expect(same(r.safe(i,j), d)); } }
    void scale_one_keeps(vec2d m, double d, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i+1 < m.dims[0] && j+1 < m.dims[1]); auto r = scale(m, 1.0, d); expect(r.dims == m.dims); expect(same(r.safe(i,j), m.safe(i,j))); }
    void flip_on_view(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < m.dims[0] && j < m.dims[1]); vec2d o = m; auto r = flip_x(m(_,_)); expect(same(r.safe(i,j), o.safe(i,m.dims[1]-1-j))); for (uint_t q : range(m)) expect(same(m.safe[q], o.safe[q])); }
    void shift_on_view(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i < m.dims[0] && j < m.dims[1]); vec2d o = m; auto r = shift(m, 1, 1); for (uint_t q : range(m)) expect(same(m.safe[q], o.safe[q])); }
}
