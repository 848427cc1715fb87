#include "use.hpp"
#include <vif/astro/image.hpp>
using namespace vif::astro;
// Laws of the segmentation of images and of masks.
namespace use_segment {
    uint_t h_area(const vec2u& s, uint_t id) { uint_t n = 0; for (uint_t i : range(s)) if (s.safe[i] == id) ++n; return n; }
    vec2i h_square(int_t a, int_t b, int_t c, int_t d) { vec2i m(2,2); m.safe(0,0) = a; m.safe(0,1) = b; m.safe(1,0) = c; m.safe(1,1) = d; return m; }
    vec2i h_row(int_t a, int_t b, int_t c, int_t d) { vec2i m(1,4); m.safe(0,0) = a; m.safe(0,1) = b; m.safe(0,2) = c; m.safe(0,3) = d; return m; }
    vec2i h_column(int_t a, int_t b, int_t c, int_t d) { vec2i m(4,1); m.safe(0,0) = a; m.safe(1,0) = b; m.safe(2,0) = c; m.safe(3,0) = d; return m; }
    vec2i h_wide(int_t a, int_t b, int_t c, int_t d, int_t e, int_t f) { vec2i m(2,3); m.safe(0,0) = a; m.safe(0,1) = b; m.safe(0,2) = c; m.safe(1,0) = d; m.safe(1,1) = e; m.safe(1,2) = f; return m; }
    // the map covers the same pixels, touching pixels belong to the same segment, and the catalog describes the map
    void h_covers(const vec2i& m, const vec2u& s) {
        expect(s.dims == m.dims); for (uint_t i : range(m)) expect((s.safe[i] != 0) == (m.safe[i] != 0));
        for (uint_t y : range(m.dims[0])) for (uint_t x : range(m.dims[1])) {
            if (x > 0 && m.safe(y,x) != 0 && m.safe(y,x-1) != 0) expect(s.safe(y,x) == s.safe(y,x-1));
            if (y > 0 && m.safe(y,x) != 0 && m.safe(y-1,x) != 0) expect(s.safe(y,x) == s.safe(y-1,x));
        }
    }
    void h_catalog(const vec2u& s, const segment_output& o, uint_t first) {
        uint_t n = o.id.size(); expect(o.area.size() == n && o.px.size() == n && o.py.size() == n && o.origin.size() == n);
        uint_t t = 0;
        for (uint_t k : range(n)) {
            expect(o.id.safe[k] == first + k); expect(o.area.safe[k] == h_area(s, o.id.safe[k])); t += o.area.safe[k];
            expect(s[o.origin.safe[k]] == o.id.safe[k]);
            for (uint_t i : range(o.origin.safe[k])) expect(s.safe[i] != o.id.safe[k]);
        }
        expect(t == s.size() - h_area(s, 0));
    }
    void h_centers(const vec2u& s, const segment_output& o) {
        for (uint_t k : range(o.id)) { double x = 0, y = 0; for (uint_t i : range(s.dims[0])) for (uint_t j : range(s.dims[1])) if (s.safe(i,j) == o.id.safe[k]) { y += i; x += j; } expect(same(o.px.safe[k]*o.area.safe[k], x)); expect(same(o.py.safe[k]*o.area.safe[k], y)); }
    }
    void square_covered(int_t a, int_t b, int_t c, int_t d) { auto m = h_square(a, b, c, d); segment_output o; auto s = segment(m, o); h_covers(m, s); }
    void square_catalog(int_t a, int_t b, int_t c, int_t d) { auto m = h_square(a, b, c, d); segment_output o; auto s = segment(m, o); h_catalog(s, o, 1); }
    void square_centers(int_t a, int_t b, int_t c, int_t d) { auto m = h_square(a, b, c, d); segment_output o; auto s = segment(m, o); h_centers(s, o); }
    void square_first(int_t a, int_t b, int_t c, int_t d) { auto m = h_square(a, b, c, d); segment_output o; segment_params p; p.first_id = 7; auto s = segment(m, o, p); h_covers(m, s); h_catalog(s, o, 7); }
    void square_plain(int_t a, int_t b, int_t c, int_t d) { auto m = h_square(a, b, c, d); segment_output o; auto s = segment(m, o); auto t = segment(m); expect(t.dims == s.dims); for (uint_t i : range(s)) expect(s.safe[i] == t.safe[i]); }
    void wide_covered(int_t a, int_t b, int_t c, int_t d, int_t e, int_t f) { auto m = h_wide(a, b, c, d, e, f); segment_output o; auto s = segment(m, o); h_covers(m, s); }
    void wide_catalog(int_t a, int_t b, int_t c, int_t d, int_t e, int_t f) { auto m = h_wide(a, b, c, d, e, f); segment_output o; auto s = segment(m, o); h_catalog(s, o, 1); }
    void row_covered(int_t a, int_t b, int_t c, int_t d) { auto m = h_row(a, b, c, d); segment_output o; auto s = segment(m, o); h_covers(m, s); h_catalog(s, o, 1); }
    void column_covered(int_t a, int_t b, int_t c, int_t d) { auto m = h_column(a, b, c, d); segment_output o; auto s = segment(m, o); h_covers(m, s); h_catalog(s, o, 1); }
    void row_separates(int_t a, int_t b, int_t c) { require(a != 0 && c != 0); auto m = h_row(a, 0, b, c); auto s = segment(m); expect(s.safe[0] != s.safe[3]); expect(b == 0 || s.safe[2] == s.safe[3]); }
    void corners_separate(int_t a, int_t b) { require(a != 0 && b != 0); auto s = segment(h_square(a, 0, 0, b)); expect(s.safe(0,0) != s.safe(1,1)); auto t = segment(h_square(0, a, b, 0)); expect(t.safe(0,1) != t.safe(1,0)); }
    void h_small(const vec2i& m, uint_t n) {
        segment_output o, q; segment_params p; p.min_area = n; auto s = segment(m, o); auto t = segment(m, q, p); uint_t j = 0;
        for (uint_t k : range(o.id)) if (o.area.safe[k] >= n) { expect(j < q.id.size()); expect(q.id.safe[j] == o.id.safe[k] && q.area.safe[j] == o.area.safe[k] && q.origin.safe[j] == o.origin.safe[k]); expect(same(q.px.safe[j], o.px.safe[k]) && same(q.py.safe[j], o.py.safe[k])); ++j; }
        expect(q.id.size() == j && q.area.size() == j && q.px.size() == j && q.py.size() == j && q.origin.size() == j);
        for (uint_t i : range(m)) { if (s.safe[i] != 0 && h_area(s, s.safe[i]) >= n) expect(t.safe[i] == s.safe[i]); else expect(t.safe[i] == 0); }
    }
    void small_dropped_2(int_t a, int_t b, int_t c, int_t d) { h_small(h_square(a, b, c, d), 2); }
    void small_dropped_3(int_t a, int_t b, int_t c, int_t d) { h_small(h_square(a, b, c, d), 3); }
    void small_dropped_4(int_t a, int_t b, int_t c, int_t d) { h_small(h_square(a, b, c, d), 4); }
    void small_dropped_row(int_t a, int_t b, int_t c, int_t d) { h_small(h_row(a, b, c, d), 2); }
    void small_dropped_column(int_t a, int_t b, int_t c, int_t d) { h_small(h_column(a, b, c, d), 2); }
    void h_visits(const vec2i& m) {
        segment_output o; auto s = segment(m, o); uint_t n = 0;
        foreach_segment(s, o.origin, [&](uint_t k, vec1u ids) { ++n; expect(ids.size() == o.area.safe[k]); for (uint_t i : range(ids)) { expect(s[ids.safe[i]] == o.id.safe[k]); for (uint_t j : range(i)) expect(ids.safe[i] != ids.safe[j]); } });
        expect(n == o.id.size());
    }
    void visits_square(int_t a, int_t b, int_t c, int_t d) { h_visits(h_square(a, b, c, d)); }
    void visits_row(int_t a, int_t b, int_t c, int_t d) { h_visits(h_row(a, b, c, d)); }
    void visits_column(int_t a, int_t b, int_t c, int_t d) { h_visits(h_column(a, b, c, d)); }
    // growth of the segments over the whole map: each pixel goes to the nearest one
    void h_grown(const vec2u& m) {
        vec2u g = m, i; vec2d d; segment_distance(g, d, i); expect(g.dims == m.dims && d.dims == m.dims && i.dims == m.dims);
        for (uint_t y : range(m.dims[0])) for (uint_t x : range(m.dims[1])) {
            double b = -1; for (uint_t v : range(m.dims[0])) for (uint_t u : range(m.dims[1])) if (m.safe(v,u) != 0) { double t = (double(v)-double(y))*(double(v)-double(y)) + (double(u)-double(x))*(double(u)-double(x)); if (b < 0 || t < b) b = t; }
            if (b < 0) { expect(g.safe(y,x) == 0); continue; }
            expect(same(d.safe(y,x), b)); expect(i.safe(y,x) < m.size() && m.safe[i.safe(y,x)] != 0 && g.safe(y,x) == m.safe[i.safe(y,x)]);
        }
    }
    vec2u h_ids(uint_t h, uint_t w, uint_t i, uint_t a, uint_t j, uint_t b) { vec2u m(h,w); m.safe[i] = a; m.safe[j] = b; return m; }
    void grown_one(uint_t a, uint_t i) { i = each(i, 0, 5); require(a != 0); h_grown(h_ids(2, 3, i, a, i, a)); }
    void grown_two(uint_t a, uint_t b, uint_t i) { i = each(i, 0, 2); require(a != 0 && b != 0 && a != b); h_grown(h_ids(2, 3, i, a, 5, b)); }
    void grown_row(uint_t a, uint_t b) { require(a != 0 && b != 0); h_grown(h_ids(1, 5, 0, a, 4, b)); }
    void grown_column(uint_t a, uint_t b) { require(a != 0 && b != 0); h_grown(h_ids(5, 1, 1, a, 3, b)); }
    void grown_block(uint_t a) { require(a != 0); vec2u m(3,3); m.safe(0,0) = a; m.safe(0,1) = a; m.safe(1,0) = a; h_grown(m); }
    void grown_nothing(uint_t t) { h_grown(vec2u(2,2)); }
    // deblending
    void h_deblended(const vec2d& m, const vec2u& s, const segment_deblend_output& o) {
        uint_t n = o.id.size(); expect(o.area.size() == n && o.flux.size() == n && o.origin.size() == n && o.px.size() == n && o.py.size() == n && o.bx.size() == n && o.by.size() == n);
        for (uint_t k : range(n)) { double f = 0, x = 0, y = 0; for (uint_t i : range(m.dims[0])) for (uint_t j : range(m.dims[1])) if (s.safe(i,j) == o.id.safe[k]) { f += m.safe(i,j); x += j*m.safe(i,j); y += i*m.safe(i,j); }
            expect(o.area.safe[k] == h_area(s, o.id.safe[k])); expect(same(o.flux.safe[k], f)); expect(same(o.bx.safe[k]*f, x)); expect(same(o.by.safe[k]*f, y)); expect(s[o.origin.safe[k]] == o.id.safe[k]);
            expect(uint_t(o.py.safe[k]) == o.origin.safe[k]/m.dims[1] && uint_t(o.px.safe[k]) == o.origin.safe[k]%m.dims[1]); }
    }
    vec2d h_image(double a, double b, double c, double d, double e, double f) { vec2d m(2,3); m.safe(0,0) = a; m.safe(0,1) = b; m.safe(0,2) = c; m.safe(1,0) = d; m.safe(1,1) = e; m.safe(1,2) = f; return m; }
    void deblend_one(uint_t t) { auto m = h_image(9, 5, 1, 6, 4, 0); segment_deblend_output o; auto s = segment_deblend(m, o); expect(o.id.size() == 1 && o.area.safe[0] == 4 && o.origin.safe[0] == 0); h_deblended(m, s, o); }
    void deblend_last(uint_t t) { auto m = h_image(0, 1, 3, 2, 4, 9); segment_deblend_output o; auto s = segment_deblend(m, o); expect(o.id.size() == 1 && o.area.safe[0] == 3 && o.origin.safe[0] == 5); h_deblended(m, s, o); }
    void deblend_any(double a, double b) { require(a > b && b >= 3.0 && is_finite(a)); vec2d m(1,4); m.safe[0] = b; m.safe[1] = a; m.safe[2] = 1.0; segment_deblend_output o; auto s = segment_deblend(m, o); expect(o.id.size() == 1 && o.area.safe[0] == 2 && o.origin.safe[0] == 1); h_deblended(m, s, o); }
    void deblend_threshold(double a, double b) { require(a > b && b > 2.0 && is_finite(a)); vec2d m(1,4); m.safe[0] = b; m.safe[1] = a; m.safe[2] = 1.0; segment_deblend_output o; segment_deblend_params p; p.detect_threshold = a; p.first_id = 4; auto s = segment_deblend(m, o, p); expect(o.id.size() == 1 && o.area.safe[0] == 1 && o.id.safe[0] == 4 && s.safe[1] == 4); expect(s.safe[0] == 0 && s.safe[2] == 0 && s.safe[3] == 0); }
    void h_distance(uint_t i, uint_t j, uint_t t) { vec2d m(2,3); m.safe[i] = 9; m.safe[j] = 5; segment_deblend_params p; p.deblend_threshold = t; segment_deblend_output o; auto s = segment_deblend(m, o, p); uint_t d = (i/3 > j/3 ? i/3-j/3 : j/3-i/3) + (i%3 > j%3 ? i%3-j%3 : j%3-i%3); expect(o.id.size() == (d < t ? 1u : 2u)); expect(o.origin.safe[0] == i && o.area.safe[0] == (d == 1 ? 2u : 1u)); h_deblended(m, s, o); }
    void deblend_distance_02(uint_t j) { j = each(j, 0, 5); require(j != 0); h_distance(0, j, 2); }
    void deblend_distance_03(uint_t j) { j = each(j, 0, 5); require(j != 0); h_distance(0, j, 3); }
    void deblend_distance_12(uint_t j) { j = each(j, 0, 5); require(j != 1); h_distance(1, j, 2); }
    void deblend_distance_13(uint_t j) { j = each(j, 0, 5); require(j != 1); h_distance(1, j, 3); }
    void deblend_distance_22(uint_t j) { j = each(j, 0, 5); require(j != 2); h_distance(2, j, 2); }
    void deblend_distance_23(uint_t j) { j = each(j, 0, 5); require(j != 2); h_distance(2, j, 3); }
    void deblend_distance_32(uint_t j) { j = each(j, 0, 5); require(j != 3); h_distance(3, j, 2); }
    void deblend_distance_33(uint_t j) { j = each(j, 0, 5); require(j != 3); h_distance(3, j, 3); }
    void deblend_distance_42(uint_t j) { j = each(j, 0, 5); require(j != 4); h_distance(4, j, 2); }
    void deblend_distance_43(uint_t j) { j = each(j, 0, 5); require(j != 4); h_distance(4, j, 3); }
    void deblend_distance_52(uint_t j) { j = each(j, 0, 5); require(j != 5); h_distance(5, j, 2); }
    void deblend_distance_53(uint_t j) { j = each(j, 0, 5); require(j != 5); h_distance(5, j, 3); }
    void deblend_nothing(uint_t n) { n = each(n, 1, 3); vec2d m(1,n); m.safe[0] = dnan; if (n > 1) m.safe[1] = dnan; if (n > 2) m.safe[2] = dnan; segment_deblend_output o; auto s = segment_deblend(m, o); expect(o.id.empty() && s.dims[1] == n); for (uint_t i : range(s)) expect(s.safe[i] == 0); }
    void deblend_ignores_nan(uint_t i) { i = each(i, 0, 3); vec2d m(2,2); m.safe[0] = 5; m.safe[1] = 6; m.safe[2] = 1; m.safe[3] = 4; m.safe[i] = dnan; segment_deblend_output o; auto s = segment_deblend(m, o); expect(s.safe[i] == 0 && s.safe[2] == 0); expect(o.id.size() == 1); }
    void deblend_two(uint_t t) { vec2d m(1,5); m.safe[0] = 5; m.safe[1] = 8; m.safe[2] = 1; m.safe[3] = 6; segment_deblend_params p; p.deblend_threshold = 2; segment_deblend_output o; auto s = segment_deblend(m, o, p); expect(o.id.size() == 2 && o.area.safe[0] == 2 && o.area.safe[1] == 1 && o.origin.safe[0] == 1 && o.origin.safe[1] == 3); h_deblended(m, s, o); }
    void deblend_column(uint_t t) { vec2d m(5,1); m.safe[0] = 5; m.safe[1] = 8; m.safe[2] = 1; m.safe[3] = 6; segment_deblend_params p; p.deblend_threshold = 2; segment_deblend_output o; auto s = segment_deblend(m, o, p); expect(o.id.size() == 2 && o.area.safe[0] == 2 && o.area.safe[1] == 1); h_deblended(m, s, o); }
    void deblend_small(uint_t t) { vec2d m(1,5); m.safe[0] = 5; m.safe[1] = 8; m.safe[2] = 1; m.safe[3] = 6; segment_deblend_params p; p.deblend_threshold = 2; p.min_area = 2; segment_deblend_output o; auto s = segment_deblend(m, o, p); expect(o.id.size() == 1 && o.area.safe[0] == 2 && s.safe[3] == 0); h_deblended(m, s, o); }
    void deblend_merges(uint_t t) { vec2d m(1,5); m.safe[0] = 5; m.safe[1] = 8; m.safe[2] = 4; m.safe[3] = 6; segment_deblend_params p; p.deblend_threshold = 2; p.min_area = 2; segment_deblend_output o; auto s = segment_deblend(m, o, p); h_deblended(m, s, o); expect(s.safe[3] != 0 && s.safe[0] == s.safe[1]); }
    void deblend_merges_group(uint_t t) { vec2d m(1,6); m.safe[0] = 9; m.safe[1] = 6; m.safe[2] = 3; m.safe[3] = 5; m.safe[4] = 4; m.safe[5] = 0.5; segment_deblend_params p; p.deblend_threshold = 2; p.min_area = 3; segment_deblend_output o; auto s = segment_deblend(m, o, p); expect(o.id.size() == 1 && o.area.safe[0] == 5); h_deblended(m, s, o); }
    void deblend_limited_center(uint_t t) { vec2d m(1,5); m.safe[0] = 3; m.safe[1] = 8; m.safe[2] = 6; m.safe[3] = 1; segment_deblend_params p; p.centroid_flim = 0.5; segment_deblend_output o; auto s = segment_deblend(m, o, p); expect(o.id.size() == 1 && o.area.safe[0] == 3); expect(same(14*o.bx.safe[0], 20.0)); }
    // masks
    void mask_values(uint_t k) { k = each(k, 0, 3); double r = 0.5*k + 0.25; auto m = circular_mask({{3,4}}, r, 1.0, 2.0); expect(m.dims[0] == 3 && m.dims[1] == 4); for (int_t i : range(3)) for (int_t j : range(4)) { double c = 0; for (double u : {-0.5, 0.5}) for (double v : {-0.5, 0.5}) if ((i+u-1.0)*(i+u-1.0) + (j+v-2.0)*(j+v-2.0) <= r*r) c += 0.25; expect(same(m.safe(uint_t(i),uint_t(j)), c)); } }
    void mask_whole(uint_t k) { k = each(k, 1, 3); auto m = circular_mask({{k,3}}, 20.0, 1.0, 1.0); expect(m.dims[0] == k && m.dims[1] == 3); for (uint_t i : range(m)) expect(same(m.safe[i], 1.0)); }
    void mask_outside(uint_t k) { auto m = circular_mask({{3,3}}, 1.0, -5.0, 1.0); for (uint_t i : range(m)) expect(same(m.safe[i], 0.0)); auto n = circular_mask({{3,3}}, 1.0, 1.0, 8.0); for (uint_t i : range(n)) expect(same(n.safe[i], 0.0)); }
    void mask_centered(uint_t k) { k = each(k, 0, 3); double r = 0.5*k + 0.25; auto m = circular_mask({{3,4}}, r), n = circular_mask({{3,4}}, r, 1.5, 2.0); expect(m.dims == n.dims); for (uint_t i : range(m)) expect(same(m.safe[i], n.safe[i])); }
}
