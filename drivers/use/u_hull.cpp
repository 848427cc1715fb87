#include "use.hpp"
#include <vif/math/convex_hull.hpp>
// Laws of convex hulls, for points on small grids.
namespace use_hull {
    convex_hull<double> h_box(bool ccw) { if (ccw) return convex_hull<double>(vec1d{0, 2, 2, 0, 0}, vec1d{0, 0, 3, 3, 0}); return convex_hull<double>(vec1d{0, 0, 2, 2, 0}, vec1d{0, 3, 3, 0, 0}); }
    convex_hull<double> h_triangle(bool ccw) { if (ccw) return convex_hull<double>(vec1d{0, 4, 0, 0}, vec1d{0, 0, 4, 0}); return convex_hull<double>(vec1d{0, 0, 4, 0}, vec1d{0, 4, 0, 0}); }
    double h_cross(double ax, double ay, double bx, double by, double cx, double cy) { return (bx-ax)*(cy-ay) - (by-ay)*(cx-ax); }
    void h_inside_box(bool o, uint_t i, uint_t j) { double x = 0.5*i - 0.5, y = 0.5*j - 0.5; expect(in_convex_hull(x, y, h_box(o)) == (x >= 0 && x <= 2 && y >= 0 && y <= 3)); expect(in_convex_hull(vec1d{9, x}, vec1d{1, y}, h_box(o)).safe[1] == (x >= 0 && x <= 2 && y >= 0 && y <= 3)); expect(!in_convex_hull(vec1d{9, x}, vec1d{1, y}, h_box(o)).safe[0]); }
    void inside_box_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 8); h_inside_box(true, i, j); }
    void inside_box_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 8); h_inside_box(true, i, j); }
    void inside_box_2(uint_t i, uint_t j) { i = each(i, 4, 5); j = each(j, 0, 8); h_inside_box(true, i, j); }
    void inside_box_3(uint_t i, uint_t j) { i = each(i, 6, 6); j = each(j, 0, 8); h_inside_box(true, i, j); }
    void inside_box_reversed_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 8); h_inside_box(false, i, j); }
    void inside_box_reversed_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 8); h_inside_box(false, i, j); }
    void inside_box_reversed_2(uint_t i, uint_t j) { i = each(i, 4, 5); j = each(j, 0, 8); h_inside_box(false, i, j); }
    void inside_box_reversed_3(uint_t i, uint_t j) { i = each(i, 6, 6); j = each(j, 0, 8); h_inside_box(false, i, j); }
    void h_inside_triangle(bool o, uint_t i, uint_t j) { double x = 1.0*i - 1.0, y = 1.0*j - 1.0; expect(in_convex_hull(x, y, h_triangle(o)) == (x >= 0 && y >= 0 && x + y <= 4)); expect(in_convex_hull(vec1d{x}, vec1d{y}, h_triangle(o)).safe[0] == (x >= 0 && y >= 0 && x + y <= 4)); }
    void inside_triangle(uint_t i, uint_t j) { i = each(i, 0, 6); j = each(j, 0, 6); h_inside_triangle(true, i, j); }
    void inside_triangle_reversed(uint_t i, uint_t j) { i = each(i, 0, 6); j = each(j, 0, 6); h_inside_triangle(false, i, j); }
    // signed distance to the closest side or corner of the box
    double h_box_distance(double x, double y) { double dx = x < 0 ? -x : (x > 2 ? x-2 : 0), dy = y < 0 ? -y : (y > 3 ? y-3 : 0); if (dx > 0 || dy > 0) return -sqrt(dx*dx + dy*dy); double a = x < 2-x ? x : 2-x, b = y < 3-y ? y : 3-y; return a < b ? a : b; }
    bool h_close(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }
    void h_distance(bool o, uint_t i, uint_t j) { double x = 1.0*i - 1.5, y = 1.0*j - 1.5, d = h_box_distance(x, y); expect(h_close(convex_hull_distance(x, y, h_box(o)), d)); auto r = convex_hull_distance(vec1d{1, x}, vec1d{1, y}, h_box(o)); expect(h_close(r.safe[0], 1.0) && h_close(r.safe[1], d)); }
    void distance_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 6); h_distance(true, i, j); }
    void distance_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 6); h_distance(true, i, j); }
    void distance_2(uint_t i, uint_t j) { i = each(i, 4, 5); j = each(j, 0, 6); h_distance(true, i, j); }
    void distance_reversed_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 6); h_distance(false, i, j); }
    void distance_reversed_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 6); h_distance(false, i, j); }
    void distance_reversed_2(uint_t i, uint_t j) { i = each(i, 4, 5); j = each(j, 0, 6); h_distance(false, i, j); }
    void distance_corner(uint_t k) { expect(same(convex_hull_distance(-3.0, -4.0, h_box(true)), -5.0)); expect(same(convex_hull_distance(5.0, 7.0, h_box(true)), -5.0)); expect(same(convex_hull_distance(5.0, -4.0, h_box(false)), -5.0)); }
    // the hull of some points: closed, strictly convex, counter-clockwise, made of some of the points and containing all of them
    void h_hull(const vec1d& x, const vec1d& y) {
        auto h = build_convex_hull(x, y); uint_t n = h.size(); expect(n >= 4 && n <= x.size()+1 && h.y.size() == n);
        expect(h.x.safe[0] == h.x.safe[n-1] && h.y.safe[0] == h.y.safe[n-1]);
        for (uint_t i : range(n-1)) { bool f = false; for (uint_t k : range(x)) if (x.safe[k] == h.x.safe[i] && y.safe[k] == h.y.safe[i]) f = true; expect(f);
            uint_t j = i+2 < n ? i+2 : 1; expect(h_cross(h.x.safe[i], h.y.safe[i], h.x.safe[i+1], h.y.safe[i+1], h.x.safe[j], h.y.safe[j]) > 0);
            for (uint_t k : range(x)) expect(h_cross(h.x.safe[i], h.y.safe[i], h.x.safe[i+1], h.y.safe[i+1], x.safe[k], y.safe[k]) >= 0); }
        for (uint_t k : range(x)) expect(in_convex_hull(x.safe[k], y.safe[k], h)); }
    void hull_of_three(uint_t i, uint_t j) { i = each(i, 0, 3); j = each(j, 0, 3); require(i != j); h_hull(vec1d{1.0*i, 2, 1.0*j}, vec1d{0, 3, 1.0*(i > j ? 1 : 0)}); }
    void hull_of_four_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 4); h_hull(vec1d{0, 1.0*i, 4, 1}, vec1d{1, 1.0*j, 2, 4}); }
    void hull_of_four_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 4); h_hull(vec1d{0, 1.0*i, 4, 1}, vec1d{1, 1.0*j, 2, 4}); }
    void hull_of_four_2(uint_t i, uint_t j) { i = each(i, 4, 4); j = each(j, 0, 4); h_hull(vec1d{0, 1.0*i, 4, 1}, vec1d{1, 1.0*j, 2, 4}); }
    void hull_of_five_0(uint_t i, uint_t j) { i = each(i, 0, 1); j = each(j, 0, 4); h_hull(vec1d{2, 4, 0, 1.0*i, 2}, vec1d{4, 2, 2, 1.0*j, 0}); }
    void hull_of_five_1(uint_t i, uint_t j) { i = each(i, 2, 3); j = each(j, 0, 4); h_hull(vec1d{2, 4, 0, 1.0*i, 2}, vec1d{4, 2, 2, 1.0*j, 0}); }
    void hull_of_five_2(uint_t i, uint_t j) { i = each(i, 4, 4); j = each(j, 0, 4); h_hull(vec1d{2, 4, 0, 1.0*i, 2}, vec1d{4, 2, 2, 1.0*j, 0}); }
    void hull_of_grid(uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); h_hull(vec1d{0, 2, 2, 1.0*i, 0, 1}, vec1d{0, 0, 2, 1.0*j, 2, 1}); }
    void hull_of_repeated(uint_t i) { i = each(i, 0, 2); vec1d x = {0, 3, 0}, y = {0, 1, 2}; vec1d u = {0, 3, 0, x.safe[i]}, v = {0, 1, 2, y.safe[i]}; h_hull(u, v); expect(build_convex_hull(u, v).size() == 4); }
    void hull_drops(uint_t k) { auto h = build_convex_hull(vec1d{0, 1, 2, 2, 1, 0}, vec1d{0, 1, 0, 2, 2, 2}); expect(h.size() == 5); }
    void rejects_open(uint_t k) { in_convex_hull(1.0, 1.0, convex_hull<double>(vec1d{0, 2, 2, 0}, vec1d{0, 0, 3, 3})); }
    void rejects_open_many(uint_t k) { in_convex_hull(vec1d{1}, vec1d{1}, convex_hull<double>(vec1d{0, 2, 2, 0}, vec1d{0, 0, 3, 3})); }
    void rejects_open_distance(uint_t k) { convex_hull_distance(1.0, 1.0, convex_hull<double>(vec1d{0, 2, 2, 0}, vec1d{0, 0, 3, 3})); }
    void rejects_two_points(uint_t k) { convex_hull<double>(vec1d{0, 2}, vec1d{0, 0}); }
    void rejects_lengths(uint_t k) { convex_hull<double>(vec1d{0, 2, 2, 0}, vec1d{0, 0, 3}); }
    void rejects_point_lengths(uint_t k) { in_convex_hull(vec1d{1, 2}, vec1d{1}, h_box(true)); }
}
