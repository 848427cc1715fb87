#include "use.hpp"
// Laws of interpolation (in real arithmetic).
namespace use_interp {
    void h_up(const vec1d& v) { for (uint_t i : range(v)) require(is_finite(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] < v.safe[i]); }
    void h_finite(const vec1d& v) { for (uint_t i : range(v)) require(is_finite(v.safe[i])); }
    void raw(double y1, double y2, double x1, double x2, double x) { require(x1 < x2); expect(same(interpolate(y1, y2, x1, x2, x), y1 + (y2-y1)*(x-x1)/(x2-x1))); }
    void raw_err(double y1, double y2, double e1, double e2, double x1, double x2, double x) { require(x1 < x2); auto r = interpolate_err(y1, y2, e1, e2, x1, x2, x); expect(same(r.first, interpolate(y1, y2, x1, x2, x))); double a = (x-x1)/(x2-x1); expect(same(r.second, sqrt(e1*(1-a)*e1*(1-a) + e2*a*e2*a))); }
    void through_points(vec1d x, vec1d y, uint_t k) { k = each(k, 0, 2); require(x.dims == y.dims && x.size() >= 2 && k < x.size()); h_up(x); h_finite(y); expect(same(interpolate(y, x, x.safe[k]), y.safe[k])); }
    void between_points(vec1d x, vec1d y, double p, uint_t k) { k = each(k, 0, 1); require(x.dims == y.dims && k+1 < x.size()); h_up(x); h_finite(y); require(x.safe[k] < p && p < x.safe[k+1]); expect(same(interpolate(y, x, p), y.safe[k] + (y.safe[k+1]-y.safe[k])*(p-x.safe[k])/(x.safe[k+1]-x.safe[k]))); }
    void below(vec1d x, vec1d y, double p) { require(x.dims == y.dims && x.size() >= 2); h_up(x); h_finite(y); require(p < x.safe[0]); expect(same(interpolate(y, x, p), y.safe[0] + (y.safe[1]-y.safe[0])*(p-x.safe[0])/(x.safe[1]-x.safe[0]))); }
    void above(vec1d x, vec1d y, double p) { require(x.dims == y.dims && x.size() >= 2); uint_t n = x.size(); h_up(x); h_finite(y); require(p > x.safe[n-1]); expect(same(interpolate(y, x, p), y.safe[n-2] + (y.safe[n-1]-y.safe[n-2])*(p-x.safe[n-2])/(x.safe[n-1]-x.safe[n-2]))); }
    void many_is_each(vec1d x, vec1d y, double p, double q) { require(x.dims == y.dims && x.size() >= 2); h_up(x); h_finite(y); require(is_finite(p) && is_finite(q)); auto r = interpolate(y, x, vec1d{p, q}); expect(r.size() == 2); expect(same(r.safe[0], interpolate(y, x, p))); expect(same(r.safe[1], interpolate(y, x, q))); }
    void with_errors(vec1d x, vec1d y, vec1d e, double p) { require(x.dims == y.dims && x.dims == e.dims && x.size() == 2); h_up(x); h_finite(y); h_finite(e); require(is_finite(p)); auto r = interpolate(y, e, x, vec1d{p}); expect(r.first.size() == 1 && r.second.size() == 1); expect(same(r.first.safe[0], interpolate(y, x, p))); double a = (p-x.safe[0])/(x.safe[1]-x.safe[0]); expect(same(r.second.safe[0], sqrt(e.safe[0]*(1-a)*e.safe[0]*(1-a) + e.safe[1]*a*e.safe[1]*a))); }
    void linear_is_exact(vec1d x, double a, double b, double p) { require(x.size() >= 2); h_up(x); require(is_finite(a) && is_finite(b) && is_finite(p)); vec1d y = a*x + b; expect(same(interpolate(y, x, p), a*p + b)); }
    void spline_through_points(vec1d x, vec1d y, uint_t k) { k = each(k, 0, 2); require(x.dims == y.dims && x.size() >= 2 && k < x.size()); h_up(x); h_finite(y); expect(same(interpolate_3spline(y, x, x.safe[k]), y.safe[k])); }
    void spline_linear_is_exact(vec1d x, double a, double b, double p) { require(x.size() >= 2); h_up(x); require(is_finite(a) && is_finite(b) && is_finite(p)); vec1d y = a*x + b; expect(same(interpolate_3spline(y, x, p), a*p + b)); }
    void spline_many_is_each(vec1d x, vec1d y, double p, double q) { require(x.dims == y.dims && x.size() >= 2); h_up(x); h_finite(y); require(is_finite(p) && is_finite(q)); auto r = interpolate_3spline(y, x, vec1d{p, q}); expect(r.size() == 2); expect(same(r.safe[0], interpolate_3spline(y, x, p))); expect(same(r.safe[1], interpolate_3spline(y, x, q))); }
    void spline_continuous(vec1d x, vec1d y, double p) { require(x.dims == y.dims && x.size() == 3); h_up(x); h_finite(y); require(x.safe[0] < p && p < x.safe[1]);
        // the pieces on both sides of the middle point meet there, so mirrored data give mirrored values
        vec1d xr = {-x.safe[2], -x.safe[1], -x.safe[0]}; vec1d yr = {y.safe[2], y.safe[1], y.safe[0]}; expect(same(interpolate_3spline(y, x, p), interpolate_3spline(yr, xr, -p))); }
    void bilinear_corners(double a, double b, double c, double d) { expect(same(bilinear(a, b, c, d, 0.0, 0.0), a)); expect(same(bilinear(a, b, c, d, 0.0, 1.0), b)); expect(same(bilinear(a, b, c, d, 1.0, 0.0), c)); expect(same(bilinear(a, b, c, d, 1.0, 1.0), d)); }
    void bilinear_blend(double a, double b, double c, double d, double x, double y) { expect(same(bilinear(a, b, c, d, x, y), a*(1-x)*(1-y) + b*(1-x)*y + c*x*(1-y) + d*x*y)); }
    void bilinear_pixels(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(m.dims[0] >= 2 && m.dims[1] >= 2 && i < m.dims[0] && j < m.dims[1]); expect(same(bilinear(m, double(i), double(j)), m.safe(i,j))); }
    void bilinear_strict_pixels(vec2d m, uint_t i, uint_t j) { i = each(i, 0, 2); j = each(j, 0, 2); require(i+1 < m.dims[0] && j+1 < m.dims[1]); expect(same(bilinear_strict(m, double(i), double(j)), m.safe(i,j))); }
    void bilinear_strict_outside(vec2d m, double d) { require(m.dims[0] >= 2 && m.dims[1] >= 2); expect(same(bilinear_strict(m, -1.0, 0.0, d), d)); expect(same(bilinear_strict(m, 0.0, double(m.dims[1]), d), d)); }
    void bilinear_half(vec2d m) { require(m.dims[0] >= 2 && m.dims[1] >= 2); expect(same(bilinear(m, 0.5, 0.0), 0.5*(m.safe(0,0)+m.safe(1,0)))); expect(same(bilinear(m, 0.0, 0.5), 0.5*(m.safe(0,0)+m.safe(0,1)))); }
    void with_errors_above(double a, double b, double u, double v, double e, double f, double p) { require(is_finite(a) && is_finite(b) && is_finite(p) && a < b && b < p); auto r = interpolate(vec1d{u, v}, vec1d{e, f}, vec1d{a, b}, vec1d{p}); double w = (p-a)/(b-a); expect(same(r.first[0], u + (v-u)*w)); expect(same(r.second[0], sqrt(e*(1-w)*e*(1-w) + f*w*f*w))); }
    void with_errors_below(double a, double b, double c, double u, double v, double e, double f, double p) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(p) && a < b && b < c && p < a); auto r = interpolate(vec1d{u, v, 0.0}, vec1d{e, f, 0.0}, vec1d{a, b, c}, vec1d{p}); double w = (p-a)/(b-a); expect(same(r.first[0], u + (v-u)*w)); expect(same(r.second[0], sqrt(e*(1-w)*e*(1-w) + f*w*f*w))); }
    void with_errors_last(double a, double b, double c, double u, double v, double e, double f, double p) { require(is_finite(a) && is_finite(b) && is_finite(c) && is_finite(p) && a < b && b < c && b < p); auto r = interpolate(vec1d{0.0, u, v}, vec1d{0.0, e, f}, vec1d{a, b, c}, vec1d{p}); double w = (p-b)/(c-b); expect(same(r.first[0], u + (v-u)*w)); expect(same(r.second[0], sqrt(e*(1-w)*e*(1-w) + f*w*f*w))); }
    void bilinear_beyond(double a, double b, double c, double d) { vec2d m(2,2); m.safe(0,0) = a; m.safe(0,1) = b; m.safe(1,0) = c; m.safe(1,1) = d;
        expect(same(bilinear(m, -0.5, 0.0), 1.5*a - 0.5*c)); expect(same(bilinear(m, 0.0, -0.5), 1.5*a - 0.5*b)); expect(same(bilinear(m, 1.5, 0.0), 1.5*c - 0.5*a)); expect(same(bilinear(m, 0.0, 1.5), 1.5*b - 0.5*a)); expect(same(bilinear(m, -1.0, 1.5), 2*(1.5*b - 0.5*a) - (1.5*d - 0.5*c))); }
    void bilinear_strict_half(double a, double b, double c, double d) { vec2d m(3,3); m.safe(1,1) = a; m.safe(1,2) = b; m.safe(2,1) = c; m.safe(2,2) = d; expect(same(bilinear_strict(m, 1.25, 1.5), 0.5*(0.75*a + 0.25*c) + 0.5*(0.75*b + 0.25*d))); }
    double h_grid(double a, double b, double c, double d, double p) { return interpolate_3spline(vec1d{a, b, c, d}, p); }
    void grid_through_points(double a, double b, double c, double d) { vec1d y = {a, b, c, d}; for (uint_t k : range(y)) expect(same(h_grid(a, b, c, d, double(k)), y.safe[k])); }
    void grid_mirror(double a, double b, double c, double d) { expect(same(h_grid(a, b, c, d, 0.5), h_grid(d, c, b, a, 2.5))); expect(same(h_grid(a, b, c, d, 1.25), h_grid(d, c, b, a, 1.75))); expect(same(h_grid(a, b, c, d, -1.0), h_grid(d, c, b, a, 4.0))); expect(same(h_grid(a, b, c, d, -0.5), h_grid(d, c, b, a, 3.5))); }
    void grid_beyond(double a, double b, double c, double d) { double l = h_grid(a, b, c, d, -1.0), r = h_grid(a, b, c, d, 4.0); expect(same(h_grid(a, b, c, d, -2.0) - a, 2*(l - a))); expect(same(h_grid(a, b, c, d, 5.0) - d, 2*(r - d))); }
    void grid_linear(double s, double t) { for (double p : {-1.0, 0.5, 1.25, 2.75, 3.0, 5.0}) expect(same(h_grid(t, s+t, 2*s+t, 3*s+t, p), s*p + t)); }
    void grid_is_spline(double a, double b, double c, double d) { for (double p : {-1.0, 0.5, 1.25, 2.75, 3.0, 5.0}) expect(same(h_grid(a, b, c, d, p), interpolate_3spline(vec1d{a, b, c, d}, vec1d{0.0, 1.0, 2.0, 3.0}, p))); }
    void grid_many_is_each(double a, double b, double c, double d) { vec1d p = {-1.0, 0.5, 1.25, 2.75, 3.0, 5.0}; auto r = interpolate_3spline(vec1d{a, b, c, d}, p); expect(r.dims == p.dims); for (uint_t i : range(p)) expect(same(r.safe[i], h_grid(a, b, c, d, p.safe[i]))); }
    double h_spline(double a, double b, double c, double d, double p) { return interpolate_3spline(vec1d{a, b, c, d}, vec1d{0.0, 1.0, 3.0, 4.0}, p); }
    double h_turned(double a, double b, double c, double d, double p) { return interpolate_3spline(vec1d{a, b, c, d}, vec1d{0.0, 3.0, 4.0, 6.0}, p); }
    void spline_mirror(double a, double b, double c, double d) { for (double p : {-1.0, 0.5, 1.25, 2.75, 3.5, 5.0}) expect(same(h_spline(a, b, c, d, p), h_spline(d, c, b, a, 4.0-p))); }
    void spline_mirror_uneven(double a, double b, double c, double d) { for (double p : {-1.0, 0.5, 3.5, 4.25, 5.5, 7.0}) expect(same(h_turned(a, b, c, d, p), interpolate_3spline(vec1d{d, c, b, a}, vec1d{0.0, 2.0, 3.0, 6.0}, 6.0-p))); }
    void spline_beyond(double a, double b, double c, double d) { double l = h_turned(a, b, c, d, -1.0), r = h_turned(a, b, c, d, 7.0); expect(same(h_turned(a, b, c, d, -2.0) - a, 2*(l - a))); expect(same(h_turned(a, b, c, d, 8.0) - d, 2*(r - d))); }
    void spline_shift(double a, double b, double c, double d) { for (double p : {-1.0, 0.5, 3.5, 4.25, 5.5, 7.0}) expect(same(h_turned(a, b, c, d, p), interpolate_3spline(vec1d{a, b, c, d}, vec1d{0.0, 6.0, 8.0, 12.0}, 2*p))); }
    // smooth: around an inner point, the second differences of the two pieces agree
    void spline_three(double a, double b, double c) { expect(same(interpolate_3spline(vec1d{a, b, c}, vec1d{0.0, 1.0, 2.0}, 0.5), 0.40625*a + 0.6875*b - 0.09375*c)); }
    void bicubic_outside(double d) { vec2d w(5,6); for (double p : {-1.0, 0.0, 0.5, 3.0, 3.5, 7.0}) expect(same(bicubic_strict(w, p, 2.0, d), d)); for (double p : {-1.0, 0.0, 0.5, 4.0, 4.5, 7.0}) expect(same(bicubic_strict(w, 2.0, p, d), d)); }
    void range_ends(double a, double b, uint_t n) { n = each(n, 2, 4); auto r = rgen(a, b, n); expect(r.size() == n); expect(same(r.safe[0], a)); expect(same(r.safe[n-1], b)); for (uint_t i = 1; i < n; ++i) expect(same(r.safe[i]-r.safe[i-1], (b-a)/(n-1))); }
    void range_one(double a, double b) { auto r = rgen(a, b, 1); expect(r.size() == 1); expect(same(r.safe[0], a)); }
}
