#include "use.hpp"
using namespace vif::astro;
namespace use_astro {
    double h_haversine(double r1, double d1, double r2, double d2) { double a = sin(0.5*(r2 - r1)), b = sin(0.5*(d2 - d1)); return b*b + a*a*cos(d1)*cos(d2); }
    void distance_radian(double r1, double d1, double r2, double d2) { double q = angdistr(r1, d1, r2, d2); expect(same(q, 2.0*asin(sqrt(h_haversine(r1, d1, r2, d2))))); }
    void distance_arcsec(double r1, double d1, double r2, double d2) { double k = dpi/180.0; expect(same(angdist(r1, d1, r2, d2), 2.0*asin(sqrt(h_haversine(k*r1, k*d1, k*r2, k*d2)))*3600.0/k)); }
    void distance_vector(vec1d r1, vec1d d1, vec1d r2, vec1d d2) { require(r1.size() == d1.size() && r1.size() == r2.size() && r1.size() == d2.size()); auto q = angdist(r1, d1, r2, d2); expect(q.size() == r1.size()); for (uint_t i : range(r1)) expect(same(q.safe[i], angdist(r1.safe[i], d1.safe[i], r2.safe[i], d2.safe[i]))); }
    void distance_point(vec1d r1, vec1d d1, double r2, double d2) { require(r1.size() == d1.size()); auto q = angdist(r1, d1, r2, d2); expect(q.size() == r1.size()); for (uint_t i : range(r1)) expect(same(q.safe[i], angdist(r1.safe[i], d1.safe[i], r2, d2))); }
    void distance_within_known(uint_t k) { vec1d r = {0.0, 1.0, 359.0, 2.0}, d = {60.0, 60.0, 60.0, 60.0}; auto q = angdist_less(r, d, 0.0, 60.0, 1900.0); expect(q.safe[0] && q.safe[1] && q.safe[2] && !q.safe[3]); q = angdist_less(r, d, 0.0, 60.0, 1700.0); expect(q.safe[0] && !q.safe[1] && !q.safe[2] && !q.safe[3]); }
    void distance_known(uint_t k) { double x = angdist(10.0, 60.0, 11.0, 60.0); expect(x > 1799.0 && x < 1801.0); x = angdist(10.0, -1.0, 10.0, 1.5); expect(x > 8999.9 && x < 9000.1); x = angdist(359.5, 0.0, 0.5, 0.0); expect(x > 3599.9 && x < 3600.1); }
    void distance_within(vec1d r1, vec1d d1, double r2, double d2, double x) { require(r1.size() == d1.size()); auto q = angdist_less(r1, d1, r2, d2, x); expect(q.size() == r1.size()); double k = dpi/180.0, s = sin(0.5*k*x/3600.0); for (uint_t i : range(r1)) { double h = h_haversine(k*r1.safe[i], k*d1.safe[i], k*r2, k*d2); expect(q.safe[i] == (h < s*s)); } }
    void moved(double r, double d, double x, double y) { double a = r, b = d; move_ra_dec(a, b, x, y); expect(same(b, d + y/3600.0)); expect(same(a, r + x/3600.0/cos(d*dpi/180.0))); }
    void moved_vector(vec1d r, vec1d d, double x, double y) { require(r.size() == d.size()); vec1d a = r, b = d; move_ra_dec(a, b, x, y); expect(a.size() == r.size() && b.size() == d.size()); for (uint_t i : range(r)) { expect(same(b.safe[i], d.safe[i] + y/3600.0)); expect(same(a.safe[i], r.safe[i] + x/3600.0/cos(d.safe[i]*dpi/180.0))); } }
    void normal_kept(double r, double d) { require(d >= -90.0 && d <= 90.0 && r >= 0.0 && r <= 360.0); double a = r, b = d; normalize_coordinates(a, b); expect(same(a, r) && same(b, d)); }
    void normal_wraps(double r, double d) { require(d >= -90.0 && d <= 90.0 && r < 0.0); require(r + 360.0 >= 0.0 && r + 360.0 <= 360.0); double a = r, b = d; normalize_coordinates(a, b); expect(same(a, r + 360.0) && same(b, d)); }
    void normal_unwraps(double r, double d) { require(d >= -90.0 && d <= 90.0 && r > 360.0); require(r - 360.0 >= 0.0 && r - 360.0 <= 360.0); double a = r, b = d; normalize_coordinates(a, b); expect(same(a, r - 360.0) && same(b, d)); }
    void normal_pole(double r, double d) { require(d > 90.0 && 180.0 - d >= -90.0 && 180.0 - d <= 90.0); require(r >= 0.0 && r <= 360.0 && r + 180.0 >= 0.0 && r + 180.0 <= 360.0); double a = r, b = d; normalize_coordinates(a, b); expect(same(b, 180.0 - d)); expect(same(a, r + 180.0)); }
    void normal_south(double r, double d) { require(d < -90.0 && -180.0 - d <= 90.0 && -180.0 - d >= -90.0); require(r >= 0.0 && r + 180.0 >= 0.0 && r + 180.0 <= 360.0); double a = r, b = d; normalize_coordinates(a, b); expect(same(b, -180.0 - d)); expect(same(a, r + 180.0)); }
    void normal_vector(vec1d r, vec1d d) { require(r.size() == d.size()); for (uint_t i : range(r)) require(d.safe[i] >= -90.0 && d.safe[i] <= 90.0 && r.safe[i] < 0.0 && r.safe[i] + 360.0 >= 0.0 && r.safe[i] + 360.0 <= 360.0); vec1d a = r, b = d; normalize_coordinates(a, b); for (uint_t i : range(r)) expect(same(a.safe[i], r.safe[i] + 360.0) && same(b.safe[i], d.safe[i])); }

    void flux_roundtrip(double z, double d, double l, double x) { expect(same(uJy2lsun(z, d, l*(1.0 + z), lsun2uJy(z, d, l, x)), x)); }
    void flux_value(double d, double l, double x) { double m = 3.0856e22; expect(same(uJy2lsun(0.0, d, l, x)*l*3.839e26*1e32, x*d*d*2.9979e14*4.0*dpi*m*m)); }
    void magnitude_roundtrip(double x, double zp) { expect(same(uJy2mag(mag2uJy(x, zp), zp), x)); expect(same(uJy2mag(mag2uJy(x)), x)); }
    void magnitude_zero(double zp) { expect(same(mag2uJy(zp, zp), 1.0)); expect(same(uJy2mag(1.0, zp), zp)); expect(same(mag2uJy(23.9), 1.0)); }
    void magnitude_step(double x) { expect(same(mag2uJy(x - 2.5, x), 10.0)); }
    void luminosity_magnitude(double l, double x, double zp) { require(l > 0 && x > 0 && is_finite(l) && is_finite(x)); expect(same(lsun2mag(l, x, zp), uJy2mag(lsun2uJy(0.0, 1e-5, l, x), zp))); }
    void magnitude_luminosity(double l, double x, double zp) { require(l > 0 && is_finite(l)); expect(same(lsun2mag(l, mag2lsun<double,double>(l, x, zp), zp), x)); }
    void cgs_roundtrip(double l, double x) { expect(same(cgs2uJy(l*1e4, uJy2cgs(l, x)), x)); }
    void cgs_value(double l, double x) { expect(same(uJy2cgs(l, x)*l*l, x*2.9979e-19)); }
    void flux_vector(vec1d x) { auto m = uJy2mag(x); auto f = mag2uJy(x); auto g = uJy2cgs(2.0, x); expect(m.size() == x.size() && f.size() == x.size() && g.size() == x.size()); for (uint_t i : range(x)) { expect(same(m.safe[i], uJy2mag(x.safe[i]))); expect(same(f.safe[i], mag2uJy(x.safe[i]))); expect(same(g.safe[i], uJy2cgs(2.0, x.safe[i]))); } }
    void named_cosmology(bool b) { auto s = get_cosmo("std"), w = get_cosmo("wmap"), p = get_cosmo("plank"); expect(s.H0 == 70.0 && s.wL == 0.7 && s.wm == 0.3 && s.wk == 0.0); expect(w.H0 == 70.0 && w.wL == 0.73 && w.wm == 0.27 && w.wk == 0.0); expect(p.H0 == 67.8 && p.wL == 0.692 && p.wm == 0.308 && p.wk == 0.0); }
    void nearby_universe(double z) { require(z <= 0); auto c = get_cosmo("std"); expect(lumdist(z, c) == 0.0 && lookback_time(z, c) == 0.0 && vuniverse(z, c) == 0.0); }

    // integral of the product of two piecewise linear curves, on the union of their nodes
    double h_at(const vec1d& l, const vec1d& r, double x) { for (uint_t i = 0; i+1 < l.size(); ++i) if (x >= l.safe[i] && x <= l.safe[i+1]) return r.safe[i] + (r.safe[i+1] - r.safe[i])*(x - l.safe[i])/(l.safe[i+1] - l.safe[i]); return 0; }
    double h_flux(const vec1d& n, const vec1d& fl, const vec1d& fr, const vec1d& l, const vec1d& s) { double q = 0; for (uint_t i = 0; i+1 < n.size(); ++i) q += 0.5*(n.safe[i+1] - n.safe[i])*(h_at(fl, fr, n.safe[i])*h_at(l, s, n.safe[i]) + h_at(fl, fr, n.safe[i+1])*h_at(l, s, n.safe[i+1])); return q; }
    void flux_same_grid(double a, double b, double c, double p, double q, double r) { vec1d l = {1,2,4}, f = {a,b,c}, s = {p,q,r}; expect(same(sed2flux(l, f, l, s), h_flux(l, l, f, l, s))); }
    void flux_fine_filter(double a, double b, double c, double p, double q) { vec1d l = {1,2,4}, f = {a,b,c}, m = {0,8}, s = {p,q}; expect(same(sed2flux(l, f, m, s), h_flux(l, l, f, m, s))); }
    void flux_fine_sed(double a, double b, double p, double q, double r, double t, double u) { vec1d l = {2,6}, f = {a,b}, m = {0,3,4,5,8}, s = {p,q,r,t,u}, n = {2,3,4,5,6}; expect(same(sed2flux(l, f, m, s), h_flux(n, l, f, m, s))); }
    void flux_mixed_grid(double a, double b, double c, double p, double q, double r) { vec1d l = {2,3,6}, f = {a,b,c}, m = {1,4,7}, s = {p,q,r}, n = {2,3,4,6}; expect(same(sed2flux(l, f, m, s), h_flux(n, l, f, m, s))); }
    void flux_shared_node(double a, double b, double c, double p, double q, double r) { vec1d l = {2,4,6}, f = {a,b,c}, m = {1,4,7}, s = {p,q,r}, n = {2,4,6}; expect(same(sed2flux(l, f, m, s), h_flux(n, l, f, m, s))); }
    void flux_not_covered(double a, double b, double p, double q) { vec1d f = {a,b}, s = {p,q}; expect(is_nan(sed2flux(vec1d{1,3}, f, vec1d{2,4}, s)) && is_nan(sed2flux(vec1d{1,3}, f, vec1d{0,2}, s)) && is_nan(sed2flux(vec1d{1,3}, f, vec1d{4,5}, s)) && is_nan(sed2flux(vec1d{6,7}, f, vec1d{4,5}, s))); }
    void flux_rows(double a, double b, double p, double q, double r, double t) { filter_t f; f.lam = {1,2}; f.res = {a,b}; vec2d l = {{0,3},{1,2}}, s = {{p,q},{r,t}}; vec1d x = sed2flux(f, l, s); expect(x.size() == 2); expect(same(x.safe[0], sed2flux(f, vec1d{0,3}, vec1d{p,q})) && same(x.safe[1], sed2flux(f.lam, f.res, vec1d{1,2}, vec1d{r,t}))); }
    void subtracted_column(vec2d m, double a, double b, double c, double f, int_t i, int_t j) { i = each(i, -1, 3); j = each(j, -1, 3); vec2d k(3,1); k.safe[0] = a; k.safe[1] = b; k.safe[2] = c; vec2d o = m; srcsub(m, k, f, {i, j}); expect(m.dims == o.dims); for (int_t x = 0; x < int_t(o.dims[0]); ++x) for (int_t y = 0; y < int_t(o.dims[1]); ++y) { int_t d = x - i + 1; if (y == j && d >= 0 && d < 3) expect(same(m.safe(x,y), o.safe(x,y) - f*k.safe[d])); else expect(same(m.safe(x,y), o.safe(x,y))); } }
    void subtracted_row(vec2d m, double a, double b, double c, double f, int_t i, int_t j) { i = each(i, -1, 3); j = each(j, -1, 3); vec2d k(1,3); k.safe[0] = a; k.safe[1] = b; k.safe[2] = c; vec2d o = m; srcsub(m, k, f, {i, j}); expect(m.dims == o.dims); for (int_t x = 0; x < int_t(o.dims[0]); ++x) for (int_t y = 0; y < int_t(o.dims[1]); ++y) { int_t d = y - j + 1; if (x == i && d >= 0 && d < 3) expect(same(m.safe(x,y), o.safe(x,y) - f*k.safe[d])); else expect(same(m.safe(x,y), o.safe(x,y))); } }
    void luminosity_range(double p, double q, double r, double s) { vec1d l = {1,2,4,8}, v = {p,q,r,s}; expect(same(sed_luminosity(l, v, 2.0, 4.0), 0.5*2.0*(q/2.0 + r/4.0) + (r/4.0 + s/8.0)*2.0)); expect(is_nan(sed_luminosity(l, v, 0.5, 4.0)) && is_nan(sed_luminosity(l, v, 2.0, 9.0))); }
    void rotated(double r, double d, double e) { double k = dpi/180.0; vec1d a = {r}, b = {d}, x, y; angrot_vernal(a, b, e, x, y); expect(x.size() == 1 && y.size() == 1); r = r*dpi/180.0; d = d*dpi/180.0; e *= k; expect(same(y.safe[0], asin(sin(d)*cos(e) + cos(d)*sin(r)*sin(e))/k)); double q = atan2(cos(e)*(cos(d)*sin(r)) - sin(e)*sin(d), cos(d)*cos(r))*(180/dpi); if (q < 0) q += 360.0; expect(same(x.safe[0], q)); }
    void vernal(double t) { for (double a : {30.0, 90.0, 150.0}) for (double d : {10.0, -40.0}) expect(abs(vernal_angle(360.0 - a, d) + vernal_angle(a, d)) < 1e-6); expect(abs(vernal_angle(90.0, 30.0) - 30.0) < 1e-6 && abs(vernal_angle(90.0, -20.0) + 20.0) < 1e-6); }
    void normal_turns(double d, int_t k, int_t i) { k = each(k, -3, 3); i = each(i, 0, 3); require(d >= -90.0 && d <= 90.0); double r = 10.0 + 100.0*i, a = r + 360.0*k, b = d; normalize_coordinates(a, b); expect(same(a, r) && same(b, d)); }
    void normal_polar_turns(int_t k, int_t i) { k = each(k, -2, 2); i = each(i, 0, 3); double p = 10.0 + 50.0*i, a = p + 360.0*k, b = 100.0; normalize_coordinates(a, b); expect(same(a, p + 180.0) && same(b, 80.0)); a = p + 360.0*k; b = -130.0; normalize_coordinates(a, b); expect(same(a, p + 180.0) && same(b, -50.0)); a = p + 360.0*k; b = 370.0; normalize_coordinates(a, b); expect(same(a, p) && same(b, 10.0)); }
}
