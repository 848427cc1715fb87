#include "use.hpp"
// Laws of the reductions, order statistics, histograms and cumulated sums.
namespace use_reduce {
    void h_nonan(const vec1d& v) { for (uint_t i : range(v)) require(!is_nan(v.safe[i])); }
    void h_nonan2(const vec2d& v) { for (uint_t i : range(v)) require(!is_nan(v.safe[i])); }
    bool h_in(double x, const vec1d& v) { for (uint_t i : range(v)) if (v.safe[i] == x) return true; return false; }

    void total_sums(vec1d v) { double s = 0; for (uint_t i : range(v)) s += v.safe[i]; expect(same(total(v), s)); }
    void total_int(vec1i v) { int_t s = 0; for (uint_t i : range(v)) s += v.safe[i]; expect(same(total(v), s)); }
    void total_2d(vec2d v) { double s = 0; for (uint_t i : range(v)) s += v.safe[i]; expect(same(total(v), s)); }
    void total_view(vec1d v) { double s = 0; for (uint_t i : range(v)) s += v.safe[i]; expect(same(total(v[_]), s)); }
    void count_true(vec1b v) { uint_t n = 0; for (uint_t i : range(v)) if (v.safe[i]) ++n; expect(count(v) == n); }
    void count_2d(vec2b v) { uint_t n = 0; for (uint_t i : range(v)) if (v.safe[i]) ++n; expect(count(v) == n); }
    void mean_is_total_over_size(vec1d v) { require(!v.empty()); double s = 0; for (uint_t i : range(v)) s += v.safe[i]; expect(same(mean(v), s/v.size())); }
    void weighted(vec1d v, vec1d w) { require(v.dims == w.dims && !v.empty()); double s = 0, t = 0; for (uint_t i : range(v)) { s += v.safe[i]*w.safe[i]; t += w.safe[i]; } expect(same(weighted_mean(v, w), s/t)); }
    void optimal(vec1d v, vec1d e) { require(v.dims == e.dims && !v.empty()); double s = 0, t = 0; for (uint_t i : range(v)) { double w = 1.0/(e.safe[i]*e.safe[i]); s += w*v.safe[i]; t += w; } auto r = optimal_mean(v, e); expect(same(r.first, s/t)); expect(same(r.second, 1.0/sqrt(t))); }
    void fraction(vec1b v) { uint_t n = 0; for (uint_t i : range(v)) if (v.safe[i]) ++n; require(!v.empty()); expect(same(fraction_of(v), n/double(v.size()))); }
    void fraction_among(vec1b v, vec1b w) { require(v.dims == w.dims); uint_t n = 0, t = 0; for (uint_t i : range(v)) if (w.safe[i]) { ++t; if (v.safe[i]) ++n; } require(t > 0); expect(same(fraction_of(v, w), n/double(t))); }
    void rms_is_root_mean_square(vec1d v) { require(!v.empty()); double s = 0; for (uint_t i : range(v)) s += v.safe[i]*v.safe[i]; expect(same(rms(v), sqrt(s/v.size()))); }
    void stddev_is_rms_about_mean(vec1d v) { require(!v.empty()); double s = 0; for (uint_t i : range(v)) s += v.safe[i]; double m = s/v.size(); double q = 0; for (uint_t i : range(v)) { double d = v.safe[i]-m; q += d*d; } expect(same(stddev(v), sqrt(q/v.size()))); }
    void median_is_middle(vec1d v) { h_nonan(v); require(!v.empty()); double m = median(v); uint_t lo = 0, hi = 0; for (uint_t i : range(v)) { if (v.safe[i] < m) ++lo; if (v.safe[i] > m) ++hi; } expect(h_in(m, v)); expect(lo <= v.size()/2); expect(hi <= v.size()-1-v.size()/2); }
    void median_keeps_input(vec1d v) { h_nonan(v); require(!v.empty()); vec1d o = v; median(v); expect(v.dims == o.dims); for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i])); }
    void median_skips_invalid(vec1d v) { require(v.size() == 3 && is_nan(v.safe[0]) && !is_nan(v.safe[1]) && !is_nan(v.safe[2])); double m = median(v); expect(m == (v.safe[1] > v.safe[2] ? v.safe[1] : v.safe[2])); }
    void median_int(vec1i v) { require(!v.empty()); int_t m = median(v); uint_t lo = 0, hi = 0; for (uint_t i : range(v)) { if (v.safe[i] < m) ++lo; if (v.safe[i] > m) ++hi; } expect(lo <= v.size()/2); expect(hi <= v.size()-1-v.size()/2); }
    void inplace_median_is_median(vec1d v) { h_nonan(v); require(!v.empty()); vec1d o = v; double m = inplace_median(v); expect(same(m, median(o))); expect(v.dims == o.dims); }
    void percentile_zero(vec1d v) { h_nonan(v); require(!v.empty()); double m = percentile(v, 0.0); for (uint_t i : range(v)) expect(m <= v.safe[i]); expect(h_in(m, v)); }
    void percentile_one(vec1d v) { h_nonan(v); require(!v.empty()); double m = percentile(v, 1.0); for (uint_t i : range(v)) expect(m >= v.safe[i]); expect(h_in(m, v)); }
    void percentile_half(vec1d v) { h_nonan(v); require(!v.empty()); expect(same(percentile(v, 0.5), median(v))); }
    void percentile_one_invalid(vec1d v) { require(v.size() == 3 && is_nan(v.safe[1]) && !is_nan(v.safe[0]) && !is_nan(v.safe[2])); double m = percentile(v, 1.0); expect(m == (v.safe[0] > v.safe[2] ? v.safe[0] : v.safe[2])); }
    void percentiles_each(vec1d v) { h_nonan(v); require(!v.empty()); auto p = percentiles(v, 0.25, 0.5, 1.0); expect(p.size() == 3); expect(p.safe[0] == percentile(v, 0.25)); expect(p.safe[1] == median(v)); expect(p.safe[2] == max(v)); }
    void percentiles_keep_input(vec1d v) { h_nonan(v); require(!v.empty()); vec1d o = v; percentiles(v, 0.1, 0.9); for (uint_t i : range(v)) expect(same(v.safe[i], o.safe[i])); }
    void min_is_least(vec1d v) { h_nonan(v); require(!v.empty()); double m = min(v); for (uint_t i : range(v)) expect(m <= v.safe[i]); expect(h_in(m, v)); }
    void max_is_greatest(vec1d v) { h_nonan(v); require(!v.empty()); double m = max(v); for (uint_t i : range(v)) expect(m >= v.safe[i]); expect(h_in(m, v)); }
    void min_skips_invalid(vec1d v) { require(v.size() == 2 && is_nan(v.safe[0]) && !is_nan(v.safe[1])); expect(min(v) == v.safe[1]); expect(max(v) == v.safe[1]); }
    void min_skips_invalid_last(vec1d v) { require(v.size() == 2 && is_nan(v.safe[1]) && !is_nan(v.safe[0])); expect(min(v) == v.safe[0]); expect(max(v) == v.safe[0]); }
    void min_int(vec1i v) { require(!v.empty()); int_t m = min(v); for (uint_t i : range(v)) expect(m <= v.safe[i]); }
    void max_int(vec1i v) { require(!v.empty()); int_t m = max(v); for (uint_t i : range(v)) expect(m >= v.safe[i]); }
    void min_with_id(vec1d v) { h_nonan(v); require(!v.empty()); uint_t k; double m = min(v, k); expect(k < v.size()); expect(v.safe[k] == m); for (uint_t i : range(k)) expect(v.safe[i] > m); for (uint_t i : range(v)) expect(m <= v.safe[i]); }
    void max_with_id(vec1d v) { h_nonan(v); require(!v.empty()); uint_t k; double m = max(v, k); expect(k < v.size()); expect(v.safe[k] == m); for (uint_t i : range(k)) expect(v.safe[i] < m); for (uint_t i : range(v)) expect(m >= v.safe[i]); }
    void min_id_locates(vec1d v) { h_nonan(v); require(!v.empty()); uint_t k = min_id(v); expect(k < v.size()); for (uint_t i : range(v)) expect(v.safe[k] <= v.safe[i]); }
    void max_id_locates(vec1d v) { h_nonan(v); require(!v.empty()); uint_t k = max_id(v); expect(k < v.size()); for (uint_t i : range(v)) expect(v.safe[k] >= v.safe[i]); }
    void minmax_both(vec1d v) { h_nonan(v); require(!v.empty()); auto m = minmax(v); expect(m.first == min(v)); expect(m.second == max(v)); }
    void minmax_with_ids(vec1d v) { h_nonan(v); require(!v.empty()); std::pair<uint_t,uint_t> k; auto m = minmax(v, k); expect(v.safe[k.first] == m.first && v.safe[k.second] == m.second); for (uint_t i : range(v)) expect(m.first <= v.safe[i] && v.safe[i] <= m.second); }
    void minmax_ids_locate(vec1d v) { h_nonan(v); require(!v.empty()); auto k = minmax_ids(v); for (uint_t i : range(v)) expect(v.safe[k.first] <= v.safe[i] && v.safe[i] <= v.safe[k.second]); }
    void minmax_skips_invalid(vec1d v) { require(v.size() == 3 && is_nan(v.safe[0]) && !is_nan(v.safe[1]) && is_nan(v.safe[2])); auto m = minmax(v); expect(m.first == v.safe[1]); expect(m.second == v.safe[1]); }
    void mad_is_median_deviation(vec1d v) { h_nonan(v); require(v.size() == 1); expect(same(mad(v), fabs(v.safe[0] - v.safe[0]))); }
    void weighted_median_middle(vec1d v, vec1d w) { require(v.dims == w.dims && !v.empty()); h_nonan(v); for (uint_t i : range(w)) require(w.safe[i] > 0); double m = weighted_median(v, w); require(!is_nan(m)); expect(h_in(m, v)); }

    void partial_total_rows(vec2d v) { auto r = partial_total(0, v); expect(r.size() == v.dims[1]); for (uint_t j : range(r)) { double s = 0; for (uint_t i : range(v.dims[0])) s += v.safe(i,j); expect(same(r.safe[j], s)); } }
    void partial_total_columns(vec2d v) { auto r = partial_total(1, v); expect(r.size() == v.dims[0]); for (uint_t i : range(r)) { double s = 0; for (uint_t j : range(v.dims[1])) s += v.safe(i,j); expect(same(r.safe[i], s)); } }
    void partial_total_3d(vec3d v) { auto r = partial_total(1, v); expect(r.dims[0] == v.dims[0] && r.dims[1] == v.dims[2]); for (uint_t i : range(r.dims[0])) for (uint_t k : range(r.dims[1])) { double s = 0; for (uint_t j : range(v.dims[1])) s += v.safe(i,j,k); expect(same(r.safe(i,k), s)); } }
    void partial_mean_columns(vec2d v) { require(!v.empty()); auto r = partial_mean(1, v); expect(r.size() == v.dims[0]); for (uint_t i : range(r)) { double s = 0; for (uint_t j : range(v.dims[1])) s += v.safe(i,j); expect(same(r.safe[i], s/v.dims[1])); } }
    void partial_count_rows(vec2b v) { auto r = partial_count(0, v); expect(r.size() == v.dims[1]); for (uint_t j : range(r)) { uint_t s = 0; for (uint_t i : range(v.dims[0])) if (v.safe(i,j)) ++s; expect(r.safe[j] == s); } }
    void partial_max_rows(vec2d v) { h_nonan2(v); require(!v.empty()); auto r = partial_max(0, v); expect(r.size() == v.dims[1]); for (uint_t j : range(r)) for (uint_t i : range(v.dims[0])) expect(r.safe[j] >= v.safe(i,j)); }
    void partial_min_columns(vec2d v) { h_nonan2(v); require(!v.empty()); auto r = partial_min(1, v); expect(r.size() == v.dims[0]); for (uint_t i : range(r)) for (uint_t j : range(v.dims[1])) expect(r.safe[i] <= v.safe(i,j)); }
    void partial_rms_columns(vec2d v) { require(!v.empty()); auto r = partial_rms(1, v); expect(r.size() == v.dims[0]); for (uint_t i : range(r)) { double s = 0; for (uint_t j : range(v.dims[1])) s += v.safe(i,j)*v.safe(i,j); expect(same(r.safe[i], sqrt(s/v.dims[1]))); } }
    void reduce_applies(vec2d v) { auto r = reduce(1, v, [](vec1d t) { return total(t); }); expect(r.size() == v.dims[0]); for (uint_t i : range(r)) { double s = 0; for (uint_t j : range(v.dims[1])) s += v.safe(i,j); expect(same(r.safe[i], s)); } }
    void run_dim_visits_all(vec2d v) { require(!v.empty()); vec1d r(v.dims[1]); uint_t n = 0; run_dim(0, v, [&](uint_t i, vec1d t) { r.safe[i] = total(t); ++n; }); expect(n == v.dims[1]); for (uint_t j : range(r)) { double s = 0; for (uint_t i : range(v.dims[0])) s += v.safe(i,j); expect(same(r.safe[j], s)); } }

    void cumul_sums(vec1d v) { auto r = cumul(v); expect(r.dims == v.dims); double s = 0; for (uint_t i : range(v)) { s += v.safe[i]; expect(same(r.safe[i], s)); } }
    void cumul_reverse_sums(vec1d v) { auto r = cumul_reverse(v); expect(r.dims == v.dims); double s = 0; for (uint_t i : range(v)) { uint_t k = v.size()-1-i; s += v.safe[k]; expect(same(r.safe[k], s)); } }
    void integrate_trapezoids(vec1d x, vec1d y) { require(x.dims == y.dims && !x.empty()); double s = 0; for (uint_t i = 1; i < x.size(); ++i) s += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]); expect(same(integrate(x, y), s)); }
    void integrate_bins(vec1d y, double a, double b, double c) { require(y.size() == 2); vec1d e = {a, b, c}; vec2d bb = make_bins_from_edges(e); double s = 0; for (uint_t i : range(y)) s += y.safe[i]*(e.safe[i+1]-e.safe[i]); expect(same(integrate(bb, y), s)); }
    void h_rise(const vec1d& v) { for (uint_t i : range(v)) require(is_finite(v.safe[i])); for (uint_t i = 1; i < v.size(); ++i) require(v.safe[i-1] < v.safe[i]); }
    void integrate_whole(vec1d x, vec1d y) { require(x.size() == 3 && y.size() == 3); h_rise(x); expect(same(integrate(x, y, x.safe[0], x.safe[2]), integrate(x, y))); }
    void integrate_inside(vec1d x, vec1d y, double a, double b) { require(x.size() == 3 && y.size() == 3); h_rise(x); require(x.safe[0] <= a && a <= b && b < x.safe[1]); double w = x.safe[1]-x.safe[0]; double ya = y.safe[0] + (y.safe[1]-y.safe[0])*(a-x.safe[0])/w; double yb = y.safe[0] + (y.safe[1]-y.safe[0])*(b-x.safe[0])/w; expect(same(integrate(x, y, a, b), 0.5*(ya+yb)*(b-a))); }
    void integrate_across(vec1d x, vec1d y, double a, double b) { require(x.size() == 3 && y.size() == 3); h_rise(x); require(x.safe[0] <= a && a < x.safe[1] && x.safe[1] <= b && b < x.safe[2]); double ya = y.safe[0] + (y.safe[1]-y.safe[0])*(a-x.safe[0])/(x.safe[1]-x.safe[0]); double yb = y.safe[1] + (y.safe[2]-y.safe[1])*(b-x.safe[1])/(x.safe[2]-x.safe[1]); expect(same(integrate(x, y, a, b), 0.5*(ya+y.safe[1])*(x.safe[1]-a) + 0.5*(y.safe[1]+yb)*(b-x.safe[1]))); }
    void integrate_far(double p, double q, double r, double t, double u, double v, double w, double z, double a, double b) { vec1d x = {p, q, r, t}; vec1d y = {u, v, w, z}; h_rise(x); require(x.safe[0] < a && a < x.safe[1] && x.safe[2] < b && b < x.safe[3]); double ya = y.safe[0] + (y.safe[1]-y.safe[0])*(a-x.safe[0])/(x.safe[1]-x.safe[0]); double yb = y.safe[2] + (y.safe[3]-y.safe[2])*(b-x.safe[2])/(x.safe[3]-x.safe[2]); expect(same(integrate(x, y, a, b), 0.5*(ya+y.safe[1])*(x.safe[1]-a) + 0.5*(y.safe[1]+y.safe[2])*(x.safe[2]-x.safe[1]) + 0.5*(y.safe[2]+yb)*(b-x.safe[2]))); }
    void integrate_constant(vec1d x, double c, double a, double b) { require(x.size() == 3); h_rise(x); require(is_finite(c) && x.safe[0] <= a && a <= b && b < x.safe[2]); vec1d y = {c, c, c}; expect(same(integrate(x, y, a, b), c*(b-a))); }
    void integrate_nothing(vec1d x, vec1d y, double a) { require(x.size() == 3 && y.size() == 3); h_rise(x); for (uint_t i : range(y)) require(is_finite(y.safe[i])); require(x.safe[0] <= a && a < x.safe[2]); expect(same(integrate(x, y, a, a), 0.0)); }
    void integrate_hint_free(vec1d x, vec1d y, double a, double b) { require(x.size() == 3 && y.size() == 3); h_rise(x); require(x.safe[0] <= a && a <= b && b <= x.safe[2]); uint_t h = npos; expect(same(integrate_hinted(x, y, h, a, b), integrate(x, y, a, b))); expect(h < 3 && x.safe[h] <= b); }
    void integrate_hint_first(vec1d x, vec1d y, double a, double b) { require(x.size() == 3 && y.size() == 3); h_rise(x); require(x.safe[0] <= a && a <= b && b <= x.safe[2]); uint_t h = 0; expect(same(integrate_hinted(x, y, h, a, b), integrate(x, y, a, b))); }
    void integrate_hint_chain(vec1d x, vec1d y, double a, double b, double c) { require(x.size() == 3 && y.size() == 3); h_rise(x); require(x.safe[0] <= a && a <= b && b < c && c <= x.safe[2]); uint_t h = npos; double s = integrate_hinted(x, y, h, a, b); s += integrate_hinted(x, y, h, b, c); expect(same(s, integrate(x, y, a, c))); }
    void integrate_bins_whole(double p, double q, double r, double u, double v) { vec1d e = {p, q, r}; h_rise(e); vec2d b = make_bins_from_edges(e); vec1d y = {u, v}; expect(same(integrate(b, y, p, r), integrate(b, y))); }
    void integrate_bins_inside(double p, double q, double r, double u, double v, double a, double b) { vec1d e = {p, q, r}; h_rise(e); require(p <= a && a <= b && b < q); vec2d bb = make_bins_from_edges(e); vec1d y = {u, v}; expect(same(integrate(bb, y, a, b), u*(b-a))); }
    void integrate_bins_last(double p, double q, double r, double u, double v, double a, double b) { vec1d e = {p, q, r}; h_rise(e); require(q <= a && a <= b && b <= r); vec2d bb = make_bins_from_edges(e); vec1d y = {u, v}; expect(same(integrate(bb, y, a, b), v*(b-a))); }
    void integrate_bins_across(double p, double q, double r, double u, double v, double a, double b) { vec1d e = {p, q, r}; h_rise(e); require(p <= a && a < q && q <= b && b <= r); vec2d bb = make_bins_from_edges(e); vec1d y = {u, v}; expect(same(integrate(bb, y, a, b), u*(q-a) + v*(b-q))); }
    void integrate_bins_far(double p, double q, double r, double t, double u, double v, double w, double a, double b) { vec1d e = {p, q, r, t}; h_rise(e); require(p <= a && a < q && r <= b && b <= t); vec2d bb = make_bins_from_edges(e); vec1d y = {u, v, w}; expect(same(integrate(bb, y, a, b), u*(q-a) + v*(r-q) + w*(b-r))); }
    void cumul_trapezoids(vec1d x, vec1d y) { require(x.dims == y.dims); auto r = cumul(x, y); expect(r.dims == y.dims); double s = 0; for (uint_t i : range(x)) { if (i > 0) s += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]); expect(same(r.safe[i], s)); } }
    void reduce_keeps_dims(vec3d v, uint_t d) { d = each(d, 0, 2); auto r = reduce(d, v, [](vec1d t) { return t.size(); }); uint_t k = 0; for (uint_t i = 0; i < 3; ++i) if (i != d) { expect(r.dims[k] == v.dims[i]); ++k; } }
    void in_bin_one(double x, double a, double b) { expect(in_bin(x, vec1d{a, b}) == (x >= a && x < b)); expect(same(bin_width(vec1d{a, b}), b-a)); expect(same(bin_center(vec1d{a, b}), 0.5*(a+b))); }
    void histogram_two_members(vec1d x, vec1d y, double a, double b, double c) { require(a <= b && b <= c); require(x.size() < 3 && x.dims == y.dims); for (uint_t i : range(x)) require(!is_nan(x.safe[i]) && !is_nan(y.safe[i])); vec2d bx = make_bins_from_edges(vec1d{a, b}); vec2d by = make_bins_from_edges(vec1d{a, b, c});
        histogram2d(x, y, bx, by, [&](uint_t k, uint_t l, vec1u ids) { uint_t n = 0; for (uint_t i : range(x)) if (x.safe[i] >= bx.safe(0,k) && x.safe[i] < bx.safe(1,k) && y.safe[i] >= by.safe(0,l) && y.safe[i] < by.safe(1,l)) ++n; expect(ids.size() == n); for (uint_t i : ids) expect(x[i] >= bx.safe(0,k) && x[i] < bx.safe(1,k) && y[i] >= by.safe(0,l) && y[i] < by.safe(1,l)); }); }
    void bins_single(double a, double b) { auto r = make_bins(a, b); expect(r.dims[0] == 2 && r.dims[1] == 1); expect(same(r(0,0), a) && same(r(1,0), b)); }
    void bins_touch(double a, double b, uint_t n) { n = each(n, 1, 4); auto r = make_bins(a, b, n); expect(r.dims[0] == 2 && r.dims[1] == n); for (uint_t i = 1; i < n; ++i) expect(same(r.safe(0,i), r.safe(1,i-1))); }
    void bins_edges(vec1d e) { require(e.size() > 1); auto r = make_bins_from_edges(e); expect(r.dims[0] == 2 && r.dims[1] == e.size()-1); for (uint_t i : range(r.dims[1])) { expect(same(r.safe(0,i), e.safe[i])); expect(same(r.safe(1,i), e.safe[i+1])); } }
    void bins_centers(vec1d c) { require(c.size() > 1); auto r = make_bins_from_centers(c); expect(r.dims[1] == c.size()); for (uint_t i = 1; i < c.size(); ++i) { expect(same(r.safe(0,i), 0.5*(c.safe[i-1]+c.safe[i]))); expect(same(r.safe(1,i-1), r.safe(0,i))); } uint_t n = c.size(); expect(same(r.safe(0,0), 1.5*c.safe[0] - 0.5*c.safe[1])); expect(same(r.safe(1,n-1), 1.5*c.safe[n-1] - 0.5*c.safe[n-2])); }
    void bins_properties(vec2d b) { require(b.dims[0] == 2); auto w = bin_width(b); auto c = bin_center(b); expect(w.size() == b.dims[1] && c.size() == b.dims[1]); for (uint_t i : range(w)) { expect(same(w.safe[i], b.safe(1,i)-b.safe(0,i))); expect(same(c.safe[i], 0.5*(b.safe(1,i)+b.safe(0,i)))); } }
    void in_bin_half_open(double x, vec2d b, uint_t k) { k = each(k, 0, 2); require(b.dims[0] == 2 && k < b.dims[1]); expect(in_bin(x, b, k) == (x >= b.safe(0,k) && x < b.safe(1,k))); }
    void in_bin_vector(vec1d x, vec2d b, uint_t k) { k = each(k, 0, 2); require(b.dims[0] == 2 && k < b.dims[1]); auto r = in_bin(x, b, k); expect(r.dims == x.dims); for (uint_t i : range(x)) expect(r.safe[i] == (x.safe[i] >= b.safe(0,k) && x.safe[i] < b.safe(1,k))); }
    void in_bin_one(vec1d x, double lo, double hi) { auto r = in_bin(x, vec1d{lo, hi}); expect(r.dims == x.dims); for (uint_t i : range(x)) expect(r.safe[i] == (x.safe[i] >= lo && x.safe[i] < hi)); }
    void in_bin_open_ends(double x, vec2d b, uint_t k) { k = each(k, 0, 2); require(b.dims[0] == 2 && b.dims[1] > 1 && k < b.dims[1]); expect(in_bin_open(x, b, k) == (k == 0 ? x < b.safe(1,k) : (k == b.dims[1]-1 ? x >= b.safe(0,k) : (x >= b.safe(0,k) && x < b.safe(1,k))))); }
    void in_bin_open_vector(vec1d x, vec2d b, uint_t k) { k = each(k, 0, 2); require(b.dims[0] == 2 && b.dims[1] > 1 && k < b.dims[1]); auto r = in_bin_open(x, b, k); expect(r.dims == x.dims); for (uint_t i : range(x)) expect(r.safe[i] == in_bin_open(x.safe[i], b, k)); }
    void histogram_counts(vec1d x, double a, double b, double c) { require(a <= b && b <= c); require(x.size() < 3); h_nonan(x); vec2d bins = make_bins_from_edges(vec1d{a, b, c}); auto h = histogram(x, bins); expect(h.size() == 2);
        for (uint_t k : range(2)) { uint_t n = 0; for (uint_t i : range(x)) if (x.safe[i] >= bins.safe(0,k) && x.safe[i] < bins.safe(1,k)) ++n; expect(h.safe[k] == n); } }
    void histogram_weights(vec1d x, vec1d w, double a, double b, double c) { require(a <= b && b <= c); require(x.size() < 3 && x.dims == w.dims); h_nonan(x); vec2d bins = make_bins_from_edges(vec1d{a, b, c}); auto h = histogram(x, w, bins); expect(h.size() == 2);
        for (uint_t k : range(2)) { double n = 0; for (uint_t i : range(x)) if (x.safe[i] >= bins.safe(0,k) && x.safe[i] < bins.safe(1,k)) n += w.safe[i]; expect(same(h.safe[k], n)); } }
    void histogram_members(vec1d x, double a, double b, double c) { require(a <= b && b <= c); require(x.size() < 3); h_nonan(x); vec2d bins = make_bins_from_edges(vec1d{a, b, c});
        histogram(x, bins, [&](uint_t k, vec1u ids) { uint_t n = 0; for (uint_t i : range(x)) if (x.safe[i] >= bins.safe(0,k) && x.safe[i] < bins.safe(1,k)) ++n; expect(ids.size() == n); for (uint_t i : ids) expect(x[i] >= bins.safe(0,k) && x[i] < bins.safe(1,k)); }); }
    void histogram_two(vec1d x, vec1d y, double a, double b, double c) { require(a <= b); require(x.size() < 3 && x.dims == y.dims); h_nonan(x); h_nonan(y); vec2d bx = make_bins_from_edges(vec1d{a, b}); vec2d by = make_bins_from_edges(vec1d{a, b, c}); require(b <= c); auto h = histogram2d(x, y, bx, by); expect(h.dims[0] == 1 && h.dims[1] == 2);
        for (uint_t k : range(2)) { uint_t n = 0; for (uint_t i : range(x)) if (x.safe[i] >= bx.safe(0,0) && x.safe[i] < bx.safe(1,0) && y.safe[i] >= by.safe(0,k) && y.safe[i] < by.safe(1,k)) ++n; expect(h.safe(0,k) == n); } }
    // weighted percentile: the smallest value whose cumulated weight reaches the requested fraction
    void h_wperc(const vec1d& v, const vec1d& w, double p) { double m = weighted_percentile(v, w, p), t = 0, b = 0, e = 0; bool in = false; for (uint_t i : range(v)) { t += w.safe[i]; if (v.safe[i] < m) b += w.safe[i]; if (v.safe[i] <= m) e += w.safe[i]; if (v.safe[i] == m) in = true; } expect(in); expect(e >= p*t); expect(b < p*t); }
    void weighted_fraction(double x, double y, uint_t k) { k = each(k, 1, 8); require(!is_nan(x) && !is_nan(y)); h_wperc({x, y}, {1.0, 3.0}, k*0.125); }
    void weighted_fraction_three(double x, double y, double z, uint_t k) { k = each(k, 1, 4); require(x < y && z < x); double m = weighted_percentile(vec1d{x, y, z}, vec1d{2.0, 1.0, 1.0}, k*0.25); expect(same(m, k == 1 ? z : k == 4 ? y : x)); }
    void weighted_fraction_nan(double x, double y, uint_t k) { k = each(k, 1, 4); require(!is_nan(x) && !is_nan(y)); vec1d v = {x, dnan, y, 5.0}, w = {1.0, 2.0, 3.0, dnan}; double m = weighted_percentile(v, w, k*0.25); if (x < y) { if (k == 1) expect(same(m, x)); else expect(same(m, y)); } if (y < x) { if (k < 4) expect(same(m, y)); else expect(same(m, x)); } }
    void weighted_middle(double x, double y) { require(x < y); expect(same(weighted_median(vec1d{y, x}, vec1d{1.0, 3.0}), x) && same(weighted_median(vec1d{y, x}, vec1d{3.0, 1.0}), y) && same(weighted_median(vec1d{y, x}, vec1d{1.0, 1.0}), x)); }
}
