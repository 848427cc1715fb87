#include "common.hpp"
#include <vif/math/mpfit.hpp>
template<typename D, typename W> void red(D& d, W& w) {
    uint_t id; std::pair<uint_t,uint_t> ids;
    (void)total(d); (void)mean(d); (void)weighted_mean(d, w); (void)optimal_mean(d, w); (void)median(d); (void)weighted_percentile(d, w, 0.5); (void)weighted_median(d, w); (void)percentile(d, 0.5); (void)percentiles(d, 0.5, 0.6); (void)sigma_clip(d, 3.0);
    (void)min(d); (void)max(d); (void)minmax(d); (void)min(d, id); (void)max(d, id); (void)minmax(d, ids); (void)min_id(d); (void)max_id(d); (void)minmax_ids(d);
    (void)min(d, w); (void)max(d, w); (void)min(d, 1.0); (void)max(d, 1.0); (void)min(1.0, d); (void)max(1.0, d); (void)rms(d); (void)stddev(d); (void)mad(d);
}
void go() {
    vec1d d, e; vec2d d2; vec3d d3; vec1b b; vec2b b2; vec1u u; vec1i iv; vec1f f; vec1s s; auto dv = d[u]; auto d2v = d2(_,_);
    red(d, e); red(d, f); red(d2, d2); red(dv, e); red(f, f); red(iv, d);
    inplace_median(d); inplace_median(iv); inplace_percentile(d, 0.5); inplace_percentiles(d, 0.1, 0.2);
    (void)count(b); (void)count(b2); (void)fraction_of(b); (void)fraction_of(b, b); (void)percent_of(b); (void)percent_of(b, b); (void)min(1.0, 2.0); (void)max(1, 2); (void)min(s); (void)total(b); (void)mean(b);
    (void)partial_total(0, d2); (void)partial_count(0, b2); (void)partial_fraction_of(0, b2); (void)partial_mean(1, d2); (void)partial_median(0, d3); (void)partial_min(1, d2); (void)partial_max(1, d2); (void)partial_percentile(0, d2, 0.5); (void)partial_rms(0, d2); (void)partial_stddev(0, d2); (void)partial_mad(0, d2); (void)partial_mean(1, d3); (void)partial_mean(2, d3);
    (void)reduce(0, d2, [](vec1d v) { return v[0]; }); run_dim(0, d2, d2, [](uint_t, vec1d, vec1d) {}); run_dim(1, d3, [](uint_t, vec1d) {});
    data_info(d); (void)integrate(d, e); (void)integrate(d2, d); (void)integrate(d, e, 1.0, 2.0); (void)integrate(d2, d, 1.0, 2.0); uint_t h; (void)integrate_hinted(d, e, h, 1.0, 2.0); (void)cumul(d, e); (void)cumul(d); (void)cumul_reverse(d); (void)integrate_func([](double x) { return x; }, 1.0, 2.0); (void)integrate_gauss(1.0, 2.0, 1.0, 1.0); (void)integrate_gauss(d, e, 1.0, 1.0); (void)integrate_gauss_2d(1.0,2.0,1.0,2.0,1.0,1.0,1.0);
    // histogram
    (void)make_bins(1.0, 2.0); (void)make_bins(1.0, 2.0, 5); (void)make_bins_from_edges(d); (void)make_bins_from_centers(d); (void)in_bin(1.0, d); (void)in_bin(d, e); (void)in_bin(1.0, d2, 1); (void)in_bin(d, d2, 1); (void)in_bin_open(1.0, d2, 1); (void)in_bin_open(d, d2, 1); (void)bin_center(d2); (void)bin_center(d); (void)bin_width(d2); (void)bin_width(d);
    (void)histogram(d, d2); (void)histogram(d, e, d2); histogram(d, d2, [](uint_t, vec1u) {}); (void)histogram2d(d, e, d2, d2); histogram2d(d, e, d2, d2, [](uint_t, uint_t, vec1u) {});
    (void)histogram(dv, d2); (void)histogram(f, d2);
    // interpolate
    (void)interpolate(d, e, d); (void)interpolate(d, e, 1.0); (void)interpolate(d, e, e, d); (void)interpolate(1.0,2.0,1.0,2.0,1.0); (void)interpolate_err(1.0,2.0,1.,1.,1.,2.,1.); (void)bilinear(1.,2.,3.,4.,.5,.5); (void)bilinear(d2, 1.0, 2.0); (void)bilinear(d2, d, e, 1.0, 2.0); (void)bilinear(d2, d, e, d, e); (void)bilinear_strict(d2, 1.0, 2.0); (void)rebin(d2, d, e, d, e); (void)interpolate_3spline(d, e, d); (void)interpolate_3spline(d, e, 1.0); (void)interpolate_3spline(d, e); (void)interpolate_3spline(d, 1.0); (void)bicubic_strict(d2, 1.0, 2.0); (void)interpolate(f, d, e); (void)interpolate(dv, d, e);
    // base
    #define F1(n) (void)n(1.0); (void)n(d); (void)n(dv); (void)n(d2); (void)n(mk<vec1d>());
    F1(sqrt) F1(cos) F1(sin) F1(tan) F1(acos) F1(asin) F1(atan) F1(cosh) F1(sinh) F1(tanh) F1(acosh) F1(asinh) F1(atanh) F1(exp) F1(fast_exp) F1(log) F1(log2) F1(log10) F1(erf) F1(erfc) F1(tgamma) F1(ceil) F1(floor) F1(round) F1(abs) F1(bessel_j0) F1(bessel_j1) F1(bessel_y0) F1(bessel_y1) F1(bessel_i0) F1(bessel_i1) F1(bessel_k0) F1(bessel_k1) F1(e10) F1(sqr) F1(is_finite) F1(is_nan) F1(sign) F1(invsqr)
    (void)pow(d, 2.0); (void)pow(2.0, d); (void)pow(d, e); (void)pow(2.0, 2.0); (void)fmod(d, 2.0); (void)atan2(d, 2.0); (void)atan2(d, e); (void)clamp(1.0, 2.0, 3.0); (void)clamp(d, 1.0, 2.0); (void)rgen(1.0, 2.0, 5); (void)rgen_log(1.0, 2.0, 5); (void)rgen_step(1.0, 2.0, 0.1);
    // random
    auto seed = make_seed(42); (void)randomn(seed); (void)randomn(seed, 5); (void)randomu(seed); (void)randomu(seed, 5, 3); (void)randomi(seed, 1, 5); (void)randomi(seed, 1, 5, 10); (void)random_pdf(seed, d, e); (void)random_pdf(seed, d, e, 10); (void)random_pdf_discrete(seed, d); (void)random_pdf_discrete(seed, d, 10); (void)random_coin(seed, 0.5); (void)random_coin(seed, d); (void)random_coin(seed, 0.5, 10); inplace_shuffle(seed, d); (void)shuffle(seed, d); (void)randomu(seed, d2.dims);
    // complex, fourier, transform
    vec2cd c2; (void)fft(d2); (void)ifft(c2); fft(d2, c2); ifft(c2, d2); fft_c2c(c2, c2); ifft_c2c(c2, c2); (void)fft_c2c(c2); (void)ifft_c2c(c2); (void)real_part(c2); (void)imag_part(c2); (void)convolve(d, e, e);
    c2 *= c2; auto cc = c2*c2; auto cd = c2*2.0; (void)(mk<vif::complex<double>>()*mk<vif::complex<double>>()); (void)(mk<vif::complex<double>>()/mk<vif::complex<double>>()); (void)(mk<vif::complex<double>>()/2.0); (void)(mk<vif::complex<double>>()+mk<vif::complex<double>>()); (void)(mk<vif::complex<double>>()-mk<vif::complex<double>>());
    // hull
    auto hull = build_convex_hull(d, e); convex_hull<double> hc(d, e); (void)in_convex_hull(1.0, 2.0, hull); (void)in_convex_hull(d, e, hull); (void)convex_hull_distance(1.0, 2.0, hull); (void)convex_hull_distance(d, e, hull); hull.mark_as_dirty(); convex_hull<double> h0; (void)h0.size();
    // linfit
    (void)linfit(d, e, 1.0, d); (void)linfit(d, 1.0, d, e); (void)linfit_pack(d, e, d2); (void)linfit_nn(d, e, d, e); (void)linfit_nn_pack(d, e, d2);
    auto lb = linfit_batch(d, 1.0, e); lb.fit(d); lb.fit_nochi2(d); lb.update_chi2(d); lb.update_model(0, e); auto lbp = linfit_pack_batch(d, d2); lbp.fit(d);
    (void)linfit(d2, d2, 1.0, d2);
    // matrix
    using namespace matrix;
    mat2d m, n; m = n; m = mk<mat2d>(); mat2d mm(m); mat2d mv(std::move(mm)); mat2d m3(3,3); mat2d m4 = {{1.0,2.0},{1.0,2.0}}; mat2d m5(d2); 
    m = {{1.0}}; (void)m[0]; (void)m(0,0); (void)m(_,0); (void)m(0,_); (void)m.safe(0,0); const mat2d cm; (void)cm(0,0); (void)cm(_,0); m += n; m -= n; m *= 2.0; m /= 2.0; m += 1.0; m -= 1.0; m *= n; m.resize(3,3); (void)m.size(); (void)m.empty(); (void)m.raw_data(); (void)cm.raw_data(); for (auto& q : m) (void)q; for (auto& q : cm) (void)q; (void)cm[0]; (void)+m; (void)-m; 
    auto w = as_matrix(d2); const vec2d cd2; auto cw = as_matrix(cd2); (void)(w*w); (void)(w*m); (void)(m*w); (void)(m*n); (void)(m*d); (void)(d*m); (void)(m + n); (void)(m - n); (void)(m*2.0); (void)(2.0*m); (void)(w + m); (void)(m + w); (void)(w - m); (void)(m - w); (void)(w*d); std::cout << m; (void)(cw*d); (void)(w + 1.0); (void)(1.0 + w);
    (void)w[0]; (void)w(0,0); w.resize(2,2); (void)w.size(); (void)w.empty(); (void)w.raw_data(); (void)w.begin(); (void)w.end(); (void)cw.size(); (void)cw(0,0); (void)cw[0]; (void)cw.begin(); (void)cw.end(); (void)cw.raw_data(); (void)cw.empty(); w = m;
    (void)transpose(m); (void)diagonal(m); (void)diagonal(mk<mat2d>()); (void)as_diagonal(d); (void)make_identity<double>(3); (void)make_scale(1.0, 2.0); (void)make_scale(2.0); (void)make_translation(1.0, 2.0); (void)make_rotation(1.0); inplace_symmetrize(m); 
    (void)transpose(as_matrix(d2)); 
    decompose_lu lu; (void)lu.decompose(m); (void)lu.solve(d); (void)lu.invert(); (void)lu.determinant(); (void)lu.size();
    decompose_cholesky ch; (void)ch.decompose(m); (void)ch.solve(d); (void)ch.invert(); (void)ch.substitute_forward(d); (void)ch.substitute_backward(d); (void)ch.lower_inverse(); (void)ch.lower_determinant(); (void)ch.log_lower_determinant();
    decompose_svd sv; (void)sv.decompose(m);
    (void)determinant(m); (void)invert(m, n); (void)inplace_invert(m); (void)invert_symmetric(m, n); (void)inplace_invert_symmetric(m); (void)solve(m, d, e); (void)inplace_solve(m, d); (void)solve_symmetric(m, d, e); (void)inplace_solve_symmetric(m, d); (void)eigen_symmetric(m, d, n); (void)inplace_eigen_symmetric(m, d);
    // mpfit
    (void)mpfit([&](const vec1d& p) { return p; }, d); (void)mpfitfun(d, e, d, [](const vec1d& x, const vec1d& p) { return x*p[0]; }, d); (void)mpfitfun(d, e, d, [](const vec1d& x, const vec1d& p) { return x*p[0]; }, d, mpfit_options(2));
}
