// the built-in decomposition (the LAPACK variant only differs in the inversion itself)
#define NO_LAPACK
#include "use.hpp"
namespace use_fit {
    void h_ok(double a) { require(is_finite(a) && a != 0); }
    // weighted least squares: the residuals are orthogonal to every model
    void h_orthogonal(const vec1d& y, const vec1d& e, const vec1d& x, const vec1d& m) { double t = 0; for (uint_t i : range(y)) t += x.safe[i]*(y.safe[i] - m.safe[i])/(e.safe[i]*e.safe[i]); expect(same(t, 0.0)); }
    double h_chi2(const vec1d& y, const vec1d& e, const vec1d& m) { double t = 0; for (uint_t i : range(y)) t += (y.safe[i] - m.safe[i])*(y.safe[i] - m.safe[i])/(e.safe[i]*e.safe[i]); return t; }
    void h_one(const linfit_result& r, const vec1d& y, const vec1d& e, const vec1d& x) {
        if (!r.success) return;
        expect(r.params.size() == 1 && r.errors.size() == 1 && r.cov.dims[0] == 1 && r.cov.dims[1] == 1);
        vec1d m(y.size()); double w = 0; for (uint_t i : range(y)) { m.safe[i] = r.params.safe[0]*x.safe[i]; w += x.safe[i]*x.safe[i]/(e.safe[i]*e.safe[i]); }
        h_orthogonal(y, e, x, m);
        expect(same(r.chi2, h_chi2(y, e, m)));
        expect(same(r.cov.safe(0,0)*w, 1.0));
        expect(same(r.errors.safe[0]*r.errors.safe[0], r.cov.safe(0,0)));
    }
    void h_two(const linfit_result& r, const vec1d& y, const vec1d& e, const vec1d& x, const vec1d& z) {
        if (!r.success) return;
        expect(r.params.size() == 2 && r.errors.size() == 2 && r.cov.dims[0] == 2 && r.cov.dims[1] == 2);
        vec1d m(y.size()); for (uint_t i : range(y)) m.safe[i] = r.params.safe[0]*x.safe[i] + r.params.safe[1]*z.safe[i];
        h_orthogonal(y, e, x, m); h_orthogonal(y, e, z, m);
        for (uint_t i : range(2)) expect(same(r.errors.safe[i]*r.errors.safe[i], r.cov.safe(i,i)));
        expect(same(r.cov.safe(0,1), r.cov.safe(1,0)));
    }
    void h_two_chi2(const linfit_result& r, const vec1d& y, const vec1d& e, const vec1d& x, const vec1d& z) {
        if (!r.success) return;
        vec1d m(y.size()); for (uint_t i : range(y)) m.safe[i] = r.params.safe[0]*x.safe[i] + r.params.safe[1]*z.safe[i];
        expect(same(r.chi2, h_chi2(y, e, m)));
    }
    void one_model(double y0, double y1, double e0, double e1, double x0, double x1) { h_ok(e0); h_ok(e1); require(is_finite(y0) && is_finite(y1) && is_finite(x0) && is_finite(x1)); vec1d y = {y0, y1}, e = {e0, e1}, x = {x0, x1}; auto r = linfit(y, e, x); h_one(r, y, e, x); }
    void one_model_three(double y0, double y1, double y2, double x0, double x1, double x2) { vec1d y = {y0, y1, y2}, e = {1.0, 2.0, 4.0}, x = {x0, x1, x2}; auto r = linfit(y, e, x); h_one(r, y, e, x); }
    void one_point(double y0, double e0, double x0) { h_ok(e0); h_ok(x0); require(is_finite(y0)); vec1d y = {y0}, e = {e0}, x = {x0}; auto r = linfit(y, e, x); h_one(r, y, e, x); if (r.success) expect(same(r.params.safe[0]*x0, y0)); }
    void constant_model(double y0, double y1, double e0, double e1) { h_ok(e0); h_ok(e1); vec1d y = {y0, y1}, e = {e0, e1}, x = {1.0, 1.0}; auto r = linfit(y, e, 1.0); h_one(r, y, e, x); }
    void scalar_error(double y0, double y1, double f, double x0, double x1) { h_ok(f); vec1d y = {y0, y1}, e = {f, f}, x = {x0, x1}; auto r = linfit(y, f, x); h_one(r, y, e, x); }
    void two_models(double y0, double y1, double x0, double x1, double z0, double z1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}, z = {z0, z1}; auto r = linfit(y, e, x, z); h_two(r, y, e, x, z); }
    void straight_line(double y0, double y1, double y2, double e0, double e1) { require(is_finite(y0) && is_finite(y1) && is_finite(y2)); vec1d y = {y0, y1, y2}, e = {1.0, 2.0, 4.0}, x = {1.0, 1.0, 1.0}, z = {-1.0, 0.0, 2.0}; auto r = linfit(y, e, 1.0, z); h_two(r, y, e, x, z); h_two_chi2(r, y, e, x, z); expect(r.success); }
    void flat_data(double y0, double y1, double y2) { vec2d y = {{y0, y1}, {y2, y0}}, e = {{1.0, 2.0}, {4.0, 1.0}}, x = {{1.0, 3.0}, {5.0, 7.0}}; auto r = linfit(y, e, x); h_one(r, flatten(y), flatten(e), flatten(x)); }
    void packed_one(double y0, double y1, double e0, double e1, double x0, double x1) { h_ok(e0); h_ok(e1); vec1d y = {y0, y1}, e = {e0, e1}, x = {x0, x1}; vec2d p = {{x0, x1}}; auto r = linfit_pack(y, e, p); h_one(r, y, e, x); }
    void packed_two(double y0, double y1, double x0, double x1, double z0, double z1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}, z = {z0, z1}; vec2d p = {{x0, x1}, {z0, z1}}; auto r = linfit_pack(y, e, p); h_two(r, y, e, x, z); }
    void singular_fails(double y0, double y1, double x0, double x1) { vec1d y = {y0, y1}, e = {1.0, 1.0}, x = {0.0, 0.0}; auto r = linfit(y, e, x); expect(!r.success); expect(r.params.size() == 1 && is_nan(r.params.safe[0]) && is_nan(r.chi2)); }
    void batch_one(double y0, double y1, double e0, double e1, double x0, double x1) { h_ok(e0); h_ok(e1); vec1d y = {y0, y1}, e = {e0, e1}, x = {x0, x1}; auto b = linfit_batch(e, x); b.fit(y); h_one(b.fr, y, e, x); }
    void batch_two(double y0, double y1, double x0, double x1, double z0, double z1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}, z = {z0, z1}; auto b = linfit_batch(e, x, z); b.fit(y); h_two(b.fr, y, e, x, z); }
    void batch_again(double y0, double y1, double u0, double u1, double x0, double x1) { vec1d y = {y0, y1}, u = {u0, u1}, e = {1.0, 2.0}, x = {x0, x1}; auto b = linfit_batch(e, x); b.fit(u); b.fit(y); h_one(b.fr, y, e, x); }
    void batch_pack(double y0, double y1, double x0, double x1, double z0, double z1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}, z = {z0, z1}; vec2d p = {{x0, x1}, {z0, z1}}; auto b = linfit_pack_batch(e, p); b.fit(y); h_two(b.fr, y, e, x, z); }
    void batch_update(double y0, double y1, double y2) { require(is_finite(y0) && is_finite(y1) && is_finite(y2)); vec1d y = {y0, y1, y2}, e = {1.0, 2.0, 4.0}, o = {1.0, 3.0, 0.0}, x = {1.0, 1.0, 1.0}, z = {-1.0, 0.0, 2.0}; auto b = linfit_batch(e, o, z); b.update_model(0, x); b.fit(y); h_two(b.fr, y, e, x, z); h_two_chi2(b.fr, y, e, x, z); expect(b.fr.success); }
    void batch_update_last(double y0, double y1, double y2) { require(is_finite(y0) && is_finite(y1) && is_finite(y2)); vec1d y = {y0, y1, y2}, e = {1.0, 2.0, 4.0}, o = {1.0, 3.0, 0.0}, x = {1.0, 1.0, 1.0}, z = {-1.0, 0.0, 2.0}; auto b = linfit_batch(e, x, o); b.update_models(1, z); b.fit(y); h_two(b.fr, y, e, x, z); h_two_chi2(b.fr, y, e, x, z); expect(b.fr.success); }
    void batch_nochi2(double y0, double y1, double x0, double x1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}; auto b = linfit_batch(e, x); b.fit_nochi2(y); b.update_chi2(y); h_one(b.fr, y, e, x); }
    void inputs_kept(double y0, double y1, double x0, double x1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}; auto r = linfit(y, e, x); expect(same(y.safe[0], y0) && same(y.safe[1], y1) && same(x.safe[0], x0) && same(x.safe[1], x1) && e.safe[0] == 1.0 && e.safe[1] == 2.0); }
    void nonneg_one(double y0, double y1, double x0, double x1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, x = {x0, x1}; auto r = linfit_nn(y, e, x); expect(r.params.size() == 1); }
    void fitted_source_row(double a, double b) { double c = 0; require(is_finite(a) && is_finite(b)); vec2d m = {{a,b,c},{0,0,0}}, e = replicate(1.0, 2, 3), k(1,3); k.safe[0] = 1; k.safe[1] = 2; k.safe[2] = 1; auto r = vif::astro::psffit(m, e, k, {0, 1}); expect(same(r.flux, b - 0.5*(a + c)) && same(r.bg, a + c - b)); }
    void fitted_source(double a, double b) { double c = 0; require(is_finite(a) && is_finite(b)); vec2d m = {{a,0,0},{b,0,0},{c,0,0}}, e = replicate(1.0, 3, 3), k(3,1); k.safe[0] = 1; k.safe[1] = 2; k.safe[2] = 1; auto r = vif::astro::psffit(m, e, k, {1, 0}); expect(same(r.flux, b - 0.5*(a + c)) && same(r.bg, a + c - b)); }
    void positive_fit(double t) { vec1d x = {1,2}, y = {3,6}, e = {1,1}; auto r = linfit_nn(y, e, x); expect(r.success); expect(same(r.params.safe[0], 3.0) && same(r.chi2, 0.0)); }
    void singular_result(double y0, double y1) { vec1d y = {y0, y1}, e = {1.0, 1.0}, x = {0.0, 0.0}; auto r = linfit(y, e, x); expect(is_nan(r.chi2)); expect(r.params.size() == 1 && r.errors.size() == 1); expect(is_nan(r.params.safe[0]) && is_nan(r.errors.safe[0])); }
    void batch_singular(double y0, double y1) { vec1d y = {y0, y1}, e = {1.0, 1.0}, x = {0.0, 0.0}; auto b = linfit_batch(e, x); expect(!b.fr.success); expect(b.fr.params.size() == 1 && b.fr.errors.size() == 1); expect(is_nan(b.fr.chi2) && is_nan(b.fr.params.safe[0]) && is_nan(b.fr.errors.safe[0])); b.fit(y); expect(!b.fr.success); expect(is_nan(b.fr.params.safe[0])); }
    void batch_recovers(double y0, double y1, double x0, double x1) { vec1d y = {y0, y1}, e = {1.0, 2.0}, z = {0.0, 0.0}, x = {x0, x1}; auto b = linfit_batch(e, z); b.update_model(0, x); b.fit(y); auto r = linfit(y, e, x); expect(b.fr.success == r.success); if (r.success) { expect(same(b.fr.params.safe[0], r.params.safe[0])); expect(same(b.fr.errors.safe[0], r.errors.safe[0])); } }
    void batch_replaces_all(double y0, double y1, double y2) { vec1d y = {y0, y1, y2}, e = {1.0, 2.0, 4.0}, o = {1.0, 1.0, 1.0}, x = {1.0, 2.0, 4.0}, z = {3.0, 1.0, 2.0}; auto b = linfit_batch(e, o, x); b.update_models(0, z, 1, o); b.fit(y); auto r = linfit(y, e, z, o); expect(b.fr.success == r.success); if (r.success) for (uint_t i : range(2)) { expect(same(b.fr.params.safe[i], r.params.safe[i])); expect(same(b.fr.errors.safe[i], r.errors.safe[i])); } }
    void packed_nonneg(double t) { vec1d y = {3,6}, e = {1,1}; vec2d x(1,2); x.safe(0,0) = 1; x.safe(0,1) = 2; auto r = linfit_nn_pack(y, e, x); expect(r.success); expect(same(r.params.safe[0], 3.0) && same(r.chi2, 0.0)); }
    void packed_weights(double y0, double y1, double e0, double e1, double x0, double x1) { h_ok(e0); h_ok(e1); vec1d y = {y0, y1}, e = {e0, e1}, x = {x0, x1}; vec2d p(1,2); p.safe(0,0) = x0; p.safe(0,1) = x1; auto b = linfit_pack_batch(e, p); b.fit(y); auto r = linfit(y, e, x); expect(b.fr.success == r.success); if (r.success) expect(same(b.fr.params.safe[0], r.params.safe[0])); }
    // a program named rejects_* must stop before its end
    void rejects_pack(double a, double b, double c) { vec1d y = {a, b}, e = {a, b}; vec2d x(1,3); linfit_pack(y, e, x); expect(false); }
    void rejects_pack_errors(double a, double b, double c) { vec1d y = {a, b}, e = {a, b, c}; vec2d x(1,2); linfit_pack(y, e, x); expect(false); }
    void rejects_pack_data(double a, double b, double c) { vec1d y = {a, b, c}, e = {a, b}; vec2d x(1,2); linfit_pack(y, e, x); expect(false); }
    void rejects_pack_second(double a, double b) { vec2d y = {{a, b}, {b, a}}, e = {{a, b}, {b, a}}; vec3d x(1,2,3); linfit_pack(y, e, x); expect(false); }
    void rejects_nonneg_pack(double a, double b, double c) { vec1d y = {a, b}, e = {a, b}; vec2d x(1,3); linfit_nn_pack(y, e, x); expect(false); }
    void rejects_nonneg_errors(double a, double b, double c) { vec1d y = {a, b}, e = {a, b, c}; vec2d x(1,2); linfit_nn_pack(y, e, x); expect(false); }
    void rejects_model(double a, double b, double c) { vec1d y = {a, b}, e = {a, b}, x = {a, b, c}; linfit(y, e, x); expect(false); }
    void rejects_second_model(double a, double b, double c) { vec1d y = {a, b}, x = {a, b, c}; linfit(y, 1.0, y, x); expect(false); }
    void rejects_errors(double a, double b, double c) { vec1d y = {a, b}, e = {a, b, c}, x = {a, b}; linfit(y, e, x); expect(false); }
    void rejects_nonneg_model(double a, double b, double c) { vec1d y = {a, b}, e = {a, b}, x = {a, b, c}; linfit_nn(y, e, x); expect(false); }
    void rejects_batch_data(double a, double b, double c) { vec1d y = {a, b, c}, e = {1.0, 2.0}, x = {1.0, 3.0}; auto r = linfit_batch(e, x); r.fit(y); expect(false); }
    void rejects_batch_update(double a, double b, double c) { vec1d y = {a, b, c}, e = {1.0, 2.0}, x = {1.0, 3.0}; auto r = linfit_batch(e, x); r.update_model(0, y); expect(false); }
    void rejects_batch_number(double a, double b) { vec1d y = {a, b}, e = {1.0, 2.0}, x = {1.0, 3.0}; auto r = linfit_batch(e, x); r.update_model(1, y); expect(false); }
}
