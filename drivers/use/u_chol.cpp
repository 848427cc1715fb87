#ifndef NO_LAPACK
#define NO_LAPACK
#endif
#include "use.hpp"
// Laws of the decompositions the library provides itself (without an external linear algebra library), in real arithmetic.
namespace use_chol {
    using namespace vif::matrix;
    void factor1(double a) { require(is_finite(a) && a > 0); mat2d m(1,1); m.safe(0,0) = a; decompose_cholesky d; require(d.decompose(m)); expect(same(d.l.safe(0,0)*d.l.safe(0,0), a)); }
    void factor(double a, double b, double e) { require(is_finite(a) && is_finite(b) && is_finite(e)); vec2d v = {{a, b}, {b, e}}; decompose_cholesky d; require(d.decompose(mat2d(v))); expect(d.size() == 2); expect(same(d.l.safe(0,0)*d.l.safe(0,0), a)); expect(same(d.l.safe(1,0)*d.l.safe(0,0), b)); expect(same(d.l.safe(0,1), 0.0)); expect(same(d.l.safe(1,0)*d.l.safe(1,0) + d.l.safe(1,1)*d.l.safe(1,1), e)); }
    void forward(double a, double b, double c, double x, double y) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); auto r = d.substitute_forward(vec1d{x, y}); expect(r.size() == 2); expect(same(a*r.safe[0], x)); expect(same(b*r.safe[0] + c*r.safe[1], y)); }
    void backward(double a, double b, double c, double x, double y) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); auto r = d.substitute_backward(vec1d{x, y}); expect(r.size() == 2); expect(same(a*r.safe[0] + b*r.safe[1], x)); expect(same(c*r.safe[1], y)); }
    void solves(double a, double b, double c, double x, double y) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); auto r = d.solve(vec1d{x, y}); expect(r.size() == 2); expect(same(a*(a*r.safe[0] + b*r.safe[1]), x)); expect(same(b*a*r.safe[0] + (b*b + c*c)*r.safe[1], y)); }
    void inverts(double a, double b, double c) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); auto r = d.invert(); expect(r.dims[0] == 2 && r.dims[1] == 2); expect(same(a*a*r.safe(0,0) + a*b*r.safe(1,0), 1.0)); expect(same(a*a*r.safe(0,1) + a*b*r.safe(1,1), 0.0)); expect(same(a*b*r.safe(0,0) + (b*b+c*c)*r.safe(1,0), 0.0)); expect(same(a*b*r.safe(0,1) + (b*b+c*c)*r.safe(1,1), 1.0)); }
    void lower_inverts(double a, double b, double c) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); auto r = d.lower_inverse(); expect(same(a*r.safe(0,0), 1.0)); expect(same(a*r.safe(0,1), 0.0)); expect(same(b*r.safe(0,0) + c*r.safe(1,0), 0.0)); expect(same(b*r.safe(0,1) + c*r.safe(1,1), 1.0)); }
    void lower_det(double a, double b, double c) { decompose_cholesky d; d.l = mat2d(vec2d{{a, 0.0}, {b, c}}); expect(same(d.lower_determinant(), a*c)); }
}
