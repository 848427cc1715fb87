#include "common.hpp"
template<typename T> auto vw(vec<1,T>& v) -> decltype(v(_)) { return v(_); }
template<typename T> auto vw(vec<2,T>& v) -> decltype(v(_,_)) { return v(_,_); }
template<typename T> auto vw(vec<3,T>& v) -> decltype(v(_,_,_)) { return v(_,_,_); }
template<typename V> void members(V& v) {
    const V& c = v;
    (void)c.empty(); (void)c.size(); (void)c.pitch(0);
    for (auto& x : v) (void)x;
    for (auto& x : c) (void)x;
    auto b = v.begin(); auto e = v.end(); auto cb = c.begin(); auto ce = c.end();
    ++b; b++; --e; e--; b += 2; e -= 2; (void)(b + 1); (void)(e - 1); (void)(e - b); (void)(b == e); (void)(b != e);
    (void)(b < e); (void)(b <= e); (void)(b > e); (void)(b >= e); (void)*b;
    ++cb; cb++; --ce; ce--; cb += 2; ce -= 2; (void)(cb + 1); (void)(ce - 1); (void)(ce - cb); (void)(cb == ce); (void)(cb != ce);
    (void)(cb < ce); (void)(cb <= ce); (void)(cb > ce); (void)(cb >= ce); (void)*cb;
}
template<typename V> void sortables(V& v) {
    inplace_sort(v); auto s = sort(v); (void)s;
    (void)v.to_idx(mk<uint_t>()); (void)v.to_idx(mk<int_t>());
    (void)v.template to_idx<0>(mk<uint_t>()); (void)v.template to_idx<0>(mk<int_t>());
}
template<typename V> void index1(V& v) {
    (void)v[mk<uint_t>()]; (void)v[mk<int_t>()]; (void)v[mk<int>()]; (void)v.safe[mk<uint_t>()]; (void)v.safe[mk<int>()];
    auto a1 = v[mk<vec1u>()]; auto a2 = v[mk<vec1i>()]; 
    auto b1 = v.safe[mk<vec1u>()];
    vec1u w; auto a3 = v[w[w]]; auto b3 = v.safe[w[w]];
}
template<typename V> void rng1(V& v) {
    auto r1 = v[_]; auto r2 = v[_-mk<uint_t>()]; auto r3 = v[mk<uint_t>()-_]; auto r4 = v[mk<uint_t>()-_-mk<uint_t>()];
    auto r5 = v[_-mk<int>()]; auto r6 = v[mk<int>()-_]; auto r7 = v[mk<int>()-_-mk<int>()];
}
template<typename V> void srng1(V& v) {
    auto s1 = v.safe[_]; auto s2 = v.safe[_-mk<uint_t>()]; auto s3 = v.safe[mk<uint_t>()-_]; auto s4 = v.safe[mk<uint_t>()-_-mk<uint_t>()];
    auto s7 = v.safe[mk<int>()-_-mk<int>()];
}
template<typename V> void ends(V& v) { const V& c = v; (void)v.front(); (void)v.back(); (void)c.front(); (void)c.back(); }
template<typename V> void call1(V& v) {
    ends(v);
    (void)v(mk<uint_t>()); (void)v(mk<int>()); auto a = v(mk<vec1u>()); auto b = v(_); auto c = v(_-mk<uint_t>()); auto d = v(mk<uint_t>()-_); auto e = v(mk<uint_t>()-_-mk<uint_t>());
    (void)v.safe(mk<uint_t>()); auto a2 = v.safe(mk<vec1u>()); auto b2 = v.safe(_); auto c2 = v.safe(_-mk<uint_t>()); auto d2 = v.safe(mk<uint_t>()-_); auto e2 = v.safe(mk<uint_t>()-_-mk<uint_t>());
    auto a3 = v(mk<vec1i>());
}
template<typename V> void call2(V& v) {
    uint_t i = mk<uint_t>(); int j = mk<int>(); vec1u u; vec1i w;
    (void)v(i, i); (void)v(j, j); (void)v.safe(i, i); (void)v.safe(j, j);
    auto a = v(i, _); auto b = v(_, i); auto c = v(_, _); auto d = v(u, i); auto e = v(i, u); auto f = v(u, u);
    auto a1 = v.safe(i, _); auto b1 = v.safe(_, i); auto c1 = v.safe(_, _); auto d1 = v.safe(u, i); auto e1 = v.safe(i, u); auto f1 = v.safe(u, u);
    auto g = v(i-_, _-i); auto h = v(i-_-i, i); auto k = v(i, i-_-i); auto l = v(i-_-i, i-_-i); auto m = v(u, i-_-i);
    auto g1 = v.safe(i-_, _-i); auto h1 = v.safe(i-_-i, i); auto k1 = v.safe(i, i-_-i); auto l1 = v.safe(i-_-i, i-_-i); auto m1 = v.safe(u, i-_-i);
    auto n = v(w, j); auto o = v(j-_-j, _); auto p = v(j, w);
}
template<typename V> void call3(V& v) {
    uint_t i = mk<uint_t>(); vec1u u;
    (void)v(i, i, i); auto a = v(i, i, _); auto b = v(i, _, i); auto c = v(_, i, i); auto d = v(_, _, i); auto e = v(u, i, _); auto f = v(i-_-i, u, i);
    (void)v.safe(i, i, i); auto a1 = v.safe(i, i, _); auto b1 = v.safe(i, _, i); auto c1 = v.safe(_, i, i); auto d1 = v.safe(_, _, i); auto e1 = v.safe(u, i, _); auto f1 = v.safe(i-_-i, u, i);
    auto g = v(repeat<2>(i), _); auto h = v(repeat<2>(_), i); auto k = v(i, repeat<2>(_));
}
template<std::size_t D, typename T> void strides() {
    vec<D,T>& v = lv<vec<D,T>>(); const vec<D,T>& c = v;
    (void)v.stride(_); (void)c.stride(_); (void)v.raw_stride(_); (void)c.raw_stride(_);
}
template<std::size_t D, typename T> void owning() {
    using V = vec<D,T>;
    V v; V w(v); V x(std::move(w)); x = v; x = std::move(v);
    std::array<uint_t,D> dd; V y(dd); y.resize(dd); y.reserve(mk<uint_t>()); y.clear();
    V z(y.dims);
    auto view = vw(y); V q = view; q = view; V q2(vw(y)); 
    y = vw(y); y = q.concretise(); (void)view.concretise(); (void)y.concretise();
    T s = mk<T>(); vw(y) = s; vw(y) = q; vw(y) = vw(q); vw(q) = vw(q);
    (void)q.raw_data(); 
    const V& cy = y; (void)cy.raw_data();
}
template<std::size_t D, typename T> void arith() {
    vec<D,T>& v = lv<vec<D,T>>(); vec<D,T>& w = lv<vec<D,T>>(); T s = mk<T>();
    v += w; v -= w; v *= w; v /= w; v += s; v -= s; v *= s; v /= s; v += vw(w); v -= vw(w); v *= vw(w); v /= vw(w);
    vw(v) += w; vw(v) -= w; vw(v) *= w; vw(v) /= w; vw(v) += s; vw(v) -= s; vw(v) *= s; vw(v) /= s; vw(v) += vw(w); vw(v) -= vw(w); vw(v) *= vw(w); vw(v) /= vw(w);
    auto a1 = v + w; auto a2 = v - w; auto a3 = v * w; auto a4 = v / w;
    auto b1 = v + s; auto b2 = v - s; auto b3 = v * s; auto b4 = v / s; auto c1 = s + v; auto c2 = s - v; auto c3 = s * v; auto c4 = s / v;
    auto d1 = vw(v) + w; auto d2 = v + vw(w); auto d3 = vw(v) + vw(w); auto d4 = vw(v) * s; auto d5 = s * vw(v);
    auto e1 = mk<vec<D,T>>() + w; auto e2 = v + mk<vec<D,T>>(); auto e3 = mk<vec<D,T>>() * mk<vec<D,T>>(); auto e4 = mk<vec<D,T>>() / s; auto e5 = s - mk<vec<D,T>>();
    auto e6 = mk<vec<D,T>>() + vw(w); auto e7 = vw(v) + mk<vec<D,T>>();
    auto e8 = v / mk<vec<D,T>>(); auto e9 = v - mk<vec<D,T>>(); auto e10_ = mk<vec<D,T>>() - w;
    auto f1 = v == w; auto f2 = v != w; auto f3 = v < w; auto f4 = v <= w; auto f5 = v > w; auto f6 = v >= w;
    auto g1 = v == s; auto g2 = v != s; auto g3 = v < s; auto g4 = v <= s; auto g5 = v > s; auto g6 = v >= s;
    auto h1 = s == v; auto h2 = s != v; auto h3 = s < v; auto h4 = s <= v; auto h5 = s > v; auto h6 = s >= v;
    auto k1 = vw(v) == w; auto k2 = v < vw(w); auto k3 = vw(v) >= s;
    auto m1 = -v; auto m2 = +v; auto m3 = -vw(v); auto m4 = -mk<vec<D,T>>();
    std::cout << v << vw(v);
}
void go() {
    members(lv<vec1d>()); members(lv<vec2f>()); members(lv<vec1u>()); members(lv<vec1s>()); 
    vec1d d; vec1u u; vec1s s; vec1b b; vec2d d2; vec3d d3; vec2b b2; vec1i iv; const vec1d cd; const vec2d cd2; const vec3d cd3; const vec1b cb;
    auto dv = d[u]; auto cdv = cd[u]; auto sv = s[u]; auto d2v = d2(_,_); auto cd2v = cd2(_,_); auto bv = b[u]; 
    members(dv); members(cdv); members(sv); members(b); members(bv);
    sortables(d); sortables(u); sortables(s); sortables(d2); sortables(iv); inplace_sort(dv);
    const auto cdvv = d[u];
    rng1(d); rng1(cd); rng1(dv); rng1(b); rng1(d2); srng1(d); srng1(dv); srng1(b); srng1(d2); rng1(s);
    index1(d); index1(cd); index1(dv); index1(cdv); index1(cdvv); index1(b); index1(cb); index1(bv); index1(d2); index1(cd2); index1(d2v); index1(s);
    call1(d); call1(cd); call1(dv); call1(cdv); call1(cdvv);
    call2(d2); call2(cd2); call2(d2v); call2(cd2v); call2(b2);
    auto d3v = d3(_,_,_); call3(d3); call3(cd3); call3(d3v);
    owning<1,double>(); owning<2,float>(); owning<1,bool>(); owning<1,std::string>(); owning<3,int_t>(); owning<1,uint_t>(); owning<2,bool>();
    arith<1,double>(); arith<2,float>(); arith<1,int_t>(); arith<3,double>();
    // raw index views with const safe
    const auto cdv2 = d2(_,_); call2(cdv2);
    // 1-D only
    d.push_back(1.0); b.push_back(true); s.push_back("a"); d2.push_back(d); d2.push_back(d2(0,_)); d3.push_back(d2); u.push_back(3u);
    d.resize(3); d.resize(mk<uint_t>()); d2.resize(3, 4); d2.resize(d2.dims); d3.resize(2, d2.dims); b.resize(2);
    vec1d a1(5); vec2d a2(2, 3); vec3d a3(2, d2.dims); vec1d a4 = {1, 2, 3}; vec2d a5 = {{1, 2}, {3, 4}}; vec3d a6 = {{{1.0}}}; vec1d a7(u); vec1f a8(d); vec1u a9(iv[u]); vec1i a10 = vec1i(d); vec1b a11(iv);
    a1 = {1, 2}; a2 = {{1}, {2}}; a4 = u; a4 = u[_]; a2 = vec2f(); d[_] = {1, 2, 3}; d[_] = u; d[_] = u[_];
    vec1d a12(d[_]); a12 = a12[u]; a12 = std::move(a4); dv = cdv; dv = dv; dv = u; 
    vec<1,double*> dvv(dv); vec<1,double*> dvm(std::move(dvv)); dv = std::move(dvm);
    vec<1,const double*> cdvm(cdv);
    iv[_] %= iv; iv[_] %= 3; auto im = iv % iv; auto im2 = iv % 3; auto im3 = 3 % iv; auto im4 = iv[_] % iv;
    auto l1 = b && b; auto l2 = b || b; auto l3 = !b; auto l4 = !bv; auto l5 = b && true; auto l6 = true || b; auto l7 = b[_] && b; auto l8 = b && b[_]; auto l9 = mk<vec1b>() && mk<vec1b>(); auto l10 = !mk<vec1b>(); auto l11 = b || mk<vec1b>();
    auto sp = s + s; auto sp2 = s + "a"; auto sp3 = "a" + s; auto sp4 = s + std::string("a"); auto sp5 = std::string() + s; s += s; s += std::string("a"); auto sp6 = s == s; auto sp7 = s < std::string("b"); auto sp8 = s[_] + s; auto sp9 = s != "a";
    auto x1 = d + iv; auto x2 = iv*2.5; auto x3 = 2.5f*iv; auto x4 = u + iv; auto x5 = d == iv; auto x6 = u < iv; auto x7 = 2*u - 1; auto x8 = d/iv[_];
    strides<1,double>(); 
    // ranges
    for (auto i : range(5)) (void)i; for (auto i : range(2, 5)) (void)i; for (auto i : range(d)) (void)i; for (uint_t i : range(mk<int>())) (void)i;
    for (auto i : range(1.0, 2.0, mk<uint_t>())) (void)i;
    for (auto i : range(mk<uint_t>(), mk<uint_t>())) (void)i; for (auto i : range(mk<int>(), mk<int>(), mk<uint_t>())) (void)i;
    auto it = range(5).begin(); it++; (void)(it == it); (void)(it != it); 
    // reverse iterators
    // operators with dims mismatch etc
    vec1c cc = {{'a','b'}}; 
    // vectorize
    auto vl = vectorize_lambda([](double a, double q) { return a + q; });
    auto y1 = vl(d, d); auto y2 = vl(d, 1.0); auto y3 = vl(1.0, d); auto y4 = vl(1.0, 2.0); auto y5 = vl(dv, d); auto y6 = vl(d2, d2);
    auto vl1 = vectorize_lambda([](double a) { return a; }); auto y7 = vl1(d); auto y8 = vl1(mk<vec1d>()); auto y9 = vl1(dv);
    auto vlv = vectorize_lambda([](double& a) { a = 1; }); vlv(d);
    auto vf = vectorize_lambda_first([](double a, double q) { return a + q; }); auto z1 = vf(d, 1.0); auto z2 = vf(1.0, 1.0); auto z3 = vf(mk<vec1d>(), 1.0); auto z4 = vf(dv, 1.0);
    // meta
    (void)meta::size(d); (void)meta::same_size(d, d); (void)meta::same_size(d, u, d); (void)meta::same_dims_or_scalar(d, 1.0); (void)meta::same_dims_or_scalar(d, d); (void)meta::same_dims_or_scalar(1.0, d, d);
    meta::resize_or_check(d, d.dims); meta::resize_or_check(dv, d.dims);
    // prompt, format
    (void)to_string(1.0); (void)to_string(u); (void)to_string_vector(d); (void)to_string(true); (void)to_string("a"); (void)to_string(format::precision(1.0, 3)); (void)to_string(format::scientific(1.0)); (void)to_string(format::fixed(1.0)); 
    (void)to_string_vector(format::scientific(d)); (void)to_string_vector(format::fixed(d)); (void)to_string_vector(format::precision(d, 3)); (void)to_string(format::precision(d,3));
    double fd; float ff; int fi; uint_t fu; std::string fs; bool fb; char fc; 
    (void)from_string("1", fd); (void)from_string("1", ff); (void)from_string("1", fi); (void)from_string("1", fu); (void)from_string("1", fs); (void)from_string("1", fb); (void)from_string("a", fc);
    (void)from_string(s, d); (void)from_string(s, u); (void)from_string(s, dv); (void)from_string(s[u], d);
    (void)pretty_type(d); (void)pretty_type((d)); (void)pretty_type(mk<vec1d>()); (void)pretty_type((cd)); (void)pretty_type(std::move(d));
    print(d, 1, "a"); error("a"); warning("b", 3); note("c"); print_progress: (void)prompt("a", fd);
    vif_check(d.size() == u.size(), "x ", d.dims, u.dims);
}
