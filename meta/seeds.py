U = 'include/vif/utility/bits/'
seed('a01-upper-range-bound', 'P01', [('include/vif/core/range.hpp', 'vif_check(left.last < size, "upper bound', 'vif_check(left.last <= size, "upper bound')], '''
void demo() {
    vec1d v = {1,2,3,4}; vec2d m(3,4);
    REJECTS(vec1d r = v[_-4]);
    REJECTS(vec1d r = m(1,2-_-4));
    RETURNS(vec1d r = v[1-_-3]);
}''', 'a range whose last index equals the size of the dimension', 'reads one element past the end of a dimension through a range')
seed('a03-complement', 'P04', [(U + 'generic-find.hpp', 'sel[i] = true;', 'sel.safe[i] = true;')], """
void demo() {
    vec1d v(5);
    REJECTS(complement(v, vec1u{7}));
    TRUE_(complement(v, vec1u{1,2}).size() == 3);
}""", 'an index larger than the vector among the ids', 'writes out of bounds instead of rejecting the index')
seed('a04-append-size', 'P04', [(U + 'generic-rearrange.hpp', '''        t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
        t1.dims[0] += t2.dims[0];''', '''        t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
        t1.dims[0] += t1.dims[0];''')], '''
void demo() {
    vec1d a = {1,2,3}, b = {4};
    TRUE_((prepend(a, b), a.dims[0] == a.data.size()));
}''', 'prepending a vector of a different size', 'dimension no longer matches the number of elements')
seed('a05-weighted-dims', 'P05', [('include/vif/math/reduce.hpp', '''        vif_check(v.dims == w.dims, "incompatible dimensions between values and weights "
            "(", v.dims, " vs. ", w.dims, ")");

        double totw = 0;
        for''', '''        vif_check(v.size() <= w.size(), "incompatible dimensions between values and weights "
            "(", v.dims, " vs. ", w.dims, ")");

        double totw = 0;
        for''')], '''
void demo() {
    vec1d v = {1,2,3}, w = {1,1,1,1};
    REJECTS(weighted_percentile(v, w, 0.5));
}''', 'weights longer than the values', 'mismatched weights are accepted')
seed('a06-interp-min', 'P06', [('include/vif/math/interpolate.hpp', '''        vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
            " vs. ", y.dims, ")");
        vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");

        uint_t nmax = x.size();''', '''        vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
            " vs. ", y.dims, ")");
        vif_check(y.size() >= 1, "interpolated data must contain at least 2 elements");

        uint_t nmax = x.size();''')], '''
void demo() {
    vec1d x = {1.0}, y = {2.0};
    REJECTS(interpolate(y, x, 1.5));
}''', 'interpolating a single point', 'reads outside a one-point table')

seed('b14-bounds-second', 'P14', [(U + 'generic-find.hpp', 'iter = std::upper_bound(iter, v.data.end(), x2,', 'iter = std::lower_bound(iter, v.data.end(), x2,')], """
void demo() {
    vec1d v = {1,2,3,4};
    auto b = bounds(v, 1.5, 3.0);
    TRUE_(b[0] == 0 && b[1] == 3);
    b = bounds(v, 1.5, 2.5);
    TRUE_(b[0] == 0 && b[1] == 2);
}""", 'an upper bound that is exactly equal to one of the values', 'the upper position designates a value that is not greater than the bound')
seed('b14-unique-last', 'P14', [(U + 'generic-find.hpp', """            uint_t i = sid.safe[ti];
            if (v[i] != last) {
                r.push_back(i);
                last = v.safe[i];
            }""", """            uint_t i = sid.safe[ti];
            if (v[i] != last) {
                r.push_back(i);
            }
            last = v.safe[sid.safe[ti-1]];""")], """
void demo() {
    vec1d v = {3,1,1,2,3,1};
    vec1u s = sort(v);
    TRUE_(unique_ids(v, s).size() == 3);
    vec1d w = {3,1,2};
    TRUE_(unique_ids(w, sort(w)).size() == 3);
}""", 'a value present several times, with sorting indices given', 'values are returned several times')
seed('b17-lu-pivot-sign', 'P17', [('include/vif/math/bits/matrix-functions.hpp', """                        double ajk = abs(lu.safe(j,k));""", """                        double ajk = lu.safe(j,k);""")], """
void demo() {
    matrix::mat2d m(2,2); m(0,0) = 0; m(0,1) = 1; m(1,0) = -2; m(1,1) = 3;
    matrix::decompose_lu d;
    TRUE_(d.decompose(m));
    TRUE_((d.decompose(m), fabs(d.determinant() - 2.0) < 1e-9));
}""", 'a zero on the diagonal above negative entries only', 'a regular matrix is reported as singular')
seed('b18-inflate-edge', 'P18', [('include/vif/astro/image.hpp', "(y > 0 && !m.safe(x,y-1)) || (y < m.dims[1]-1 && !m.safe(x,y+1))) {", "(y > 0 && !m.safe(x,y-1)) || (y < m.dims[0]-1 && !m.safe(x,y+1))) {")], """
#include <vif/astro/image.hpp>
void demo() {
    vec2b m(1,4); m(0,0) = true;
    TRUE_(astro::mask_inflate(m, 1)(0,1));
    m = replicate(false, 2, 5); m(_,0) = true; m(_,1) = true;
    TRUE_(astro::mask_inflate(m, 1)(0,2) && astro::mask_inflate(m, 1)(1,2));
}""", 'a mask wider than high whose marked region ends at a column beyond its height', 'the mask is not inflated along that edge')
seed('b21-verbose-join', 'P21', [(U + 'thread-parallel-for.hpp', """                // Join all
                for (auto& t : workers) {
                    t.join();
                }

                if (verbose) {
                    print_progress(pg, iter);
                }""", """                if (verbose) {
                    // All iterations are done already
                    print_progress(pg, iter);
                } else {
                    // Join all
                    for (auto& t : workers) {
                        t.join();
                    }
                }""")], """
#include <vif/utility/thread.hpp>
void demo() {
    thread::parallel_for p(2);
    std::atomic<uint_t> n(0);
    RETURNS(p.execute([&](uint_t) { ++n; }, 10); p.execute([&](uint_t) { ++n; }, 10));
    RETURNS({ thread::parallel_for q(2); q.verbose = true; q.update_rate = 0.001; q.execute([&](uint_t) { ++n; }, 10); });
}""", 'a parallel loop run with progress reporting enabled', 'the loop returns without waiting for its threads')

seed('c22-replace-shrink', 'P22', [(U + 'string-find-replace.hpp', "p = s.find(pattern, p+rep.size());", "p = s.find(pattern, p+std::max(rep.size(), pattern.size()));")], """
void demo() {
    TRUE_(replace(std::string("aab"), "a", "") == "b");
    TRUE_(replace(std::string("xyxyxy"), "xy", "a") == "aaa");
    TRUE_(replace(std::string("a-b-c"), "-", "--") == "a--b--c");
}""", 'a replacement shorter than the pattern and two adjacent matches', 'every other adjacent match is left in place')
seed('c22-split-tail', 'P22', [(U + 'string-split.hpp', """        if (op != ts.npos) {
            ret.data.push_back(ts.substr(op));
        }

        ret.dims[0] = ret.size();""", """        if (op != ts.npos && op+1 < ts.size()) {
            ret.data.push_back(ts.substr(op));
        }

        ret.dims[0] = ret.size();""")], """
void demo() {
    TRUE_(split_any_of(std::string("ab c"), std::string(" ")).size() == 2);
    TRUE_(split_any_of(std::string("a"), std::string(" ,")).size() == 1);
    TRUE_(split_any_of(std::string("ab,cd "), std::string(" ,")).size() == 2);
}""", 'a text whose last word is a single character', 'that word is lost')
seed('c23-stale-errors', 'P23', [('include/vif/math/linfit.hpp', "fr.errors = sqrt(matrix::diagonal(fr.cov));", "if (fr.errors.size() != np) fr.errors = sqrt(matrix::diagonal(fr.cov));")], """
#include <vif/math/linfit.hpp>
void demo() {
    TRUE_(([]() { vec1d e = {1,1}, x = {1,1}, z = {2,2}, y = {3,5}; auto b = linfit_batch(e, x); b.fit(y); double o = b.fr.errors[0]; b.update_model(0, z); b.fit(y); return std::abs(b.fr.errors[0] - 0.5*o) < 1e-9; })());
}""", 'a batch whose model is replaced after construction', 'the errors are those of the previous model')
seed('c24-normalize-once', 'P24', [('include/vif/astro/astro.hpp', "while (ra > 360.0) {", "if (ra > 360.0) {")], """
#include <vif/astro/astro.hpp>
void demo() {
    TRUE_(([]() { double r = 10, d = 20; astro::normalize_coordinates(r, d); return r == 10 && d == 20; })());
    TRUE_(([]() { double r = 730, d = 20; astro::normalize_coordinates(r, d); return r == 10 && d == 20; })());
    TRUE_(([]() { double r = 550, d = 100; astro::normalize_coordinates(r, d); return r == 10 && d == 80; })());
}""", 'a right ascension more than one turn above the range', 'the coordinates stay out of range')
seed('c24-flux-step', 'P24', [('include/vif/astro/astro.hpp', "nval = sed.safe[ised]*sed2flux_interpolate(flam, fres, nlam, ifil);", "nval = sed.safe[ised]*fres.safe[ifil];")], """
#include <vif/astro/astro.hpp>
void demo() {
    vec1d fl = {2,6}, fr = {0,1}, l = {0,3,4,5,8}, s = {1,1,1,1,1};
    TRUE_(std::abs(astro::sed2flux(fl, fr, l, s) - 2.0) < 1e-9);
    TRUE_(std::abs(astro::sed2flux(fl, fr, vec1d{0,8}, vec1d{1,1}) - 2.0) < 1e-9);
}""", 'a spectrum with points between two points of the filter', 'the response of the filter is taken as constant between its points')
seed('c16-bilinear-wide', 'P16', [('include/vif/math/interpolate.hpp', """            tiy = map.dims[1]-2;
            dy = y - tiy;
        }

        uint_t ix = tix;
        uint_t iy = tiy;

        return bilinear(map.safe(ix,iy), map.safe(ix,iy+1),""", """            tiy = map.dims[0]-2;
            dy = y - tiy;
        }

        uint_t ix = tix;
        uint_t iy = tiy;

        return bilinear(map.safe(ix,iy), map.safe(ix,iy+1),""")], """
#include <vif/math/interpolate.hpp>
void demo() {
    vec2d m = {{1,2,7},{3,4,9}};
    TRUE_(std::abs(bilinear(m, 0.0, 2.0) - 7.0) < 1e-9);
    TRUE_(std::abs(bilinear(m, 1.0, 0.5) - 3.5) < 1e-9);
}""", 'a map wider than high, at its last column', 'the value is extrapolated from the wrong pixels')
seed('c15-weighted-percentile', 'P15', [('include/vif/math/reduce.hpp', "if (tot >= totw*p) {", "if (tot > totw*p) {")], """
#include <vif/math/reduce.hpp>
void demo() {
    TRUE_(weighted_percentile(vec1d{1,2,3,4}, vec1d{1,1,1,1}, 0.5) == 2);
    TRUE_(weighted_percentile(vec1d{1,2,3,4}, vec1d{1,1,1,1}, 0.6) == 3);
    TRUE_(weighted_percentile(vec1d{4,1}, vec1d{1,3}, 1.0) == 4);
}""", 'a cumulated weight exactly equal to the requested fraction', 'the next value is returned, or none')
seed('c11-same-first', 'P11', [('include/vif/core/vec.hpp', """            if (view_same(v)) {
                // The two vectors are referencing the same underlying data, so we need to store the""", """            if (view_same(v) && !data.empty() && static_cast<const void*>(&v.safe[0]) != static_cast<const void*>(data[0])) {
                // The two vectors are referencing the same underlying data, so we need to store the""")], """
void demo() {
    TRUE_(([]() { vec1d v = {1,2,3,4}; v[vec1u{0,1,2}] = v[vec1u{0,2,1}]; return v[1] == 3 && v[2] == 2; })());
    TRUE_(([]() { vec1d v = {1,2,3,4}; v[vec1u{1,2}] = v[vec1u{2,1}]; return v[1] == 3 && v[2] == 2; })());
}""", 'two overlapping views that start at the same element and continue in a different order', 'elements are overwritten before they are read')
seed('c13-reversed-rvalue', 'P13', [('include/vif/core/bits/operators.hpp', "v.data[i] = impl::get_element_(u, i) op v.data[i];", "v.data[i] sop impl::get_element_(u, i);")], """
void demo() {
    vec1d a = {1,2}, b = {3,5};
    TRUE_((a - (b+1.0))[0] == -3 && (a - (b+1.0))[1] == -4);
    TRUE_((a/(b+b))[1] == 0.2);
    TRUE_((a + (b+1.0))[0] == 5);
}""", 'a vector minus or divided by a temporary vector', 'the operands are exchanged')
seed('d25-merged-flux', 'P25', [('include/vif/astro/image.hpp', "                    out.flux[neib_seg-params.first_id] += out.flux[s];\n", "                    out.flux[neib_seg-params.first_id] += img[out.origin[s]];\n")], """
#include <vif/astro/image.hpp>
using namespace vif::astro;
void demo() {
    vec2d m = {{9,6,3,5,4,0.5}}; segment_deblend_params p; p.deblend_threshold = 2; p.min_area = 3; segment_deblend_output r;
    auto s = segment_deblend(m, r, p); double f = 0; for (uint_t i : range(m)) if (s[i] == r.id[0]) f += m[i];
    TRUE_(r.id.size() == 1 && std::abs(r.flux[0] - f) < 1e-4);
    segment_deblend_output q; segment_deblend(m, q); TRUE_(std::abs(q.flux[0] - 27) < 1e-4);
}""", 'a group below the minimum area with several pixels, merged into its neighbour', 'the flux of the merged source only includes the peak of the group')
seed('d25-nearest-column', 'P25', [('include/vif/astro/image.hpp', "                        double oy = imap.safe(ty,tx) / imap.dims[1];\n                        double nd", "                        double oy = imap.safe(ty,tx) / imap.dims[0];\n                        double nd")], """
#include <vif/astro/image.hpp>
using namespace vif::astro;
void demo() {
    vec2u m(2,4), i; m(1,3) = 5; vec2d d; segment_distance(m, d, i);
    TRUE_(d(0,0) == 10 && d(1,0) == 9 && m(0,0) == 5);
    vec2u n(3,3); n(1,2) = 2; segment_distance(n, d, i); TRUE_(d(0,0) == 5);
}""", 'a map that is not square', 'distances to the nearest segment are measured from the wrong row')
seed('d15-hint-none', 'P15', [('include/vif/math/reduce.hpp', "                i1 = i0-1;\n", "                i1 = i0;\n")], """
#include <vif/math/reduce.hpp>
void demo() {
    vec1d x = {0,1,2,3}, y = {1,5,2,4}; uint_t h = npos;
    TRUE_(std::abs(integrate_hinted(x, y, h, 1.2, 1.5) - integrate(x, y, 1.2, 1.5)) < 1e-9);
    h = npos; TRUE_(std::abs(integrate_hinted(x, y, h, 0.5, 2.5) - integrate(x, y, 0.5, 2.5)) < 1e-9);
}""", 'no hint, and both limits inside of one interval', 'the integral is extrapolated from the next interval')
seed('d16-spline-end', 'P16', [('include/vif/math/interpolate.hpp', "                                    + 3*d.safe[n-1]*sqr(x.safe[n]-x.safe[n-1]);", "                                    + 3*d.safe[n-1]*(x.safe[n]-x.safe[n-1]);")], """
#include <vif/math/interpolate.hpp>
void demo() {
    vec1d x = {0,1,2,4}, y = {0,3,1,2}, xr = {0,2,3,4}, yr = {2,1,3,0};
    TRUE_(std::abs(interpolate_3spline(y, x, 5.0) - interpolate_3spline(yr, xr, -1.0)) < 1e-9);
    TRUE_(std::abs(interpolate_3spline(y, x, 3.0) - interpolate_3spline(yr, xr, 1.0)) < 1e-9);
}""", 'a position beyond the last point, whose last interval is not of unit length', 'the extrapolation has the wrong slope')
seed('d26-trailing-dir', 'P26', [('include/vif/io/filesystem.hpp', "                pos = path.find_last_of('/', pos-1);\n                if (pos == path.npos) {\n                    return \"./\";", "                pos = path.find_last_of('/', pos-1);\n                if (pos == path.npos || pos == 0) {\n                    return \"./\";")], """
#include <vif/io/filesystem.hpp>
void demo() {
    TRUE_(file::get_directory("a/b/c/") == "a/b/"); TRUE_(file::get_directory("/x/") == "/"); TRUE_(file::get_directory("a/b") == "a/"); TRUE_(file::get_directory("a/") == "./");
}""", 'an absolute path of one level with a trailing separator', 'the directory of a top-level directory is the current directory')
seed('d27-reopen', 'P27', [('include/vif/io/filesystem.hpp', "            close();\n\n            dirfd = opendir", "            if (dir != directory) close();\n\n            dirfd = opendir")], """
#include <vif/io/filesystem.hpp>
#include <dirent.h>
uint_t fds() { uint_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
void demo() {
    file::mkdir("a"); file::mkdir("b"); file::explorer e; e.open("a"); uint_t n = fds();
    e.open("b"); TRUE_(fds() == n); e.open("b"); e.open("b"); TRUE_(fds() == n); e.open("a", "*"); TRUE_(fds() == n);
}""", 'the same directory opened twice in a row with the same object', 'the previous listing of the directory is never closed')
seed('d27-regex-unmatched', 'P27', [('include/vif/utility/bits/string-regex.hpp', "            r.safe[i] = impl::regex::regex_match_(v, re);\n            regfree(&re);", "            r.safe[i] = impl::regex::regex_match_(v, re);\n            if (r.safe[i]) regfree(&re);")], """
#include <vif/utility/string.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
void demo() {
    vec1s r = {"a+", "b[c]"}; (void)regex_match("aaa", r); size_t n = __sanitizer_get_current_allocated_bytes();
    for (uint_t i = 0; i < 100; ++i) (void)regex_match("aaa", r);
    TRUE_(__sanitizer_get_current_allocated_bytes() < n + 1000);
}""", 'an array of regular expressions of which one does not match', 'the memory of each expression that does not match is lost')
