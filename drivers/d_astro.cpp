#include "common.hpp"
#include <vif/astro/qstack.hpp>
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/ds9.hpp>
#include <vif/astro/template_fit.hpp>
struct cat_t { vec1d ra, dec; vec1s bands, notes; };
struct cat2_t { vec1d ra, dec; vec1s bands; };
struct lib_t { vec2d lam, sed; };
void go() {
    vec1d ra, dec, d, e, x, y; vec2d im, psf; vec1u u, id1, id2; vec1i iv; vec1s s; vec3d cube; double sd, sx, sy; std::string ss; uint_t su; vec1b b; vec2b mask; vec2u seg; auto seed = make_seed(42); cosmo_t cosmo; filter_t fil; vec<1,filter_t> fils; filter_db_t db; filter_map_t fm; filter_bank_t fb;
    (void)angdist(ra, dec, ra, dec); (void)angdist(ra, dec, 1.0, 2.0); (void)angdist(1.,2.,3.,4.); (void)angdist_less(ra, dec, 1.0, 2.0, 3.0); move_ra_dec(sx, sy, 1.0, 2.0); move_ra_dec(ra, dec, 1.0, 2.0); normalize_coordinates(sx, sy); normalize_coordinates(ra, dec); (void)vernal_angle<double>; angrot_vernal(ra, dec, 1.0, x, y);
    (void)psffit(im, im, psf, iv); 
    (void)propsize(1.0, cosmo); (void)lumdist(1.0, cosmo); (void)lookback_time(1.0, cosmo); (void)vuniverse(1.0, cosmo); (void)propsize(d, cosmo); (void)lumdist(d, cosmo); (void)lookback_time(d, cosmo); (void)vuniverse(d, cosmo);
    (void)lsun2uJy(1.0, 1.0, d, d); (void)uJy2lsun(1.0, 1.0, d, d); (void)lsun2mag(d, d); (void)uJy2mag(d); (void)mag2uJy(d); (void)uJy2cgs(d, d); (void)cgs2uJy(d, d);
    (void)field_area_hull(ra, dec); (void)field_area_h2d(ra, dec); (void)field_area(ra, dec); (void)angcorrel(ra, dec, ra, dec, im);
    randpos_uniform_box(seed, 10, d, d, x, y, [](double, double) { return true; }); randpos_uniform_circle(seed, 10, 1.,2.,3., x, y); randpos_uniform_circle(seed, 10, 1.,2.,3., x, y, [](double, double) { return true; }); randpos_power_base(seed, 1., 2., 3., x, y, randpos_power_options()); randpos_power_circle(seed, 1., 2., 3., x, y, [](double, double, double) { return true; }, randpos_power_options());
    (void)sex2deg(ss, ss, sx, sy); (void)sex2deg(s, s, ra, dec); deg2sex(1.0, 2.0, ss, ss); deg2sex(ra, dec, s, s); print_radec(ss, ra, dec);
    cat_t cat; cat2_t cat2; (void)get_band(s, ss, su); (void)get_band<cat_t>(s, s, ss, ss, su); (void)get_band(cat, ss, su); (void)get_band(cat2, ss, su); (void)get_band(cat, ss, ss, su);
    pick_sources(im, x, y, 5, cube, u); (void)sed2flux(d, d, d, d); (void)sed2flux(fil, d, d); (void)sed2flux(fil, im, im); (void)sed_convert(fil, fil, 1.0, 1.0, d, d); (void)sed_luminosity(d, d, 1., 2.); (void)lir_8_1000(d, d); (void)make_psf(im.dims, 1.0, 2.0, ss, psf); (void)read_filter_db(ss); (void)get_filter(db, ss, fil); (void)get_filters(db, s, fb); print_filters(db); (void)read_filter_map(ss); (void)get_filter_id(fm, ss, su); (void)get_filter_id(fm, s, u);
    // image
    (void)enlarge(im, {{1,2,3,4}}); (void)enlarge(im, 3); (void)shrink(im, {{1,2,3,4}}); (void)shrink(im, 3); subregion(im, iv, id1, id2); (void)subregion(im, iv); (void)translate(im, 1., 2.); (void)translate_bicubic(im, 1., 2.); (void)flip_x(im); (void)flip_y(im); (void)scale(im, 2.0); (void)scale_bicubic(im, 2.0); (void)rotate(im, 1.0); (void)rotate_bicubic(im, 1.0); inplace_shift(im, 1, 2); (void)shift(im, 1, 2); inplace_translate_integer(im, 1, 2); (void)translate_integer(im, 1, 2); auto imv = im(_,_); (void)recenter(im, 1, 2, im.dims); (void)recenter(im, 1, 2); (void)circular_mask(im.dims, 1.0, 2.0, 3.0); (void)circular_mask(im.dims, 1.0); (void)radial_profile(im, 10); (void)generate_img(im.dims, [](double, double) { return 1.0; }); (void)gaussian_profile(im.dims, 1.0, 2.0, 3.0); (void)gaussian_profile(im.dims, 1.0); (void)convolve2d_naive(im, psf); vec2cd ck; uint_t hx, hy; ck = convolve2d_prepare_kernel(im, psf, hx, hy); (void)convolve2d(im, ck, hx, hy); (void)convolve2d(im, psf); auto cv = batch_convolve2d(psf); (void)cv.convolve(im); (void)make_transition_kernel(im, psf); (void)boxcar(im, 3, [](vec1d v) { return v[0]; }); (void)mask_inflate(mask, 3); foreach_segment(seg, u, [](uint_t, vec1u) {}); segment_output so; (void)segment(mask, so); (void)segment(mask); (void)segment(seg, so); segment_deblend_output sdo; (void)segment_deblend(im, sdo); segment_distance(seg, im, seg);
    fits::header h; cutout_extractor ce; ce.setup_image(ss); (void)ce.get_cutout(im, 1.0, 2.0, 3.0); (void)ce.get_cutout(im, h, 1.0, 2.0, 3.0); 
    astro::wcs w; (void)regrid_interpolate(im, w, w); (void)regrid_drizzle(im, w, w, im); (void)regrid_drizzle(im, w, w);
    // wcs
    make_wcs_header_params mp; (void)make_wcs_header(mp, h); (void)make_wcs_header(s, h); (void)filter_wcs(h); vif::impl::wcs_impl::cure_header(h); astro::wcs w2(h); astro::wcs w3(std::move(w2)); w = std::move(w3); (void)extast(h); ad2xy(w, ra, dec, x, y); xy2ad(w, x, y, ra, dec); ad2xy(w, 1.0, 2.0, sx, sy); xy2ad(w, 1.0, 2.0, sx, sy); (void)get_pixel_size(w, sd); (void)get_pixel_size(ss, sd); (void)get_image_rotation(w, sd); (void)get_image_rotation(ss, sd); x2w(w, 0, x, y); w2x(w, 0, x, y); x2w(w, 0, 1.0, sd); w2x(w, 0, 1.0, sd); (void)build_axis(w, 0); (void)w.is_valid();
    // ds9
    ds9::region r; vec<1,ds9::region> rs; ds9::read_regions(ss, rs); ds9::read_regions_physical(ss, w, rs); ds9::read_regions_physical(ss, rs); ds9::mask_region(r, mask); ds9::mask_regions(rs, mask); ds9::mask_regions(ss, mask); ds9::mask_regions(ss, w, mask); ds9::write_regions_wcs(ss, rs, w); ds9::write_regions_physical(ss, rs);
    // qxmatch
    qxmatch_params qp; auto qr = qxmatch(ra, dec, ra, dec, qp); (void)qxmatch(cat, cat2, qp); (void)qxmatch(cat, qp); (void)qxmatch(ra, dec, qp); (void)xmatch_clean_best(qr); (void)qdist(ra, dec); qxmatch_save(ss, qr); (void)qxmatch_restore(ss);
    // qstack
    qstack_params qsp; (void)qstack(ra, dec, ss, 10, cube, u, qsp); (void)qstack(ra, dec, ss, ss, 10, cube, cube, u, qsp); (void)qstack_mean(cube); (void)qstack_mean(cube, cube); (void)qstack_median(cube); qstack_bootstrap(cube, 10, 5, seed, [](vec3d) {}); qstack_bootstrap(cube, cube, 10, 5, seed, [](vec3d, vec3d) {}); (void)qstack_mean_bootstrap(cube, 10, 5, seed); (void)qstack_mean_bootstrap(cube, cube, 10, 5, seed); (void)qstack_median_bootstrap(cube, 10, 5, seed);
    // template fit
    lib_t lib; (void)template_observed(lib, fils); (void)template_observed(lib, 1.0, 2.0, fils); (void)limweight(d); (void)limweight(1.0); (void)template_fit(lib, seed, 1.0, 2.0, d, e, fils, template_fit_params()); 
}
