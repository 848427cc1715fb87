#include "common.hpp"
template<typename T> void cols(T& v) {
    fits::input_table it("a"); fits::output_table ot("a"); fits::table t("a");
    it.read_column("a", v); it.read_column(fits::narrow, "a", v); it.read_column(fits::missing, "a", v); it.read_columns("a", v, "b", v); it.read_columns(fits::narrow, "a", v);
    ot.write_column("a", v); ot.write_columns("a", v, "b", v); t.update_column("a", v); t.update_columns("a", v, "b", v);
    it.read_columns(ftable(v)); it.read_columns(fits::missing, ftable(v)); ot.write_columns(ftable(v)); t.update_columns(ftable(v));
    t.read_column("a", v); t.write_column("a", v);
}
template<typename T> void img(T& v) {
    fits::header h; std::string s;
    fits::read(s, v); fits::read(s, v, h); fits::read_hdu(s, v, 1); fits::read_hdu(s, v, 1, h); fits::write(s, v); fits::write(s, v, h); fits::update_hdu(s, v, 1);
    fits::input_image ii(s); ii.read(v); fits::output_image oi(s); oi.write(v); fits::image im(s); im.read(v); im.write(v); im.update(v);
}
void go() {
    vec1d d; vec1f f; vec1i iv; vec1u u; vec1b b; vec1s s; vec2d d2; vec2f f2; vec2s s2; vec3f f3; vec2i i2; vec2u u2; vec2b b2; vec<1,char> c; vec<1,unsigned char> uc; vec<1,short> sh; vec<1,int> in; vec<1,unsigned int> ui; vec3d d3; vec<1,unsigned short> us;
    double sd; float sf; int_t si; uint_t su; bool sb; std::string ss;
    cols(d); cols(f); cols(iv); cols(u); cols(b); cols(s); cols(d2); cols(f2); cols(s2); cols(f3); cols(i2); cols(sd); cols(sf); cols(si); cols(ss); cols(sh); cols(u);  cols(c);
    img(d2); img(f2); img(d); img(d3); img(i2); img(u2); 
    { fits::output_table ot("a"); auto v = d[u]; auto sv = s[u]; auto bv = b[u]; ot.write_column("a", v); ot.write_column("a", sv); ot.write_column("b", bv); ot.write_columns("a", d); ot.allocate_column<float>("a", 1, 2); ot.set_format(fits::table_format::row_oriented); }
    { fits::table t("a"); t.remove_column("a"); t.remove_columns("a", "b"); t.update_elements("a", d, fits::at(1)); t.update_elements("a", sd, fits::at(1, 2)); }
    { fits::input_table t("a"); t.read_elements("a", d, fits::at(1)); t.read_elements("a", sd, fits::at(1, 2)); t.read_elements(fits::narrow, "a", f, fits::at(1, _)); (void)t.read_columns_info(); fits::column_info ci; (void)t.read_column_info("a", ci); t.reach_hdu(1); (void)t.hdu_count(); (void)t.current_hdu(); (void)t.hdu_type(); (void)t.axis_count(); (void)t.image_dims(); (void)t.is_open(); t.close(); t.open("a"); (void)t.read_header(); (void)t.has_keyword("a"); (void)t.read_keyword("a", sd); (void)t.read_keyword("a", ss); (void)t.read_keyword("a", si); (void)t.read_keyword("a", sb); }
    { fits::input_image i("a"); i.read_subset(d2, 1-_-2, _); i.read_subset(d2, _-2, 1-_); (void)i.read_pixel<double>(vec1u{1,2}); }
    { fits::output_table o("a"); o.write_keyword("a", 1.0); o.write_keyword("a", 1.0, "c"); o.write_keyword("a", "b"); o.write_keyword("a", ss); o.write_keyword("a", si); o.write_keyword("a", true); o.add_keyword("a", 1.0); o.add_keyword("a", 1.0, "c"); o.remove_keyword("a"); o.write_header(ss); o.flush(); o.close(); o.open("a"); o.reach_hdu(2); }
    { fits::output_image o("a"); o.write_empty(); fits::output_table ot2("a"); ot2.reach_hdu(1); }
    { fits::input_file a("a"); fits::input_file a2(std::move(a)); fits::file x("a"); fits::file x2(std::move(x)); fits::output_file y("a"); fits::output_file y2(std::move(y)); fits::input_image z("a"); fits::input_image z2(std::move(z)); fits::input_table q("a"); fits::input_table q2(std::move(q)); fits::table w("a"); fits::table w2(std::move(w)); fits::image i("a"); fits::image i2(std::move(i)); }
    (void)fits::file_axes(ss); (void)fits::file_dimensions(ss); (void)fits::read_sectfits(ss); (void)fits::read_header(ss); (void)fits::read_header_hdu(ss, 1); (void)fits::read_header_sectfits(ss, 1); (void)fits::read_header_sectfits_hdu(ss, 1, 2); (void)fits::read_table_columns(ss); (void)fits::read_table_columns(ss, 1);
    fits::read_table(ss, "a", d, "b", s); fits::read_table_loose(ss, "a", d); fits::read_table(ss, ftable(d, s)); fits::read_table_loose(ss, ftable(d, s)); fits::write_table(ss, "a", d); fits::write_table(ss, ftable(d, s)); fits::update_table(ss, "a", d); fits::update_table(ss, ftable(d, s));
    fits::setkey(ss, "a", 1.0); fits::setkey(ss, "a", "b", "c"); (void)fits::getkey(ss, "a", sd); (void)fits::getkey(ss, "a", ss); (void)fits::getkey(ss, "a", si);
    // ascii
    vec1d e; vec1s es; vec2d e2;
    ascii::read_table(ss, d, e); ascii::read_table(ss, d, s, u, iv, b, f); ascii::read_table(ss, ascii::input_format::csv(), d, e); ascii::read_table(ss, ascii::columns(3, d2), s); ascii::read_table(ss, ascii::columns(3, d2, e2), s); ascii::read_table(ss, _, d); ascii::read_table(ss, ascii::columns(2, _, d2)); ascii::read_table(ss, ascii::columns(2, _)); 
    ascii::write_table(ss, d, e); ascii::write_table(ss, d, s, u, iv, b, f, d2); ascii::write_table(ss, ascii::output_format::csv(), d, e); ascii::write_table(ss, ftable(d, e)); ascii::write_table(ss, ascii::output_format::csv(), ftable(d, d2)); ascii::write_table(ss, ascii::columns(3, d2, e2)); ascii::write_table(ss, ascii::columns(3, d2), d); ascii::write_table(ss, format::fixed(d), format::scientific(d2), format::precision(d, 3)); ascii::write_table(ss, ascii::columns(2, format::fixed(d2)), d);
    // files
    (void)file::exists(ss); (void)file::is_older(ss, ss); (void)file::is_absolute_path(ss); (void)file::copy(ss, ss); (void)file::remove(ss); (void)file::move(ss, ss); (void)file::to_string(ss); file::explorer ex(ss); file::explorer::file_data fd; (void)ex.find_next(fd); ex.open(ss, "a"); ex.close(); (void)file::list_directories(ss); (void)file::list_files(ss); (void)file::directorize(ss); (void)file::get_basename(ss); (void)file::get_directory(ss); (void)file::remove_extension(ss); (void)file::get_extension(ss); (void)file::split_extension(ss); (void)file::mkdir(ss); 
    (void)file::exists(s); (void)file::is_absolute_path(s); (void)file::directorize(s); (void)file::get_basename(s); (void)file::get_directory(s); (void)file::remove_extension(s); (void)file::get_extension(s); (void)file::mkdir(s); (void)file::is_older(s, ss); (void)file::split_extension(s);
    // argv
    int ac; char** av; read_args(ac, av, arg_list(d, s, u, b, sd, ss, sb, si, su, f, iv)); read_args(ac, av, arg_list(name(d, "x"), ss)); program_arguments pa(ac, av); pa.read(arg_list(d, ss, name(sd, "y"))); pa.merge(pa); (void)pa.serialize(); save_args(ss, ss, ac, av); (void)make_cmd(ac, av);
    pa.write(arg_list(d, ss, sd));
    // hash, reflex etc
}
