#include "common.hpp"
template<typename A, typename B> void find2(A& v, B& w) {
    vec1u i1, i2; (void)is_any_of(v, w); match(v, w, i1, i2);
    (void)set_intersection_sorted(v, w); (void)set_intersection(v, w); (void)set_union_sorted(v, w); (void)set_union(v, w);
    append(v, w); prepend(v, w);
}
template<typename A> void find1(A& v) {
    vec1u ids;
    (void)unique_ids_sorted(v); (void)unique_ids(v); (void)unique_ids(v, ids); (void)unique_values_sorted(v); (void)unique_values(v); (void)unique_values(v, ids);
    (void)is_sorted(v); (void)sort(v); inplace_sort(v); (void)complement(v, ids); (void)remove(v, ids); inplace_remove(v, ids);
    (void)equal_range(v, v[0]); (void)lower_bound(v, v[0]); (void)upper_bound(v, v[0]); (void)bounds(v, v[0]); (void)bounds(v, v[0], v[0]); (void)is_any_of(v[0], v);
    (void)flatten(v); (void)mult_ids(v, mk<uint_t>()); (void)mult_ids(v, ids);
    (void)mult_ids(v.dims, mk<uint_t>()); (void)mult_ids(v.dims, ids);
}
template<typename A> void rearr1(A& v) { (void)reverse(v); (void)shift(v, mk<int_t>()); inplace_shift(v, mk<int_t>()); }
void go() {
    vec1d d; vec1u u; vec1s s; vec2d d2; vec1b b; vec2b b2; vec1i iv; vec3f f3; vec1f f; vec2i i2;
    auto dv = d[u]; auto d2v = d2(_,_);
    find1(d); find1(u); find1(s); find1(d2); find1(f);
    (void)unique_ids(dv); (void)unique_values(dv); (void)is_sorted(dv); (void)sort(dv); (void)lower_bound(dv, 1.0); (void)upper_bound(dv, 1.0); (void)bounds(dv, 1.0); (void)bounds(dv, 1.0, 2.0); (void)equal_range(dv, 1.0); (void)flatten(d2v); (void)flatten(mk<vec<2,double*>>()); (void)flatten(mk<vec2d>()); (void)flatten(3.0); (void)complement(dv, u);
    { vec1u a1,a2; (void)is_any_of(d, f); match(d, f, a1, a2); match(u, u, a1, a2); match(s, s, a1, a2); (void)is_any_of(s, s); (void)is_any_of(std::string(), s); match(dv, d, a1, a2); }
    (void)set_intersection_sorted(d, f); (void)set_union_sorted(d, f); (void)set_intersection_sorted(u, u);
    append(d, f); prepend(d, f); append(s, s); prepend(s, s); append(d, dv); append<0>(d2, d2); append<1>(d2, d2); prepend<0>(d2, d2); prepend<1>(d2, d2); append<0>(f3, f3); append<2>(f3, f3); append<0>(d2, d2v); append<0>(d, d);
    prepend<1>(f3, f3); append<1>(f3, f3);
    rearr1(d); rearr1(s); (void)transpose(d2); (void)transpose(i2);
    (void)replicate(1.0, 5); (void)replicate(1.0, 5, 3); (void)replicate(d, 3); (void)replicate(d2, 3); (void)replicate(1.0, d2.dims); (void)replicate(dv, 2); (void)replicate(std::string(), 2); (void)replicate(d, 2, 3);
    (void)sort(d, [](double a, double c) { return a < c; }); inplace_sort(d, [](double a, double c) { return a < c; });
    (void)where(b); (void)where(b2); (void)where_first(b); (void)where_last(b); (void)where(d > 2); (void)where(b[_]);
    (void)flat_id(d2.dims, 1, 2); (void)flat_id(d2, 1, 2); (void)flat_id(f3, mk<uint_t>(), mk<uint_t>(), mk<uint_t>()); (void)flat_id(d2, mk<int>(), mk<int>());
    increment_index_list(u, u); increment_index_list(u, mk<uint_t>());
    (void)reform(d, 2, 3); (void)reform(mk<vec1d>(), 2, 3); (void)reform(dv, 2, 3); (void)reform(mk<vec<1,double*>>(), 2, 3); (void)reform(d2, d2.dims); (void)reform(d2, 6);
    (void)indgen(5); (void)indgen<double>(5); (void)indgen(2, 3); (void)indgen<uint_t>(d2.dims);
    uint_t x, y; (void)astar_find(b2, x, y);
    // strings
    std::string st; std::string st2;
    (void)to_upper(st); (void)to_lower(st); (void)to_upper(s); (void)trim(st); (void)trim(s); (void)trim(st, "a"); (void)erase_begin(st, 2); (void)erase_begin(st, "a"); (void)erase_end(st, 2); (void)erase_end(st, "a"); (void)erase_begin(s, 2); (void)erase_end(s, std::string("a")); (void)erase_end(s, 3); (void)erase_begin(s, std::string("x"));
    (void)replace(st, "a", "b"); (void)replace(s, std::string("a"), std::string("b")); (void)find(st, "a"); (void)find(s, "a"); (void)begins_with(st, "a"); (void)ends_with(st, "a"); (void)begins_with(s, "a"); (void)ends_with(s, "a"); (void)empty(st); (void)empty(s); (void)length(st); (void)length(s); (void)distance(st, st); (void)distance(s, st); (void)keep_first(st, 2); (void)keep_last(st, 2); (void)keep_first(s, 2); (void)keep_last(s, 2);
    (void)split(st, ","); (void)split_any_of(st, ",;"); (void)cut(st, 10);
    (void)wrap(st, 10); (void)wrap(st, 10, "a", true); (void)align_left(st, 10); (void)align_right(st, 10); (void)align_center(st, 10); (void)align_left(s, 10); (void)align_right(s, 10); (void)align_center(s, 10);
    (void)replace_block(st, "a", "b", [](std::string q) { return q; }); (void)replace_blocks(st, "a", "s", "b", [](vec1s q) { return q[0]; });
    (void)get_word(st, 0, " "); (void)get_word(st, -1, std::string(" ")); 
    (void)regex_match(st, "a"); (void)regex_match(s, "a"); (void)regex_extract(st, "a"); (void)regex_replace(st, "a", [](vec1s) { return std::string(); }); 
    (void)hash(st); (void)hash(s); (void)hash(1, st, 2.0); (void)hash(d); (void)hash(1);
    (void)to_string(s); 
    (void)system_var("A", st); (void)spawn("a"); (void)fork("a");
    // time
    (void)now(); (void)today(); (void)time_str(1.0); (void)seconds_str(1.0); (void)profile([]() {}); (void)profile([]() {}, 3); 
    auto pg = progress_start(10); progress(pg); progress(pg, 3); print_progress(pg, mk<uint_t>());
}
