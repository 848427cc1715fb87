#include "use.hpp"
namespace use_string {
    // strings of every length up to the given one, with arbitrary characters
    std::string h_s2(uint_t n, char a, char b) { std::string s; if (n > 0) s.push_back(a); if (n > 1) s.push_back(b); return s; }
    std::string h_s3(uint_t n, char a, char b, char c) { std::string s; if (n > 0) s.push_back(a); if (n > 1) s.push_back(b); if (n > 2) s.push_back(c); return s; }
    std::string h_s4(char a, char b, char c, char d) { std::string s; s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(d); return s; }
    bool h_at(const std::string& s, uint_t i, const std::string& p) { if (i + p.size() > s.size()) return false; for (uint_t j = 0; j < p.size(); ++j) if (s[i+j] != p[j]) return false; return true; }
    bool h_in(char c, const std::string& p) { for (uint_t j = 0; j < p.size(); ++j) if (c == p[j]) return true; return false; }

    void length_of(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); expect(length(s) == n); expect(empty(s) == (n == 0)); }
    void keep_first_of(uint_t n, uint_t k, char a, char b, char c) { n = each(n, 0, 3); k = each(k, 0, 4); std::string s = h_s3(n, a, b, c); std::string r = keep_first(s, k); expect(r.size() == (k < n ? k : n)); for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == s[i]); }
    void keep_last_of(uint_t n, uint_t k, char a, char b, char c) { n = each(n, 0, 3); k = each(k, 0, 4); std::string s = h_s3(n, a, b, c); std::string r = keep_last(s, k); expect(r.size() == (k < n ? k : n)); for (uint_t i = 0; i < r.size(); ++i) expect(r[r.size()-1-i] == s[s.size()-1-i]); }
    void keep_one(char a, char b, char c) { std::string s = h_s3(3, a, b, c); expect(keep_first(s) == h_s2(1, a, b)); expect(keep_last(s) == h_s2(1, c, b)); }
    void distance_of(uint_t n, uint_t m, char a, char b, char c, char d, char e) { n = each(n, 0, 3); m = each(m, 0, 2); std::string s = h_s3(n, a, b, c), t = h_s2(m, d, e); uint_t q = distance(s, t); uint_t w = n > m ? n-m : m-n; for (uint_t i = 0; i < n && i < m; ++i) if (s[i] != t[i]) ++w; expect(q == w); expect(distance(t, s) == q); }
    void upper_chars(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); std::string u = to_upper(s), l = to_lower(s); expect(u.size() == n && l.size() == n); for (uint_t i = 0; i < n; ++i) { expect(u[i] == to_upper(s[i])); expect(l[i] == to_lower(s[i])); } }
    void upper_text(char a) { expect(to_upper(std::string("aZ-1q")) == "AZ-1Q"); expect(to_lower(std::string("aZ-1Q")) == "az-1q"); expect(to_upper('b') == 'B' && to_lower('B') == 'b'); }
    void left_aligned(uint_t n, uint_t w, char f, char a, char b) { n = each(n, 0, 2); w = each(w, 0, 4); std::string s = h_s2(n, a, b); std::string r = align_left(s, w, f); expect(r.size() == (w > n ? w : n)); for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == (i < n ? s[i] : f)); }
    void right_aligned(uint_t n, uint_t w, char f, char a, char b) { n = each(n, 0, 2); w = each(w, 0, 4); std::string s = h_s2(n, a, b); std::string r = align_right(s, w, f); expect(r.size() == (w > n ? w : n)); uint_t o = r.size() - n; for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == (i < o ? f : s[i-o])); }
    void center_aligned(uint_t n, uint_t w, char f, char a, char b) { n = each(n, 0, 2); w = each(w, 0, 5); std::string s = h_s2(n, a, b); std::string r = align_center(s, w, f); expect(r.size() == (w > n ? w : n)); uint_t o = (r.size() - n)/2; for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == (i < o || i >= o+n ? f : s[i-o])); }
    void aligned_spaces(char a) { std::string s = h_s2(1, a, a); expect(align_left(s, 2) == h_s2(2, a, ' ')); expect(align_right(s, 2) == h_s2(2, ' ', a)); expect(align_center(s, 3) == h_s3(3, ' ', a, ' ')); }

    void found_first(uint_t n, uint_t m, char a, char b, char c, char d, char e) { n = each(n, 0, 3); m = each(m, 1, 2); std::string s = h_s3(n, a, b, c), p = h_s2(m, d, e); uint_t r = find(s, p), w = npos; for (uint_t i = 0; i < n && w == npos; ++i) if (h_at(s, i, p)) w = i; expect(r == w); }
    void starts(uint_t n, uint_t m, char a, char b, char c, char d, char e) { n = each(n, 0, 3); m = each(m, 0, 2); std::string s = h_s3(n, a, b, c), p = h_s2(m, d, e); expect(begins_with(s, p) == h_at(s, 0, p)); }
    void finishes(uint_t n, uint_t m, char a, char b, char c, char d, char e) { n = each(n, 0, 3); m = each(m, 0, 2); std::string s = h_s3(n, a, b, c), p = h_s2(m, d, e); expect(ends_with(s, p) == (n >= m && h_at(s, n-m, p))); }
    void starts_longer(char a, char b, char c) { expect(!begins_with(h_s2(1, a, b), h_s2(2, a, b))); expect(!ends_with(h_s2(1, b, a), h_s2(2, a, b))); expect(begins_with(h_s3(3, a, b, c), h_s2(2, a, b))); expect(ends_with(h_s3(3, a, b, c), h_s2(2, b, c))); }
    void erased_begin(uint_t n, uint_t k, char a, char b, char c) { n = each(n, 0, 3); k = each(k, 0, 4); std::string s = h_s3(n, a, b, c); std::string r = erase_begin(s, k); uint_t o = k < n ? k : n; expect(r.size() == n - o); for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == s[i+o]); }
    void erased_end(uint_t n, uint_t k, char a, char b, char c) { n = each(n, 0, 3); k = each(k, 0, 4); std::string s = h_s3(n, a, b, c); std::string r = erase_end(s, k); expect(r.size() == n - (k < n ? k : n)); for (uint_t i = 0; i < r.size(); ++i) expect(r[i] == s[i]); }
    void erased_prefix(char a, char b, char c) { expect(erase_begin(h_s3(3, a, b, c), h_s2(2, a, b)) == h_s2(1, c, c)); expect(erase_end(h_s3(3, a, b, c), h_s2(2, b, c)) == h_s2(1, a, a)); expect(erase_begin(h_s3(3, a, b, c), std::string()) == h_s3(3, a, b, c)); expect(erase_end(h_s2(2, a, b), h_s2(2, a, b)) == ""); }
    void h_trim(const std::string& s, const std::string& p, const std::string& r) { uint_t n = s.size(), i = 0, j = n; while (i < n && h_in(s[i], p)) ++i; while (j > i && h_in(s[j-1], p)) --j; expect(r.size() == j - i); for (uint_t k = i; k < j; ++k) expect(r[k-i] == s[k]); }
    void trimmed(uint_t n, char a, char b, char c, char d) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c), p = h_s2(1, d, d); h_trim(s, p, trim(s, p)); }
    void trimmed_two(uint_t n, char a, char b, char d, char e) { n = each(n, 0, 2); std::string s = h_s2(n, a, b), p = h_s2(2, d, e); h_trim(s, p, trim(s, p)); }
    void trimmed_four(char a, char b, char c, char e) { std::string s = h_s4(a, b, c, e); h_trim(s, "x", trim(s, "x")); }
    void trimmed_blank(char a) { require(a != ' ' && a != '\t' && a != '\n' && a != '\r'); std::string s; s.push_back(' '); s.push_back('\t'); s.push_back(a); s.push_back(' '); s.push_back(a); s.push_back('\n'); s.push_back('\r'); std::string r = trim(s); expect(r == h_s3(3, a, ' ', a)); }

    void replaced_char(uint_t n, char a, char b, char c, char d, char e) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); std::string r = replace(s, h_s2(1, d, d), h_s2(1, e, e)); expect(r.size() == n); for (uint_t i = 0; i < n; ++i) expect(r[i] == (s[i] == d ? e : s[i])); }
    void replaced_grow(char a, char b, char c, char d, char e) { std::string s = h_s3(3, a, b, c); std::string r = replace(s, h_s2(1, d, d), h_s2(2, d, e)); uint_t k = 0; for (uint_t i = 0; i < 3; ++i) { expect(r[k] == s[i]); ++k; if (s[i] == d) { expect(r[k] == e); ++k; } } expect(r.size() == k); }
    void replaced_nothing(char a, char b, char c, char d) { std::string s = h_s3(3, a, b, c); std::string r = replace(s, h_s2(1, d, d), ""); uint_t k = 0; for (uint_t i = 0; i < 3; ++i) if (s[i] != d) { expect(r[k] == s[i]); ++k; } expect(r.size() == k); }
    void replaced_pair(char a, char b, char c, char d, char e, char f) { std::string s = h_s3(3, a, b, c), p = h_s2(2, d, e); std::string r = replace(s, p, h_s2(1, f, f)); std::string w; uint_t i = 0; while (i < 3) { if (h_at(s, i, p)) { w.push_back(f); i += 2; } else { w.push_back(s[i]); i += 1; } } expect(r == w); }
    void h_split(const std::string& s, const std::string& p) { vec1s r = split(s, p); expect(r.dims[0] == r.size()); expect(r.size() >= 1); std::string w = r.safe[0]; for (uint_t i = 1; i < r.size(); ++i) { w += p; w += r.safe[i]; } expect(w == s); for (uint_t i = 0; i < r.size(); ++i) for (uint_t j = 0; j < r.safe[i].size(); ++j) expect(!h_at(r.safe[i], j, p)); expect(collapse(r, p) == s); }
    void split_char(uint_t n, char a, char b, char c, char d) { n = each(n, 0, 3); h_split(h_s3(n, a, b, c), h_s2(1, d, d)); }
    void split_pair(uint_t n, char a, char b, char c, char d, char e) { n = each(n, 0, 3); h_split(h_s3(n, a, b, c), h_s2(2, d, e)); }
    void split_four(char a, char b, char c, char e) { h_split(h_s4(a, b, c, e), ","); }
    void split_any(uint_t n, char a, char b, char c, char d) { n = each(n, 1, 3); std::string s = h_s3(n, a, b, c), p = h_s2(1, d, d); bool all = true; for (uint_t i = 0; i < n; ++i) if (s[i] != d) all = false; require(!all); vec1s r = split_any_of(s, p); uint_t k = 0; for (uint_t i = 0; i < n;) { if (s[i] == d) { ++i; continue; } uint_t j = i; std::string w; while (j < n && s[j] != d) { w.push_back(s[j]); ++j; } expect(k < r.size()); expect(r.safe[k] == w); ++k; i = j; } expect(r.size() == k); }
    void split_any_two(char a, char b, char c) { std::string s = h_s3(3, a, b, c), p = ", "; require(!h_in(b, p)); vec1s r = split_any_of(s, p); std::string w; if (!h_in(a, p)) w.push_back(a); w.push_back(b); if (!h_in(c, p)) w.push_back(c); expect(r.size() == 1); expect(r.safe[0] == w); }
    void cut_pieces(uint_t n, uint_t k, char a, char b, char c) { n = each(n, 0, 3); k = each(k, 1, 4); std::string s = h_s3(n, a, b, c); vec1s r = cut(s, k); expect(r.size() == (n + k - 1)/k); for (uint_t i = 0; i < r.size(); ++i) { uint_t m = n - i*k < k ? n - i*k : k; std::string t = r.safe[i]; expect(t.size() == m); for (uint_t j = 0; j < m; ++j) expect(t[j] == s[i*k+j]); } }
    void collapsed(uint_t n, char a, char b, char c) { n = each(n, 0, 3); vec1s v; if (n > 0) v.push_back(h_s2(1, a, a)); if (n > 1) v.push_back(h_s2(2, b, c)); if (n > 2) v.push_back(""); std::string w, x; for (uint_t i = 0; i < n; ++i) { w += v.safe[i]; if (i > 0) x += "+"; x += v.safe[i]; } expect(collapse(v) == w); expect(collapse(v, "+") == x); }
    void wrapped_fits(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); vec1s r = wrap(s, 3); expect(r.size() == (n == 0 ? 0 : 1)); if (n > 0) expect(r.safe[0] == s); }
    void wrapped_two(char a, char b, char c) { require(a != ' ' && b != ' ' && c != ' '); require(a != '\t' && b != '\t' && c != '\t' && a != '\n' && b != '\n' && c != '\n' && a != '\r' && b != '\r' && c != '\r'); std::string s; s.push_back(a); s.push_back(b); s.push_back(' '); s.push_back(c); vec1s r = wrap(s, 3); expect(r.size() == 2); expect(r.safe[0] == h_s2(2, a, b)); expect(r.safe[1] == h_s2(1, c, c)); }
    void wrapped_indent(char a, char b, char c) { require(a != ' ' && b != ' ' && c != ' '); require(a != '\t' && b != '\t' && c != '\t' && a != '\n' && b != '\n' && c != '\n' && a != '\r' && b != '\r' && c != '\r'); std::string s; s.push_back(a); s.push_back(' '); s.push_back(b); s.push_back(' '); s.push_back(c); vec1s r = wrap(s, 3, ">"); expect(r.size() == 2); expect(r.safe[0] == h_s3(3, a, ' ', b)); expect(r.safe[1] == h_s2(2, '>', c)); }
    void wrapped_long(char a, char b, char c, char e) { require(a != ' ' && b != ' ' && c != ' ' && e != ' '); require(e != '\t' && e != '\n' && e != '\r'); std::string s; s.push_back(a); s.push_back(b); s.push_back(c); s.push_back(' '); s.push_back(e); vec1s r = wrap(s, 2); expect(r.size() == 2); expect(r.safe[0] == h_s3(3, a, b, c)); expect(r.safe[1] == h_s2(1, e, e)); }
    void word_number(char a, char b, char c) { require(a != ' ' && b != ' ' && c != ' '); std::string s = h_s4(a, b, ' ', c); expect(get_word(s, 0, " ") == h_s2(2, a, b)); expect(get_word(s, 1, " ") == h_s2(1, c, c)); expect(get_word(s, -1, " ") == h_s2(1, c, c)); expect(get_word(s, -2, " ") == h_s2(2, a, b)); }
    void block_replaced(char a, char b) { require(a != '<' && a != '>' && b != '<' && b != '>'); std::string s; s.push_back(a); s.push_back('<'); s.push_back(b); s.push_back('>'); s.push_back(a); std::string r = replace_block(s, "<", ">", [](std::string t) { return t+t; }); expect(r == h_s4(a, b, b, a)); }
    void blocks_replaced(char a, char b) { require(a != '<' && a != '>' && b != '<' && b != '>' && a != '|' && b != '|'); std::string s; s.push_back('<'); s.push_back(a); s.push_back('|'); s.push_back(b); s.push_back('>'); s.push_back(a); std::string r = replace_blocks(s, "<", "|", ">", [](vec1s t) { return t.safe[1]+t.safe[0]; }); expect(r == h_s3(3, b, a, a)); }
    void lists_of_strings(char a, char b, char c, char d) {
        vec1s v; v.push_back(h_s2(2, a, b)); v.push_back(h_s2(1, c, c)); std::string p = h_s2(1, d, d);
        vec1u n = length(v); vec1b e = empty(v); vec1s t = trim(v, p), r = replace(v, p, "xy"), q = erase_begin(v, 1), o = align_left(v, 2); vec1u f = find(v, p); vec1b g = begins_with(v, p), h = ends_with(v, p);
        expect(n.size() == 2 && e.size() == 2 && t.size() == 2 && r.size() == 2 && q.size() == 2 && o.size() == 2 && f.size() == 2 && g.size() == 2 && h.size() == 2);
        for (uint_t i = 0; i < 2; ++i) { expect(n.safe[i] == v.safe[i].size()); expect(!e.safe[i]); expect(t.safe[i] == trim(v.safe[i], p)); expect(r.safe[i] == replace(v.safe[i], p, "xy")); expect(q.safe[i] == erase_begin(v.safe[i], 1)); expect(o.safe[i] == align_left(v.safe[i], 2)); expect(f.safe[i] == find(v.safe[i], p)); expect(g.safe[i] == begins_with(v.safe[i], p)); expect(h.safe[i] == ends_with(v.safe[i], p)); }
        expect(v.safe[0] == h_s2(2, a, b) && v.safe[1] == h_s2(1, c, c));
    }

    bool h_word(char a) { return a != ' ' && a != '\t' && a != '\n' && a != '\r'; }
    void split_sizes(char a, char b, char c) { std::string s = h_s3(3, a, b, c); vec1s r = split_any_of(s, h_s2(1, b, b)); expect(r.dims[0] == r.size()); }
    void word_of_three(char a, char b, char c, char d) { require(h_word(a) && h_word(b) && h_word(c) && h_word(d)); std::string s = h_s4(' ', a, ' ', b) + h_s4(c, ' ', ' ', d); expect(get_word(s, 0, " ") == h_s2(1, a, a)); expect(get_word(s, 1, " ") == h_s2(2, b, c)); expect(get_word(s, 2, " ") == h_s2(1, d, d)); expect(get_word(s, -1, " ") == h_s2(1, d, d)); expect(get_word(s, -2, " ") == h_s2(2, b, c)); expect(get_word(s, -3, " ") == h_s2(1, a, a)); }
    void block_twice(char a, char b) { std::string p = "<>|[]"; require(!h_in(a, p) && !h_in(b, p)); std::string s = "<[" + h_s2(1, a, a) + "]>" + h_s2(1, b, b) + "<[" + h_s2(2, b, a) + "]>"; expect(replace_block(s, "<[", "]>", [](std::string t) { return t+t; }) == h_s3(3, a, a, b) + h_s4(b, a, b, a)); expect(replace_block(h_s2(2, a, b), "<[", "]>", [](std::string t) { return t+t; }) == h_s2(2, a, b)); }
    void blocks_twice(char a, char b) { std::string p = "<>|[]"; require(!h_in(a, p) && !h_in(b, p)); auto f = [](vec1s t) { return t.safe[t.size()-1] + t.safe[0]; }; std::string s = "<" + h_s2(1, a, a) + "||" + h_s2(1, b, b) + ">||<" + h_s2(1, b, b) + "||" + h_s2(1, a, a) + ">||"; expect(replace_blocks(s, "<", "||", ">", f) == h_s2(2, b, a) + "||" + h_s2(2, a, b) + "||"); expect(replace_blocks("[<" + h_s2(1, a, a) + ">]" + h_s2(1, b, b), "[<", "|", ">]", f) == h_s3(3, a, a, b)); }
    void wrapped_three(char a, char b, char c) { require(h_word(a) && h_word(b) && h_word(c)); std::string s = h_s4(a, b, ' ', c) + h_s4(a, ' ', b, c); vec1s r = wrap(s, 4); expect(r.size() == 3 && r.dims[0] == 3); expect(r.safe[0] == h_s2(2, a, b) && r.safe[1] == h_s2(2, c, a) && r.safe[2] == h_s2(2, b, c)); r = wrap(s, 5); expect(r.size() == 2); expect(r.safe[0] == h_s4(a, b, ' ', c) + h_s2(1, a, a) && r.safe[1] == h_s2(2, b, c)); r = wrap(s, 5, ">>"); expect(r.size() == 2); expect(r.safe[1] == h_s4('>', '>', b, c)); r = wrap(s, 5, ">>>>"); expect(r.size() == 2); r = wrap(s, 8); expect(r.size() == 1); expect(r.safe[0] == s); }
    void wrapped_exact(char a, char b, char c) { require(h_word(a) && h_word(b) && h_word(c)); vec1s r = wrap(h_s4(a, b, ' ', c), 2); expect(r.size() == 2); expect(r.safe[0] == h_s2(2, a, b) && r.safe[1] == h_s2(1, c, c)); r = wrap(h_s4(a, ' ', b, c), 2, ">"); expect(r.size() == 2); expect(r.safe[0] == h_s2(1, a, a) && r.safe[1] == h_s3(3, '>', b, c)); }
    void wrapped_cut(char a, char b, char c) { require(h_word(a) && h_word(b) && h_word(c)); vec1s r = wrap(h_s4(a, b, c, a) + h_s4(b, c, ' ', a), 5, "", true); expect(r.size() == 2); expect(r.safe[0] == h_s2(2, a, b) + "..." && r.safe[1] == h_s2(1, a, a)); r = wrap(h_s4(a, b, c, a) + h_s4(b, c, a, b), 6, "", true); expect(r.size() == 1); expect(r.safe[0] == h_s3(3, a, b, c) + "..."); r = wrap(h_s2(1, c, c) + " " + h_s4(a, b, c, a) + h_s2(2, b, c), 5, ">", true); expect(r.size() == 2); expect(r.safe[0] == h_s2(1, c, c) && r.safe[1] == ">" + h_s2(1, a, a) + "..."); }
    void cut_exact(char a, char b, char c) { vec1s r = cut(h_s4(a, b, c, a) + h_s2(1, b, b), 2); expect(r.size() == 3 && r.dims[0] == 3); expect(r.safe[0] == h_s2(2, a, b) && r.safe[1] == h_s2(2, c, a) && r.safe[2] == h_s2(1, b, b)); }
}
