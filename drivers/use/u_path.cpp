#include "use.hpp"
#include <vif/io/filesystem.hpp>
// Laws of file names.
namespace use_path {
    std::string h_s3(uint_t n, char a, char b, char c) { std::string s; if (n > 0) s.push_back(a); if (n > 1) s.push_back(b); if (n > 2) s.push_back(c); return s; }
    bool h_has(const std::string& s, char c) { for (uint_t i = 0; i < s.size(); ++i) if (s[i] == c) return true; return false; }
    void h_plain(const std::string& s) { require(!h_has(s, ' ')); }
    void directory_and_name(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(s.size() <= 3 && h_has(s, '/') && s.back() != '/'); expect(file::get_directory(s) + file::get_basename(s) == s); }
    void name_has_no_slash(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(s.size() <= 3 && !s.empty() && s.back() != '/'); std::string t = file::get_basename(s); expect(!t.empty() && !h_has(t, '/')); }
    void directory_ends(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(s.size() <= 3); std::string d = file::get_directory(s); expect(!d.empty() && d.back() == '/'); }
    void bare_name(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 3 && !h_has(s, '/')); expect(file::get_basename(s) == s && file::get_directory(s) == "./"); }
    void trailing_slash(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); std::string t = s + "/"; expect(file::get_basename(t) == s); expect(file::get_directory(t) == "./"); }
    void trailing_slash_inside(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); std::string t = "d/" + s + "/"; expect(file::get_basename(t) == s); expect(file::get_directory(t) == "d/"); }
    void inside(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); std::string t = "d/" + s; expect(file::get_basename(t) == s); expect(file::get_directory(t) == "d/"); }
    void top(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); std::string t = "/" + s; expect(file::get_basename(t) == s); expect(file::get_directory(t) == "/"); }
    void root(uint_t k) { expect(file::get_basename("/") == "/" && file::get_directory("/") == "/"); }
    void extension_splits(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 3); auto p = file::split_extension(s); expect(p.first + p.second == s); expect(p.first == file::remove_extension(s)); expect(p.second == file::get_extension(s)); }
    void extension_is_last(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 3); std::string e = file::get_extension(s); expect(e.empty() == !h_has(s, '.')); if (!e.empty()) { expect(e[0] == '.'); for (uint_t i = 1; i < e.size(); ++i) expect(e[i] != '.'); } }
    void extension_added(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 3 && !h_has(s, '.')); expect(file::remove_extension(s + ".x") == s && file::get_extension(s + ".x") == ".x"); expect(file::remove_extension(s) == s && file::get_extension(s).empty()); }
    void directorized(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(s.size() <= 3); require(!h_has(s, '\t') && !h_has(s, '\n') && !h_has(s, '\r')); std::string d = file::directorize(s); if (s.empty()) expect(d.empty()); else if (s.back() == '/') expect(d == s); else expect(d == s + "/"); }
    void directorized_once(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 2); std::string d = file::directorize(s); expect(file::directorize(d) == d); expect(d.empty() || d.back() == '/'); }
    void directorized_spaces(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/') && !h_has(s, '\t') && !h_has(s, '\n') && !h_has(s, '\r')); expect(file::directorize(" " + s + " ") == s + "/"); }
    void absolute(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); require(s.size() <= 3 && (s.empty() || (s[0] != ' ' && s[0] != '\t'))); expect(file::is_absolute_path(s) == (!s.empty() && s[0] == '/')); }
    void explorer_closed(uint_t k) { file::explorer e; file::explorer::file_data f; expect(!e.find_next(f)); e.open("/nonexistent"); e.close(); expect(!e.find_next(f)); e.close(); expect(!e.find_next(f)); }
    void trailing_blanks(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); expect(file::get_basename(s + "/ ") == s); expect(file::get_basename("d/" + s + "/ ") == s); expect(file::get_directory("d/" + s + "/ ") == "d/"); }
    void trailing_slash_top(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); expect(file::get_basename("/" + s + "/") == s); expect(file::get_directory("/" + s + "/") == "/"); }
    void deep(uint_t n, char a, char b, char c) { n = each(n, 0, 3); std::string s = h_s3(n, a, b, c); h_plain(s); require(!s.empty() && s.size() <= 2 && !h_has(s, '/')); expect(file::get_basename("/d/e/" + s + "/") == s); expect(file::get_directory("/d/e/" + s + "/") == "/d/e/"); expect(file::get_basename("e/f/" + s) == s); expect(file::get_directory("e/f/" + s) == "e/f/"); }
}
