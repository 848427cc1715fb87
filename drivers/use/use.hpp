// Obligation programs: small client programs of the public interface, for arbitrary contents of their arguments.
// They are never compiled to code nor run: the analyser interprets them abstractly.
#include "../common.hpp"
void require(bool);                          // restricts the inputs considered
void expect(bool);                           // must hold on every path
template<typename T, typename U> bool same(const T&, const U&);   // equal values (two invalid numbers are the same)
template<typename T> T each(const T& k, int lo, int hi);          // k, by cases over lo..hi (other values are not considered)
