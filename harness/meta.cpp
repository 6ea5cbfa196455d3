// C43: the generic helpers the rest of the library is built on, against their standard counterparts.
#include <edsp/meta/advance.hpp>
#include <edsp/meta/cast.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/meta/empty.hpp>
#include <edsp/meta/equal.hpp>
#include <edsp/meta/is_char.hpp>
#include <edsp/meta/is_iterator.hpp>
#include <edsp/meta/is_null.hpp>
#include <edsp/meta/is_signed.hpp>
#include <edsp/meta/is_unsigned.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/size.hpp>
#include <edsp/meta/type_traits.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/meta/ensure.hpp>
#include <forward_list>
#include <list>
#include <map>
#include <iterator>
#include <sstream>
#include "mc.hpp"
#include "inputs.hpp"
using mc::Ctx; namespace em = edsp::meta;

// -- equality: exact for other types, within one epsilon of the type for floating point
template <typename T> const std::vector<T>& values() {
    static std::vector<T> v; if (!v.empty()) return v; using L = std::numeric_limits<T>; const T e = L::epsilon();
    for (T x : {T(0), L::min(), L::denorm_min(), e / 4, e / 2, e, T(2) * e, T(4) * e, T(1e-6), T(1e-3), T(.1), T(.5), T(1), T(1) + e, T(1) + T(2) * e, T(1) + T(4) * e, T(1) - e / 2, T(2), T(3), T(100), T(16777216), T(16777217), T(16777218), L::max() / 4, L::max() / 2, L::max()}) { v.push_back(x); v.push_back(-x); }
    return v;
}
template <typename T> void equality(Ctx& c, const char* name) {
    const T a = c.pick(values<T>(), "lhs"), b = c.pick(values<T>(), "rhs"); c.at("equal<%s>(%.17g, %.17g)", name, (double)a, (double)b);
    const long double d = std::abs((long double)a - (long double)b), e = std::numeric_limits<T>::epsilon(); const bool got = em::equal(a, b);
    if (a == b && !c.ok(got)) c.fail("reflexive", "equal<%s>(%.17g, %.17g) is false", name, (double)a, (double)b);
    if (d < e * .99L && !c.ok(got)) c.fail("near", "equal<%s>(%.17g, %.17g) is false for values %.3Lg epsilon apart", name, (double)a, (double)b, d / e);
    if (d > e * 1.01L && !c.ok(!got)) c.fail("far", "equal<%s>(%.17g, %.17g) is true for values %.3Lg epsilon apart", name, (double)a, (double)b, d / e);
    if (!c.ok(got == em::equal(b, a))) c.fail("symmetric", "equal<%s>(%.17g, %.17g) is not symmetric", name, (double)a, (double)b);
    const T nan = std::numeric_limits<T>::quiet_NaN(); if (!c.ok(!em::equal(a, nan) && !em::equal(nan, a))) c.fail("nan", "equal<%s>(%g, nan)", name, (double)a);
}
template <typename T> void exact(Ctx& c, const char* name) {
    using L = std::numeric_limits<T>; const std::vector<T> v{0, 1, T(-1), 2, L::min(), L::max(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2), T(L::max() / 2 + 1)}; const T a = c.pick(v, "lhs"), b = c.pick(v, "rhs");
    if (!c.ok(em::equal(a, b) == (a == b))) c.fail("integer", "equal<%s>(%lld, %lld)", name, (long long)a, (long long)b);
}
SCENARIO(equal, 4) {
    switch (c.choose(10, "type")) { case 0: equality<float>(c, "float"); break; case 1: equality<double>(c, "double"); break; case 2: equality<long double>(c, "long double"); break; case 3: exact<int>(c, "int"); break; case 4: exact<long long>(c, "long long"); break; case 5: exact<unsigned long long>(c, "unsigned long long"); break; case 6: exact<signed char>(c, "signed char"); break; case 7: exact<unsigned char>(c, "unsigned char"); break;
        case 8: { const std::vector<std::string> w{"", "a", "b", "ab", std::string("a\0", 2)}; const auto& a = c.pick(w, "lhs"); const auto& b = c.pick(w, "rhs"); c.check(em::equal(a, b) == (a == b), "string", "equal(\"%s\", \"%s\")", a.c_str(), b.c_str()); break; }
        default: { const bool a = c.choose(2, "lhs"), b = c.choose(2, "rhs"); c.check(em::equal(a, b) == (a == b), "bool", "equal(%d, %d)", a, b); } }
}
// -- sequences: every word of up to 5 letters, every container, position and value
template <typename C> void sequence(Ctx& c, const char* name, const std::vector<int>& w) {
    const C x(w.begin(), w.end()); C y(w.begin(), w.end());
    for (int v = -1; v <= 4; ++v) { const bool want = std::find(w.begin(), w.end(), v) != w.end(); if (!c.ok(em::contains(x.begin(), x.end(), v) == want && em::contains(y.begin(), y.end(), v) == want)) c.fail("contains", "contains(%s of %s, %d) is not %d", name, mc::show(w).c_str(), v, want); }
    for (size_t k = 0; k <= w.size(); ++k) { auto i = em::advance(x.begin(), (long)k); if (!c.ok((size_t)std::distance(x.begin(), i) == k)) c.fail("advance", "advance(begin of %s, %zu)", name, k); auto j = em::advance(y.begin(), k); if (k < w.size() && !c.ok(*j == w[k])) c.fail("advance", "advance(begin of %s, %zu) gives %d", name, k, *j); }
    if (!c.ok(em::empty(x) == w.empty() && em::empty(y) == w.empty())) c.fail("empty", "empty(%s of %zu)", name, w.size());
}
template <typename C> void random_access(Ctx& c, const char* name, const std::vector<int>& w) {
    const C x(w.begin(), w.end()); if (!c.ok(em::size(x) == w.size())) c.fail("size", "size(%s of %zu) is %zu", name, w.size(), (size_t)em::size(x));
    for (size_t k = 0; k <= w.size(); ++k) { auto i = em::advance(x.end(), -(long)k); if (!c.ok((size_t)std::distance(i, x.end()) == k)) c.fail("advance", "advance(end of %s, -%zu)", name, k); }
}
SCENARIO(sequences, 8) {
    const int n = c.choose(c.tier(6, 8), "length"); std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(c.choose(4, "element"));
    c.at("word %s", mc::show(w).c_str());
    sequence<std::vector<int>>(c, "vector", w); sequence<std::list<int>>(c, "list", w); sequence<std::forward_list<int>>(c, "forward_list", w); sequence<std::deque<int>>(c, "deque", w);
    random_access<std::vector<int>>(c, "vector", w); random_access<std::list<int>>(c, "list", w); random_access<std::deque<int>>(c, "deque", w);
    std::vector<int> v = w; const std::vector<int> k = w; if (!c.ok(em::data(v) == v.data() && em::data(k) == k.data() && em::data(v.data()) == v.data() && em::data(k.data()) == k.data())) c.fail("data", "data(vector)");
    int a[5] = {1, 2, 3, 4, 5}; const int b[2] = {1, 2}; if (!c.ok(em::data(a) == &a[0] && em::data(b) == &b[0] && em::size(a) == 5 && em::size(b) == 2 && !em::empty(a) && !em::empty(b) && !em::is_null(a))) c.fail("array", "arrays");
    std::string s(w.begin(), w.end()); if (!c.ok(em::data(s) == s.data() && em::size(s) == s.size() && em::empty(s) == s.empty())) c.fail("string", "string");
    const std::initializer_list<int> none{}, some{1, 2}; if (!c.ok(em::empty(none) && !em::empty(some) && em::size(some) == 2 && em::data(some) == some.begin() && !em::is_null(some))) c.fail("list", "initializer list");
    int* p = v.empty() ? nullptr : v.data(); if (!c.ok(em::is_null(p) == (p == nullptr) && em::is_null((const int*)p) == (p == nullptr))) c.fail("null", "is_null(pointer)");
    std::unique_ptr<int> u(n % 2 ? new int(0) : nullptr); std::shared_ptr<int> sh(n % 2 ? new int(0) : nullptr); if (!c.ok(em::is_null(u) == !(n % 2) && em::is_null(sh) == !(n % 2))) c.fail("null-smart", "is_null(smart pointer)");
    const char* t = n == 0 ? nullptr : s.c_str(); if (!c.ok(em::is_null(t) == (t == nullptr || *t == 0))) c.fail("null-text", "is_null(text)");
    for (int b = 1; b < 256 && n == 0; ++b) { const char one[3] = {(char)b, 0, 'x'}; const char* q = one; if (!c.ok(!em::is_null(q))) c.fail("null-text", "is_null(the text of one byte %d)", b); }
}
// -- type predicates: every arithmetic type with and without cv, some others; the standard trait is the oracle
struct Other { bool operator<(const Other&) const; }; enum Plain { PLAIN }; enum class Scoped { S };
template <typename... T> struct List {};
template <typename T, bool A = std::is_arithmetic<T>::value> struct Sign { static constexpr bool s = std::is_signed<T>::value, u = std::is_unsigned<T>::value; };
template <typename T> void traits(Ctx& c, const char* name) {
    c.at("%s", name);
    c.check(em::is_signed<T>::value == std::is_signed<T>::value && em::is_signed_v<T> == std::is_signed<T>::value, "is_signed", "is_signed<%s> is %d", name, (int)em::is_signed<T>::value);
    c.check(em::is_unsigned<T>::value == std::is_unsigned<T>::value && em::is_unsigned_v<T> == std::is_unsigned<T>::value, "is_unsigned", "is_unsigned<%s> is %d", name, (int)em::is_unsigned<T>::value);
    c.check(em::is_char<T>::value == (std::is_same<T, char>::value || std::is_same<T, wchar_t>::value) && em::is_char_v<T> == em::is_char<T>::value, "is_char", "is_char<%s> is %d", name, (int)em::is_char<T>::value);
    c.check(em::is_iterator<T>::value == std::is_pointer<T>::value && em::is_iterator_v<T> == em::is_iterator<T>::value, "is_iterator", "is_iterator<%s> is %d", name, (int)em::is_iterator<T>::value);
    using std::is_same; c.check(is_same<em::remove_cv_t<const volatile T>, std::remove_cv_t<T>>::value && is_same<em::remove_const_t<const T>, std::remove_const_t<T>>::value && is_same<em::remove_volatile_t<volatile T>, std::remove_volatile_t<T>>::value && is_same<em::add_cv_t<T>, std::add_cv_t<T>>::value && is_same<em::add_const_t<T>, std::add_const_t<T>>::value && is_same<em::add_volatile_t<T>, std::add_volatile_t<T>>::value && is_same<em::remove_reference_t<T&>, T>::value && is_same<em::remove_reference_t<T&&>, T>::value && is_same<em::add_lvalue_reference_t<T>, T&>::value && is_same<em::add_rvalue_reference_t<T>, T&&>::value && is_same<em::add_pointer_t<T>, T*>::value && is_same<em::remove_pointer_t<T*>, T>::value && is_same<em::decay_t<const T&>, std::decay_t<T>>::value && is_same<em::remove_extent_t<T[3]>, T>::value && is_same<em::remove_all_extents_t<T[3][2]>, T>::value && is_same<em::conditional_t<true, T, void>, T>::value && is_same<em::conditional_t<false, T, void>, void>::value && is_same<em::enable_if_t<true, T>, T>::value && is_same<em::common_type_t<T, T>, std::common_type_t<T, T>>::value, "aliases", "a type alias of %s differs from the standard one", name);
}
template <typename It> void category(Ctx& c, const char* name) {
    using K = typename std::iterator_traits<It>::iterator_category; using std::is_same; c.at("%s", name);
    c.check(em::is_iterator<It>::value && em::is_iterator_v<It>, "iterator", "%s is not an iterator", name);
    c.check(em::is_input_iterator_v<It> == is_same<K, std::input_iterator_tag>::value && em::is_output_iterator_v<It> == is_same<K, std::output_iterator_tag>::value && em::is_forward_iterator_v<It> == is_same<K, std::forward_iterator_tag>::value && em::is_bidirectional_iterator_v<It> == is_same<K, std::bidirectional_iterator_tag>::value && em::is_random_access_iterator_v<It> == is_same<K, std::random_access_iterator_tag>::value, "category", "the category of %s", name);
    c.check(is_same<em::value_type_t<It>, typename std::iterator_traits<It>::value_type>::value && is_same<em::diff_type_t<It>, typename std::iterator_traits<It>::difference_type>::value, "associated", "the associated types of %s", name);
}
SCENARIO(type_predicates, 1) {
#define T_(...) traits<__VA_ARGS__>(c, #__VA_ARGS__)
#define I_(...) category<__VA_ARGS__>(c, #__VA_ARGS__)
    T_(bool); T_(char); T_(signed char); T_(unsigned char); T_(wchar_t); T_(char16_t); T_(char32_t); T_(short); T_(unsigned short); T_(int); T_(unsigned); T_(long); T_(unsigned long); T_(long long); T_(unsigned long long); T_(float); T_(double); T_(long double);
    T_(int*); T_(const char*); T_(Other*); T_(Other); T_(Plain); T_(Scoped); T_(std::string); T_(std::vector<int>);
    I_(int*); I_(const double*); I_(std::vector<int>::iterator); I_(std::vector<int>::const_iterator); I_(std::list<int>::iterator); I_(std::forward_list<int>::iterator); I_(std::deque<int>::iterator); I_(std::map<int, int>::iterator); I_(std::istream_iterator<int>); I_(std::ostream_iterator<int>); I_(std::back_insert_iterator<std::vector<int>>); I_(std::reverse_iterator<int*>); I_(std::istreambuf_iterator<char>);
}
SCENARIO(casts, 2) {
    const double x = c.pick({0., 1., -1., 0.5, -0.5, 1e9, -1e9, 255., 127.9, -128.}, "value"); c.check(em::sc<float>(x) == (float)x && em::sc<int>(x) == (int)x && em::sc<long double>(x) == (long double)x && em::sc<bool>(x) == (bool)x, "cast", "sc of %g", x); const int i = (int)x; c.check(em::sc<double>(i) == (double)i && em::sc<unsigned char>(i) == (unsigned char)i && em::sc<unsigned long long>(i) == (unsigned long long)i, "cast", "sc of %d", i);
    em::expects(true); em::expects(true, "text"); em::ensure(true); em::ensure(true, "text"); em::unused(x); em::unused(x, "text"); em::expects(x == x, "text"); c.check(true, "-", "-");
}
