// C40: every history of operations over two objects of each value type, with an instance-tracking payload whose copies fail
// at every possible point, against hand-written models; views against the sequences they view.
#include <stdexcept>
#include <map>
#include <set>
#include <sstream>
#include <deque>
#include <array>
#include <iomanip>
#include <edsp/types/any.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/types/optional.hpp>
#include <edsp/types/span.hpp>
#include <edsp/types/string_view.hpp>
#include <edsp/types/variant.hpp>
#include <edsp/types/ring_span.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S;
// ---- payload: registers every instance; the armed copy throws
static std::set<const void*> live; static S misuse; static int armed; struct Fault {};
static void tick() { if (armed > 0 && --armed == 0) throw Fault(); }
static void born(const void* p) { if (!live.insert(p).second) misuse = "constructed over a live object"; }
static void dead(const void* p) { if (!live.erase(p)) misuse = "destroyed an object that is not alive"; }
static void used(const void* p) { if (!live.count(p)) misuse = "used an object that is not alive"; }
template <int K> struct P {
    int v; explicit P(int x) : v(x) { tick(); born(this); } P() : v(0) { born(this); } P(const P& o) : v(o.v) { used(&o); tick(); born(this); } P(P&& o) noexcept(K != 2) : v(o.v) { used(&o); if (K == 2) tick(); o.v = -1; born(this); }
    P& operator=(const P& o) { used(this); used(&o); tick(); v = o.v; return *this; } P& operator=(P&& o) noexcept(K != 2) { used(this); used(&o); if (K == 2) tick(); const int x = o.v; o.v = -1; v = x; return *this; } ~P() { dead(this); }
    friend bool operator==(const P& a, const P& b) { used(&a); used(&b); return a.v == b.v; } friend bool operator!=(const P& a, const P& b) { return !(a == b); } friend bool operator<(const P& a, const P& b) { used(&a); used(&b); return a.v < b.v; } friend bool operator>(const P& a, const P& b) { return b < a; } friend bool operator<=(const P& a, const P& b) { return !(b < a); } friend bool operator>=(const P& a, const P& b) { return !(a < b); }
};
static int val(int k) { return k + 1; }
// content of a model object: which alternative (0 = none) and its value
struct M { int k = 0, v = 0; }; static bool operator==(const M& a, const M& b) { return a.k == b.k && a.v == b.v; }
static S show(const M& m) { return m.k ? "#" + std::to_string(m.k) + ":" + std::to_string(m.v) : S("nothing"); }
#define FAIL(key, ...) c.check(false, key, __VA_ARGS__)
#define EXPECT(cond, key, what) c.check(cond, key, "%s%s: %s", hist.c_str(), what, misuse.c_str())
struct Run { Ctx& c; S hist; const char* type; Run(Ctx& ctx, const char* t) : c(ctx), hist(S(t) + ": "), type(t) { live.clear(); misuse.clear(); armed = 0; }
    void sane(size_t alive, const char* what) { if (!c.ok(misuse.empty())) c.fail(type, "%s%s", hist.c_str(), misuse.c_str()); if (!c.ok(live.size() == alive)) c.fail(type, "%s%zu objects alive, not %zu (%s)", hist.c_str(), live.size(), alive, what); } 
    void expect(bool cond, const char* what) { if (!c.ok(cond)) c.fail(type, "%s%s", hist.c_str(), what); } };
static int depth(Ctx& c, int raw) { return c.choose(2, "deduplicate") ? c.tier(5, 8) : c.tier(raw, raw + 1); }
// after a failed copy an object may hold what it held, nothing (if it can), or what was assigned; it must be consistent
template <typename T> static bool one_of(const M& m, T l) { for (auto& x : l) if (m == x) return true; return false; }

// ---- optional
typedef P<0> V; typedef edsp::optional<V> Opt;
static M look(const Opt& o) { M m; if (o.has_value()) { m.k = 1; m.v = o->v; } return m; }
static void observe(Run& r, Opt* o, M* m) {
    for (int i = 0; i < 2; ++i) {
        const Opt& q = o[i]; r.expect(q.has_value() == (m[i].k == 1) && bool(q) == q.has_value(), "has_value"); bool thrown = false; try { const V& x = q.value(); r.expect(x.v == m[i].v, "value"); V& y = o[i].value(); r.expect(&x == &y && &x == &*q && &x == q.operator->() && &x == &*o[i], "the accessors refer to different objects"); } catch (const nonstd::bad_optional_access&) { thrown = true; } r.expect(thrown == (m[i].k == 0), "value() of an optional");
        { const V d(9); r.expect(q.value_or(d).v == (m[i].k ? m[i].v : 9), "value_or"); }
        r.expect((q == nonstd::nullopt) == !m[i].k && (nonstd::nullopt == q) == !m[i].k && (q != nonstd::nullopt) == !!m[i].k && !(q < nonstd::nullopt) && (nonstd::nullopt < q) == !!m[i].k && (q > nonstd::nullopt) == !!m[i].k && (q <= nonstd::nullopt) == !m[i].k && q >= nonstd::nullopt, "comparison with nullopt");
        for (int x = 1; x <= 2; ++x) { const V w(x); const bool h = m[i].k; const int v = m[i].v; r.expect((q == w) == (h && v == x) && (w == q) == (h && v == x) && (q != w) == !(h && v == x) && (w != q) == !(h && v == x) && (q < w) == (!h || v < x) && (w < q) == (h && x < v) && (q > w) == (h && v > x) && (w > q) == (!h || x > v) && (q <= w) == (!h || v <= x) && (q >= w) == (h && v >= x) && (w <= q) == (h && x <= v) && (w >= q) == (!h || x >= v), "comparison with a value"); }
        for (int j = 0; j < 2; ++j) { const Opt& p = o[j]; const std::pair<int, int> a(m[i].k, m[i].k ? m[i].v : 0), b(m[j].k, m[j].k ? m[j].v : 0); r.expect((q == p) == (a == b) && (q != p) == (a != b) && (q < p) == (a < b) && (q > p) == (a > b) && (q <= p) == (a <= b) && (q >= p) == (a >= b), "comparison of two optionals"); }
    }
    r.sane(m[0].k + m[1].k, "after observing");
}
SCENARIO(optionals, 32) {
    Run r(c, "optional"); { Opt o[2]; M m[2]; const int n = depth(c, 2);
      for (int s = 0; s < n; ++s) {
        if (n > 4) { mc::Hash h; for (auto& x : m) h << x.k << x.v; c.state(h.value(), n - s); }
        const int op = c.choose(14, "operation"), i = c.choose(2, "object"), j = op >= 6 && op <= 8 ? c.choose(2, "other") : 1 - i, v = op >= 2 && op <= 5 ? val(c.choose(2, "value")) : 0; c.nontrivial(1); static const char* N[] = {"reset", "= nullopt", "= value", "= moved value", "emplace", "construct from value", "= copy", "= move", "swap", "construct copy", "construct move", "free swap", "= converted", "construct empty"};
        const int f = c.choose(3, "failing copy"); r.hist += S("o") + std::to_string(i) + " " + N[op] + (op >= 2 && op <= 5 ? " " + std::to_string(v) : op >= 6 ? " o" + std::to_string(j) : S()) + (f ? " with copy " + std::to_string(f) + " failing" : S()) + "; "; c.at("%s", r.hist.c_str());
        M before[2] = {m[0], m[1]}; M want[2] = {m[0], m[1]}; bool failed = false; armed = 0;
        try { V w(v); armed = f; switch (op) {
            case 0: o[i].reset(); want[i] = M(); break; case 1: o[i] = nonstd::nullopt; want[i] = M(); break; case 2: o[i] = w; want[i] = M{1, v}; break; case 3: o[i] = std::move(w); want[i] = M{1, v}; break; case 4: { V& x = o[i].emplace(v); want[i] = M{1, v}; armed = 0; r.expect(&x == &*o[i], "emplace gives another object"); break; }
            case 5: { Opt t(w); r.expect(w.v == v, "the value is changed"); o[i] = std::move(t); want[i] = M{1, v}; break; }
            case 6: o[i] = o[j]; want[i] = m[j]; break; case 7: if (i == j) { o[i] = o[i]; break; } o[i] = std::move(o[j]); want[i] = m[j]; if (want[j].k) want[j].v = -1; break; case 8: o[i].swap(o[j]); std::swap(want[i], want[j]); break;
            case 9: { Opt t(o[j]); want[i] = m[j]; o[i] = std::move(t); break; } case 10: { Opt t(std::move(o[j])); want[i] = m[j]; if (want[j].k) want[j].v = -1; o[i] = std::move(t); break; } case 11: { using std::swap; swap(o[i], o[j]); std::swap(want[i], want[j]); break; }
            case 12: { edsp::optional<int> t; if (m[j].k) t = m[j].v; edsp::optional<V> u; if (t) u.emplace(*t); o[i] = u; want[i] = m[j].k ? M{1, m[j].v} : M(); break; } default: { Opt t; o[i] = t; want[i] = M(); } } } catch (const Fault&) { failed = true; }
        armed = 0; for (int k = 0; k < 2; ++k) { const M now = look(o[k]); if (!failed) { if (!c.ok(now == want[k])) c.fail("optional", "%so%d holds %s, not %s", r.hist.c_str(), k, show(now).c_str(), show(want[k]).c_str()); m[k] = want[k]; } else { if (!c.ok(now == before[k] || now == want[k] || (op == 4 && k == i && !now.k))) c.fail("optional", "%so%d holds %s after the failure, before %s", r.hist.c_str(), k, show(now).c_str(), show(before[k]).c_str()); m[k] = now; } }
        r.sane(m[0].k + m[1].k, "after the operation"); observe(r, o, m);
      } }
    r.sane(0, "after destruction");
}
// ---- expected
typedef P<1> Er; typedef edsp::expected<V, Er> Exp;
static M look(const Exp& e) { M m; m.k = e.has_value() ? 1 : 2; m.v = e.has_value() ? e->v : e.error().v; return m; }
static void observe(Run& r, Exp* e, M* m) {
    for (int i = 0; i < 2; ++i) { const Exp& q = e[i]; const bool h = m[i].k == 1; r.expect(q.has_value() == h && bool(q) == h, "has_value"); bool thrown = false; try { const V& x = q.value(); r.expect(x.v == m[i].v && &x == &e[i].value() && &x == &*q && &x == &*e[i] && &x == q.operator->(), "value"); } catch (const nonstd::bad_expected_access<Er>& b) { thrown = true; r.expect(b.error().v == m[i].v, "the thrown error"); } r.expect(thrown == !h, "value() of an expected"); if (!h) r.expect(q.error().v == m[i].v && &q.error() == &e[i].error() && q.get_unexpected().value().v == m[i].v, "error");
        { const V d(9); r.expect(q.value_or(d).v == (h ? m[i].v : 9), "value_or"); }
        for (int x = 1; x <= 2; ++x) { const V w(x); const Er u(x); r.expect((q == w) == (h && m[i].v == x) && (w == q) == (h && m[i].v == x) && (q != w) == !(h && m[i].v == x), "comparison with a value"); const nonstd::unexpected_type<Er> un(u); r.expect((q == un) == (!h && m[i].v == x) && (un == q) == (!h && m[i].v == x) && (q != un) == !(!h && m[i].v == x), "comparison with an error"); }
        for (int j = 0; j < 2; ++j) r.expect((q == e[j]) == (m[i] == m[j]) && (q != e[j]) == !(m[i] == m[j]), "comparison of two results"); }
    r.sane(2, "after observing");
}
SCENARIO(expecteds, 32) {
    Run r(c, "expected"); { Exp e[2]; M m[2] = {{1, 0}, {1, 0}}; const int n = depth(c, 2); observe(r, e, m);
      for (int s = 0; s < n; ++s) {
        if (n > 4) { mc::Hash h; for (auto& x : m) h << x.k << x.v; c.state(h.value(), n - s); }
        const int op = c.choose(12, "operation"), i = c.choose(2, "object"), j = op >= 6 && op <= 8 ? c.choose(2, "other") : 1 - i, v = op <= 5 ? val(c.choose(2, "value")) : 0; c.nontrivial(1); static const char* N[] = {"= value", "= moved value", "emplace", "= error", "= moved error", "construct from error", "= copy", "= move", "swap", "construct copy", "construct move", "free swap"};
        const int f = c.choose(4, "failing copy"); r.hist += S("e") + std::to_string(i) + " " + N[op] + (op <= 5 ? " " + std::to_string(v) : " e" + std::to_string(j)) + (f ? " with copy " + std::to_string(f) + " failing" : S()) + "; "; c.at("%s", r.hist.c_str());
        M before[2] = {m[0], m[1]}, want[2] = {m[0], m[1]}; bool failed = false;
        try { V w(v); Er x(v); nonstd::unexpected_type<Er> u(x); armed = f; switch (op) {
            case 0: { auto& q = (e[i] = w); want[i] = M{1, v}; r.expect(&q == &e[i] && w.v == v, "assignment does not refer to the object"); break; } case 1: e[i] = std::move(w); want[i] = M{1, v}; break; case 2: e[i].emplace(v); want[i] = M{1, v}; break; case 3: { auto& q = (e[i] = u); want[i] = M{2, v}; armed = 0; r.expect(&q == &e[i] && u.value().v == v, "assignment changes the error"); break; } case 4: e[i] = std::move(u); want[i] = M{2, v}; break;
            case 5: { Exp t(u); e[i] = std::move(t); want[i] = M{2, v}; break; } case 6: { auto&& q = (e[i] = e[j]); want[i] = m[j]; r.expect(&q == &e[i], "assignment does not refer to the object"); break; } case 7: if (i == j) { e[i] = e[i]; break; } e[i] = std::move(e[j]); want[i] = m[j]; want[j].v = -1; break; case 8: e[i].swap(e[j]); std::swap(want[i], want[j]); break;
            case 9: { Exp t(e[j]); e[i] = std::move(t); want[i] = m[j]; break; } case 10: { Exp t(std::move(e[j])); e[i] = std::move(t); want[i] = m[j]; want[j].v = -1; break; } default: { using std::swap; swap(e[i], e[j]); std::swap(want[i], want[j]); } } } catch (const Fault&) { failed = true; }
        armed = 0; for (int k = 0; k < 2; ++k) { const M now = look(e[k]); if (!failed) { if (!c.ok(now == want[k])) c.fail("expected", "%se%d holds %s, not %s", r.hist.c_str(), k, show(now).c_str(), show(want[k]).c_str()); m[k] = want[k]; } else { if (!c.ok(now == before[k] || now == want[k])) c.fail("expected", "%se%d holds %s after the failure, before %s", r.hist.c_str(), k, show(now).c_str(), show(before[k]).c_str()); m[k] = now; } }
        r.sane(2, "after the operation"); observe(r, e, m);
      } }
    r.sane(0, "after destruction");
}
typedef edsp::expected<void, Er> Res;
SCENARIO(void_expecteds, 16) {
    Run r(c, "expected<void>"); { Res e[2]; M m[2]; const int n = depth(c, 3);
      for (int s = 0; s < n; ++s) {
        if (n > 4) { mc::Hash h; for (auto& x : m) h << x.k << x.v; c.state(h.value(), n - s); }
        const int op = c.choose(6, "operation"), i = c.choose(2, "object"), j = c.choose(2, "other"), v = op < 2 ? val(c.choose(2, "value")) : 0, f = op == 2 || op == 4 ? c.choose(3, "failing copy") : 0; c.nontrivial(1); static const char* N[] = {"= error", "= success", "= copy", "= move", "construct copy", "swap"}; r.hist += S("e") + std::to_string(i) + " " + N[op] + " " + std::to_string(v) + " e" + std::to_string(j) + (f ? " failing" : "") + "; "; c.at("%s", r.hist.c_str()); M before[2] = {m[0], m[1]}, want[2] = {m[0], m[1]}; bool failed = false;
        try { Er x(v); armed = f; switch (op) { case 0: e[i] = Res(edsp::make_unexpected(x)); want[i] = M{2, v}; break; case 1: e[i] = Res(); want[i] = M(); break; case 2: e[i] = e[j]; want[i] = m[j]; break; case 3: if (i == j) break; e[i] = std::move(e[j]); want[i] = m[j]; if (want[j].k) want[j].v = -1; break; case 4: { Res t(e[j]); e[i] = std::move(t); want[i] = m[j]; break; } default: e[i].swap(e[j]); std::swap(want[i], want[j]); } } catch (const Fault&) { failed = true; } armed = 0;
        for (int k = 0; k < 2; ++k) { M now; if (!e[k].has_value()) { now.k = 2; now.v = e[k].error().v; } if (op == 3 && !failed && k == j && i != j) { /* a moved-from result keeps its state or becomes a success */ if (!c.ok(now == want[k] || now == M())) c.fail("expected<void>", "%sthe moved-from result holds %s", r.hist.c_str(), show(now).c_str()); m[k] = now; continue; } if (!c.ok(failed ? now == before[k] || now == want[k] : now == want[k])) c.fail("expected<void>", "%se%d holds %s, not %s", r.hist.c_str(), k, show(now).c_str(), show(want[k]).c_str()); m[k] = now; const Res& q = e[k]; r.expect(bool(q) == !now.k && (now.k == 0 || q.get_unexpected().value().v == now.v), "observers"); }
        r.expect((e[0] == e[1]) == (m[0] == m[1]) && (e[0] != e[1]) == !(m[0] == m[1]), "comparison"); r.sane((m[0].k != 0) + (m[1].k != 0), "after the operation");
      } }
    r.sane(0, "after destruction");
}
// ---- any: alternatives 1 = V, 2 = int, 3 = Er
static void observe(Run& r, edsp::any* a, M* m) {
    for (int i = 0; i < 2; ++i) { const edsp::any& q = a[i]; r.expect(q.has_value() == (m[i].k != 0), "has_value"); r.expect(q.type() == (m[i].k == 0 ? typeid(void) : m[i].k == 1 ? typeid(V) : m[i].k == 2 ? typeid(int) : typeid(Er)), "type");
        const V* v = nonstd::any_cast<V>(&q); const int* n = nonstd::any_cast<int>(&q); const Er* e = nonstd::any_cast<Er>(&q); r.expect((v != nullptr) == (m[i].k == 1) && (n != nullptr) == (m[i].k == 2) && (e != nullptr) == (m[i].k == 3) && !nonstd::any_cast<long>(&q), "pointer cast"); r.expect((v ? v->v : n ? *n : e ? e->v : 0) == (m[i].k ? m[i].v : 0), "content"); r.expect(nonstd::any_cast<V>(&a[i]) == v, "cast of a non-constant object");
        bool t1 = false, t2 = false, t3 = false; try { r.expect(nonstd::any_cast<V>(q).v == m[i].v, "value cast"); } catch (const nonstd::bad_any_cast&) { t1 = true; } try { r.expect(nonstd::any_cast<int>(a[i]) == m[i].v, "value cast"); } catch (const std::bad_cast&) { t2 = true; } try { r.expect(nonstd::any_cast<const Er&>(q).v == m[i].v, "reference cast"); } catch (const nonstd::bad_any_cast&) { t3 = true; } r.expect(t1 == (m[i].k != 1) && t2 == (m[i].k != 2) && t3 == (m[i].k != 3), "cast to another type"); }
    r.sane((m[0].k % 2) + (m[1].k % 2), "after observing");
}
SCENARIO(anys, 32) {
    Run r(c, "any"); { edsp::any a[2]; M m[2]; const int n = depth(c, 2);
      for (int s = 0; s < n; ++s) {
        if (n > 4) { mc::Hash h; for (auto& x : m) h << x.k << x.v; c.state(h.value(), n - s); }
        const int op = c.choose(10, "operation"), i = c.choose(2, "object"), j = op >= 5 && op <= 7 ? c.choose(2, "other") : 1 - i, k = op >= 1 && op <= 4 ? 1 + c.choose(3, "type") : 0, v = k ? val(c.choose(2, "value")) : 0, f = c.choose(3, "failing copy"); c.nontrivial(1); static const char* N[] = {"reset", "= value", "= moved value", "emplace", "construct from value", "= copy", "= move", "swap", "construct copy", "construct move"};
        r.hist += S("a") + std::to_string(i) + " " + N[op] + (k ? " #" + std::to_string(k) + ":" + std::to_string(v) : " a" + std::to_string(j)) + (f ? " with copy " + std::to_string(f) + " failing" : S()) + "; "; c.at("%s", r.hist.c_str()); M before[2] = {m[0], m[1]}, want[2] = {m[0], m[1]}; bool failed = false;
        try { V w(v); Er x(v); int y = v; edsp::any& q = a[i]; armed = f; if (k) want[i] = M{k, v}; switch (op) {
            case 0: q.reset(); want[i] = M(); break; case 1: if (k == 1) q = w; else if (k == 2) q = y; else q = x; r.expect(w.v == v && x.v == v && y == v, "assignment changes the assigned value"); break; case 2: if (k == 1) q = std::move(w); else if (k == 2) q = std::move(y); else q = std::move(x); break; case 3: if (k == 1) q.emplace<V>(v); else if (k == 2) q.emplace<int>(v); else q.emplace<Er>(v); break;
            case 4: { if (k == 1) { edsp::any t(w); q.swap(t); } else if (k == 2) { edsp::any t(y); q.swap(t); } else { edsp::any t(x); q.swap(t); } r.expect(w.v == v && x.v == v && y == v, "construction changes the given value"); break; }
            case 5: q = a[j]; want[i] = m[j]; break; case 6: if (i == j) break; q = std::move(a[j]); want[i] = m[j]; want[j] = M(); break; case 7: q.swap(a[j]); std::swap(want[i], want[j]); break; case 8: { edsp::any t(a[j]); q.swap(t); want[i] = m[j]; break; } default: { edsp::any t(std::move(a[j])); q.swap(t); want[i] = m[j]; want[j] = M(); } } } catch (const Fault&) { failed = true; }
        armed = 0; for (int z = 0; z < 2; ++z) { M now; const edsp::any& q = a[z]; if (q.type() == typeid(V)) { now.k = 1; now.v = nonstd::any_cast<V>(&q)->v; } else if (q.type() == typeid(int)) { now.k = 2; now.v = *nonstd::any_cast<int>(&q); } else if (q.type() == typeid(Er)) { now.k = 3; now.v = nonstd::any_cast<Er>(&q)->v; } else if (q.has_value()) now.k = 9;
            if (!failed && z == j && (op == 6 || op == 9) && i != j) { m[z] = now; continue; } if (!c.ok(failed ? now == before[z] || (op == 3 && z == i && !now.k) : now == want[z])) c.fail("any", "%sa%d holds %s, not %s", r.hist.c_str(), z, show(now).c_str(), show(failed ? before[z] : want[z]).c_str()); m[z] = now; }
        r.sane((m[0].k % 2) + (m[1].k % 2), "after the operation"); observe(r, a, m);
      } }
    r.sane(0, "after destruction");
}
// ---- variant: alternatives 1 = V, 2 = int, 3 = W, whose moves may fail; 0 = valueless
typedef P<2> W; typedef edsp::variant<V, int, W> Var;
struct Seen { M operator()(const V& v) const { return M{1, v.v}; } M operator()(const int& v) const { return M{2, v}; } M operator()(const W& v) const { return M{3, v.v}; } template <typename X> M operator()(const X&) const { return M{9, 0}; } };
static M look(const Var& q) { M m; if (q.valueless_by_exception()) return m; m.k = (int)q.index() + 1; m.v = m.k == 1 ? nonstd::get_if<0>(&q)->v : m.k == 2 ? *nonstd::get_if<1>(&q) : nonstd::get_if<2>(&q)->v; return m; }
static void observe(Run& r, Var* a, M* m) {
    for (int i = 0; i < 2; ++i) { const Var& q = a[i]; r.expect(q.valueless_by_exception() == (m[i].k == 0) && q.index() == (m[i].k ? (size_t)m[i].k - 1 : nonstd::variant_npos), "index"); r.expect(nonstd::holds_alternative<V>(q) == (m[i].k == 1) && nonstd::holds_alternative<int>(q) == (m[i].k == 2) && nonstd::holds_alternative<W>(q) == (m[i].k == 3), "holds_alternative");
        bool t1 = false, t2 = false, t3 = false, t4 = false; try { r.expect(nonstd::get<V>(q).v == m[i].v && nonstd::get<0>(a[i]).v == m[i].v, "get"); } catch (const nonstd::bad_variant_access&) { t1 = true; } try { r.expect(nonstd::get<int>(q) == m[i].v && nonstd::get<1>(q) == m[i].v, "get"); } catch (const nonstd::bad_variant_access&) { t2 = true; } try { r.expect(nonstd::get<W>(q).v == m[i].v, "get"); } catch (const nonstd::bad_variant_access&) { t3 = true; } try { r.expect(nonstd::get<2>(q).v == m[i].v, "get"); } catch (const nonstd::bad_variant_access&) { t4 = true; } r.expect(t1 == (m[i].k != 1) && t2 == (m[i].k != 2) && t3 == (m[i].k != 3) && t4 == t3, "access to another alternative");
        r.expect((nonstd::get_if<V>(&q) != nullptr) == (m[i].k == 1) && (nonstd::get_if<int>(&a[i]) != nullptr) == (m[i].k == 2) && (nonstd::get_if<2>(&q) != nullptr) == (m[i].k == 3), "get_if"); if (m[i].k) r.expect(nonstd::visit(Seen(), q) == m[i], "visit");
        for (int j = 0; j < 2; ++j) { const Var& p = a[j]; const std::pair<int, int> x(m[i].k, m[i].k ? m[i].v : 0), y(m[j].k, m[j].k ? m[j].v : 0); r.expect((q == p) == (x == y) && (q != p) == (x != y) && (q < p) == (x < y) && (q > p) == (x > y) && (q <= p) == (x <= y) && (q >= p) == (x >= y), "comparison of two variants"); } }
    r.sane((m[0].k % 2) + (m[1].k % 2), "after observing");
}
SCENARIO(variants, 32) {
    Run r(c, "variant"); { Var a[2]; M m[2] = {{1, 0}, {1, 0}}; const int n = depth(c, 2); observe(r, a, m);
      for (int s = 0; s < n; ++s) {
        if (n > 4) { mc::Hash h; for (auto& x : m) h << x.k << x.v; c.state(h.value(), n - s); }
        const int op = c.choose(9, "operation"), i = c.choose(2, "object"), j = op >= 4 && op <= 6 ? c.choose(2, "other") : 1 - i, k = op <= 3 ? 1 + c.choose(3, "type") : 0, v = k ? val(c.choose(2, "value")) : 0, f = c.choose(4, "failing copy"); c.nontrivial(1); static const char* N[] = {"= value", "= moved value", "emplace", "construct from value", "= copy", "= move", "swap", "construct copy", "construct move"};
        r.hist += S("v") + std::to_string(i) + " " + N[op] + (k ? " #" + std::to_string(k) + ":" + std::to_string(v) : " v" + std::to_string(j)) + (f ? " with copy " + std::to_string(f) + " failing" : S()) + "; "; c.at("%s", r.hist.c_str()); M before[2] = {m[0], m[1]}, want[2] = {m[0], m[1]}; bool failed = false;
        try { V w(v); W x(v); int y = v; Var& q = a[i]; armed = f; if (k) want[i] = M{k, v}; switch (op) {
            case 0: if (k == 1) q = w; else if (k == 2) q = y; else q = x; r.expect(w.v == v && x.v == v && y == v, "assignment changes the assigned value"); break; case 1: if (k == 1) q = std::move(w); else if (k == 2) q = std::move(y); else q = std::move(x); break; case 2: if (k == 1) q.emplace<V>(w); else if (k == 2) q.emplace<1>(v); else q.emplace<2>(x); break;
            case 3: { if (k == 1) { Var t(w); q = std::move(t); } else if (k == 2) { Var t(y); q = std::move(t); } else { Var t(x); q = std::move(t); } break; }
            case 4: q = a[j]; want[i] = m[j]; break; case 5: if (i == j) { Var& self = a[j]; q = std::move(self); break; } q = std::move(a[j]); want[i] = m[j]; if (want[j].k % 2) want[j].v = -1; break; case 6: q.swap(a[j]); std::swap(want[i], want[j]); break; case 7: { Var t(a[j]); q = std::move(t); want[i] = m[j]; break; } default: { Var t(std::move(a[j])); q = std::move(t); want[i] = m[j]; if (want[j].k % 2) want[j].v = -1; } } } catch (const Fault&) { failed = true; }
        armed = 0; for (int z = 0; z < 2; ++z) { const M now = look(a[z]); if (!c.ok(failed ? now == before[z] || now == want[z] || (now.k == 0 && (z == i || op == 6)) || (now.v == -1 && now.k == 3 && (before[z].k == 3 || want[z].k == 3)) || (op == 6 && (now == before[i] || now == before[j] || now.v == -1)) : now == want[z])) c.fail("variant", "%sv%d holds %s, not %s", r.hist.c_str(), z, show(now).c_str(), show(want[z]).c_str()); m[z] = now; }
        r.sane((m[0].k % 2) + (m[1].k % 2), "after the operation"); observe(r, a, m);
      } }
    r.sane(0, "after destruction");
}
// variants of small alternatives
template <typename X, size_t K> static void small(Ctx& c, X v) {
    const size_t i = v.index(); bool t = false; try { auto& y = nonstd::get<K>(v); c.check(y == (typename std::decay<decltype(y)>::type)(K + 1), "variant", "alternative %zu of a variant of small types holds another value", K); } catch (const nonstd::bad_variant_access&) { t = true; } c.check(t == (i != K), "variant", "get<%zu> of a variant of small types holding %zu %s", K, i, t ? "throws" : "does not throw");
}
SCENARIO(small_variants, 1) {
    c.nontrivial(1); c.at("variants of small types"); typedef edsp::variant<char, signed char, unsigned char> A; typedef edsp::variant<short, char, unsigned short, unsigned char> B; typedef edsp::variant<int, char, short, long, float, unsigned> C3;
    for (A v : {A((char)1), A((signed char)2), A((unsigned char)3)}) { small<A, 0>(c, v); small<A, 1>(c, v); small<A, 2>(c, v); } for (B v : {B((short)1), B((char)2), B((unsigned short)3), B((unsigned char)4)}) { small<B, 0>(c, v); small<B, 1>(c, v); small<B, 2>(c, v); small<B, 3>(c, v); }
    for (C3 v : {C3(1), C3((char)2), C3((short)3), C3(4l), C3(5.f), C3(6u)}) { small<C3, 0>(c, v); small<C3, 1>(c, v); small<C3, 2>(c, v); small<C3, 3>(c, v); small<C3, 4>(c, v); small<C3, 5>(c, v); }
}
// ---- string_view against std::string
SCENARIO(views, 32) {
    typedef edsp::string_view SV; const int n = c.range(0, c.tier(4, 5)), k = c.range(0, c.tier(3, 3)); S s, t; for (int i = 0; i < n; ++i) s += c.pick({'a', 'b', '\0'}); for (int i = 0; i < k; ++i) t += c.pick({'a', 'b', '\0'}); in::Exact<char> es(std::vector<char>(s.begin(), s.end()), 0), et(std::vector<char>(t.begin(), t.end()), 0); const SV a(es.begin(), s.size()), b(et.begin(), t.size()); S label = "'"; for (char x : s) label += x ? x : '0'; label += "', '"; for (char x : t) label += x ? x : '0'; label += "'"; c.nontrivial(n > 0); c.at("string_view of %s", label.c_str());
#define EQ(name, got, want) { const long long g_ = (long long)(got), w_ = (long long)(want); if (!c.ok(g_ == w_)) c.fail("string_view", "%s of %s is %lld, not %lld", name, label.c_str(), g_, w_); }
    auto sign = [](int x) { return x < 0 ? -1 : x > 0; };
    EQ("size", a.size(), s.size()) EQ("length", a.length(), s.size()) EQ("empty", a.empty(), s.empty()) EQ("content", S(a.begin(), a.end()) == s && S(a.cbegin(), a.cend()) == s && S(a.data(), a.size()) == s && a.to_string() == s && S(a) == s, 1) EQ("reversed", S(a.rbegin(), a.rend()) == S(s.rbegin(), s.rend()) && S(a.crbegin(), a.crend()) == S(s.rbegin(), s.rend()), 1)
    if (n) { EQ("front", a.front(), s.front()) EQ("back", a.back(), s.back()) } for (int i = 0; i <= n + 1; ++i) { bool thrown = false; char x = 0; try { x = a.at((size_t)i); } catch (const std::out_of_range&) { thrown = true; } EQ("at", thrown ? -1000 : x, i < n ? s[(size_t)i] : -1000) if (i < n) EQ("[]", a[(size_t)i], s[(size_t)i]) }
    EQ("==", a == b, s == t) EQ("!=", a != b, s != t) EQ("<", a < b, s < t) EQ(">", a > b, s > t) EQ("<=", a <= b, s <= t) EQ(">=", a >= b, s >= t) EQ("== string", a == t && t == a, s == t) EQ("compare", sign(a.compare(b)), sign(s.compare(t))) { const bool st = s.compare(0, t.size(), t) == 0 && s.size() >= t.size(), en = s.size() >= t.size() && s.compare(s.size() - t.size(), S::npos, t) == 0; EQ("starts_with", a.starts_with(b), st) EQ("ends_with", a.ends_with(b), en) }
    EQ("starts_with a", a.starts_with('a'), n && s[0] == 'a') EQ("ends_with a", a.ends_with('a'), n && s.back() == 'a')
    EQ("hash", std::hash<SV>()(a) == std::hash<SV>()(SV(s.data(), s.size())), 1) { std::ostringstream o; o << a; EQ("stream", o.str() == s, 1) std::ostringstream p; p << '[' << std::setw(6) << std::left << a << ']'; std::ostringstream q; q << '[' << std::setw(6) << std::left << s << ']'; EQ("padded stream", p.str() == q.str(), 1) }
    std::vector<size_t> ps; for (int i = 0; i <= n + 2; ++i) ps.push_back((size_t)i); ps.push_back(S::npos); ps.push_back(S::npos - 1); const bool nul = t.find('\0') != S::npos;
    for (size_t p : ps) {
#define FIND(f) EQ(#f, a.f(b, p), s.f(t, p)) EQ(#f " character", a.f('a', p), s.f('a', p)) EQ(#f " pointer", a.f(et.begin(), p, t.size()), s.f(t.data(), p, t.size())) if (!nul) EQ(#f " c string", a.f(t.c_str(), p), s.f(t.c_str(), p))
        FIND(find) FIND(rfind) FIND(find_first_of) FIND(find_last_of) FIND(find_first_not_of) FIND(find_last_not_of)
        for (size_t q : ps) { bool thrown = false; S sub; try { sub = a.substr(p, q).to_string(); } catch (const std::out_of_range&) { thrown = true; } EQ("substr", thrown ? -1 : sub == (p <= s.size() ? s.substr(p, q) : S()), p > s.size() ? -1 : 1) if (p <= s.size()) { EQ("compare part", sign(a.compare(p, q, b)), sign(s.compare(p, q, t))) EQ("compare parts", sign(a.compare(p, q, b, 0, q)), sign(s.compare(p, q, t, 0, q))) if (!nul) EQ("compare c string", sign(a.compare(p, q, t.c_str())), sign(s.compare(p, q, t.c_str()))) EQ("compare pointer", sign(a.compare(p, q, et.begin(), t.size())), sign(s.compare(p, q, t.data(), t.size()))) }
            if (p <= s.size()) { const size_t m = std::min(q, s.size() - p); in::Exact<char> d(m, 0, 'x'); EQ("copy", a.copy(d.begin(), q, p), m) EQ("copied", S(d.begin(), d.end()) == s.substr(p, q), 1) } else { thrown = false; char d; try { a.copy(&d, q, p); } catch (const std::out_of_range&) { thrown = true; } EQ("copy", thrown, 1) } }
        if (p <= s.size()) { SV v = a; v.remove_prefix(p); EQ("remove_prefix", v.to_string() == s.substr(p), 1) SV w = a; w.remove_suffix(p); EQ("remove_suffix", w.to_string() == s.substr(0, s.size() - p), 1) v.swap(w); EQ("swap", v.to_string() == s.substr(0, s.size() - p) && w.to_string() == s.substr(p), 1) v = w; EQ("assignment", v == w, 1) }
    }
    EQ("find without position", a.find(b), s.find(t)) EQ("rfind without position", a.rfind(b), s.rfind(t)) EQ("find_last_of without position", a.find_last_of(b), s.find_last_of(t)) EQ("find_last_not_of without position", a.find_last_not_of(b), s.find_last_not_of(t)) EQ("find_first_of without position", a.find_first_of(b), s.find_first_of(t)) EQ("find_first_not_of without position", a.find_first_not_of(b), s.find_first_not_of(t)) if (!nul) { EQ("c string", SV(t.c_str()) == b, 1) EQ("compare c string", sign(a.compare(t.c_str())), sign(s.compare(t))) EQ("== c string", a == t.c_str(), s == t) } EQ("default", SV().empty() && SV().size() == 0, 1)
}
// ---- span against a vector
SCENARIO(spans, 16) {
    typedef edsp::span<int> Sp; const int n = c.range(0, c.tier(5, 7)), off = c.range(0, n), m = c.range(0, n - off); std::vector<int> v((size_t)n); for (auto& x : v) x = c.pick({1, 2}); in::Exact<int> e(v, 0); std::vector<int> w(v.begin() + off, v.begin() + off + m); c.nontrivial(n > 0); c.at("span of %d, part %d + %d", n, off, m); S hist = "span of " + std::to_string(n) + ", part " + std::to_string(off) + "+" + std::to_string(m) + ": ";
    auto is = [&](edsp::span<const int> s, const std::vector<int>& x, const int* first, const char* what) { bool ok = (size_t)s.size() == x.size() && s.empty() == x.empty() && s.size_bytes() == (long)(x.size() * sizeof(int)) && (x.empty() || s.data() == first); for (size_t i = 0; ok && i < x.size(); ++i) ok = s[(long)i] == x[i] && s((long)i) == x[i] && &s[(long)i] == first + i; ok = ok && std::vector<int>(s.begin(), s.end()) == x && std::vector<int>(s.cbegin(), s.cend()) == x && std::vector<int>(s.rbegin(), s.rend()) == std::vector<int>(x.rbegin(), x.rend()); if (!c.ok(ok)) c.fail("span", "%s%s shows other elements", hist.c_str(), what); };
    Sp all(e.begin(), (long)n); is(all, v, e.begin(), "pointer and count"); is(Sp(e.begin(), e.end()), v, e.begin(), "two pointers"); is(Sp(v), v, v.data(), "container"); { const std::vector<int>& cv = v; is(edsp::span<const int>(cv), v, v.data(), "constant container"); } 
    is(all.subspan(off, m), w, e.begin() + off, "subspan"); is(all.subspan(off), std::vector<int>(v.begin() + off, v.end()), e.begin() + off, "tail"); is(all.first(off), std::vector<int>(v.begin(), v.begin() + off), e.begin(), "first"); is(all.last(off), std::vector<int>(v.end() - off, v.end()), e.begin() + n - off, "last"); is(all.subspan(off).first(m), w, e.begin() + off, "first of the tail"); is(all.first(off + m).last(m), w, e.begin() + off, "last of the head"); is(Sp(all), v, e.begin(), "copy"); { Sp q; is(q, {}, nullptr, "default"); q = all; is(q, v, e.begin(), "assignment"); }
    if (n >= 2) { is(all.first<2>(), std::vector<int>(v.begin(), v.begin() + 2), e.begin(), "static first"); is(all.last<2>(), std::vector<int>(v.end() - 2, v.end()), e.begin() + n - 2, "static last"); is(all.subspan<1>(), std::vector<int>(v.begin() + 1, v.end()), e.begin() + 1, "static tail"); is(all.subspan<1, 1>(), std::vector<int>(v.begin() + 1, v.begin() + 2), e.begin() + 1, "static part"); edsp::span<int, 2> st = all.first<2>(); is(st, std::vector<int>(v.begin(), v.begin() + 2), e.begin(), "static extent"); is(st.subspan<1>(), std::vector<int>(v.begin() + 1, v.begin() + 2), e.begin() + 1, "tail of a static extent"); is(st.last(1), std::vector<int>(v.begin() + 1, v.begin() + 2), e.begin() + 1, "last of a static extent"); }
    Sp p = all.subspan(off, m); std::vector<int> x = w; for (int i = 0; i < m; ++i) { p[i] += 10; x[(size_t)i] += 10; } is(p, x, e.begin() + off, "elements written"); for (int i = 0; i < n; ++i) c.check(e[(size_t)i] == v[(size_t)i] + (i >= off && i < off + m ? 10 : 0), "span", "%sa write reaches element %d", hist.c_str(), i); for (int i = 0; i < m; ++i) p[i] -= 10;
    Sp h(v.data(), (long)m); const std::vector<int> y(v.begin(), v.begin() + m); c.check((p == h) == (w == y) && (p != h) == (w != y) && (p < h) == (w < y) && (p > h) == (w > y) && (p <= h) == (w <= y) && (p >= h) == (w >= y) && (p == all) == (w == v) && (p < all) == (w < v), "span", "%scomparison", hist.c_str());
    int arr[3] = {4, 5, 6}; std::array<int, 3> sa = {{7, 8, 9}}; is(Sp(arr), {4, 5, 6}, arr, "array"); is(Sp(sa), {7, 8, 9}, sa.data(), "std::array"); is(edsp::span<int, 3>(arr), {4, 5, 6}, arr, "static array");
}
// ---- ring_span over outside storage against a deque
template <typename Pop> static void rings(Ctx& c, const char* name, Pop pop, int left) {
    const int cap = c.range(1, 3), start = c.range(0, cap - 1), held = c.range(0, cap), n = c.tier(5, 7); in::Exact<int> st((size_t)cap, 0, 0); std::deque<int> d; int next = 100; for (int i = 0; i < held; ++i) { st[(size_t)((start + i) % cap)] = next; d.push_back(next++); } typedef edsp::ring_span<int, Pop> R; R r(st.begin(), st.end(), st.begin() + start, (size_t)held, pop); S hist = S(name) + " over " + std::to_string(cap) + " cells, " + std::to_string(held) + " from " + std::to_string(start) + ": ";
    for (int k = 0; k < n; ++k) {
        const int op = c.choose(4, "operation"); c.nontrivial(1);
        if (op <= 1) { hist += op ? "emplace_back; " : "push_back; "; c.at("%s", hist.c_str()); if (op) r.emplace_back(next); else r.push_back(next); if ((int)d.size() == cap) d.pop_front(); d.push_back(next++); }
        else if (op == 2) { if (d.empty()) throw mc::Prune{}; hist += "pop_front; "; c.at("%s", hist.c_str()); int* cell = &r.front(); const int x = r.pop_front(); if (left) c.check(*cell == left, "ring_span", "%sleaves %d in the cell", hist.c_str(), *cell); c.check(x == d.front(), "ring_span", "%sgives %d, not %d", hist.c_str(), x, d.front()); d.pop_front(); }
        else { hist += "swap with an empty view and back; "; c.at("%s", hist.c_str()); int z[2]; R o(z, z + 2, pop); r.swap(o); c.check(r.empty() && r.capacity() == 2 && o.size() == d.size(), "ring_span", "%sswap", hist.c_str()); o.swap(r); }
        const R& q = r; bool ok = q.size() == d.size() && q.empty() == d.empty() && q.full() == ((int)d.size() == cap) && (int)q.capacity() == cap && std::vector<int>(q.begin(), q.end()) == std::vector<int>(d.begin(), d.end()) && std::vector<int>(r.begin(), r.end()) == std::vector<int>(d.begin(), d.end()) && std::vector<int>(q.crbegin(), q.crend()) == std::vector<int>(d.rbegin(), d.rend()); if (!d.empty()) ok = ok && q.front() == d.front() && q.back() == d.back() && &r.front() == &q.front() && &r.back() == &q.back() && q.end() - q.begin() == (long)d.size() && *(q.begin() + (long)(d.size() - 1)) == d.back(); if (!c.ok(ok)) c.fail("ring_span", "%sthe content differs: %zu elements, not %zu", hist.c_str(), q.size(), d.size());
    }
}
SCENARIO(ring_spans, 16) { if (c.choose(2, "popper")) rings(c, "ring_span with a replacement", nonstd::copy_popper<int>(77), 77); else rings(c, "ring_span", nonstd::default_popper<int>(), 0); }
