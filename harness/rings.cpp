// C01/C02: ring buffers against a bounded deque, over operation histories on the real containers.
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
#include <stdexcept>
#include <memory>
#include "mc.hpp"
using mc::Ctx;

template <typename T> struct Tok;
template <> struct Tok<int> { static int make(int i) { return i; } };
template <> struct Tok<double> { static double make(int i) { return i * 0.5; } };
template <> struct Tok<std::string> { static std::string make(int i) { return "token-with-a-long-heap-allocated-body-" + std::to_string(i); } };

// ---- the reference model: a deque of at most cap elements -------------------------------
template <typename T> struct Model {
    size_t cap; std::deque<T> q;
    void push_back(const T& v) { if (cap == q.size()) q.pop_front(); q.push_back(v); }
    void push_front(const T& v) { if (cap == q.size()) q.pop_back(); q.push_front(v); }
};
template <typename T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }

template <typename R, typename T> void compare(Ctx& c, R& r, const Model<T>& m, const char* after) {
    const R& k = r;
    const size_t n = m.q.size();
    if (!c.ok(r.size() == n)) c.fail("size", "after %s: size() is %zu, expected %zu", after, (size_t)r.size(), n);
    if (!c.ok(r.capacity() == m.cap)) c.fail("capacity", "after %s: capacity() is %zu, expected %zu", after, (size_t)r.capacity(), m.cap);
    if (!c.ok(r.empty() == (n == 0))) c.fail("empty", "after %s: empty() wrong for %zu elements", after, n);
    if (!c.ok(r.full() == (n == m.cap))) c.fail("full", "after %s: full() wrong for %zu of %zu", after, n, m.cap);
    for (size_t i = 0; i < n; ++i) {
        if (!c.ok(r[i] == m.q[i])) c.fail("index", "after %s: element %zu is %s, expected %s", after, i, str(r[i]).c_str(), str(m.q[i]).c_str());
        if (!c.ok(k[i] == m.q[i])) c.fail("const-index", "after %s: const element %zu wrong", after, i);
        if (!c.ok(r.at(i) == m.q[i] && k.at(i) == m.q[i])) c.fail("at", "after %s: at(%zu) wrong", after, i);
    }
    for (size_t i : {n, n + 1, m.cap, m.cap + n, static_cast<size_t>(-1)}) {
        if (i < n) continue;
        bool t1 = false, t2 = false;
        try { (void)r.at(i); } catch (const std::out_of_range&) { t1 = true; }
        try { (void)k.at(i); } catch (const std::out_of_range&) { t2 = true; }
        if (!c.ok(t1 && t2)) c.fail("at-range", "after %s: at(%zu) with %zu elements does not throw out_of_range", after, i, n);
    }
    if (n) {
        if (!c.ok(r.front() == m.q.front() && k.front() == m.q.front())) c.fail("front", "after %s: front() is %s, expected %s", after, str(r.front()).c_str(), str(m.q.front()).c_str());
        if (!c.ok(r.back() == m.q.back() && k.back() == m.q.back())) c.fail("back", "after %s: back() is %s, expected %s", after, str(r.back()).c_str(), str(m.q.back()).c_str());
    }
    size_t i = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++i) if (i >= n || !c.ok(*it == m.q[i])) c.fail("iterate", "after %s: iteration differs at %zu", after, i);
    if (!c.ok(i == n)) c.fail("iterate-length", "after %s: iteration yields %zu of %zu", after, i, n);
    i = 0; for (auto it = k.begin(); it != k.end(); it++, ++i) if (i >= n || !c.ok(*it == m.q[i])) c.fail("const-iterate", "after %s: const iteration differs at %zu", after, i);
    i = 0; for (auto it = k.cbegin(); it != k.cend(); ++it, ++i) if (i >= n || !c.ok(*it == m.q[i])) c.fail("const-iterate", "after %s: cbegin iteration differs at %zu", after, i);
    i = n; for (auto it = r.rbegin(); it != r.rend(); ++it) { if (i == 0 || !c.ok(*it == m.q[i - 1])) c.fail("reverse", "after %s: reverse iteration differs", after); --i; }
    if (!c.ok(i == 0)) c.fail("reverse-length", "after %s: reverse iteration too short", after);
    i = n; for (auto it = k.crbegin(); it != k.crend(); ++it) { if (i == 0 || !c.ok(*it == m.q[i - 1])) c.fail("reverse", "after %s: crbegin iteration differs", after); --i; }
    i = n; for (auto it = k.rbegin(); it != k.rend(); ++it) { if (i == 0 || !c.ok(*it == m.q[i - 1])) c.fail("reverse", "after %s: const rbegin iteration differs", after); --i; }
    if (!c.ok(static_cast<size_t>(r.end() - r.begin()) == n)) c.fail("distance", "after %s: end()-begin() is %td, expected %zu", after, (ptrdiff_t)(r.end() - r.begin()), n);
    for (size_t a = 0; a <= n; ++a) for (size_t b = 0; b <= n; ++b) {   // random access arithmetic
        auto x = r.begin() + static_cast<int>(a); auto y = r.end() - static_cast<int>(n - b);
        if (!c.ok((y - x) == static_cast<ptrdiff_t>(b) - static_cast<ptrdiff_t>(a) && (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b)))
            c.fail("iterator-arithmetic", "after %s: iterator arithmetic wrong for positions %zu and %zu", after, a, b);
        if (n > 12) break;
    }
    if (!c.ok(r.data() == r.buffer().data() && r.buffer().size() >= m.cap)) c.fail("storage", "after %s: data()/buffer() disagree", after);
}
template <typename R> size_t offset(const R& r) { return static_cast<size_t>(&*r.begin() - r.buffer().data()); }

// one operation on both sides; `tok` numbers the pushed values
enum Op { PUSH_BACK, EMPLACE_BACK, EMPLACE_FRONT, POP_FRONT, POP_BACK, CLEAR, WRITE, COPY, MOVE, ASSIGN, OWN_BACK, OWN_EMPLACE, OWN_FRONT, NOPS_FIXED, RESIZE = NOPS_FIXED, NOPS };
static const char* names[] = {"push_back", "emplace_back", "emplace_front", "pop_front", "pop_back", "clear", "write through reference", "copy construct", "move construct", "copy assign", "push_back of an own element", "emplace_back of an own element", "emplace_front of an own element", "resize"};

template <typename R, typename T> bool apply(Ctx& c, std::unique_ptr<R>& r, Model<T>& m, int op, int tok) {
    const T v = Tok<T>::make(tok);
    switch (op) {
        case PUSH_BACK: c.log("push_back(#%d)", tok); r->push_back(v); m.push_back(v); break;
        case EMPLACE_BACK: c.log("emplace_back(#%d)", tok); r->emplace_back(v); m.push_back(v); break;
        case EMPLACE_FRONT: c.log("emplace_front(#%d)", tok); r->emplace_front(v); m.push_front(v); break;
        case POP_FRONT: if (m.q.empty()) return false; c.log("pop_front()"); r->pop_front(); m.q.pop_front(); break;
        case POP_BACK: if (m.q.empty()) return false; c.log("pop_back()"); r->pop_back(); m.q.pop_back(); break;
        case CLEAR: c.log("clear()"); r->clear(); m.q.clear(); break;
        case WRITE: if (m.q.empty()) return false; c.log("r[last] = #%d; front()/back() written", tok);
            (*r)[m.q.size() - 1] = v; m.q.back() = v; r->front() = v; m.q.front() = v; *r->begin() = v; break;
        case COPY: {
            c.log("copy, then overwrite the source; keep the copy");
            std::unique_ptr<R> n(new R(*r)); compare(c, *n, m, "copy (the copy)");
            for (size_t i = 0; i <= m.cap; ++i) r->push_back(Tok<T>::make(100000 + (int)i));
            compare(c, *n, m, "copy, source modified");
            Model<T> old{m.cap, {}}; for (size_t i = 1; i <= m.cap; ++i) old.q.push_back(Tok<T>::make(100000 + (int)i));
            n->push_back(v); m.push_back(v);
            compare(c, *r, old, "copy, copy modified (the source)");
            r = std::move(n); break;
        }
        // the argument is a reference into the buffer itself, and may be the very element that is about to be dropped
        case OWN_BACK: { if (m.q.empty()) return false; c.log("push_back(front()), push_back(back()), push_back([middle])"); T e = m.q.front(); r->push_back(r->front()); m.push_back(e); e = m.q.back(); r->push_back(r->back()); m.push_back(e);
            e = m.q[m.q.size() / 2]; r->push_back((*r)[m.q.size() / 2]); m.push_back(e); break; }
        case OWN_EMPLACE: { if (m.q.empty()) return false; c.log("emplace_back(front()), emplace_back(back())"); T e = m.q.front(); r->emplace_back(r->front()); m.push_back(e); e = m.q.back(); r->emplace_back(r->back()); m.push_back(e); break; }
        case OWN_FRONT: { if (m.q.empty()) return false; c.log("emplace_front(back()), emplace_front(front())"); T e = m.q.back(); r->emplace_front(r->back()); m.push_front(e); e = m.q.front(); r->emplace_front(r->front()); m.push_front(e); break; }
        case MOVE: {
            c.log("move construct; destroy the source");
            std::unique_ptr<R> n(new R(std::move(*r))); r = std::move(n); break;
        }
        case ASSIGN: {
            c.log("copy assign over a used buffer; self assign");
            std::unique_ptr<R> n(new R(*r)); n->push_back(v); n->push_back(v); *n = *r; compare(c, *n, m, "copy assignment (the target)");
            *n = *n; r->push_back(v); compare(c, *n, m, "copy assignment, source modified"); r = std::move(n); break;
        }
    }
    return true;
}

template <typename R, typename T> void closure(Ctx& c, std::unique_ptr<R> r, size_t cap, int depth) {
    Model<T> m{cap, {}};
    compare(c, *r, m, "construction");
    for (int d = 0; d < depth; ++d) {
        c.state((mc::Hash() << (int)m.cap << (int)offset(*r) << (int)m.q.size()).h, 1);   // full closure
        int op = c.choose(NOPS_FIXED, "op");
        if (!apply(c, r, m, op, d + 1)) throw mc::Prune{};
        compare(c, *r, m, names[op]);
    }
}
template <typename T> void closure_dynamic(Ctx& c, size_t maxcap, int depth) {
    using R = edsp::ring_buffer<T>;
    size_t cap = static_cast<size_t>(c.range(1, (int)maxcap, "capacity"));
    Model<T> m{cap, {}};
    std::unique_ptr<R> r;
    if (c.choose(2, "constructor")) { c.log("ring_buffer(%zu, #0)", cap); r.reset(new R(cap, Tok<T>::make(0))); m.q.assign(cap, Tok<T>::make(0)); }
    else { c.log("ring_buffer(%zu)", cap); r.reset(new R(cap)); }
    compare(c, *r, m, "construction");
    for (int d = 0; d < depth; ++d) {
        c.state((mc::Hash() << (int)m.cap << (int)offset(*r) << (int)m.q.size()).h, 1);   // full closure
        int op = c.choose(NOPS, "op");
        if (op == RESIZE) {
            cap = static_cast<size_t>(c.range(1, (int)maxcap, "new capacity"));
            c.log("resize(%zu)", cap); r->resize(cap); m.cap = cap; m.q.clear();
        } else if (!apply(c, r, m, op, d + 1)) throw mc::Prune{};
        compare(c, *r, m, names[op]);
    }
}
// every history (no state matching): hidden state cannot hide behind the abstraction
template <typename R, typename T> void histories(Ctx& c, std::unique_ptr<R> r, size_t cap, int depth) {
    Model<T> m{cap, {}};
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(7, "op");
        if (!apply(c, r, m, op, d + 1)) throw mc::Prune{};
        compare(c, *r, m, names[op]);
    }
}
// two buffers (of possibly different or zero capacity) that are assigned, moved and swapped into each other; a
// moved-from buffer must be destructible, assignable and, once assigned or resized, usable again
template <typename R, typename T, typename Resize> void two_buffers(Ctx& c, R& a, R& b, Model<T> ma, Model<T> mb, int depth, Resize resize) {
    R* r[2] = {&a, &b}; Model<T>* m[2] = {&ma, &mb}; bool live[2] = {true, true};
    static const char* ops[] = {"push_back", "emplace_front", "pop_front", "pop_back", "clear", "copy assignment", "move assignment", "std::swap", "self assignment", "resize", "move construction"};
    for (int d = 0; d < depth; ++d) {
        const int op = c.choose(11, "op"), i = op == 7 ? 0 : c.choose(2, "object"), o = 1 - i; const T v = Tok<T>::make(d + 1);
        c.log("%s on %c", ops[op], 'a' + i);
        if (!live[i] && op != 5 && op != 6 && op != 9) throw mc::Prune{};
        if (!live[o] && (op == 5 || op == 6 || op == 7)) throw mc::Prune{};
        switch (op) {
            case 0: r[i]->push_back(v); if (m[i]->cap) m[i]->push_back(v); break;
            case 1: r[i]->emplace_front(v); if (m[i]->cap) m[i]->push_front(v); break;
            case 2: if (m[i]->q.empty()) throw mc::Prune{}; r[i]->pop_front(); m[i]->q.pop_front(); break;
            case 3: if (m[i]->q.empty()) throw mc::Prune{}; r[i]->pop_back(); m[i]->q.pop_back(); break;
            case 4: r[i]->clear(); m[i]->q.clear(); break;
            case 5: *r[i] = *r[o]; *m[i] = *m[o]; live[i] = true; break;
            case 6: *r[i] = std::move(*r[o]); *m[i] = *m[o]; live[i] = true; live[o] = false; break;
            case 7: std::swap(a, b); std::swap(ma, mb); break;
            case 8: { R& alias = *r[i]; *r[i] = alias; break; }
            case 9: if (!resize(c, *r[i], *m[i], live[i])) throw mc::Prune{}; break;
            case 10: { R n(std::move(*r[i])); compare(c, n, *m[i], "move construction (the target)"); if (m[i]->cap) { n.push_back(v); m[i]->push_back(v); } *r[i] = n; compare(c, n, *m[i], "copy assignment from the target"); break; }
        }
        for (int k = 0; k < 2; ++k) if (live[k]) compare(c, *r[k], *m[k], ops[op]);
    }
}
// larger capacities: reach every (front offset, size) directly, then every operation
template <typename R, typename T> void big(Ctx& c, std::function<R*()> make, size_t cap) {
    size_t off = static_cast<size_t>(c.choose((int)cap, "front offset"));
    for (size_t size = 0; size <= cap; ++size) for (int op = 0; op < NOPS_FIXED; ++op) {
        c.at("capacity %zu offset %zu size %zu op %s", cap, off, size, names[op]);
        std::unique_ptr<R> r(make()); Model<T> m{cap, {}};
        int t = 0;
        for (size_t i = 0; i < off; ++i) { r->push_back(Tok<T>::make(++t)); r->pop_front(); }
        for (size_t i = 0; i < size; ++i) { T v = Tok<T>::make(++t); r->push_back(v); m.push_back(v); }
        if (!apply(c, r, m, op, ++t)) continue;
        compare(c, *r, m, names[op]);
        if (!apply(c, r, m, (op + 1) % 5, ++t)) continue;
        compare(c, *r, m, "second operation");
    }
}
// long streams: total number of operations is not bounded by the capacity
template <typename R, typename T> void stream(Ctx& c, std::unique_ptr<R> r, size_t cap, int steps) {
    Model<T> m{cap, {}};
    int pattern = c.choose(6, "pattern"); c.split(); const int every = cap > 2000 ? 20011 : 61; if (cap > 2000) steps = 2 * (int)cap + 500;
    for (int i = 0; i < steps; ++i) {
        int op = PUSH_BACK;
        switch (pattern) {
            case 0: op = PUSH_BACK; break;
            case 1: op = EMPLACE_FRONT; break;
            case 2: op = i % 3 == 2 ? POP_FRONT : PUSH_BACK; break;
            case 3: op = i % 3 == 2 ? POP_BACK : EMPLACE_FRONT; break;
            case 4: op = i % 2 ? EMPLACE_FRONT : EMPLACE_BACK; break;
            case 5: op = i % 5 == 4 ? CLEAR : (i % 2 ? POP_FRONT : PUSH_BACK); break;
        }
        if (op == POP_FRONT && m.q.empty()) op = PUSH_BACK;
        if (!apply(c, r, m, op, i + 1)) continue;
        if (i % every == 0 || i > steps - 9 || (cap <= 2000 && i > steps - 70)) compare(c, *r, m, "stream");
        else if (!m.q.empty() && !c.ok(r->front() == m.q.front() && r->back() == m.q.back() && r->size() == m.q.size())) c.fail("stream", "step %d: front/back/size wrong", i);
    }
}

#ifdef DYNAMIC
SCENARIO(reachable_states_int, 4) { closure_dynamic<int>(c, c.tier(8, 16), 4000); }
SCENARIO(reachable_states_string, 4) { closure_dynamic<std::string>(c, c.tier(5, 9), 4000); }
SCENARIO(all_histories, 8) { size_t cap = (size_t)c.range(1, 4, "capacity"); histories<edsp::ring_buffer<double>, double>(c, std::unique_ptr<edsp::ring_buffer<double>>(new edsp::ring_buffer<double>(cap)), cap, c.tier(6, 8)); }
template <typename T> void two_dynamic(Ctx& c, int depth) {
    using R = edsp::ring_buffer<T>; const int ca = c.range(-1, 3, "capacity of a"), cb = c.range(0, 3, "capacity of b");
    std::unique_ptr<R> a(ca < 0 ? new R() : new R((size_t)ca)), b(new R((size_t)cb));
    two_buffers<R, T>(c, *a, *b, {(size_t)(ca < 0 ? 0 : ca), {}}, {(size_t)cb, {}}, depth, [](Ctx& x, R& r, Model<T>& m, bool& live) { m.cap = (size_t)x.choose(4, "new capacity"); m.q.clear(); r.resize(m.cap); live = true; return true; });
}
SCENARIO(two_buffers_double, 32) { two_dynamic<double>(c, c.tier(3, 4)); }
SCENARIO(two_buffers_string, 32) { two_dynamic<std::string>(c, c.tier(3, 4)); }
SCENARIO(large_capacities, 8) {
    size_t cap = c.thorough() ? c.pick(std::vector<size_t>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}, "capacity") : c.pick(std::vector<size_t>{7, 8, 9, 16, 17, 31, 32}, "capacity");
    big<edsp::ring_buffer<int>, int>(c, [&] { return new edsp::ring_buffer<int>(cap); }, cap);
}
SCENARIO(long_streams, 8) { size_t cap = c.pick(std::vector<size_t>{1, 2, 3, 10, 100, 128, 255, 256, 257, 1000, 40000, 70000}, "capacity"); stream<edsp::ring_buffer<int>, int>(c, std::unique_ptr<edsp::ring_buffer<int>>(new edsp::ring_buffer<int>(cap)), cap, c.tier(5000, 200000)); }
#else
template <typename T, size_t N> void fixed_closure(Ctx& c, int depth) { closure<edsp::fixed_ring_buffer<T, N>, T>(c, std::unique_ptr<edsp::fixed_ring_buffer<T, N>>(new edsp::fixed_ring_buffer<T, N>), N, depth); }
template <typename T, size_t N> void fixed_hist(Ctx& c, int depth) { histories<edsp::fixed_ring_buffer<T, N>, T>(c, std::unique_ptr<edsp::fixed_ring_buffer<T, N>>(new edsp::fixed_ring_buffer<T, N>), N, depth); }
template <size_t N> void fixed_big(Ctx& c) { big<edsp::fixed_ring_buffer<int, N>, int>(c, [] { return new edsp::fixed_ring_buffer<int, N>; }, N); }
template <size_t N> void fixed_stream(Ctx& c) { stream<edsp::fixed_ring_buffer<int, N>, int>(c, std::unique_ptr<edsp::fixed_ring_buffer<int, N>>(new edsp::fixed_ring_buffer<int, N>), N, c.tier(5000, 200000)); }
SCENARIO(reachable_states_int, 4) {
    int d = 4000;
    switch (c.choose(6, "capacity")) { case 0: fixed_closure<int, 1>(c, d); break; case 1: fixed_closure<int, 2>(c, d); break; case 2: fixed_closure<int, 3>(c, d); break; case 3: fixed_closure<int, 4>(c, d); break; case 4: fixed_closure<int, 5>(c, d); break; default: fixed_closure<int, 8>(c, d); }
}
SCENARIO(reachable_states_string, 4) {
    int d = 4000;
    switch (c.choose(3, "capacity")) { case 0: fixed_closure<std::string, 1>(c, d); break; case 1: fixed_closure<std::string, 3>(c, d); break; default: fixed_closure<std::string, 4>(c, d); }
}
SCENARIO(all_histories, 8) {
    int d = c.tier(6, 8);
    switch (c.choose(4, "capacity")) { case 0: fixed_hist<double, 1>(c, d); break; case 1: fixed_hist<double, 2>(c, d); break; case 2: fixed_hist<double, 3>(c, d); break; default: fixed_hist<double, 4>(c, d); }
}
SCENARIO(large_capacities, 8) {
    switch (c.choose(c.tier(4, 7), "capacity")) { case 0: fixed_big<7>(c); break; case 1: fixed_big<16>(c); break; case 2: fixed_big<17>(c); break; case 3: fixed_big<32>(c); break; case 4: fixed_big<33>(c); break; case 5: fixed_big<64>(c); break; default: fixed_big<100>(c); }
}
SCENARIO(long_streams, 8) {
    switch (c.choose(8, "capacity")) { case 6: fixed_stream<40000>(c); break; case 7: fixed_stream<66000>(c); break; case 0: fixed_stream<1>(c); break; case 1: fixed_stream<2>(c); break; case 2: fixed_stream<10>(c); break; case 3: fixed_stream<128>(c); break; case 4: fixed_stream<256>(c); break; default: fixed_stream<1000>(c); }
}
template <typename T, size_t N> void two_fixed(Ctx& c, int depth) {
    using R = edsp::fixed_ring_buffer<T, N>; std::unique_ptr<R> a(new R), b(new R);
    two_buffers<R, T>(c, *a, *b, {N, {}}, {N, {}}, depth, [](Ctx&, R&, Model<T>&, bool&) { return false; });
}
SCENARIO(two_buffers_double, 32) { const int d = c.tier(4, 5); switch (c.choose(4, "capacity")) { case 0: two_fixed<double, 0>(c, d); break; case 1: two_fixed<double, 1>(c, d); break; case 2: two_fixed<double, 2>(c, d); break; default: two_fixed<double, 3>(c, d); } }
SCENARIO(two_buffers_string, 32) { const int d = c.tier(3, 4); switch (c.choose(3, "capacity")) { case 0: two_fixed<std::string, 1>(c, d); break; case 1: two_fixed<std::string, 2>(c, d); break; default: two_fixed<std::string, 3>(c, d); } }
// the view itself, over storage owned by the caller, with guard elements on both sides
#include <edsp/types/ring_span.hpp>
SCENARIO(span_over_caller_memory, 8) {
    size_t cap = (size_t)c.range(1, c.tier(5, 7), "capacity"), first = (size_t)c.choose((int)cap, "first"), size = (size_t)c.choose((int)cap + 1, "initial size");
    std::vector<int> mem(cap + 4, -777); for (size_t i = 0; i < cap; ++i) mem[2 + i] = (int)i - 50;
    edsp::ring_span<int> r(mem.begin() + 2, mem.begin() + 2 + (long)cap, mem.begin() + 2 + (long)first, size);
    Model<int> m{cap, {}}; for (size_t i = 0; i < size; ++i) m.q.push_back(mem[2 + (first + i) % cap]);
    int depth = 4;
    for (int d = 0; d <= depth; ++d) {
        if (!c.ok(r.size() == m.q.size() && r.capacity() == cap && r.empty() == m.q.empty() && r.full() == (m.q.size() == cap))) c.fail("span-size", "size/capacity/empty/full wrong after %d operations", d);
        size_t i = 0; for (int v : r) { if (!c.ok(i < m.q.size() && v == m.q[i])) c.fail("span-elements", "element %zu wrong after %d operations", i, d); ++i; }
        if (!c.ok(i == m.q.size())) c.fail("span-elements", "too few elements");
        if (!m.q.empty() && !c.ok(r.front() == m.q.front() && r.back() == m.q.back())) c.fail("span-ends", "front/back wrong");
        if (!c.ok(mem[0] == -777 && mem[1] == -777 && mem[cap + 2] == -777 && mem[cap + 3] == -777)) c.fail("span-bounds", "memory outside the span written");
        if (d == depth) break;
        int v = 10 + d;
        switch (c.choose(9, "op")) {
            case 7: { if (m.q.empty()) throw mc::Prune{}; c.log("own elements to the back"); int e = m.q.front(); r.push_back(r.front()); m.push_back(e); e = m.q.back(); r.push_back(r.back()); m.push_back(e); e = m.q.front(); r.emplace_back(r.front()); m.push_back(e); break; }
            case 8: { if (m.q.empty()) throw mc::Prune{}; c.log("own elements to the front"); int e = m.q.back(); r.push_front(r.back()); m.push_front(e); e = m.q.front(); r.push_front(r.front()); m.push_front(e); e = m.q.back(); r.emplace_front(r.back()); m.push_front(e); break; }
            case 0: c.log("push_back"); r.push_back(v); m.push_back(v); break;
            case 1: c.log("push_front"); r.push_front(v); m.push_front(v); break;
            case 2: c.log("emplace_back"); r.emplace_back(v); m.push_back(v); break;
            case 3: c.log("emplace_front"); r.emplace_front(v); m.push_front(v); break;
            case 4: { if (m.q.empty()) throw mc::Prune{}; c.log("pop_front"); r.pop_front(); m.q.pop_front(); break; }
            case 5: { if (m.q.empty()) throw mc::Prune{}; c.log("pop_back"); r.pop_back(); m.q.pop_back(); break; }
            case 6: { c.log("swap twice"); std::vector<int> o{1, 2, 3}; edsp::ring_span<int> s(o.begin(), o.end(), o.begin() + 1, 2); r.swap(s); if (!c.ok(r.size() == 2 && r.front() == 2 && s.size() == m.q.size())) c.fail("span-swap", "swap wrong"); swap(r, s); if (!c.ok(s.front() == 2)) c.fail("span-swap", "swap back wrong"); break; }
        }
    }
}
#endif
