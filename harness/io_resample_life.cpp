// C29: every history of operations against a fault-injecting stand-in of the conversion library.
#include <stdexcept>
#include <memory>
#include <samplerate.h>
#include <edsp/io/resampler.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S; typedef edsp::io::resampler<float> R;
struct State { bool live; int ch; }; static std::vector<State*> states; static Ctx* C; static S misuse; static SRC_DATA last; static bool called; static long used, gen;
static State* get(SRC_STATE* s, const char* what) { if (!s) return nullptr; for (auto p : states) if ((SRC_STATE*)p == s) { if (!p->live) misuse = S(what) + " on a deleted state"; return p->live ? p : nullptr; } misuse = S(what) + " on an unknown state"; return nullptr; }
extern "C" {
SRC_STATE* src_new(int, int ch, int* e) { if (!C->choose(2, "src_new succeeds")) { *e = 1; return nullptr; } *e = 0; auto p = new State{true, ch}; states.push_back(p); return (SRC_STATE*)p; }
SRC_STATE* src_delete(SRC_STATE* s) { if (s) { auto p = get(s, "src_delete"); if (p) p->live = false; } return nullptr; }
int src_process(SRC_STATE* s, SRC_DATA* d) { last = *d; called = true; if (!get(s, "src_process")) return 2; if (!C->choose(2, "src_process succeeds")) return C->choose(2, "error") + 6; used = d->input_frames ? C->choose(2, "all used") ? d->input_frames : d->input_frames / 2 : 0; gen = d->output_frames ? C->choose(2, "all produced") ? d->output_frames : d->output_frames - 1 : 0; d->input_frames_used = used; d->output_frames_gen = gen; for (long i = 0; i < gen * get(s, "")->ch; ++i) d->data_out[i] = (float)i; return 0; }
int src_reset(SRC_STATE* s) { return get(s, "src_reset") ? C->choose(2, "src_reset fails") * 3 : 2; }
const char* src_strerror(int) { return "stand-in"; }
int src_is_valid_ratio(double r) { return r > 0 && r < 300; }
const char* src_get_name(int) { return ""; }
}
template <typename X> void copies(std::true_type, X& x) { std::unique_ptr<X> y(new X(x)); }
template <typename X> void copies(std::false_type, X&) {}
SCENARIO(histories, 32) {
    for (auto s : states) delete s; states.clear(); misuse.clear(); C = &c; const int ch = c.pick({1, 2, 3}, "channels"), depth = c.tier(4, 6); const float ratio = c.pick({0.5f, 1.f, 2.5f}, "ratio"); S t = "channels " + std::to_string(ch) + " ratio " + std::to_string(ratio) + ": "; c.at("%s", t.c_str());
    {
        R r(ch, edsp::io::medium_quality, ratio); const bool made = !states.empty(); if (!c.ok((r.error() == 0) == made)) c.fail("construction", "error %d, state %d: %s", r.error(), made, t.c_str()); if (made) c.check(states[0]->ch == ch, "channels", "created for %d channels", states[0]->ch);
        for (int i = 0; i < depth; ++i) {
            const int op = c.choose(5, "operation"); if (op == 0) break; c.nontrivial(1);
            if (op == 1 || op == 2) { const long frames = op == 1 ? 4 : 1, room = (long)(ratio * (float)frames); t += "process " + std::to_string(frames) + "; "; c.at("%s", t.c_str()); in::Exact<float> in((size_t)(frames * ch), 0, 1.f), out((size_t)(room * ch), 0, -7.f); called = false; used = gen = 0; const auto n = r.process(in.begin(), in.end(), out.begin()); const bool ok = r.error() == 0;
                if (called) { if (!c.ok(last.input_frames == frames && last.output_frames == room && last.src_ratio == (double)ratio && last.data_in == in.begin() && last.data_out == out.begin())) c.fail("request", "the conversion of %ld frames into %ld was asked for %ld into %ld at ratio %g, after %s", frames, room, last.input_frames, last.output_frames, last.src_ratio, t.c_str()); } else c.check(!ok, "skipped", "no conversion and no error after %s", t.c_str());
                if (!c.ok(n.first == (ok ? used : 0) && n.second == (ok ? gen : 0))) c.fail("accounting", "reported %ld used %ld produced; the conversion used %ld and produced %ld with error %d, after %s", n.first, n.second, used, gen, r.error(), t.c_str()); for (long k = 0; k < room * ch; ++k) if (!c.ok(out[(size_t)k] == (k < n.second * ch ? (float)k : -7.f))) c.fail("output", "sample %ld after %s", k, t.c_str()); if (!c.ok(made || !ok)) c.fail("unreported", "no error without a state, after %s", t.c_str()); }
            else if (op == 3) { t += "reset; "; c.at("%s", t.c_str()); const int e = r.reset(); if (!c.ok(e == r.error() && (made || e != 0))) c.fail("reset", "reset() %d error() %d after %s", e, r.error(), t.c_str()); }
            else { t += "copy; "; c.at("%s", t.c_str()); copies(std::integral_constant<bool, std::is_copy_constructible<R>::value>(), r); }
            c.check(r.channels() == ch && r.ratio() == ratio && r.quality() == edsp::io::medium_quality, "queries", "settings changed after %s", t.c_str()); if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str());
        }
        t += "destroy; "; c.at("%s", t.c_str());
    }
    if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str()); for (auto s : states) if (!c.ok(!s->live)) c.fail("leak", "a state is never deleted: %s", t.c_str());
}
