// Symbol tables: every assignment of up to k disjoint ranges between boundary points, in every insertion order; the dynamic
// tables, the flattened (hard coded) tables and the translators are compared with a plain array for every character.
#include "vp.h"
#include "TameParse/Dfa/symbol_table.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
#include "TameParse/Dfa/symbol_translator.h"
#include <memory>
using namespace vp; using namespace std;
typedef dfa::range<int> rg;

struct seg { int lo, hi, sym; };
static string show(const vector<seg>& s) { ostringstream o; o << hex; for (auto& x : s) o << "[" << x.lo << "," << x.hi << ")=" << x.sym << " "; return o.str(); }

static vector<int> want;
static void fill(const vector<seg>& s, int n) { want.assign(n, -1); for (auto& x : s) for (int c = x.lo; c < x.hi && c < n; ++c) want[c] = x.sym; }

static void check16(const vector<seg>& s) {
    dfa::symbol_table<wchar_t> t;
    for (auto& x : s) t.add_range(rg(x.lo, x.hi), x.sym);
    size_t size = 0;
    int* hc = t.table.to_hard_coded_table(size);
    unique_ptr<int[]> own(hc);
    dfa::hard_coded_symbol_table<wchar_t, 2> h(hc);
    dfa::symbol_table<wchar_t> copy(t);
    ++res().traces;
    // The flattened table must not be read beyond its end: copy it in front of poison
    vector<int> guarded(hc, hc + size); guarded.resize(size + 70000, 0x5a5a5a);
    dfa::hard_coded_symbol_table<wchar_t, 2> g(guarded.data());
    for (int c = 0; c < 0x10000; ++c) {
        ++res().transitions;
        if (t.lookup(c) != want[c]) { ostringstream o; o << "table " << show(s) << " char " << hex << c; violation(o.str(), "lookup gives " + to_string(t.lookup(c)) + ", should be " + to_string(want[c])); break; }
        if (g.lookup(c) != want[c]) { ostringstream o; o << "flattened " << show(s) << " char " << hex << c; violation(o.str(), "flattened lookup gives " + to_string(g.lookup(c)) + ", should be " + to_string(want[c])); break; }
        if (copy.lookup(c) != want[c]) { ostringstream o; o << "copy " << show(s) << " char " << hex << c; violation(o.str(), "lookup in a copy gives " + to_string(copy.lookup(c))); break; }
    }
}

static void check8(const vector<seg>& s) {
    dfa::symbol_table<char> t;
    for (auto& x : s) t.add_range(rg(x.lo, x.hi), x.sym);
    size_t size = 0;
    unique_ptr<int[]> hc(t.table.to_hard_coded_table(size));
    vector<int> guarded(hc.get(), hc.get() + size); guarded.resize(size + 1000, 0x5a5a5a);
    dfa::hard_coded_symbol_table<unsigned char, 1> h(guarded.data());
    ++res().traces;
    for (int c = 0; c < 256; ++c) {
        ++res().transitions;
        ostringstream o; o << "8-bit " << show(s) << " char " << hex << c;
        if (t.lookup((char)c) != want[c]) { violation(o.str(), "lookup gives " + to_string(t.lookup((char)c)) + ", should be " + to_string(want[c])); break; }
        if (h.lookup((unsigned char)c) != want[c]) { violation(o.str() + " flattened", "flattened lookup gives " + to_string(h.lookup((unsigned char)c)) + ", should be " + to_string(want[c])); break; }
    }
}

static void check32(const vector<seg>& s, const vector<int>& probes) {
    dfa::symbol_table<int> t;
    for (auto& x : s) t.add_range(rg(x.lo, x.hi), x.sym);
    size_t size = 0;
    unique_ptr<int[]> hc(t.table.to_hard_coded_table(size));
    dfa::hard_coded_symbol_table<int, 4> h(hc.get());
    ++res().traces;
    for (int c : probes) {
        int w = -1; for (auto& x : s) if (c >= x.lo && c < x.hi) w = x.sym;
        ++res().transitions;
        ostringstream o; o << "32-bit " << show(s) << " char " << hex << c;
        if (t.lookup(c) != w) { violation(o.str(), "lookup gives " + to_string(t.lookup(c)) + ", should be " + to_string(w)); break; }
        if (h.lookup(c) != w) { violation(o.str() + " flattened", "flattened lookup gives " + to_string(h.lookup(c)) + ", should be " + to_string(w)); break; }
    }
}

// All ways of choosing up to k disjoint ranges between consecutive points, all insertion orders
static void enumerate(const vector<int>& pts, int k, function<void(const vector<seg>&)> f) {
    vector<seg> cur;
    function<void(size_t)> rec = [&](size_t from) {
        if (!cur.empty()) {
            vector<size_t> perm; for (size_t i = 0; i < cur.size(); ++i) perm.push_back(i);
            do { vector<seg> s; for (size_t i : perm) s.push_back(cur[i]); f(s); } while (next_permutation(perm.begin(), perm.end()));
        }
        if ((int)cur.size() >= k) return;
        for (size_t a = from; a + 1 < pts.size(); ++a) for (size_t b = a + 1; b < pts.size(); ++b) {
            // The first and third range share a symbol, as ranges of one set do
            cur.push_back(seg{pts[a], pts[b], cur.size() == 2 ? 7 : 7 + (int)cur.size()});
            rec(b);
            cur.pop_back();
        }
    };
    rec(0);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        bool th = cfg().thorough;
        long long idx = 0;
        vector<int> p16 = th ? vector<int>{ 0, 1, 0x61, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x2ff, 0x300, 0x7f80, 0xff00, 0xffff, 0x10000 } : vector<int>{ 0, 0x61, 0xff, 0x100, 0x101, 0x200, 0x300, 0xff00, 0xffff, 0x10000 };
        enumerate(p16, 3, [&](const vector<seg>& s) {
            long long me = idx++;
            if (!begin_case("16-bit", me)) return;
            describe(show(s));
            ++res().states; ++res().nontrivial;
            fill(s, 0x10000);
            check16(s);
            sample(show(s));
        });
        idx = 0;
        vector<int> top = { 0, 0x61, 0x100, 0xffff, 0x10000, 0x110000, 0x7fffffff };
        enumerate(top, 2, [&](const vector<seg>& s) { long long me = idx++; if (!begin_case("16-bit-open", me)) return; describe(show(s)); ++res().states; fill(s, 0x10000); check16(s); });
        idx = 0;
        vector<int> p8 = { 0, 1, 2, 0x40, 0x7f, 0x80, 0xfe, 0xff, 0x100 };
        enumerate(p8, th ? 4 : 3, [&](const vector<seg>& s) { long long me = idx++; if (!begin_case("8-bit", me)) return; describe(show(s)); ++res().states; ++res().nontrivial; fill(s, 256); check8(s); });
        idx = 0;
        vector<int> p32 = { 0, 0x61, 0x100, 0xffff, 0x10000, 0x10100, 0xffffff, 0x1000000, 0x1010000, 0x7f000000, 0x7fffffff };
        vector<int> probes;
        for (int p : p32) for (long long d : { -257LL, -256LL, -2LL, -1LL, 0LL, 1LL, 2LL, 255LL, 256LL, 257LL, 0x12345LL, 0xffffffLL }) { long long q = p + d; if (q >= 0 && q < 0x7fffffff) probes.push_back((int)q); }
        enumerate(p32, th ? 3 : 2, [&](const vector<seg>& s) { long long me = idx++; if (!begin_case("32-bit", me)) return; describe(show(s)); ++res().states; ++res().nontrivial; check32(s, probes); });
        // Translators built from symbol maps: sets of several ranges
        idx = 0;
        vector<int> pm = { 0, 0x61, 0x100, 0x200, 0x201, 0x10000 };
        int cells = (int)pm.size() - 1, total = 1; for (int i = 0; i < cells; ++i) total *= 4;
        for (int a = 0; a < total; ++a) {
            if (!begin_case("translator", a)) continue;
            dfa::symbol_map m; dfa::symbol_set sets[3]; int x = a; vector<int> cell;
            for (int i = 0; i < cells; ++i) { int s = x % 4; x /= 4; cell.push_back(s); if (s) sets[s-1] |= rg(pm[i], pm[i+1]); }
            int ids[3]; for (int i = 0; i < 3; ++i) ids[i] = m.identifier_for_symbols(sets[i]);
            dfa::symbol_translator<wchar_t> tr(m); dfa::symbol_translator<int> ti(m); dfa::symbol_translator<wchar_t> cp(tr);
            ++res().states; ++res().traces;
            for (int i = 0; i < cells; ++i) for (int c = pm[i]; c < pm[i+1]; ++c) {
                int w = cell[i] ? ids[cell[i]-1] : -1; ++res().transitions;
                if (tr.set_for_symbol(c) != w || ti.set_for_symbol(c) != w || cp.set_for_symbol(c) != w) { ostringstream o; o << "translator " << a << " char " << hex << c; violation(o.str(), "wrong set"); i = cells; break; }
            }
        }
    });
}
