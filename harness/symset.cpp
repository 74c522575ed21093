// Symbol sets: the state space reachable by unions, exclusions, intersections and inversions with every range over a small
// universe is explored to a fixed point; each state is compared with a bitmap and every pair of states with the set algebra.
#include "vp.h"
#include <memory>
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/symbol_map.h"
#include "TameParse/Dfa/remapped_symbol_map.h"
#include "TameParse/Dfa/epsilon.h"
using namespace vp; using namespace std; using dfa::symbol_set; 
typedef dfa::range<int> rg;

static int N = 6;                           // Universe: 0..N-1, and bit N is "everything from N up"
static const int TOP = 0x7fffffff;
static const int scale = 1;

static unsigned model(const symbol_set& s, bool& canonical) {
    unsigned m = 0; canonical = true; long long last = -1;
    for (symbol_set::iterator r = s.begin(); r != s.end(); ++r) {
        if (r->lower() >= r->upper() || (long long) r->lower() <= last) canonical = false;      // Touching ranges must be merged
        last = r->upper();
        for (int i = 0; i < N; ++i) if (i >= r->lower() && i < r->upper()) m |= 1u << i;
        if (r->upper() > N) { if (r->upper() != TOP || r->lower() > N) canonical = false; m |= 1u << N; }
    }
    return m;
}
static string show(const symbol_set& s) { ostringstream o; for (symbol_set::iterator r = s.begin(); r != s.end(); ++r) o << "[" << r->lower() << "," << r->upper() << ")"; return o.str(); }

struct opn { int kind, lo, hi; };
static string show(const opn& o) { static const char* n[] = { "|=", "exclude", "&=", "invert" }; ostringstream s; s << n[o.kind] << "[" << o.lo << "," << o.hi << ")"; return s.str(); }

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        N = cfg().thorough ? 9 : 7;
        vector<opn> ops;
        for (int k = 0; k < 3; ++k) for (int lo = 0; lo <= N; ++lo) for (int hi = lo + 1; hi <= N + 1; ++hi) { if (lo == N && hi != N + 1) continue; ops.push_back(opn{k, lo, hi == N + 1 ? TOP : hi}); }
        ops.push_back(opn{3, 0, 0});
        unsigned all = (1u << (N + 1)) - 1;
        auto bits = [&](const opn& o) { unsigned m = 0; for (int i = 0; i < N; ++i) if (i >= o.lo && i < o.hi) m |= 1u << i; if (o.hi > N) m |= 1u << N; return m; };
        // Phase 1: reachable states (keyed by the concrete ranges). Every shard explores the whole graph; shard 0 reports it
        map<string, pair<symbol_set*, unsigned>> seen;
        deque<string> todo;
        bool first = begin_case("reachable", 0, "state space of one set");
        auto add = [&](const symbol_set& s, unsigned m, const string& how) {
            string k = show(s);
            auto f = seen.find(k);
            bool canon; unsigned got = model(s, canon);
            if (got != m && first) { violation(how, how + " gives " + k + " which isn't the right set"); }
            if (!canon && first) violation(how, how + " gives " + k + " whose ranges are empty, overlapping, touching or unordered");
            if (f != seen.end() || got != m) return;
            if (seen.size() > (all + 1u) * 4) return;
            seen[k] = make_pair(new symbol_set(s), m);
            todo.push_back(k);
            if (first) ++res().states;
        };
        add(symbol_set(), 0, "empty set");
        while (!todo.empty()) {
            string k = todo.front(); todo.pop_front();
            symbol_set& from = *seen[k].first; unsigned m = seen[k].second;
            for (auto& o : ops) {
                symbol_set n(from); unsigned b = bits(o), want = 0;
                switch (o.kind) {
                    case 0: n |= rg(o.lo, o.hi); want = m | b; break;
                    case 1: n.exclude(rg(o.lo, o.hi)); want = m & ~b; break;
                    case 2: n &= rg(o.lo, o.hi); want = m & b; break;
                    case 3: n.invert(); want = all & ~m; break;
                }
                if (first) { ++res().transitions; ++res().traces; }
                add(n, want, k + " " + show(o));
                // The value-returning forms agree with the in-place ones
                if (first && o.kind < 3) {
                    symbol_set v = o.kind == 0 ? (from | rg(o.lo, o.hi)) : o.kind == 1 ? from.excluding(rg(o.lo, o.hi)) : (from & rg(o.lo, o.hi));
                    if (show(v) != show(n)) violation(k + " " + show(o) + " (copy)", "value-returning form gives " + show(v) + ", in-place form " + show(n));
                }
            }
        }
        if (first && seen.size() != all + 1u && res().violationCount == 0) violation("reachable sets", "not every subset has exactly one representation: " + to_string(seen.size()) + " states for " + to_string(all + 1) + " sets");
        sample(to_string(seen.size()) + " distinct sets reachable, e.g. " + seen.begin()->first + " ... " + seen.rbegin()->first);
        // Phase 2: membership and every pair
        vector<pair<symbol_set*, unsigned>> v;
        for (auto& s : seen) v.push_back(s.second);
        for (size_t i = 0; i < v.size(); ++i) {
            if (!begin_case("pairs", i, show(*v[i].first))) continue;
            symbol_set& a = *v[i].first; unsigned ma = v[i].second;
            for (int c = -1; c <= N + 1; ++c) { ++res().evaluations; bool want = c >= 0 && (c < N ? (ma >> c) & 1 : (ma >> N) & 1); if (a[c] != want) violation(show(a) + " contains " + to_string(c), "membership is wrong"); }
            if (a.empty() != (ma == 0)) violation(show(a) + " empty", "emptiness is wrong");
            for (size_t j = 0; j < v.size(); ++j) {
                symbol_set& b = *v[j].first; unsigned mb = v[j].second;
                ++res().evaluations; ++res().nontrivial;
                bool c;
                string w = show(a) + " and " + show(b);
                unsigned u = model(a | b, c); if (u != (ma | mb) || !c) violation(w + " union", "wrong union");
                u = model(a & b, c); if (u != (ma & mb) || !c) violation(w + " intersection", "wrong intersection " + show(a & b));
                u = model(a.excluding(b), c); if (u != (ma & ~mb) || !c) violation(w + " difference", "wrong difference " + show(a.excluding(b)));
                symbol_set x(a); x |= b; if (show(x) != show(a | b)) violation(w + " |=", "in-place union differs");
                symbol_set y(a); y &= b; if (show(y) != show(a & b)) violation(w + " &=", "in-place intersection differs");
                bool eq = ma == mb;
                if ((a == b) != eq || (a != b) == eq) violation(w + " ==", "equality is wrong");
                int lt = a < b, gt = b < a;
                if (lt + gt + (eq ? 1 : 0) != 1) violation(w + " <", "not a total order");
                if ((a <= b) != (lt || eq) || (a > b) != (gt != 0) || (a >= b) != (gt || eq)) violation(w + " <=", "comparison operators disagree");
            }
        }
        // Transitivity
        if (begin_case("order", 0, "transitivity")) {
            vector<symbol_set*> s; for (auto& x : v) s.push_back(x.first);
            sort(s.begin(), s.end(), [](symbol_set* a, symbol_set* b) { return *a < *b; });
            for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) { ++res().evaluations; if (!(*s[i] < *s[j])) violation(show(*s[i]) + " < " + show(*s[j]), "order isn't transitive"); }
        }
        // Phase 3: splitting overlapping sets into disjoint ones (what lexers are built from): every map of up to three sets
        vector<pair<symbol_set*, unsigned>> t;
        int NN = 5;
        for (auto& x : v) { bool ok = x.second != 0; for (int i = NN; i < N; ++i) if ((((x.second >> i) & 1) != 0) != (((x.second >> N) & 1) != 0)) ok = false; if (ok) t.push_back(x); }
        long long idx = 0;
        for (size_t i = 0; i < t.size(); ++i) for (size_t j = i; j < t.size(); ++j) {
            long long me = idx++;
            if (!begin_case("deduplicate", me)) continue;
            for (size_t k = j; k < t.size(); ++k) {
                dfa::symbol_map m;
                vector<size_t> which = { i, j, k };
                int eps = m.identifier_for_symbols(dfa::epsilon());
                map<int, unsigned> src;
                for (size_t w : which) { int id = m.identifier_for_symbols(*t[w].first); src[id] = t[w].second; if (m.identifier_for_symbols(*t[w].first) != id || show(m[id]) != show(*t[w].first)) violation(show(*t[w].first), "symbol map identifier isn't stable"); }
                unique_ptr<dfa::remapped_symbol_map> d(dfa::remapped_symbol_map::deduplicate(m));
                string w = show(*t[i].first) + " " + show(*t[j].first) + " " + show(*t[k].first);
                ++res().traces; ++res().nontrivial;
                if (d->has_duplicates()) violation(w, "split sets still overlap");
                unsigned covered = 0;
                for (int id = 0; id < d->count_sets(); ++id) { bool c; unsigned x = model((*d)[id], c); if (!c) violation(w, "split set isn't canonical"); if (x & covered) violation(w, "split sets overlap"); covered |= x; }
                for (auto& s : src) {
                    unsigned u = 0;
                    for (int id : d->new_symbols(s.first)) { bool c; u |= model((*d)[id], c); }
                    ++res().states;
                    if (u != s.second) violation(w, "the pieces of a set don't make up the set");
                }
                if (d->new_symbols(eps).size() != 1 || (*d)[*d->new_symbols(eps).begin()].begin() != (*d)[*d->new_symbols(eps).begin()].end()) violation(w, "epsilon isn't preserved");
            }
        }
    });
}
