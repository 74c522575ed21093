// C03: every automaton transformation (splitting symbols, subset construction, compaction, merging symbols, state machine
// tables) keeps the language and the accepted symbols. All automata up to a size bound; each pair of automata is compared by
// exploring the product of their reachable state sets, so all inputs of every length are covered.
#include "automata.h"
#include "TameParse/Dfa/state_machine.h"
using namespace vp;
using namespace dfa;

static const int ALPHA = 4;     // Representatives 0..3: 3 is in no symbol set

typedef std::vector<int> ivec;

static std::string dump(const ndfa& n) {
    std::ostringstream o;
    for (int s = 0; s < n.count_states(); ++s) {
        o << s << "(";
        for (auto a : n.actions_for_state(s)) o << a->symbol() << (a->eager() ? "!" : "") << ",";
        o << ")";
        for (state::iterator t = n.get_state(s).begin(); t != n.get_state(s).end(); ++t) {
            o << " ";
            const symbol_set& ss = n.symbols()[t->symbol_set()];
            bool any = false;
            for (symbol_set::iterator r = ss.begin(); r != ss.end(); ++r) { o << "[" << r->lower() << "-" << r->upper() << ")"; any = true; }
            if (!any) o << "eps";
            o << "->" << t->new_state();
        }
        o << "; ";
    }
    return o.str();
}

// eager: once an eager action has been reached, nothing that follows is matched
struct eager_info { std::vector<bool> eager; };

static bool valid(const ndfa& n, std::string& why) {
    for (int s = 0; s < n.count_states(); ++s) {
        if (n.get_state(s).identifier() != s) { why = "state identifier differs from its number"; return false; }
        for (state::iterator t = n.get_state(s).begin(); t != n.get_state(s).end(); ++t)
            if (t->new_state() < 0 || t->new_state() >= n.count_states()) { why = "transition to a state that doesn't exist"; return false; }
    }
    return true;
}

static void compare(const char* what, const ndfa& src, const ndfa& got, const ivec& starts, bool mappedStarts, bool onlyBest, bool mustBeDfa, const std::string& desc) {
    std::string why;
    if (!valid(got, why)) { violation(std::string(what) + " " + desc, why + ": " + dump(got)); return; }
    nfa_view a(src), b(got);
    if (mustBeDfa) {
        for (int s = 0; s < got.count_states(); ++s) {
            if (!b.eps[s].empty()) { violation(std::string(what) + " " + desc, "epsilon transition in a DFA: " + dump(got)); return; }
            for (int c = 0; c < ALPHA; ++c) {
                std::set<int> targets;
                for (auto& e : b.edges[s]) for (auto& r : e.ranges) if (c >= r.first && c < r.second) targets.insert(e.target);
                if (targets.size() > 1) { violation(std::string(what) + " " + desc, "not deterministic: " + dump(got)); return; }
            }
        }
    }
    std::vector<bool> eagerState(src.count_states());
    for (int s = 0; s < src.count_states(); ++s) for (auto x : src.actions_for_state(s)) if (x->eager()) eagerState[s] = true;
    for (size_t i = 0; i < starts.size(); ++i) {
        typedef std::pair<nfa_view::states, nfa_view::states> node;
        std::map<node, std::string> seen;
        std::deque<node> todo;
        node first(a.start(starts[i]), b.start(mappedStarts ? (int)i : starts[i]));
        seen[first] = ""; todo.push_back(first);
        while (!todo.empty()) {
            node n = todo.front(); todo.pop_front();
            std::string path = seen[n];
            std::set<int> x = a.accepts(n.first), y = b.accepts(n.second);
            ++res().states;
            bool same = onlyBest ? (x.empty() == y.empty() && (x.empty() || *x.begin() == *y.begin())) : x == y;
            if (!same) {
                std::ostringstream o;
                o << "start " << starts[i] << " input \"" << path << "\": expected accepted symbols {"; for (int s : x) o << s << " "; o << "} got {"; for (int s : y) o << s << " "; o << "} in " << dump(got);
                violation(std::string(what) + " " + desc, o.str());
                return;
            }
            bool eager = false;
            for (int s : n.first) if (eagerState[s]) eager = true;
            for (int c = 0; c < ALPHA; ++c) {
                node m(eager ? nfa_view::states() : a.step(n.first, c), b.step(n.second, c));
                ++res().transitions;
                if (eager && !mustBeDfa) m.second.clear();      // Only the subset construction drops what can't be reached
                if (m.first.empty() && m.second.empty()) continue;
                if (seen.insert(std::make_pair(m, path + char('0' + c))).second) todo.push_back(m);
            }
        }
    }
    ++res().traces;
}

template<class sm> static void check_machine(const char* what, const ndfa& d, const sm& m, const std::string& desc) {
    nfa_view v(d);
    for (int s = 0; s < d.count_states(); ++s) for (int c = 0; c < ALPHA; ++c) {
        int expect = -1;
        for (auto& e : v.edges[s]) for (auto& r : e.ranges) if (c >= r.first && c < r.second) expect = e.target;
        int got = m.run(s, c);
        ++res().transitions;
        if (got != expect) { std::ostringstream o; o << "state " << s << " symbol " << c << " goes to " << got << " instead of " << expect << " in " << dump(d); violation(std::string(what) + " " + desc, o.str()); return; }
    }
    if (m.run(-1, 0) != -1 || m.run(d.count_states(), 0) != -1) violation(std::string(what) + " " + desc, "running from a state that doesn't exist");
}

static void machines(const ndfa& d, const std::string& desc) {
    { state_machine<wchar_t> m(d); check_machine("flat-table", d, m, desc); }
    { state_machine<int, state_machine_compact_table<> > m(d); check_machine("compact-table", d, m, desc); }
    { state_machine<unsigned char> m(d); check_machine("flat-table8", d, m, desc); }
}

static void from_dfa(const ndfa& d, const ivec& starts, const std::string& desc, bool withMachines) {
    // starts are the starting states in d
    ndfa* c = d.to_compact_dfa(starts);
    compare("compact", d, *c, starts, true, false, true, desc);
    if (c->count_states() > d.count_states()) violation("compact " + desc, "compacting added states: " + dump(*c));
    ndfa* cm = c->to_ndfa_with_merged_symbols();
    compare("compact-merged", d, *cm, starts, true, false, true, desc);
    if (withMachines) machines(*cm, desc);
    ndfa* f = d.to_compact_dfa(starts, true);
    compare("compact-first-action", d, *f, starts, true, true, true, desc);
    ndfa* m = d.to_ndfa_with_merged_symbols();
    compare("merged", d, *m, starts, false, false, true, desc);
    if (withMachines) machines(d, desc);
    delete c; delete cm; delete f; delete m;
}

static void pipeline(ndfa& n, const std::string& desc, bool eager) {
    res().evaluations++;
    ndfa* u = n.to_ndfa_with_unique_symbols();
    if (!eager) {
        ivec all; for (int i = 0; i < n.count_states(); ++i) all.push_back(i);
        compare("unique-symbols", n, *u, all, false, false, false, desc);
        if (!u->verify_no_symbol_overlap()) violation("unique-symbols " + desc, "symbol sets overlap");
    }
    for (int k = 0; k < 2; ++k) {
        ivec starts(1, 0); if (k == 1) starts.push_back(1);
        ndfa* d = u->to_dfa(starts);
        compare("dfa", n, *d, starts, true, false, true, desc);
        if (!d->verify_is_dfa()) violation("dfa " + desc, "verify_is_dfa() is false for the result");
        ivec ds; for (size_t i = 0; i < starts.size(); ++i) ds.push_back((int)i);
        from_dfa(*d, ds, desc, k == 0);
        delete d;
    }
    ndfa copy(n);
    ivec all; for (int i = 0; i < n.count_states(); ++i) all.push_back(i);
    if (!eager) compare("copy", n, copy, all, false, false, false, desc);
    delete u;
}

struct T { int from, sym, to; };

static void nfas(const char* section, int states, int maxT, int acceptKinds, bool eager) {
    symbol_set sets[3] = { symbol_set(range<int>(0, 2)), symbol_set(range<int>(1, 3)), symbol_set() };
    std::vector<T> all;
    for (int f = 0; f < states; ++f) for (int s = 0; s < 3; ++s) for (int t = 0; t < states; ++t) if (!(s == 2 && f == t)) all.push_back(T{f, s, t});
    int accepts = 1; for (int i = 0; i < states; ++i) accepts *= acceptKinds;
    long long index = 0;
    std::vector<int> chosen;
    std::function<void(int)> rec = [&](int from) {
        for (int a = 0; a < accepts; ++a) {
            long long me = index++;
            if (!begin_case(section, me)) continue;
            ndfa n;
            while (n.count_states() < states) n.add_state();
            std::ostringstream desc;
            for (int c : chosen) {
                n.add_transition(all[c].from, sets[all[c].sym], all[c].to);
                desc << all[c].from << (all[c].sym == 0 ? "[01]" : all[c].sym == 1 ? "[12]" : "eps") << all[c].to << " ";
            }
            int x = a; bool any = false;
            for (int s = 0; s < states; ++s, x /= acceptKinds) {
                int k = x % acceptKinds;
                if (k) any = true;
                // kinds: none, {1}, {2}, {1,2}; eager: none, {1}, {2 eager}
                if (k == 1 || k == 3) n.accept(s, accept_action(1));
                if (k == 2 || k == 3) n.accept(s, accept_action(2, eager));
                desc << s << "=" << k << " ";
            }
            describe(desc.str());
            if (any && !chosen.empty()) ++res().nontrivial;
            pipeline(n, desc.str(), eager);
            if (me == accepts - 1 || me == 5000) sample(section + std::string(": ") + desc.str());
        }
        if ((int)chosen.size() == maxT) return;
        for (int i = from; i < (int)all.size(); ++i) { chosen.push_back(i); rec(i + 1); chosen.pop_back(); }
    };
    rec(0);
}

// All partial DFAs over two or more disjoint symbols. canonical: only those whose states are reachable and numbered in the order they're met
static void dfas(const char* section, int states, int syms, int acceptKinds, bool canonical) {
    int cells = states * syms;
    std::vector<int> table(cells, -1);
    int accepts = 1; for (int i = 0; i < states; ++i) accepts *= acceptKinds;
    long long index = 0;
    std::function<void(int)> rec = [&](int cell) {
        if (cell == cells) {
            if (canonical) {
                std::vector<int> order(states, -1); int next = 0; std::deque<int> q; order[0] = next++; q.push_back(0);
                while (!q.empty()) { int s = q.front(); q.pop_front(); for (int k = 0; k < syms; ++k) { int t = table[s * syms + k]; if (t >= 0 && order[t] < 0) { order[t] = next++; q.push_back(t); } } }
                for (int s = 0; s < states; ++s) if (order[s] != s) return;
            }
            for (int a = 0; a < accepts; ++a) {
                long long me = index++;
                if (!begin_case(section, me)) continue;
                ndfa n;
                while (n.count_states() < states) n.add_state();
                std::ostringstream desc;
                for (int s = 0; s < states; ++s) for (int k = 0; k < syms; ++k) if (table[s * syms + k] >= 0) {
                    n.add_transition(s, symbol_set(range<int>(k, k + 1)), table[s * syms + k]);
                    desc << s << "-" << k << "->" << table[s * syms + k] << " ";
                }
                int x = a;
                for (int s = 0; s < states; ++s, x /= acceptKinds) {
                    int k = x % acceptKinds;
                    if (k) { n.accept(s, accept_action(k)); desc << s << "=" << k << " "; }
                }
                describe(desc.str());
                ++res().evaluations; if (a) ++res().nontrivial;
                ivec starts(1, 0);
                from_dfa(n, starts, desc.str(), false);
                if (!canonical && states > 1) { starts.push_back(states - 1); from_dfa(n, starts, desc.str(), false); }
                // Determinising a DFA gives an equivalent DFA as well
                ndfa* d = n.to_dfa(0);
                compare("dfa-of-dfa", n, *d, ivec(1, 0), true, false, true, desc.str());
                delete d;
            }
            return;
        }
        for (int t = -1; t < states; ++t) { table[cell] = t; rec(cell + 1); }
    };
    rec(0);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [] {
        bool th = cfg().thorough;
        nfas("nfa3", 3, th ? 4 : 2, 4, false);
        nfas("nfa3-two", 3, th ? 5 : 3, 3, false);
        nfas("nfa2", 2, th ? 8 : 5, 4, false);
        nfas("eager", 3, th ? 4 : 3, 3, true);
        dfas("dfa3", 3, 2, 3, false);
        dfas("dfa3x3", 3, 3, 2, true);
        dfas("dfa4", 4, 2, 2, true);
        if (th) { dfas("dfa4-3", 4, 2, 3, true); dfas("dfa5", 5, 2, 2, true); dfas("dfa4x3", 4, 3, 2, true); }
    });
}
