// C30: an automaton is just what was built into it. Every history of operations on two automata (states, transitions, actions, the
// current state, copies and assignments), and every history of a builder (chains, alternatives, brackets, loops), up to a depth,
// against models which keep states, transitions and actions of their own.
#include "automata.h"
#include <functional>
using namespace vp; using namespace dfa; using namespace std;

static int g_live = 0;
struct action : public accept_action {
    action(int s, bool e) : accept_action(s, e) { ++g_live; }
    action(const action& a) : accept_action(a) { ++g_live; }
    ~action() { --g_live; }
    accept_action* clone() const { return new action(*this); }
};

// Sets of symbols: a, b, both, and none (epsilon)
enum { A, B, AB, EPS, SETS };
static symbol_set symbols_of(int s) { symbol_set r; if (s == A || s == AB) r |= range<int>('a'); if (s == B || s == AB) r |= range<int>('b'); return r; }
static const char* set_name[] = { "a", "b", "ab", "eps" };
static int set_of(const symbol_set& given) { symbol_set s(given); bool a = s['a'], b = s['b']; for (symbol_set::iterator r = s.begin(); r != s.end(); ++r) if (r->lower() < 'a' || r->upper() > 'b' + 1) return -1; return a ? (b ? AB : A) : b ? B : EPS; }

typedef vector<pair<int, bool>> actions;
struct model {
    vector<set<pair<int, int>>> edges = vector<set<pair<int, int>>>(1); vector<actions> acc = vector<actions>(1); set<int> used; int cur = 0;
    int add() { edges.push_back({}); acc.push_back({}); return (int) edges.size() - 1; }
    void edge(int from, int s, int to) { if (from < 0 || to < 0 || from >= (int) edges.size() || to >= (int) edges.size()) return; edges[from].insert({ s, to }); used.insert(s); }
    bool deterministic() const { for (auto& e : edges) { set<int> seen; for (auto& x : e) if (x.first == EPS || !seen.insert(x.first).second) return false; } return true; }
};
static string differs(const ndfa& n, const model& m) {
    if (n.count_states() != (int) m.edges.size()) return "there are " + to_string(n.count_states()) + " states instead of " + to_string(m.edges.size());
    for (int s = 0; s < n.count_states(); ++s) {
        const state& st = n.get_state(s); string w = "state " + to_string(s);
        if (st.identifier() != s) return w + " has another number";
        set<pair<int, int>> got; int cnt = 0; for (state::iterator t = st.begin(); t != st.end(); ++t, ++cnt) got.insert({ set_of(n.symbols()[t->symbol_set()]), t->new_state() });
        if (got != m.edges[s]) { string o; for (auto& g : got) o += string(" ") + (g.first < 0 ? "?" : set_name[g.first]) + "->" + to_string(g.second); return w + " has the transitions" + o; }
        if (cnt != (int) got.size() || st.count_transitions() != cnt) return w + " has a transition twice";
        actions act; for (auto* a : n.actions_for_state(s)) act.push_back({ a->symbol(), a->eager() });
        if (act != m.acc[s]) { string o; for (auto& a : act) o += " " + to_string(a.first) + (a.second ? "!" : ""); return w + " has the actions" + o; }
    }
    if (!n.actions_for_state(-1).empty() || !n.actions_for_state(n.count_states()).empty()) return "a state that does not exist has actions";
    if (n.get_state(-1).identifier() != -1 || n.get_state(n.count_states()).count_transitions() != 0) return "there is a state that does not exist";
    if (n.is_dfa()) return "is_dfa() is true";
    if (n.verify_is_dfa() != m.deterministic()) return string("verify_is_dfa() is ") + (m.deterministic() ? "false" : "true");
    bool overlap = m.used.count(AB) && (m.used.count(A) || m.used.count(B));
    if (n.verify_no_symbol_overlap() == overlap) return string("verify_no_symbol_overlap() is ") + (overlap ? "true" : "false");
    return "";
}

// ---- Operations on automata
struct op { const char* name; function<void(unique_ptr<ndfa>*, model*, string&)> run; };
static vector<op> operations() {
    vector<op> r; auto add = [&](const char* n, function<void(unique_ptr<ndfa>*, model*, string&)> f) { r.push_back(op{ n, f }); };
    auto last = [](model* m) { return (int) m[0].edges.size() - 1; };
    auto same = [](string& why, const char* what, int got, int want) { if (got != want && why.empty()) why = string(what) + " gives " + to_string(got) + " instead of " + to_string(want); };
    add("add_state", [=](unique_ptr<ndfa>* n, model* m, string& w) { same(w, "add_state", n[0]->add_state(), m[0].add()); });
    for (int s : { A, AB, EPS }) add(s == A ? "to new(a)" : s == AB ? "to new(ab)" : "to new(eps)", [=](unique_ptr<ndfa>* n, model* m, string& w) { int to = m[0].add(); m[0].edge(m[0].cur, s, to); m[0].cur = to; same(w, "add_transition", n[0]->add_transition(symbols_of(s)), to); });
    add("to last(b)", [=](unique_ptr<ndfa>* n, model* m, string&) { int l = last(m); n[0]->add_transition(symbols_of(B), l); m[0].edge(m[0].cur, B, l); m[0].cur = l; });
    add("to 0(a)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->add_transition(symbols_of(A), 0); m[0].edge(m[0].cur, A, 0); m[0].cur = 0; });
    add("from 0 to last(b)", [=](unique_ptr<ndfa>* n, model* m, string&) { int l = last(m); n[0]->add_transition(0, symbols_of(B), l); m[0].edge(0, B, l); });
    add("from last to 0(eps)", [=](unique_ptr<ndfa>* n, model* m, string&) { int l = last(m); n[0]->add_transition(l, epsilon(), 0); m[0].edge(l, EPS, 0); });
    add("from nowhere", [=](unique_ptr<ndfa>* n, model* m, string&) { int l = last(m); n[0]->add_transition(l + 1, symbols_of(A), 0); n[0]->add_transition(-1, symbols_of(A), 0); n[0]->add_transition(0, symbols_of(A), l + 1); n[0]->add_transition(0, symbols_of(A), -1); });
    add("goto last", [=](unique_ptr<ndfa>* n, model* m, string& w) { m[0].cur = last(m); same(w, "goto_state", n[0]->goto_state(m[0].cur), m[0].cur); });
    add("goto nowhere", [=](unique_ptr<ndfa>* n, model* m, string& w) { same(w, "goto_state", n[0]->goto_state(last(m) + 1), 0); m[0].cur = 0; });
    add("goto start", [=](unique_ptr<ndfa>* n, model* m, string& w) { same(w, "goto_start", n[0]->goto_start(), 0); m[0].cur = 0; });
    add("accept(1)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->accept(1); m[0].acc[m[0].cur].push_back({ 1, false }); });
    add("accept(2,eager)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->accept(2, true); m[0].acc[m[0].cur].push_back({ 2, true }); });
    add("accept(action)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->accept(action(3, true)); m[0].acc[m[0].cur].push_back({ 3, true }); });
    add("accept(0,action)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->accept(0, action(0, false)); m[0].acc[0].push_back({ 0, false }); });
    add("clear(0)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->clear_accept(0); m[0].acc[0].clear(); });
    add("clear(last)", [=](unique_ptr<ndfa>* n, model* m, string&) { n[0]->clear_accept(last(m)); m[0].acc[last(m)].clear(); });
    add("save", [=](unique_ptr<ndfa>* n, model* m, string&) { *n[1] = *n[0]; m[1] = m[0]; });
    add("restore", [=](unique_ptr<ndfa>* n, model* m, string&) { *n[0] = *n[1]; m[0] = m[1]; });
    add("copy", [=](unique_ptr<ndfa>* n, model* m, string&) { unique_ptr<ndfa> c(new ndfa(*n[0])); ndfa& self = *c; *c = self; n[0] = move(c); int cur = m[0].cur; n[0]->goto_state(cur); });
    add("swap", [=](unique_ptr<ndfa>* n, model* m, string&) { swap(n[0], n[1]); swap(m[0], m[1]); });
    return r;
}

// ---- Builders
struct builder_model { int cur = 0, prev = 0; vector<pair<int, int>> stack; bool prevKnown = true, fake = false; };
struct bmodel : public model { };
static void sym(model& m, builder_model& b, int s, int target = -1) { int t = target < 0 ? m.add() : target; m.edges[b.cur].insert({ s, t }); b.prev = b.cur; b.cur = t; b.prevKnown = true; }

// Whether two automata accept the same strings with the same symbols
static string compare(const ndfa& n, const model& m) {
    nfa_view v(n);
    typedef set<int> S; auto close = [&](S s) { vector<int> todo(s.begin(), s.end()); while (!todo.empty()) { int x = todo.back(); todo.pop_back(); for (auto& e : m.edges[x]) if (e.first == EPS && s.insert(e.second).second) todo.push_back(e.second); } return s; };
    auto step = [&](const S& s, int c) { S r; for (int x : s) for (auto& e : m.edges[x]) if ((c == 'a' && (e.first == A || e.first == AB)) || (c == 'b' && (e.first == B || e.first == AB))) r.insert(e.second); return close(r); };
    auto acc = [&](const S& s) { S r; for (int x : s) for (auto& a : m.acc[x]) r.insert(a.first); return r; };
    map<pair<S, S>, string> seen; deque<pair<S, S>> todo; pair<S, S> first(close({ 0 }), v.start()); seen[first] = ""; todo.push_back(first);
    while (!todo.empty()) {
        auto p = todo.front(); todo.pop_front(); string path = seen[p]; ++res().states;
        S x = acc(p.first), y = v.accepts(p.second);
        if (x != y) { string o = "\"" + path + "\" is accepted as {"; for (int i : y) o += to_string(i) + " "; o += "} instead of {"; for (int i : x) o += to_string(i) + " "; return o + "}"; }
        for (int c : { 'a', 'b', 'c' }) { pair<S, S> q(step(p.first, c), v.step(p.second, c)); ++res().transitions; if (q.first.empty() && q.second.empty()) continue; if (seen.insert({ q, path + (char) c }).second) todo.push_back(q); }
    }
    return "";
}

static const char* bops[] = { "a", "b", "eps", "push", "pop", "or", "rejoin", "loop", "accept", "other", "start", "from previous" };
enum { OA, OB, OEPS, OPUSH, OPOP, OOR, OREJOIN, OLOOP, OACCEPT, OOTHER, OSTART, OBACK, BOPS };

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        bool th = cfg().thorough; string mode = cfg().extra.empty() ? "operations" : cfg().extra[0];
        if (mode == "operations" || mode == "shallow") {
            auto ops = operations(); int n = (int) ops.size(), depth = (th ? 6 : 5) - (mode == "shallow" ? 2 : 0); long long idx = 0; vector<int> h(depth);
            auto show = [&](int upto) { string o; for (int i = 0; i < upto; ++i) o += string(i ? "; " : "") + ops[h[i]].name; return o; };
            auto run = [&](int start) {
                ++res().traces; ++res().nontrivial; g_live = 0;
                {
                    unique_ptr<ndfa> n[2] = { unique_ptr<ndfa>(new ndfa()), unique_ptr<ndfa>(new ndfa()) }; model m[2];
                    if (start) for (int k = 0; k < 2; ++k) {      // Automata with something in them
                        n[k]->add_transition(symbols_of(A)); m[k].add(); m[k].edge(0, A, 1); m[k].cur = 1; n[k]->accept(action(7 + k, false)); m[k].acc[1].push_back({ 7 + k, false });
                        if (k) { n[k]->add_transition(symbols_of(AB), 0); m[k].edge(1, AB, 0); m[k].cur = 0; n[k]->accept(0, action(5, true)); n[k]->accept(0, action(5, true)); m[k].acc[0] = { { 5, true }, { 5, true } }; }
                    }
                    for (int i = 0; i < depth; ++i) {
                        string why; ++res().transitions; ops[h[i]].run(n, m, why);
                        // (copies of an automaton start at no particular state)
                        if (why.empty() && i + 1 == depth) for (int k = 0; k < 2 && why.empty(); ++k) why = differs(*n[k], m[k]);
                        if (!why.empty()) { violation("operations " + string(start ? "from two automata: " : "") + show(i + 1), why); return; }
                    }
                    ++res().evaluations;
                }
                if (g_live != 0) violation("leak " + string(start ? "from two automata: " : "") + show(depth), to_string(g_live) + " actions are " + (g_live > 0 ? "never destroyed" : "destroyed twice"));
            };
            for (int start = 0; start < 2; ++start) {
                function<void(int)> rec = [&](int d) {
                    if (d == depth) { run(start); return; }
                    if (d == depth - 2) if (!begin_case("operations", idx++, show(d) + "...")) return;
                    for (int o = 0; o < n; ++o) { h[d] = o; rec(d + 1); }
                };
                rec(0);
            }
        }
        if (mode == "builder") {
            int depth = th ? 8 : 7; long long idx = 0; vector<int> h(depth);
            auto show = [&](int upto) { string o; for (int i = 0; i < upto; ++i) o += string(i ? "; " : "") + bops[h[i]]; return o; };
            auto run = [&]() {
                ndfa n; model m; unique_ptr<ndfa::builder> b[2] = { unique_ptr<ndfa::builder>(new ndfa::builder(n.get_cons())), NULL }; builder_model bm[2]; int which = 0; bool other = false;
                for (int i = 0; i < depth; ++i) {
                    ndfa::builder& x = *b[which]; builder_model& y = bm[which];
                    switch (h[i]) {
                        case OA: if (i % 3 == 0) x >> 'a'; else if (i % 3 == 1) x >> L'a'; else x >> (int) 'a'; sym(m, y, A); break;
                        case OB: x >> symbols_of(B); sym(m, y, B); break;
                        case OEPS: x >> epsilon(); sym(m, y, EPS); break;
                        case OPUSH: x.push(); y.stack.push_back({ y.cur, -1 }); break;
                        case OPOP: {
                            if (y.fake && y.stack.size() == 1) return;
                            bool got = x.pop(), want = !y.stack.empty(); if (got != want) { violation("builder " + show(i + 1), "pop() gives the wrong answer"); return; }
                            if (want) { auto t = y.stack.back(); if (t.second >= 0) sym(m, y, EPS, t.second); y.prev = t.first; y.prevKnown = true; y.stack.pop_back(); }
                            break; }
                        case OOR: {
                            x.begin_or(); if (y.stack.empty()) { y.stack.push_back({ 0, -1 }); y.fake = true; } auto& t = y.stack.back(); if (t.second < 0) t.second = m.add();
                            m.edges[y.cur].insert({ EPS, t.second }); y.cur = t.first; y.prevKnown = false; break; }
                        case OREJOIN: { x.rejoin(); if (y.stack.empty() || y.stack.back().second < 0) break; sym(m, y, EPS, y.stack.back().second); y.stack.back().second = -1; y.prevKnown = false; break; }
                        case OLOOP: if (!y.prevKnown) return; x >> x.previous_state() >> 'a'; sym(m, y, A, y.prev); y.prevKnown = true; break;
                        case OACCEPT: x >> accept_action(i); m.acc.resize(m.edges.size()); m.acc[y.cur].push_back({ i, false }); break;
                        case OOTHER: if (!b[1 - which]) { b[1 - which].reset(new ndfa::builder(x)); bm[1 - which] = y; } which = 1 - which; other = true; break;
                        case OSTART: x.goto_state(n.get_state(0)); y.cur = 0; y.prevKnown = false; break;
                        case OBACK: { if (!y.prevKnown) return; const state& p = x.previous_state(); const state& c = x.current_state(); x.goto_state(p, c); swap(y.cur, y.prev); break; }
                    }
                    if (b[which]->empty() != bm[which].stack.empty() && !bm[which].fake) { violation("builder " + show(i + 1), "empty() gives the wrong answer"); return; }
                }
                (void) other; ++res().traces; ++res().nontrivial; ++res().evaluations;
                *b[which] >> accept_action(9); m.acc.resize(m.edges.size()); m.acc[bm[which].cur].push_back({ 9, false });
                string why = compare(n, m); if (!why.empty()) violation("builder " + show(depth), why);
            };
            function<void(int)> rec = [&](int d) {
                if (d == depth) { run(); return; }
                if (d == depth - 3) if (!begin_case("builder", idx++, show(d) + "...")) return;
                for (int o = 0; o < BOPS; ++o) { h[d] = o; rec(d + 1); }
            };
            rec(0);
        }
    });
}
