// C29: the values that the sets and maps of the library are keyed by. Every value over small domains is built (some in several ways,
// and as copies); every pair is compared with every operator the class has, and every triple for transitivity.
#include "vp.h"
#include <memory>
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item_set.h"
#include "TameParse/Dfa/position.h"
#include "TameParse/Dfa/range.h"
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/transition.h"
#include "TameParse/Dfa/accept_action.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/lalr_state.h"
#include "TameParse/Lr/lr_action.h"
#include "TameParse/Lr/lr_item.h"
#include "TameParse/Lr/lr_state.h"
#include "TameParse/Lr/parser_tables.h"
using namespace vp; using namespace std; using namespace contextfree; using namespace lr;

// What the operators of a class say; those that it doesn't have are made from those it has
template<class T> struct operators {
    function<bool(const T&, const T&)> lt, eq, ne, gt, le, ge, before;       // before: compare() of pointers
    bool total = true;                                                     // Different values are ordered one way or the other
};
#define HAS(op) [](const T& a, const T& b) { return a op b; }
template<class T> static operators<T> all_operators() { operators<T> o; o.lt = HAS(<); o.eq = HAS(==); o.ne = HAS(!=); o.gt = HAS(>); o.le = HAS(<=); o.ge = HAS(>=); return o; }

template<class T> static void judge(const char* section, const vector<shared_ptr<T>>& u, const vector<string>& key, const operators<T>& op) {
    size_t n = u.size();
    if (!begin_case(section, 0, string(section) + ": all pairs and triples of " + to_string(n))) return;
    vector<vector<char>> lt(n, vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        const T &a = *u[i], &b = *u[j]; string w = key[i] + " , " + key[j]; bool same = key[i] == key[j];
        ++res().evaluations; ++res().transitions;
        bool l = op.lt(a, b), g = op.lt(b, a); lt[i][j] = l;
        auto want = [&](const char* name, const function<bool(const T&, const T&)>& f, bool expect) { if (!f) return; bool got = f(a, b); if (got != expect) violation(string(section) + name + " " + w, string("operator") + name + " gives " + (got ? "true" : "false") + (same ? " for the same value" : "")); };
        if (l && g) violation(string(section) + "< both " + w, "each is before the other");
        if (same && (l || g)) violation(string(section) + "< " + w, "the same value is before itself");
        if (op.total && !same && !l && !g) violation(string(section) + "< " + w, "different values are not ordered either way");
        want("==", op.eq, same); want("!=", op.ne, !same); want(">", op.gt, g); want("<=", op.le, !g); want(">=", op.ge, !l); want(" compare", op.before, l);
    }
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        bool inc = !lt[i][j] && !lt[j][i];
        for (size_t k = 0; k < n; ++k) {
            if (lt[i][j] && lt[j][k] && !lt[i][k]) { violation(string(section) + "< transitive " + key[i] + " , " + key[j] + " , " + key[k], "a<b and b<c but not a<c"); break; }
            if (inc && lt[i][k] != lt[j][k]) { violation(string(section) + "< equivalent " + key[i] + " , " + key[j] + " , " + key[k], "neither of two is first, but only one is before the third"); break; }
        }
    }
    set<string> distinct(key.begin(), key.end());
    res().states += distinct.size(); ++res().nontrivial; sample(string(section) + ": " + to_string(distinct.size()) + " values, " + to_string(n) + " objects");
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        bool th = cfg().thorough;
        { // Positions
            vector<shared_ptr<dfa::position>> u; vector<string> k; int m = th ? 5 : 4;
            for (int o = -1; o < m - 1; ++o) for (int l = -1; l < m - 1; ++l) for (int c = -1; c < m - 1; ++c) for (int w = 0; w < 2; ++w) { dfa::position p(o, l, c); u.push_back(make_shared<dfa::position>(p)); if (w) { dfa::position q(9, 9, 9); q = p; *u.back() = q; } k.push_back(to_string(o) + ":" + to_string(l) + ":" + to_string(c)); }
            judge("position", u, k, all_operators<dfa::position>());
        }
        { // Ranges
            vector<shared_ptr<dfa::range<int>>> u; vector<string> k; int m = th ? 8 : 6;
            for (int l = -1; l < m; ++l) for (int h = -1; h < m; ++h) for (int w = 0; w < 2; ++w) { u.push_back(w && h == l + 1 ? make_shared<dfa::range<int>>(l) : make_shared<dfa::range<int>>(l, h)); if (w) { dfa::range<int> r(77); r = *u.back(); u.back() = make_shared<dfa::range<int>>(r); } k.push_back("[" + to_string(l) + "," + to_string(h) + ")"); }
            judge("range", u, k, all_operators<dfa::range<int>>());
        }
        { // Sets of symbols: every set over a few symbols, built in several orders
            vector<shared_ptr<dfa::symbol_set>> u; vector<string> k; int m = th ? 7 : 6;
            for (int b = 0; b < 1 << m; ++b) for (int w = 0; w < 3; ++w) {
                dfa::symbol_set s;
                if (w == 0) { for (int i = 0; i < m; ++i) if (b >> i & 1) s |= dfa::range<int>(i); }
                else if (w == 1) { for (int i = m; i-- > 0;) if (b >> i & 1) s |= dfa::range<int>(i, i + 1); }
                else { s |= dfa::range<int>(0, m); for (int i = 0; i < m; ++i) if (!(b >> i & 1)) s.exclude(dfa::range<int>(i)); }
                string n; for (int i = 0; i < m; ++i) n += b >> i & 1 ? '1' : '0';
                u.push_back(make_shared<dfa::symbol_set>(s)); k.push_back(n);
            }
            operators<dfa::symbol_set> o = all_operators<dfa::symbol_set>(); o.before = [](const dfa::symbol_set& a, const dfa::symbol_set& b) { return dfa::symbol_set::compare(&a, &b); };
            judge("symbol_set", u, k, o);
        }
        { // Transitions
            vector<shared_ptr<dfa::transition>> u; vector<string> k; int m = th ? 6 : 4;
            for (int s = 0; s < m; ++s) for (int t = -1; t < m - 1; ++t) for (int w = 0; w < 2; ++w) { u.push_back(make_shared<dfa::transition>(s, t)); k.push_back(to_string(s) + "->" + to_string(t)); }
            judge("transition", u, k, all_operators<dfa::transition>());
        }
        { // Accept actions: ordered by importance, lower symbols are more important
            vector<shared_ptr<dfa::accept_action>> u; vector<string> k; vector<string> sym; int m = th ? 8 : 5;
            for (int s = -1; s < m - 1; ++s) for (int e = 0; e < 2; ++e) for (int w = 0; w < 2; ++w) { shared_ptr<dfa::accept_action> a(e ? new dfa::accept_action(s, true) : w ? new dfa::accept_action(s, false) : new dfa::accept_action(s)); u.push_back(w ? shared_ptr<dfa::accept_action>(a->clone()) : a); k.push_back(to_string(s) + (e ? "!" : "")); }
            operators<dfa::accept_action> o = all_operators<dfa::accept_action>(); o.total = false; o.before = [](const dfa::accept_action& a, const dfa::accept_action& b) { return a.symbol() > b.symbol(); };
            judge("accept_action", u, k, o);
            if (begin_case("accept_action-null", 0, "")) for (auto& a : u) { ++res().evaluations; dfa::accept_action* none = NULL; if (*a == none || !(*a != none)) violation("accept_action NULL", "an action is equal to none"); if (!(*a == a.get()) || *a != a.get()) violation("accept_action pointer", "an action is different from itself"); }
        }
        grammar g; vector<item_container> its; for (int i = 0; i < 2; ++i) its.push_back(item_container(new terminal(i), true)); its.push_back(item_container(new nonterminal(1), true)); its.push_back(item_container(new end_of_input(), true)); its.push_back(item_container(new empty_item(), true));
        vector<rule_container> rules; vector<string> rn;
        for (int nt = 0; nt < 2; ++nt) for (int len = 0; len < 3; ++len) for (int b = 0; b < 1 << len; ++b) { rule* r = new rule(item_container(new nonterminal(nt + 20), true)); string n = "n" + to_string(nt) + "="; for (int i = 0; i < len; ++i) { *r << its[b >> i & 1]; n += (b >> i & 1) ? "b" : "a"; } rules.push_back(rule_container(r, true)); rn.push_back(n); }
        size_t nr = rules.size(); for (size_t i = 0; i < nr; ++i) { rules.push_back(rule_container(new rule(*rules[i]), true)); rn.push_back(rn[i]); }
        { // LR(0) items
            vector<shared_ptr<lr0_item>> u; vector<string> k;
            for (size_t r = 0; r < rules.size(); ++r) for (int o = 0; o < 3; ++o) { u.push_back(r & 1 ? make_shared<lr0_item>(&g, rules[r], o) : make_shared<lr0_item>(&g, *rules[r], o)); if (r % 3 == 1) { lr0_item other(&g, rules[0], 0); other = *u.back(); u.back() = make_shared<lr0_item>(other); } if (r % 3 == 2) u.back() = make_shared<lr0_item>(lr0_item(&g, rules[r], 7), o); k.push_back(rn[r] + "@" + to_string(o)); }
            operators<lr0_item> o = all_operators<lr0_item>(); o.before = [](const lr0_item& a, const lr0_item& b) { return lr0_item::compare(&a, &b); };
            judge("lr0_item", u, k, o);
            if (begin_case("lr0_item-content", 0, "")) for (size_t i = 0; i < u.size(); ++i) { ++res().evaluations; string n = k[i]; int off = n.back() - '0'; size_t len = n.find('@') - 3; if (u[i]->offset() != off || u[i]->rule()->items().size() != len || u[i]->at_end() != (off >= (int) len) || &u[i]->gram() != &g) violation("lr0_item content " + n, "an item does not hold what it was made from"); }
        }
        { // LR(1) items
            vector<shared_ptr<lr1_item>> u; vector<string> k;
            for (size_t r = 0; r < 4; ++r) for (int o = 0; o < 2; ++o) for (int la = 0; la < 8; ++la) for (int w = 0; w < 3; ++w) {
                lr1_item::lookahead_set s(g); string n; for (int i = 0; i < 3; ++i) { int x = w == 1 ? 2 - i : i; if (la >> x & 1) s.insert(its[x]); if (la >> i & 1) n += "abc"[i]; }
                lr1_item x(&g, w == 2 ? rules[r + nr] : rules[r], o, s); shared_ptr<lr1_item> p;
                if (w == 0) p = make_shared<lr1_item>(x); else if (w == 1) { p = make_shared<lr1_item>(&g, rules[0], 9, lr1_item::lookahead_set(g)); *p = x; } else { p = make_shared<lr1_item>(x.get_lr0_item(), lr1_item::lookahead_set(g)); for (int i = 0; i < 3; ++i) if (la >> i & 1) { if (!p->add_lookahead(its[i]) || p->add_lookahead(its[i])) violation("lr1_item add_lookahead", "wrong answer"); } }
                u.push_back(p); k.push_back(rn[r] + "@" + to_string(o) + "/" + n);
            }
            operators<lr1_item> o = all_operators<lr1_item>(); o.before = [](const lr1_item& a, const lr1_item& b) { return lr1_item::compare(&a, &b); };
            judge("lr1_item", u, k, o);
        }
        { // Actions
            vector<shared_ptr<lr_action>> u; vector<string> k;
            for (int t = lr_action::act_shift; t <= lr_action::act_guard; ++t) for (int i = 0; i < 3; ++i) for (int s = 0; s < 2; ++s) for (int r = -1; r < (th ? 4 : 2); ++r) {
                lr_action a = r < 0 ? lr_action((lr_action::action_type) t, its[i], s) : lr_action((lr_action::action_type) t, its[i], s, rules[r]);
                u.push_back((t + i) & 1 ? make_shared<lr_action>(a) : make_shared<lr_action>(lr_action((lr_action::action_type) t, its[4], s, a.rule()), its[i])); k.push_back(to_string(t) + "/" + to_string(i) + "/" + to_string(s) + "/" + to_string(r));
            }
            size_t n = u.size(); for (size_t i = 0; i < n; i += 3) { u.push_back(shared_ptr<lr_action>(u[i]->clone())); k.push_back(k[i]); }
            operators<lr_action> o; o.lt = [](const lr_action& a, const lr_action& b) { return a < b; }; o.eq = [](const lr_action& a, const lr_action& b) { return a == b; }; o.before = [](const lr_action& a, const lr_action& b) { return lr_action::compare(&a, &b); };
            judge("lr_action", u, k, o);
        }
        { // Numbers of items in states, and of equivalent symbols
            typedef lalr_builder::lr_item_id T; vector<shared_ptr<T>> u; vector<string> k; for (int s = -1; s < 4; ++s) for (int i = -1; i < 4; ++i) for (int w = 0; w < 2; ++w) { u.push_back(make_shared<T>(s, i)); k.push_back(to_string(s) + "." + to_string(i)); }
            operators<T> o; o.lt = HAS(<); o.eq = HAS(==); o.ne = HAS(!=); judge("lr_item_id", u, k, o);
            typedef parser_tables::symbol_equivalent S; vector<shared_ptr<S>> v; vector<string> kv; for (int a = -1; a < 5; ++a) for (int b = 0; b < 3; ++b) { S x = { a, b }; v.push_back(make_shared<S>(x)); kv.push_back(to_string(a)); }
            operators<S> os; os.lt = [](const S& a, const S& b) { return a < b; }; os.eq = [](const S& a, const S& b) { return a == b; }; judge("symbol_equivalent", v, kv, os);
        }
        // States: the items in the order in which they were added; lookahead makes no difference
        vector<lr0_item_container> l0; for (int r = 0; r < 2; ++r) for (int o = 0; o < 2; ++o) l0.push_back(lr0_item_container(new lr0_item(&g, rules[r + 1], o), true));
        vector<vector<int>> seqs; { vector<int> s; function<void()> rec = [&]() { seqs.push_back(s); if (s.size() == (th ? 4u : 3u)) return; for (int i = 0; i < 4; ++i) { bool have = false; for (int x : s) if (x == i) have = true; if (have) continue; s.push_back(i); rec(); s.pop_back(); } }; rec(); }
        {
            vector<shared_ptr<lr_state<lr0_item>>> u; vector<shared_ptr<lalr_state>> v; vector<string> k;
            for (auto& s : seqs) for (int w = 0; w < 3; ++w) {
                auto p = make_shared<lr_state<lr0_item>>(); auto q = make_shared<lalr_state>(); string n;
                for (size_t i = 0; i < s.size(); ++i) { n += to_string(s[i]); lr0_item_container c = w ? lr0_item_container(l0[s[i]]->clone(), true) : l0[s[i]]; int a = p->add(c), b = q->add(c, &g); if (a != (int) i || b != (int) i) violation("state add " + n, "the wrong number for a new item");
                    if (w == 1) { if (p->add(l0[s[0]]) != 0 || q->add(l0[s[0]], &g) != 0) violation("state add " + n, "the wrong number for an item added twice"); }
                    if (w == 2) q->lookahead_for(b).insert(its[i % 3]); }
                if (w == 2) { p = make_shared<lr_state<lr0_item>>(*p); auto orig = q; q = make_shared<lalr_state>(*q); for (size_t i = 0; i < s.size(); ++i) { if (q->lookahead_for((int) i) != orig->lookahead_for((int) i)) violation("state copy " + n, "a copy has other lookahead"); orig->lookahead_for((int) i).insert(its[3]); if (q->lookahead_for((int) i).contains(its[3])) violation("state copy " + n, "lookahead of a copy changes with the original"); } }
                for (int i = 0; i < 4; ++i) { int want = -1; for (size_t x = 0; x < s.size(); ++x) if (s[x] == i) want = (int) x; ++res().evaluations; if (p->find_identifier(l0[i]) != want || q->find_identifier(l0[i]) != want) violation("state find " + n, "the wrong number for item " + to_string(i)); }
                if (p->count_items() != (int) s.size() || q->count_items() != (int) s.size()) violation("state count " + n, "the wrong number of items");
                u.push_back(p); v.push_back(q); k.push_back(n);
            }
            operators<lr_state<lr0_item>> o = all_operators<lr_state<lr0_item>>(); o.before = [](const lr_state<lr0_item>& a, const lr_state<lr0_item>& b) { return lr_state<lr0_item>::compare(&a, &b); }; judge("lr_state", u, k, o);
            operators<lalr_state> ol = all_operators<lalr_state>(); ol.before = [](const lalr_state& a, const lalr_state& b) { return lalr_state::compare(&a, &b); }; judge("lalr_state", v, k, ol);
        }
        { // Conflicts
            vector<shared_ptr<conflict>> u; vector<string> k;
            for (int st = 0; st < 2; ++st) for (int tk = 0; tk < 2; ++tk) for (int sh = 0; sh < 4; ++sh) for (int a = 0; a < 3; ++a) for (int b = 0; b < (th ? 4 : 3); ++b) for (int w = 0; w < 2; ++w) {
                conflict c(st, its[tk]); for (int i = 0; i < 2; ++i) { int x = w ? 1 - i : i; if (sh >> x & 1) c.add_shift_item(w ? lr0_item_container(l0[x]->clone(), true) : l0[x]); }
                for (int i = 0; i < 2; ++i) { int x = w ? 1 - i : i; int how = x ? b : a; if (!how) continue; conflict::possible_reduce_states& p = c.add_reduce_item(l0[2 + x]); if (how > 1) p.insert(lalr_builder::lr_item_id(how, 1)); if (how > 2) p.insert(lalr_builder::lr_item_id(1, 1)); }
                u.push_back(shared_ptr<conflict>(c.clone())); k.push_back(to_string(st) + "/" + to_string(tk) + "/" + to_string(sh) + "/" + to_string(a) + to_string(b));
                if (w) { c.add_shift_item(lr0_item_container(new lr0_item(&g, rules[5], 1), true)); int n = 0; for (auto i = u.back()->first_shift_item(); i != u.back()->last_shift_item(); ++i) ++n; ++res().evaluations; if (n != __builtin_popcount(sh) || u.back()->state() != st || u.back()->token() != its[tk]) violation("conflict clone " + k.back(), "a clone differs from the original, or changes with it"); }
            }
            operators<conflict> o; o.lt = [](const conflict& a, const conflict& b) { return a < b; }; o.before = [](const conflict& a, const conflict& b) { return conflict::compare(&a, &b); };
            judge("conflict", u, k, o);
        }
    });
}
