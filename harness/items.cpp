// Identity of grammar symbols: the universe of items and rules up to a nesting depth is enumerated and every pair is compared with
// its structure; identifiers, item sets, LR(1) item sets and terminal dictionaries are driven through all histories up to a depth.
#include "vp.h"
#include <memory>
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item_set.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
#include "TameParse/Lr/lr_item.h"
#include "TameParse/Lr/lr1_item_set.h"
using namespace vp; using namespace std; using namespace contextfree;

struct entry { string key; item_container c; };
struct alt_item : public ebnf_alternate { };     // (add_rule() without an argument is public)

static rule make_rule(const vector<const entry*>& parts, string& key) {
    rule r(item_container(new nonterminal(9), true)); key = "";
    for (auto p : parts) { r << p->c; key += (key.empty() ? "" : " ") + p->key; }
    if (parts.empty()) key = "-";
    return r;
}
static entry wrap(int kind, const vector<vector<const entry*>>& rules, int prio = -1) {
    static const char* n[] = { "opt", "rep", "rep0", "alt", "guard" };
    string k; rule first = make_rule(rules[0], k); string key = string(n[kind]) + (kind == 4 ? to_string(prio) : "") + "(" + k;
    item* it = NULL;
    switch (kind) {
        case 0: it = new ebnf_optional(first); break;
        case 1: it = new ebnf_repeating(first); break;
        case 2: it = new ebnf_repeating_optional(first); break;
        case 3: { ebnf_alternate* a = new ebnf_alternate(first); for (size_t i = 1; i < rules.size(); ++i) { string k2; rule r2 = make_rule(rules[i], k2); rule_container added = a->add_rule(); *added << r2; key += "|" + k2; } it = a; } break;
        case 4: it = new guard(first, prio); break;
    }
    return entry{key + ")", item_container(it, true)};
}
// The text of an item, recomputed from the object itself (so that a changed or damaged object is noticed)
static string text(const item* i);
static string text(const rule& r) { string o; for (rule::iterator x = r.begin(); x != r.end(); ++x) o += (o.empty() ? "" : " ") + text(x->item()); return o.empty() ? "-" : o; }
static string text(const item* i) {
    if (!i) return "NULL";
    switch ((int) i->type()) {
        case item::terminal: return "t" + to_string(i->symbol());
        case item::nonterminal: return "n" + to_string(i->symbol());
        case item::empty: return "empty"; case item::eoi: return "eoi"; case item::eog: return "eog";
        case item::guard: return "guard" + to_string(i->cast_guard()->priority()) + "(" + text(*i->cast_guard()->get_rule()) + ")";
    }
    const ebnf* e = i->cast_ebnf(); if (!e) return "?";
    string k = i->type() == item::optional ? "opt" : i->type() == item::repeat ? "rep" : i->type() == item::repeat_zero_or_one ? "rep0" : "alt";
    string o; for (ebnf::rule_iterator r = e->first_rule(); r != e->last_rule(); ++r) o += (o.empty() ? "" : "|") + text(**r);
    return k + "(" + o + ")";
}

template<class L, class E> static void check_identity(const char* section, const vector<string>& key, L less, E equal) {
    size_t n = key.size();
    if (begin_case(section, 0, string(section) + ": every pair of " + to_string(n))) {
        vector<vector<char>> lt(n, vector<char>(n)); vector<size_t> rank(n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            lt[i][j] = less(i, j); bool eq = equal(i, j); ++res().evaluations; ++res().transitions;
            if (eq != (key[i] == key[j])) violation((eq ? "equal " : "unequal ") + key[i] + " , " + key[j], eq ? "different structures compare equal" : "the same structure compares as different");
            if (lt[i][j] && key[i] == key[j]) violation("less " + key[i] + " , " + key[j], "the same structure is ordered before itself");
        }
        // A strict total order of the structures: everything is where its rank says
        map<string, size_t> distinct; for (size_t i = 0; i < n; ++i) distinct.insert(make_pair(key[i], i));
        for (auto& d : distinct) { size_t r = 0; for (auto& e : distinct) if (lt[e.second][d.second]) ++r; rank[d.second] = r; }
        map<size_t, string> at; for (auto& d : distinct) { auto f = at.insert(make_pair(rank[d.second], d.first)); if (!f.second) violation("order " + d.first + " , " + f.first->second, "two different structures have the same place in the order"); }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (lt[i][j] != (rank[distinct[key[i]]] < rank[distinct[key[j]]])) violation("order " + key[i] + " , " + key[j], "the order is not a total order of the structures");
        res().states += distinct.size(); ++res().nontrivial; sample(string(section) + ": " + to_string(distinct.size()) + " structures, " + to_string(n) + " objects");
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        bool th = cfg().thorough; string mode = cfg().extra.empty() ? "all" : cfg().extra[0];
        vector<entry> u;
        auto atom = [&](item* i) { u.push_back(entry{text(i), item_container(i, true)}); };
        for (int t = 0; t < 2; ++t) atom(new terminal(t));
        for (int t = 0; t < 2; ++t) atom(new nonterminal(t));
        atom(new empty_item()); atom(new end_of_input()); atom(new end_of_guard());
        size_t atoms = u.size();
        vector<entry> lvl1;
        {
            vector<vector<const entry*>> rules; rules.push_back({});
            for (size_t a = 0; a < atoms; ++a) rules.push_back({&u[a]});
            for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) rules.push_back({&u[a], &u[b]});
            for (auto& r : rules) { for (int k = 0; k < 3; ++k) lvl1.push_back(wrap(k, {r})); lvl1.push_back(wrap(3, {r})); for (int p = -1; p <= 1; p += 2) lvl1.push_back(wrap(4, {r}, p)); }
            for (size_t a = 0; a < 6; ++a) for (size_t b = 0; b < 10; ++b) { lvl1.push_back(wrap(3, {rules[a], rules[b]})); if (a < 3 && b < 3) for (size_t c = 0; c < 3; ++c) lvl1.push_back(wrap(3, {rules[a], rules[b], rules[c]})); }
        }
        vector<entry> lvl2;
        {
            vector<const entry*> pick; for (size_t i = 0; i < lvl1.size(); i += (th ? 4 : 9)) pick.push_back(&lvl1[i]);
            for (auto p : pick) { for (int k = 0; k < 4; ++k) { lvl2.push_back(wrap(k, {{p}})); lvl2.push_back(wrap(k, {{p, &u[0]}})); lvl2.push_back(wrap(k, {{&u[0], p}})); } lvl2.push_back(wrap(4, {{p}})); lvl2.push_back(wrap(3, {{&u[0]}, {p}})); }
        }
        vector<entry> all(u); all.insert(all.end(), lvl1.begin(), lvl1.end()); all.insert(all.end(), lvl2.begin(), lvl2.end());
        // Separate objects with the same structure
        size_t base = all.size(); for (size_t i = 0; i < base; i += (i < 60 ? 1 : 5)) all.push_back(entry{all[i].key, item_container(all[i].c->clone(), true)});
        vector<string> key; for (auto& e : all) key.push_back(e.key);
        if (mode == "all" || mode == "identity") {
            if (begin_case("item-text", 0, "items hold what they were built from; clones too")) for (auto& e : all) { ++res().evaluations; if (text(e.c.item()) != e.key) violation("built " + e.key, "was built as " + text(e.c.item())); }
            check_identity("item-operators", key, [&](size_t i, size_t j) { return *all[i].c < *all[j].c; }, [&](size_t i, size_t j) { return *all[i].c == *all[j].c; });
            check_identity("item-compare", key, [&](size_t i, size_t j) { return item::compare(all[i].c.item(), all[j].c.item()); }, [&](size_t i, size_t j) { return !(*all[i].c != *all[j].c); });
            check_identity("item-containers", key, [&](size_t i, size_t j) { return all[i].c.operator<(all[j].c); }, [&](size_t i, size_t j) { return all[i].c.operator==(all[j].c); });
            // Rules: two nonterminals, up to two (three) items
            vector<rule_container> rules; vector<string> rk;
            vector<const entry*> parts; for (size_t i = 0; i < u.size(); ++i) parts.push_back(&u[i]); for (size_t i = 0; i < lvl1.size(); i += (th ? 9 : 23)) parts.push_back(&lvl1[i]);
            for (int nt = 0; nt < 2; ++nt) {
                auto mk = [&](vector<const entry*> p, bool keyed) { rule r{item_container(new nonterminal(nt), true)}; string k = "n" + to_string(nt) + "="; for (auto x : p) { r << x->c; k += " " + x->key; } if (keyed) for (size_t i = 0; i < p.size(); ++i) r.set_key(i, 5); rules.push_back(rule_container(new rule(r), true)); rk.push_back(k); };
                mk({}, false); mk({}, false);
                for (auto a : parts) { mk({a}, false); mk({a}, true); for (auto b : parts) mk({a, b}, false); }
                for (size_t a = 0; a < 4; ++a) for (size_t b = 0; b < 4; ++b) for (size_t c = 0; c < 4; ++c) mk({parts[a], parts[b], parts[c]}, false);
            }
            check_identity("rule-operators", rk, [&](size_t i, size_t j) { return *rules[i] < *rules[j]; }, [&](size_t i, size_t j) { return *rules[i] == *rules[j]; });
            check_identity("rule-containers", rk, [&](size_t i, size_t j) { return rules[i].operator<(rules[j]); }, [&](size_t i, size_t j) { return rules[i].operator==(rules[j]); });
            if (begin_case("rule-keys", 0, "item keys survive copying, assigning and appending")) for (size_t i = 0; i < rules.size(); ++i) {
                rule a(*rules[i]); size_t n = a.items().size(); for (size_t k = 0; k < n; ++k) a.set_key(k, 10 + (int) k);
                rule b(a), c; c = a; rule d(a, item_container(new nonterminal(3), true)); rule e{item_container(new nonterminal(3), true)}; e << a; e << a; ++res().evaluations;
                for (size_t k = 0; k < n; ++k) if (b.get_key(k) != 10 + (int) k || c.get_key(k) != 10 + (int) k || d.get_key(k) != 10 + (int) k || e.get_key(k) != 10 + (int) k || e.get_key(k + n) != 10 + (int) k || a.get_key(a.begin() + k) != 10 + (int) k) violation("keys " + rk[i], "a key was lost");
                if (e.items().size() != 2 * n || text(e) != (n ? text(a) + " " + text(a) : "-")) violation("append " + rk[i], "appending a rule twice gives " + text(e));
            }
            if (begin_case("ebnf-independent", 0, "changing a clone leaves the original alone")) for (size_t i = atoms; i < base; ++i) {
                string before = text(all[i].c.item()); item* c = all[i].c->clone(); ++res().evaluations;
                if (c->cast_ebnf()) *const_cast<ebnf*>(c->cast_ebnf())->get_rule() << item_container(new terminal(77), true); else if (c->cast_guard()) *const_cast<guard*>(c->cast_guard())->get_rule() << item_container(new terminal(77), true);
                if (text(all[i].c.item()) != before) violation("shared " + before, "changing a clone changes the original");
                delete c;
            }
        }
        // ---- identifiers: histories over two grammars
        if (mode == "all" || mode == "identifiers" || mode == "identifiers-shallow") {
            vector<const entry*> its; its.push_back(&u[0]); its.push_back(&u[1]); its.push_back(&u[4]); its.push_back(&lvl1[8]); its.push_back(&lvl1[7]); 
            struct gm { vector<string> items; map<string, int> names; vector<string> rules; };
            int depth = (th ? 6 : 5) - (mode == "identifiers-shallow"); long long index = 0;
            enum { OPS_ITEM = 4, OPS_NAME = 2, OPS_RULE = 2 };
            int per = OPS_ITEM + OPS_NAME + OPS_RULE + 3, nops = per * 2;
            vector<int> h(depth);
            auto opname = [&](int o) { int g = o / per, k = o % per; string s = "g" + to_string(g) + "."; if (k < OPS_ITEM) return s + "item(" + its[k]->key + ")"; k -= OPS_ITEM; if (k < OPS_NAME) return s + "nonterminal(" + string(1, 'A' + k) + ")"; k -= OPS_NAME; if (k < OPS_RULE) return s + "rule(" + to_string(k) + ")"; k -= OPS_RULE; return k == 0 ? s + "assign" : k == 1 ? s + "extend+rule(2)" : s + "copy"; };
            auto show = [&](const vector<int>& h) { string s; for (int o : h) s += (s.empty() ? "" : "; ") + opname(o); return s; };
            auto run = [&](const vector<int>& h) {
                ++res().traces; ++res().nontrivial;
                unique_ptr<grammar> g[2] = { unique_ptr<grammar>(new grammar()), unique_ptr<grammar>(new grammar()) };
                gm m[2]; m[0].items.push_back("empty"); m[1].items.push_back("empty");
                rule_container rules[3]; 
                for (int i = 0; i < 3; ++i) { rules[i] = rule_container(new rule(item_container(new nonterminal(40), true)), true); for (int k = 0; k < i; ++k) *rules[i] << u[0].c; }
                auto rid = [&](int gi, int r) {
                    string t = text(*rules[r]); int want = -1; for (size_t i = 0; i < m[gi].rules.size(); ++i) if (m[gi].rules[i] == t) want = (int) i;
                    if (want < 0) { want = (int) m[gi].rules.size(); m[gi].rules.push_back(t); }
                    int got = rules[r]->identifier(*g[gi]);
                    if (got != want) violation("rule-id " + show(h), "rule " + t + " has identifier " + to_string(got) + " instead of " + to_string(want));
                };
                for (int o : h) {
                    ++res().transitions;
                    int gi = o / per, k = o % per; gm& mm = m[gi]; grammar& gr = *g[gi];
                    if (k < OPS_ITEM) {
                        item_container fresh(its[k]->c->clone(), true); int got = gr.identifier_for_item(fresh);
                        int want = -1; for (size_t i = 0; i < mm.items.size(); ++i) if (mm.items[i] == its[k]->key) want = (int) i;
                        if (want < 0) { want = (int) mm.items.size(); mm.items.push_back(its[k]->key); }
                        if (got != want) violation("item-id " + show(h), "item " + its[k]->key + " has identifier " + to_string(got) + " instead of " + to_string(want));
                        continue;
                    } k -= OPS_ITEM;
                    if (k < OPS_NAME) {
                        string nm(1, 'A' + k); bool defined = mm.names.count(nm);
                        if (gr.nonterminal_is_defined(wstring(nm.begin(), nm.end())) != defined) violation("defined " + show(h), "nonterminal " + nm + " is " + (defined ? "not " : "") + "known");
                        int got = gr.id_for_nonterminal(wstring(nm.begin(), nm.end()));
                        if (!defined) { mm.names[nm] = (int) mm.items.size(); mm.items.push_back("n" + to_string(mm.items.size())); }
                        if (got != mm.names[nm]) violation("name-id " + show(h), "nonterminal " + nm + " has identifier " + to_string(got) + " instead of " + to_string(mm.names[nm]));
                        continue;
                    } k -= OPS_NAME;
                    if (k < OPS_RULE) { rid(gi, k); continue; } k -= OPS_RULE;
                    if (k == 0) { gr = *g[1 - gi]; mm = m[1 - gi]; }
                    else if (k == 1) { rid(gi, 2); if (rules[2]->items().size() < 5) *rules[2] << u[1].c; rid(gi, 2); *rules[2] = *rules[1]; *rules[2] << *rules[1]; rid(gi, 2); }
                    else { g[gi].reset(new grammar(*g[1 - gi])); mm = m[1 - gi]; }
                }
                for (int gi = 0; gi < 2; ++gi) {
                    grammar& gr = *g[gi]; gm& mm = m[gi]; ++res().evaluations;
                    if (gr.max_item_identifier() != (int) mm.items.size()) violation("item-count " + show(h), "there are " + to_string(gr.max_item_identifier()) + " item identifiers instead of " + to_string(mm.items.size()));
                    for (size_t i = 0; i < mm.items.size(); ++i) { const item_container& c = gr.item_with_identifier((int) i); if (text(c.item()) != mm.items[i]) violation("item-for-id " + show(h), "identifier " + to_string(i) + " gives " + text(c.item()) + " instead of " + mm.items[i]); else { item_container fresh(c->clone(), true); if (gr.identifier_for_item(fresh) != (int) i) violation("item-for-id " + show(h), "the item with identifier " + to_string(i) + " has identifier " + to_string(gr.identifier_for_item(fresh))); } }
                    for (auto& n : mm.names) if (gr.name_for_nonterminal(n.second) != wstring(n.first.begin(), n.first.end())) violation("name " + show(h), "nonterminal " + n.first + " has another name");
                    if (gr.max_rule_identifier() != (int) mm.rules.size()) violation("rule-count " + show(h), "there are " + to_string(gr.max_rule_identifier()) + " rule identifiers instead of " + to_string(mm.rules.size()));
                    for (size_t i = 0; i < 3; ++i) rid(gi, (int) i);
                }
            };
            int split = depth - 3;
            function<void(int)> rec = [&](int d) {
                if (d == depth) { run(h); return; }
                if (d == split) { if (!begin_case("identifiers", index++, show(vector<int>(h.begin(), h.begin() + d)) + "...")) return; }
                for (int o = 0; o < nops; ++o) { if (d == 0 && o >= per) break; h[d] = o; rec(d + 1); }
            };
            rec(0);
        }
        // ---- item sets: histories of two sets against std::set
        if (mode == "all" || mode == "sets") {
            grammar g; vector<item_container> ids; for (int i = 1; i < 100; ++i) { item_container t(new terminal(i), true); g.identifier_for_item(t); }
            int idl[] = { 0, 1, 31, 32, 63, 64, 95 }; const int ni = th ? 7 : 6;
            int per = ni * 2 + 4, nops = per * 2, depth = th ? 5 : 4; long long index = 0; vector<int> h(depth);
            auto opname = [&](int o) { int s = o / per, k = o % per; string n(1, 'a' + s); if (k < ni) return n + ".insert(" + to_string(idl[k]) + ")"; k -= ni; if (k < ni) return n + ".erase(" + to_string(idl[k]) + ")"; k -= ni; static const char* w[] = { ".merge(other)", "=other", "=copy of other", "=empty" }; return n + w[k]; };
            auto show = [&](const vector<int>& h) { string s; for (int o : h) s += (s.empty() ? "" : "; ") + opname(o); return s; };
            auto run = [&](const vector<int>& h, int start) {
                ++res().traces; ++res().nontrivial;
                item_set s[2] = { item_set(g), item_set(&g) }; set<int> m[2];
                if (start) { s[0].insert(idl[1]); s[0].insert(idl[4]); m[0].insert(idl[1]); m[0].insert(idl[4]); s[1].insert(idl[3]); m[1].insert(idl[3]); }
                for (int o : h) {
                    ++res().transitions;
                    int i = o / per, k = o % per; item_set& a = s[i]; item_set& b = s[1 - i]; set<int>& ma = m[i]; set<int>& mb = m[1 - i];
                    if (k < ni) { bool want = ma.insert(idl[k]).second, got = (k & 1) ? a.insert(idl[k]) : a.insert(g.item_with_identifier(idl[k])); if (got != want) violation("insert " + show(h), "insert returns the wrong answer"); continue; } k -= ni;
                    if (k < ni) { bool want = ma.erase(idl[k]) > 0, got = (k & 1) ? a.erase(idl[k]) : a.erase(g.item_with_identifier(idl[k])); if (got != want) violation("erase " + show(h), "erase returns the wrong answer"); continue; } k -= ni;
                    switch (k) {
                        case 0: { size_t n = ma.size(); ma.insert(mb.begin(), mb.end()); if (a.merge(b) != (ma.size() != n)) violation("merge " + show(h), "merge returns the wrong answer"); break; }
                        case 1: a = b; ma = mb; break;
                        case 2: { item_set c(b); a = c; a = a; ma = mb; break; }
                        case 3: a = item_set(g); ma.clear(); break;
                    }
                }
                for (int i = 0; i < 2; ++i) {
                    ++res().evaluations; string w = "set " + string(1, 'a' + i);
                    if (s[i].size() != m[i].size() || s[i].empty() != m[i].empty()) violation("size " + show(h), w + " has size " + to_string(s[i].size()) + " instead of " + to_string(m[i].size()));
                    for (int x = 0; x < 99; ++x) if (s[i].contains(x) != (m[i].count(x) > 0)) { violation("contains " + show(h), w + ": wrong answer for item " + to_string(x)); break; }
                    if (s[i].contains(-1) || s[i].contains(100000)) violation("contains " + show(h), w + " contains an item that does not exist");
                    vector<int> seen; for (item_set::iterator it = s[i].begin(); it != s[i].end(); ++it) { seen.push_back(g.identifier_for_item(*it)); if (seen.size() > 100) break; }
                    if (seen != vector<int>(m[i].begin(), m[i].end())) { string got; for (int x : seen) got += " " + to_string(x); violation("iterate " + show(h), w + " iterates over" + got); }
                }
                bool same = m[0] == m[1];
                if ((s[0] == s[1]) != same || (s[1] == s[0]) != same || (s[0] != s[1]) == same) violation("equality " + show(h), same ? "two sets of the same items compare as different" : "sets of different items compare equal");
                bool l = s[0] < s[1], r = s[1] < s[0];
                if ((l && r) || (l || r) == same || (s[0] > s[1]) != r || (s[0] <= s[1]) == r || (s[0] >= s[1]) == l) violation("order " + show(h), same ? "sets of the same items are ordered" : "the order of two different sets is not consistent");
            };
            for (int start = 0; start < 2; ++start) {
                int split = depth - 2;
                function<void(int)> rec = [&](int d) {
                    if (d == depth) { run(h, start); return; }
                    if (d == split) { if (!begin_case("itemset", index++, (start ? "from {1,63},{32}: " : "") + show(vector<int>(h.begin(), h.begin() + d)) + "...")) return; }
                    for (int o = 0; o < nops; ++o) { h[d] = o; rec(d + 1); }
                };
                rec(0);
            }
            // All pairs of sets over a few identifiers: a strict total order consistent with equality, however they were made
            if (begin_case("itemset-order", 0, "all sets over 6 items, built in several ways")) {
                vector<item_set> v; vector<int> bits;
                for (int b = 0; b < 64; ++b) for (int way = 0; way < 3; ++way) { item_set x(g); if (way == 1) x.insert(96), x.erase(96); for (int k = 0; k < 6; ++k) if (b >> k & 1) x.insert(idl[way == 2 ? 5 - k : k]); int bb = 0; for (int k = 0; k < 6; ++k) if (b >> (way == 2 ? 5 - k : k) & 1) bb |= 1 << k; v.push_back(x); bits.push_back(bb); }
                for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
                    ++res().evaluations; bool eq = v[i] == v[j], lt = v[i] < v[j]; string n = to_string(bits[i]) + " , " + to_string(bits[j]);
                    if (eq != (bits[i] == bits[j])) violation("set-equality " + n, "equality differs from content");
                    if (lt && (v[j] < v[i] || eq)) violation("set-order " + n, "both ways"); if (!lt && !eq && !(v[j] < v[i])) violation("set-order " + n, "neither way");
                    if (lt) for (size_t k = 0; k < v.size(); ++k) if (v[j] < v[k] && !(v[i] < v[k])) { violation("set-order " + n, "not transitive"); break; }
                }
            }
        }
        // ---- LR(1) item sets: insertion in every order merges lookaheads
        if (mode == "all" || mode == "lr1sets") {
            grammar g; item_container t0(new terminal(0), true), t1(new terminal(1), true), t2(new terminal(2), true);
            rule_container rs[2] = { rule_container(new rule(item_container(new nonterminal(5), true)), true), rule_container(new rule(item_container(new nonterminal(5), true)), true) };
            *rs[0] << t0; *rs[1] << t0 << t1;
            struct el { int r, o; unsigned la; }; vector<el> els; for (int r = 0; r < 2; ++r) for (int o = 0; o < 2; ++o) for (unsigned la = 0; la < 4; ++la) els.push_back(el{r, o, la});
            int depth = th ? 5 : 4; long long index = 0; vector<int> h(depth);
            function<void(int)> rec = [&](int d) {
                if (d == depth) {
                    ++res().traces; ++res().nontrivial; lr::lr1_item_set s; map<pair<int,int>, unsigned> m; string hs;
                    for (int e : h) hs += " r" + to_string(els[e].r) + "@" + to_string(els[e].o) + "/" + to_string(els[e].la);
                    for (int e : h) {
                        item_set la(g); if (els[e].la & 1) la.insert(t1); if (els[e].la & 2) la.insert(t2);
                        // (an equal rule in another object, every other time)
                        rule_container r = (e & 1) ? rs[els[e].r] : rule_container(new rule(*rs[els[e].r]), true);
                        bool isNew = !m.count({els[e].r, els[e].o}); unsigned& mm = m[{els[e].r, els[e].o}]; bool change = isNew || (els[e].la & ~mm); mm |= els[e].la; ++res().transitions;
                        bool got = s.insert(lr::lr1_item_container(new lr::lr1_item(&g, r, els[e].o, la), true)).second;
                        if (got != change) violation("lr1-insert" + hs, "insert says the set " + string(got ? "changed" : "did not change"));
                    }
                    map<pair<int,int>, unsigned> got;
                    for (lr::lr1_item_set::const_iterator i = s.begin(); i != s.end(); ++i) { int r = *(*i)->rule() == *rs[0] ? 0 : 1; unsigned la = ((*i)->lookahead().contains(t1) ? 1 : 0) | ((*i)->lookahead().contains(t2) ? 2 : 0); if (!got.insert(make_pair(make_pair(r, (*i)->offset()), la)).second) violation("lr1-twice" + hs, "an item is in the set twice"); }
                    ++res().evaluations; if (got != m || s.size() != m.size()) violation("lr1-content" + hs, "the set does not hold the items inserted");
                    return;
                }
                if (d == depth - 2) if (!begin_case("lr1set", index++, "insertions")) return;
                for (int e = 0; e < (int) els.size(); ++e) { h[d] = e; rec(d + 1); }
            };
            rec(0);
        }
        // ---- terminal dictionaries
        if (mode == "all" || mode == "dictionary") {
            int depth = th ? 6 : 5; long long index = 0; vector<int> h(depth);
            enum { ADD, X, Y, XV, YV, SPLIT0, SPLIT1, SPLIT2, SPLITL, COPY, N };
            static const char* w[] = { "add", "add(x)", "add(y)", "add(x,5)", "add(y,2)", "split(0)", "split(1)", "split(2)", "split(last)", "copy" };
            function<void(int)> rec = [&](int d) {
                if (d == depth) {
                    string hs; for (int o : h) hs += string(hs.empty() ? "" : "; ") + w[o];
                    ++res().traces; terminal_dictionary t; set<int> used; map<string, int> names; map<int, string> nameOf; map<int, int> parent; int last = -1;
                    for (int o : h) {
                        ++res().transitions; int got = -1;
                        if (o == ADD) got = t.add_symbol();
                        else if (o == X || o == Y) { string n(1, o == X ? 'x' : 'y'); if (names.count(n)) return; got = t.add_symbol(wstring(n.begin(), n.end())); names[n] = got; nameOf[got] = n; }
                        else if (o == XV || o == YV) { string n(1, o == XV ? 'x' : 'y'); int v = o == XV ? 5 : 2; if (names.count(n) || used.count(v)) return; t.add_symbol(wstring(n.begin(), n.end()), v); got = v; names[n] = v; nameOf[v] = n; }
                        else if (o == COPY) { terminal_dictionary c(t); t.add_symbol(L"lost"); terminal_dictionary e; e.add_symbol(L"gone"); e = c; t = e; continue; }
                        else { int s = o == SPLITL ? last : o - SPLIT0; if (s < 0 || !used.count(s)) return; got = t.split(s); parent[got] = parent.count(s) ? parent[s] : s; }
                        if (got < 0 || used.count(got)) violation("reused " + hs, "a new symbol has the identifier of another");
                        used.insert(got); last = got;
                    }
                    ++res().evaluations; ++res().nontrivial;
                    for (int s : used) {
                        int p = parent.count(s) ? parent[s] : s;
                        if (t.parent_of(s) != p) violation("parent " + hs, "symbol " + to_string(s) + " has the wrong parent");
                        set<int> kids; for (auto& k : parent) if (k.second == s) kids.insert(k.first);
                        if (t.children_of(s) != kids) violation("children " + hs, "symbol " + to_string(s) + " has the wrong children");
                        string n = nameOf.count(s) ? nameOf[s] : nameOf.count(p) ? nameOf[p] : "";
                        if (t.name_for_symbol(s) != wstring(n.begin(), n.end())) violation("name " + hs, "symbol " + to_string(s) + " has the wrong name");
                    }
                    for (string n : { "x", "y", "lost", "gone", "" }) { int want = names.count(n) ? names[n] : -1; if (t.symbol_for_name(wstring(n.begin(), n.end())) != want) violation("symbol " + hs, "name " + n + " gives the wrong symbol"); }
                    if (t.name_for_symbol(99) != L"" || t.parent_of(99) != 99) violation("unknown " + hs, "an unknown symbol is known");
                    return;
                }
                if (d == depth - 2) if (!begin_case("dictionary", index++, "histories")) return;
                for (int o = 0; o < N; ++o) { h[d] = o; rec(d + 1); }
            };
            rec(0);
        }
    });
}
