// Regular expressions: every expression up to a size bound, alone and next to another token, compiled by the real code; the
// product of the resulting automaton with the expression's derivatives is explored to a fixed point (so all strings of every
// length are covered, not a sample).
#include "automata.h"
using namespace vp; using namespace std;

// Expression tree -> concrete syntax plus reference meaning
struct node { string text; int prec; rxp ref; };     // prec: 0 alternation, 1 concatenation, 2 postfix/atom
static rx_factory* F;

static vector<int> alphabet = { 'a', 'b', 'c' };

static vector<node> atoms(int set) {
    vector<node> r;
    rxp a = F->chr('a'), b = F->chr('b');
    auto add = [&](const char* t, rxp x) { r.push_back(node{t, 2, x}); };
    add("a", a); add("b", b);
    if (set >= 1) add("[ab]", F->chars({{'a','c'}}));
    if (set >= 2) {
        add("[^a]", F->chars({{0,'a'},{'b',0x7fffffff}}));
        add(".", F->chars({{0,0x7fffffff}}));
        add("{alt}", F->alt(F->chr('a'), F->cat(F->chr('b'), F->star(F->chr('b')))));     // a|b+
        add("{lit}", F->cat(F->chr('a'), F->cat(F->chr('|'), F->chr('b'))));              // Literal a|b
    }
    return r;
}

static string paren(const node& n, int need, bool full) { return (n.prec < need || (full && n.text.size() > 1)) ? "(" + n.text + ")" : n.text; }

static vector<vector<node>> gen(int set, int size, bool full) {
    vector<vector<node>> bySize(size + 1);
    bySize[1] = atoms(set);
    for (int n = 2; n <= size; ++n) {
        auto& out = bySize[n];
        for (auto& x : bySize[n-1]) {
            string p = paren(x, 2, full);
            out.push_back(node{p + "*", 2, F->star(x.ref)});
            out.push_back(node{p + "+", 2, F->cat(x.ref, F->star(x.ref))});
            out.push_back(node{p + "?", 2, F->alt(x.ref, F->empty())});
        }
        for (int i = 1; i <= n - 2; ++i) for (auto& x : bySize[i]) for (auto& y : bySize[n-1-i]) {
            out.push_back(node{paren(x, 1, full) + paren(y, 1, full), 1, F->cat(x.ref, y.ref)});
            out.push_back(node{paren(x, 0, full) + "|" + paren(y, 0, full), 0, F->alt(x.ref, y.ref)});
        }
    }
    return bySize;
}

static void define(dfa::ndfa_regex& n) {
    n.define_expression(string("alt"), string("a|b+"));
    n.define_expression_literal(string("lit"), string("a|b"));
}

// Explores the product of automaton and references; accept symbol i+1 belongs to refs[i]
static bool explore(const dfa::ndfa& automaton, vector<rxp> refs, const vector<int>& sigma, const string& what) {
    nfa_view v(automaton);
    typedef pair<nfa_view::states, vector<const rx*>> key;
    struct item { nfa_view::states s; vector<rxp> r; string path; };
    set<key> seen;
    deque<item> todo;
    auto push = [&](nfa_view::states s, vector<rxp> r, const string& path) {
        key k; k.first = s; for (auto& x : r) k.second.push_back(x.get());
        if (seen.insert(k).second) { todo.push_back(item{s, r, path}); ++res().states; }
    };
    push(v.start(), refs, "");
    while (!todo.empty()) {
        item i = todo.front(); todo.pop_front();
        set<int> got = v.accepts(i.s), want;
        for (size_t x = 0; x < i.r.size(); ++x) if (i.r[x]->nullable) want.insert((int)x + 1);
        if (got != want) {
            ostringstream d;
            d << what << ": after reading \"" << i.path << "\" the automaton accepts {";
            for (int g : got) d << " " << g; d << " } but the expressions denote {"; for (int g : want) d << " " << g; d << " }";
            violation(what + " input=\"" + i.path + "\"", d.str());
            return false;
        }
        bool dead = i.s.empty();
        for (auto& x : i.r) if (x->k != rx::none) dead = false;
        if (dead) continue;
        for (int c : sigma) {
            vector<rxp> nr;
            for (auto& x : i.r) nr.push_back(F->derive(x, c));
            ++res().transitions;
            push(v.step(i.s, c), nr, i.path + (char)c);
        }
    }
    return true;
}

static void check_one(const node& n, const string& companion, rxp companionRef, const vector<int>& sigma) {
    string what = "regex=/" + n.text + "/";
    if (!companion.empty()) what += " other=/" + companion + "/";
    describe(what);
    dfa::ndfa_regex nd;
    define(nd);
    nd.add_regex(0, n.text, dfa::accept_action(1));
    vector<rxp> refs; refs.push_back(n.ref);
    if (!companion.empty()) { nd.add_regex(0, companion, dfa::accept_action(2)); refs.push_back(companionRef); }
    if (!nd.check_regex(dfa::ndfa_regex::convert(wstring(n.text.begin(), n.text.end()))).empty())
        violation(what + " check_regex", "a valid expression is reported as erroneous");
    bool ok = explore(nd, refs, sigma, what);
    unique_ptr<dfa::ndfa> u(nd.to_ndfa_with_unique_symbols());
    unique_ptr<dfa::ndfa> d(u->to_dfa());
    if (ok) explore(*d, refs, sigma, what + " (as DFA)");
    ++res().traces;
    if (n.ref->k != rx::none && n.ref->k != rx::empty) ++res().nontrivial;
    sample(what + " states explored to a fixed point");
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        rx_factory fac; F = &fac;
        bool th = cfg().thorough;
        struct sec { const char* name; int set, size; bool full; int companion; };
        vector<sec> secs;
        secs.push_back(sec{"min-parens", 2, th ? 6 : 5, false, 0});
        secs.push_back(sec{"full-parens", 1, th ? 7 : 6, true, 0});
        secs.push_back(sec{"two-tokens", 1, th ? 6 : 5, false, 1});
        secs.push_back(sec{"token-after", 1, th ? 6 : 5, false, 2});
        secs.push_back(sec{"deep", 0, th ? 8 : 7, false, 0});
        for (auto& s : secs) {
            vector<vector<node>> g = gen(s.set, s.size, s.full);
            vector<int> sigma = alphabet;
            if (s.set >= 2) sigma.push_back('|');
            long long idx = 0;
            for (int n = 1; n <= s.size; ++n) for (auto& x : g[n]) {
                long long i = idx++;
                if (!begin_case(s.name, i)) continue;
                if (s.companion == 0) check_one(x, "", nullptr, sigma);
                else if (s.companion == 1) check_one(x, "ab|c*", fac.alt(fac.cat(fac.chr('a'), fac.chr('b')), fac.star(fac.chr('c'))), sigma);
                else check_one(node{"ca*b?", 1, fac.cat(fac.chr('c'), fac.cat(fac.star(fac.chr('a')), fac.alt(fac.chr('b'), fac.empty())))}, x.text, x.ref, sigma);
                if (fac.dcache.size() > 400000) { fac.dcache.clear(); }
            }
        }
    });
}
