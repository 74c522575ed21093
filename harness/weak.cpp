// (with the argument "ignored": C15, an ignored symbol is skipped wherever the grammar cannot use it)
// C14: a weak symbol is taken as itself exactly where the grammar can use it, and as its strong equivalent elsewhere.
// Every grammar of the bounded families is compiled from definition text under every lexical configuration that declares weak
// symbols; every token string is parsed by the real lexer and parser and compared with the resolution of each token by viable
// prefixes of the grammar's (independently computed) language.
#include "cfg.h"
#include "compile.h"
using namespace vp; using namespace vp::cfg_model; using namespace comp;

struct text_class { std::string text; int weak, strong; bool ignore = false; };       // Symbols the text can be: -1 none, -2 ignored; ignored if it can be neither?
struct config_t {
    std::string name, pre, lexer, post;                             // Inherited language, lexer blocks, text between tokens
    std::vector<std::string> names;                                 // Terminal names
    std::vector<text_class> texts;
    std::string sep;
};

static std::string def_rule(const grule& r, const std::vector<std::string>& names) {
    std::string o;
    for (auto& i : r) o += (i.kind == T ? names[i.sym] : "<" + nt_name(i.sym) + ">") + " ";
    return o;
}
static std::string def_grammar(const ggram& g, const std::vector<std::string>& names) {
    std::string o = "grammar { ";
    for (size_t i = 0; i < g.size(); ++i) { o += "<" + nt_name((int)i) + "> = "; for (size_t k = 0; k < g[i].size(); ++k) o += (k ? "| " : "") + def_rule(g[i][k], names); o += "\n"; }
    return o + "}";
}

static void leaves(compilation& c, const util::astnode_container& n, std::string& out, bool& bad) {
    if (!n.item()) { bad = true; return; }
    if (n->lexeme().item()) {
        int s = n->lexeme()->matched();
        out += vp::narrow(c.language->terminals()->name_for_symbol(s)) + " ";
        return;
    }
    for (auto& k : n->children()) leaves(c, k, out, bad);
}

static std::vector<config_t> configs;

// Is there a state in which the weak symbol w has several weak reductions?
static bool two_weak_reductions(compilation& c) {
    int w = c.language->terminals()->symbol_for_name(L"w");
    const lr::parser_tables& tb = *c.lr->get_tables();
    for (int st = 0; st < tb.count_states(); ++st) {
        int k = 0;
        for (auto a = tb.find_terminal(st, w); a != tb.last_terminal_action(st) && a->symbolId == w; ++a) k += a->type == lr::lr_action::act_weakreduce;
        if (k > 1) return true;
    }
    return false;
}

static void run(const char* section, long long idx, const ggram& g, int terms, const config_t& cf, const strings& S) {
    if (!begin_case(section, idx)) return;
    bnf b(g, terms); b.analyse();
    // Every terminal the grammar uses must be generated by the lexer
    lalr ref(b, false, 400);
    if (ref.tooBig || !ref.conflict_free() || !b.all_productive()) { count("skipped-conflicts"); return; }
    std::string def = cf.pre + "language L " + (cf.pre.empty() ? "" : ": Base ") + "{ " + cf.lexer + " " + def_grammar(g, cf.names) + " }";
    std::string desc = cf.name + " " + text(g) + " :: " + def;
    describe(desc);
    compilation c;
    if (!c.all(def, L"L", { L"<S>" })) { violation("weak definition rejected " + desc, c.errors_text()); return; }
    for (auto& e : c.sh.errors) if (e.id.find(L"CONFLICT") != std::wstring::npos) { violation("weak conflict " + desc, "a conflict is reported for a grammar that has none: " + c.errors_text()); return; }
    languages lg(b, S, true);
    const lang& L = lg.L[0]; const lang& P = lg.P[0];
    ++res().states;
    bool interesting = false;
    // Token strings, breadth first: those whose prefix is viable
    struct node { std::string input; std::vector<int> resolved; std::string names; int n; };
    std::deque<node> todo; todo.push_back(node{"", {}, "", 0});
    while (!todo.empty()) {
        node cur = todo.front(); todo.pop_front();
        // Judge the string itself
        bool dead = cur.n < 0;
        bool want = !dead && L.in[S.index(cur.resolved)];
        std::wstring in = wide(cur.input);
        std::wstringstream str(in);
        dfa::lexeme_stream* stream = c.lexer->get_lexer()->create_stream_from(str);
        lr::ast_parser::state* st = c.ast->create_parser(new lr::ast_parser_actions(stream), 0);
        bool got = st->parse();
        std::string lv; bool bad = false;
        if (got) leaves(c, st->get_item(), lv, bad);
        delete st;
        ++res().traces; ++res().transitions;
        if (got != want) { violation("weak " + desc, "input '" + cur.input + "' is " + (got ? "accepted" : "rejected") + " but should be " + (want ? "accepted as " + cur.names : "rejected (as " + cur.names + ")")); return; }
        if (got && lv != cur.names) { violation((two_weak_reductions(c) ? "two weak reductions " : "weak symbols ") + desc, "input '" + cur.input + "' is parsed as " + lv + "instead of " + cur.names); return; }
        if (dead || (int)cur.resolved.size() >= S.maxLen - 1 || cur.n >= S.maxLen) continue;
        for (auto& tc : cf.texts) {
            node nx = cur; ++nx.n;
            nx.input += tc.text + cf.sep;
            auto viable = [&](int s) { std::vector<int> r = cur.resolved; r.push_back(s); return (bool)P.in[S.index(r)]; };
            int as = -1;
            if (tc.weak >= 0 && tc.weak < terms && viable(tc.weak)) { as = tc.weak; if (tc.strong != -1) interesting = true; }
            else if (tc.strong == -2) { todo.push_back(nx); continue; }
            else if (tc.strong >= 0 && tc.strong < terms && viable(tc.strong)) { as = tc.strong; if (tc.weak >= 0) interesting = true; }
            if (as < 0 && tc.ignore) { todo.push_back(nx); continue; }
            if (as < 0) { nx.n = -1; nx.names += "(" + tc.text + "?)"; }
            else { nx.resolved.push_back(as); nx.names += cf.names[as] + " "; }
            todo.push_back(nx);
        }
    }
    if (interesting) ++res().nontrivial;
    if (idx % 997 == 5) sample(desc);
}

static std::vector<grule> bodies(const std::vector<gitem>& syms, int maxLen) {
    std::vector<grule> out(1); size_t from = 0;
    for (int l = 1; l <= maxLen; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule r = out[i]; r.push_back(s); out.push_back(r); } from = to; }
    return out;
}
static std::vector<std::vector<grule>> subsets(const std::vector<grule>& b, int lo, int hi) {
    std::vector<std::vector<grule>> out; std::vector<grule> cur;
    std::function<void(size_t)> rec = [&](size_t from) {
        if ((int)cur.size() >= lo) out.push_back(cur);
        if ((int)cur.size() == hi) return;
        for (size_t i = from; i < b.size(); ++i) { cur.push_back(b[i]); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    return out;
}

static void body() {
    bool th = cfg().thorough;
    std::string which = cfg().extra.empty() ? "" : cfg().extra[0];
    // Terminals 0 (weak), 1 (strong), 2, 3
    configs = {
        { "keyword", "", "weak keywords { w } lexer { s = /[a-z]+/ a = /[0-9]+/ b = '+' } ignore { ws = / +/ }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"k", -1, 1}, {"1", -1, 2}, {"+", -1, 3} }, " " },
        { "literal", "", "lexer { s = /[a-z]/ a = /[0-9]/ b = '+' }", "", { "\"w\"", "s", "a", "b" }, { {"w", 0, 1}, {"k", -1, 1}, {"1", -1, 2}, {"+", -1, 3} }, "" },
        { "pattern", "", "weak lexer { w = /[wx]/ } lexer { s = /[w-z]/ a = /[0-9]/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"x", 0, 1}, {"z", -1, 1}, {"1", -1, 2}, {"+", -1, 3} }, "" },
        { "two-weak", "", "weak lexer { w = /w/ a = /v/ } lexer { s = /[v-z]/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"v", 2, 1}, {"z", -1, 1}, {"+", -1, 3} }, "" },
        { "two-strong", "", "weak lexer { w = /[wv]/ } lexer { s = /[ws]/ a = /[va]/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"v", 0, 2}, {"s", -1, 1}, {"a", -1, 2}, {"+", -1, 3} }, "" },
        { "partly-strong", "", "weak lexer { w = /[wv]/ } lexer { s = /[ws]/ a = /a/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"v", 0, -1}, {"s", -1, 1}, {"a", -1, 2}, {"+", -1, 3} }, "" },
        { "strong-or-ignored", "", "weak lexer { w = /[wv]/ } lexer { s = /[ws]/ a = /a/ b = '+' } ignore { i = /[iv]/ }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"v", 0, -2}, {"i", -1, -2}, {"s", -1, 1}, {"a", -1, 2}, {"+", -1, 3} }, "" },
        { "no-strong", "", "weak lexer { w = /w/ } lexer { s = /s/ a = /a/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, -1}, {"s", -1, 1}, {"a", -1, 2}, {"+", -1, 3} }, "" },
        { "priority", "", "lexer { a = /[a-z]/ } weak keywords { w } keywords { s = /[wk]/ } lexer { b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"k", -1, 1}, {"z", -1, 2}, {"+", -1, 3} }, "" },
        { "inherited", "language Base { lexer { a = /[a-z]/ b = '+' } }\n", "weak keywords { w } keywords { s = /[wk]/ }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"k", -1, 1}, {"z", -1, 2}, {"+", -1, 3} }, "" },
        { "ignored", "", "weak lexer { w = /w/ } lexer { s = /s/ a = /a/ b = '+' } ignore { i = /[iw]/ }", "", { "w", "s", "a", "b" }, { {"w", 0, -2}, {"i", -1, -2}, {"s", -1, 1}, {"a", -1, 2}, {"+", -1, 3} }, "" },
        { "weak-over-weak", "", "weak keywords { w } weak lexer { a = /[wv]/ } lexer { s = /[a-z]/ b = '+' }", "", { "w", "s", "a", "b" }, { {"w", 0, 1}, {"v", 2, 1}, {"k", -1, 1}, {"+", -1, 3} }, "" },
    };
    if (which == "ignored") {
        // As above with the weak symbol's part played by an ignored symbol (1) that the grammar may also use
        which = cfg().extra.size() > 1 ? cfg().extra[1] : "";
        std::vector<std::string> nm = { "w", "s", "a", "b" };
        configs = {
            { "ignored", "", "lexer { w = /w/ a = /[0-9]/ b = '+' } ignore { s = /s/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "two-ignored", "", "lexer { w = /w/ a = /[0-9]/ b = '+' } ignore { s = /s/ i = /i/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"i", -1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "unused-first", "", "ignore { i = /i/ j = /j/ s = /s/ } lexer { w = /w/ a = /[0-9]/ b = '+' }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"i", -1, -2}, {"j", -1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "both-used", "", "lexer { w = /w/ b = '+' } ignore { s = /s/ a = /[0-9]/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"1", 2, -2}, {"+", -1, 3} }, "" },
            { "inherited", "language Base { ignore { i = /i/ } lexer { b = '+' } }\n", "lexer { w = /w/ a = /[0-9]/ } ignore { s = /s/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"i", -1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "inherited-used", "language Base { ignore { s = /s/ i = /i/ } lexer { b = '+' } }\n", "lexer { w = /w/ a = /[0-9]/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"i", -1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "added-to", "", "ignore { s = /s/ } lexer { w = /w/ a = /[0-9]/ b = '+' } ignore { s |= /t/ }", "", nm, { {"w", -1, 0}, {"s", 1, -2}, {"t", 1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "weak-keyword", "", "weak keywords { w } ignore { s = /[vw]/ } lexer { a = /[0-9]/ b = '+' }", "", nm, { {"w", 0, 1, true}, {"v", 1, -2}, {"1", -1, 2}, {"+", -1, 3} }, "" },
            { "all-weak", "", "weak lexer { w = /w/ a = /[0-9]/ b = '+' } ignore { s = /s/ }", "", nm, { {"w", 0, -1}, {"s", 1, -2}, {"1", 2, -1}, {"+", 3, -1} }, "" },
        };
    }
    int len = configs[0].name == "ignored" ? (th ? 5 : 4) : (th ? 6 : 5);
    strings S3(3, len), S4(4, len);
    gitem w = t(0), s = t(1), a = t(2), b = t(3), A = n(1), B = n(2), Sx = n(0);
    long long idx = 0;
    for (auto& cf : configs) {
        if (!which.empty() && cf.name != which) continue;
        std::string sec = "one-" + cf.name; idx = 0;
        for (auto& r : subsets(bodies({ w, s, a, Sx }, 2), 1, th ? 4 : 3)) run(sec.c_str(), idx++, { r }, 3, cf, S3);
        sec = "two-" + cf.name; idx = 0;
        auto sr = subsets(bodies({ w, s, a, A }, 3), 1, 1), ar = subsets(bodies({ w, s, a }, th ? 2 : 1), 1, 2);
        { auto more = subsets(bodies({ w, s, A }, 2), 2, 2); sr.insert(sr.end(), more.begin(), more.end()); }
        for (auto& x : sr) for (auto& y : ar) run(sec.c_str(), idx++, { x, y }, 3, cf, S3);
        sec = "merged-" + cf.name; idx = 0;
        // Left contexts that lead to the same LALR state with different right contexts
        std::vector<grule> ctx;
        for (auto& l : { a, b }) for (auto& m : { A, B }) { ctx.push_back({ l, m }); for (auto& r : { w, s, a }) ctx.push_back({ l, m, r }); }
        std::vector<std::vector<grule>> in = { {{a}}, {{a, s}}, {{a, w}}, {{}}, {{s}}, {{w}}, {{a}, {a, s}}, {{a}, {w}} };
        for (auto& x : subsets(ctx, 3, th ? 4 : 3)) for (auto& y : in) for (auto& z : in) { ++idx; if (th || configs[0].name != "ignored" || idx % 5 < 2) run(sec.c_str(), idx - 1, { x, y, z }, 4, cf, S4); }
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, body); }
