// C16: precedence declarations and conflict attributes settle exactly the shift/reduce conflicts they are meant for.
// Ambiguous grammars with all ways of declaring precedence, associativity and conflict attributes are compiled from definition
// text. The tree of every token string is compared with that of a reference LALR(1) automaton in which the documented resolutions
// have been made; expression grammars are also compared with trees from the declared precedences alone (no automaton).
// C17 (argument lr1): the LR(1) resolver.
#include "cfg.h"
#include "compile.h"
using namespace vp; using namespace vp::cfg_model; using namespace comp;

enum { NONE, SHIFT, REDUCE, WEAK };
enum { NONASSOC, LEFT, RIGHT };
static const char* attr_text[] = { "", "[conflict=shift]", "[conflict=reduce]", "[conflict=weak reduce]" };
struct prec { int level = 0, assoc = NONASSOC; };              // Level 0: not declared

// Terminals with attributes: symbol + 16 * attribute
static gitem at(int s, int a) { return t(s + 16 * a); }
static ggram strip(const ggram& g);
static grule strip(const grule& r) { grule o; for (auto i : r) { if (i.kind == T) i.sym %= 16; for (auto& q : i.rules) q = strip(q); o.push_back(i); } return o; }
static ggram strip(const ggram& g) { ggram o; for (auto& x : g) { o.emplace_back(); for (auto& r : x) o.back().push_back(strip(r)); } return o; }

static std::string def_rule(const grule& r, const std::vector<std::string>& names);
static std::string def_item(const gitem& i, const std::vector<std::string>& names) {
    switch (i.kind) {
    case T: return names[i.sym % 16] + attr_text[i.sym / 16];
    case N: return "<" + nt_name(i.sym) + ">";
    case OPT: return "(" + def_rule(i.rules[0], names) + ")?";
    case REP: return "(" + def_rule(i.rules[0], names) + ")+";
    case STAR: return "(" + def_rule(i.rules[0], names) + ")*";
    case ALT: { std::string o = "("; for (size_t k = 0; k < i.rules.size(); ++k) o += (k ? "| " : "") + def_rule(i.rules[k], names); return o + ")"; }
    default: return "";
    }
}
static std::string def_rule(const grule& r, const std::vector<std::string>& names) { std::string o; for (auto& i : r) o += def_item(i, names) + " "; return o; }
static std::string def_grammar(const ggram& g, const std::vector<std::string>& names) {
    std::string o = "grammar { ";
    for (size_t i = 0; i < g.size(); ++i) { o += "<" + nt_name((int)i) + "> = "; for (size_t k = 0; k < g[i].size(); ++k) o += (k ? "| " : "") + def_rule(g[i][k], names); o += " "; }
    return o + "}";
}
static std::string def_precedence(const std::vector<prec>& pr, const std::vector<std::string>& names, bool always) {
    int top = 0; for (auto& p : pr) top = std::max(top, p.level);
    if (!top && !always) return "";
    std::string o = "precedence { ";
    for (int l = 1; l <= top; ++l) {
        std::string items; int as = NONASSOC, k = 0;
        for (size_t i = 0; i < pr.size(); ++i) if (pr[i].level == l) { items += names[i] + " "; as = pr[i].assoc; ++k; }
        if (!k) continue;
        o += as == LEFT ? "left " : as == RIGHT ? "right " : l % 2 ? "non-associative " : "non-assoc ";
        o += k == 1 && l % 2 ? items : "{ " + items + "} ";
    }
    return o + "}";
}

// ---- The reference: LALR(1) actions after the documented resolutions
struct machine {
    const bnf& b; lalr ref;
    struct act { bool shift = false, accept = false; std::vector<int> weak, reduce; };
    std::vector<std::map<int, act>> table;
    int shiftReduce = 0, reduceReduce = 0, resolved = 0; bool unclear = false, several = false;

    // attrs: attribute of each terminal position of each production
    // first: a rule with several declared operators has the precedence of the first one (otherwise it has none)
    machine(const bnf& g, const std::vector<std::vector<int>>& attrs, const std::vector<prec>& pr, bool first = false) : b(g), ref(g, false, 400) {
        if (ref.tooBig) return;
        auto level = [&](int s) { return s < (int)pr.size() ? pr[s].level : 0; };
        for (size_t st = 0; st < ref.kernels.size(); ++st) {
            table.emplace_back();
            lalr::iset c = ref.kernels[st]; ref.closure(c);
            for (auto& e : ref.actions((int)st)) {
                act a; a.shift = e.second.shift; a.accept = e.second.accept;
                std::set<int> red = e.second.reduce;
                if (a.shift && red.size() == 1 && level(e.first)) {
                    int op = -1, ops = 0;
                    for (int s : b.prods[*red.begin()].rhs) if (!b.is_nt(s) && level(s)) { if (!ops) op = s; ++ops; }
                    if (ops > 1) several = true;
                    if (ops == 1 || (ops > 1 && first)) {
                        if (level(e.first) < level(op)) { a.shift = false; ++resolved; }
                        else if (level(e.first) > level(op)) { red.clear(); ++resolved; }
                        else if (pr[op].assoc == RIGHT) { red.clear(); ++resolved; }
                        else if (pr[op].assoc == LEFT) { a.shift = false; ++resolved; }
                    }
                }
                if (a.shift && !red.empty()) {
                    std::set<int> at;
                    for (auto& i : c) if (i.first.p >= 0) { auto& rhs = b.prods[i.first.p].rhs; if (i.first.dot < (int)rhs.size() && rhs[i.first.dot] == e.first && attrs[i.first.p][i.first.dot]) at.insert(attrs[i.first.p][i.first.dot]); }
                    if (at.size() > 1) unclear = true;
                    int how = at.empty() ? NONE : *at.begin();
                    if (red.size() > 1 && how != NONE) unclear = true;
                    if (how == SHIFT) { red.clear(); ++resolved; }
                    if (how == REDUCE) { a.shift = false; ++resolved; }
                    if (how == WEAK) { a.weak.assign(red.begin(), red.end()); red.clear(); ++resolved; }
                }
                a.reduce.assign(red.begin(), red.end());
                if ((int)a.accept + (int)a.reduce.size() > 1 && !a.shift) ++reduceReduce;
                else if (a.shift && !a.reduce.empty()) ++shiftReduce;
                table.back()[e.first] = a;
            }
        }
    }
    struct result { bool ok = false, endless = false; std::string tree; };
    bool can_shift(std::vector<int> st, int p, int tok, int depth, bool& endless) const {
        if (depth > 40) { endless = true; return false; }
        for (size_t k = 0; k < b.prods[p].rhs.size(); ++k) st.pop_back();
        st.push_back(ref.trans[st.back()].at(b.prods[p].lhs));
        auto f = table[st.back()].find(tok);
        if (f == table[st.back()].end()) return false;
        if (f->second.shift || f->second.accept) return true;
        for (int q : f->second.weak) if (can_shift(st, q, tok, depth + 1, endless)) return true;
        for (int q : f->second.reduce) if (can_shift(st, q, tok, depth + 1, endless)) return true;
        return false;
    }
    result run(const std::vector<int>& in) const {
        result r; std::vector<int> st(1, 0); std::vector<std::string> nodes;
        size_t pos = 0; int steps = 0;
        while (true) {
            if (++steps > 300) { r.endless = true; return r; }
            int tok = pos < in.size() ? in[pos] : ref.eoi;
            auto f = table[st.back()].find(tok);
            if (f == table[st.back()].end()) return r;
            const act& a = f->second;
            int red = -1;
            for (int q : a.weak) if (can_shift(st, q, tok, 0, r.endless)) { red = q; break; }
            if (r.endless) return r;
            if (red < 0 && a.shift) { st.push_back(ref.trans[st.back()].at(tok)); nodes.push_back(t_name(tok)); ++pos; continue; }
            if (red < 0 && a.accept) { r.ok = true; r.tree = nodes.back(); return r; }
            if (red < 0 && a.reduce.empty()) return r;
            if (red < 0) red = a.reduce[0];
            auto& p = b.prods[red];
            std::string o = (p.lhs - b.terminals < 8 && b.names[p.lhs - b.terminals].size() == 1 ? b.names[p.lhs - b.terminals] : "") + "[";
            for (size_t k = 0; k < p.rhs.size(); ++k) o += (k ? " " : "") + nodes[nodes.size() - p.rhs.size() + k];
            for (size_t k = 0; k < p.rhs.size(); ++k) { nodes.pop_back(); st.pop_back(); }
            nodes.push_back(o + "]");
            auto g = ref.trans[st.back()].find(p.lhs);
            if (g == ref.trans[st.back()].end()) { r.endless = true; return r; }
            st.push_back(g->second);
        }
    }
};

static std::string tree_text(compilation& c, const util::astnode_container& n, int initial) {
    if (n->lexeme().item()) return vp::narrow(n->lexeme()->content<wchar_t>());
    std::string o;
    contextfree::item_container it = c.language->grammar()->item_with_identifier(n->item_identifier());
    if (it->type() == contextfree::item::nonterminal) { std::wstring w = c.language->grammar()->name_for_nonterminal(it->symbol()); o = vp::narrow(w.substr(1, w.size() - 2)); }
    o += "[";
    for (size_t k = 0; k < n->children().size(); ++k) o += (k ? " " : "") + tree_text(c, n->children()[k], initial);
    return o + "]";
}

struct style { std::vector<std::string> names; std::string lexer, base; bool precInBase; };
static std::vector<style> styles;

struct outcome { bool ok; std::string tree; };
static outcome real_parse(compilation& c, const std::vector<int>& in) {
    std::wstring w; for (int s : in) w += wchar_t('a' + s);
    std::wstringstream str(w);
    dfa::lexeme_stream* stream = c.lexer->get_lexer()->create_stream_from(str);
    lr::ast_parser::state* st = c.ast->create_parser(new lr::ast_parser_actions(stream), 0);
    outcome o; o.ok = st->parse();
    if (o.ok) o.tree = tree_text(c, st->get_item(), 0);
    delete st;
    return o;
}

static bool attrs_for(const ggram& g, int terms, const bnf& b, std::vector<std::vector<int>>& attrs) {
    // A grammar in which an attributed terminal is a symbol of its own has the same productions in the same order
    ggram h = g;
    std::function<void(grule&)> rec = [&](grule& r) { for (auto& i : r) { if (i.kind == T) i.sym = i.sym % 16 + terms * (i.sym / 16); for (auto& q : i.rules) rec(q); } };
    for (auto& x : h) for (auto& r : x) rec(r);
    bnf m(h, terms * 4);
    if (m.prods.size() != b.prods.size()) return false;
    attrs.clear();
    for (size_t p = 0; p < m.prods.size(); ++p) {
        if (m.prods[p].rhs.size() != b.prods[p].rhs.size()) return false;
        attrs.emplace_back();
        for (size_t k = 0; k < m.prods[p].rhs.size(); ++k) { int s = m.prods[p].rhs[k]; attrs.back().push_back(m.is_nt(s) ? 0 : s / terms); }
    }
    return true;
}

typedef std::function<std::string(const std::vector<int>&)> oracle;      // Tree of an input from the declarations alone ("" for none, "?" not judged)
static void run(const char* section, long long idx, const ggram& g, int terms, const std::vector<prec>& pr, const style& sy, const strings& S, oracle direct = oracle()) {
    if (!begin_case(section, idx)) return;
    ggram plain = strip(g);
    bnf b(plain, terms); b.analyse();
    // A literal that isn't used can't be given a precedence
    { std::string gt = def_grammar(plain, sy.names); for (size_t i = 0; i < pr.size(); ++i) if (pr[i].level && !isalpha(sy.names[i][0]) && gt.find(sy.names[i]) == std::string::npos) { count("skipped-unused-literal"); return; } }
    std::string pd = def_precedence(pr, sy.names, false);
    std::string def = sy.base.empty() ? "language L { " + sy.lexer + " " + pd + " " + def_grammar(g, sy.names) + " }"
        : "language Base { " + sy.base + " " + (sy.precInBase ? pd : "") + " } language L : Base { " + sy.lexer + " " + def_grammar(g, sy.names) + " " + (sy.precInBase ? "" : pd) + " }";
    describe(def);
    std::vector<std::vector<int>> attrs;
    if (!attrs_for(g, terms, b, attrs) || !b.all_productive()) { count("skipped-duplicates"); return; }
    machine m(b, attrs, pr), m1(b, attrs, pr, true);
    if (m.ref.tooBig) { count("skipped-big"); return; }
    if (m.unclear || m1.unclear) { count("skipped-unclear"); return; }
    // Grammars whose resolved automaton can loop are not judged
    std::vector<machine::result> want, want1;
    for (auto& in : S.all) {
        want.push_back(m.run(in)); if (want.back().endless) { count("skipped-endless"); return; }
        if (m.several) { want1.push_back(m1.run(in)); if (want1.back().endless) { count("skipped-endless"); return; } }
    }
    compilation c;
    bool ok = c.all(def, L"L", { L"<S>" });
    int sr = c.count(L"CONFLICT_SHIFT_REDUCE"), rr = c.count(L"CONFLICT_REDUCE_REDUCE");
    ++res().states;
    if (m.resolved || m1.resolved) ++res().nontrivial;
    if (m.several) count("several-operators");
    std::vector<outcome> got;
    auto judge = [&](const machine& m, const std::vector<machine::result>& want, std::string& sig, std::string& why) {
        if (m.reduceReduce ? (rr == 0 || ok) : rr != 0) { sig = "resolve-reduce " + def; why = std::to_string(rr) + " reduce/reduce conflicts reported, expected " + std::to_string(m.reduceReduce); return false; }
        if (!ok) { if (!m.reduceReduce) { sig = "resolve-rejected " + def; why = c.errors_text(); return false; } count("reduce-conflicts"); return true; }
        if (sr != m.shiftReduce) { sig = "resolve-report " + def; why = std::to_string(sr) + " shift/reduce conflicts reported, expected " + std::to_string(m.shiftReduce); return false; }
        for (size_t i = 0; i < S.all.size(); ++i) {
            if (got.size() <= i) { got.push_back(real_parse(c, S.all[i])); ++res().traces; ++res().transitions; }
            if (got[i].ok != want[i].ok || (got[i].ok && got[i].tree != want[i].tree)) { sig = "resolve " + def; why = "input " + show(S.all[i]) + " gives " + (got[i].ok ? got[i].tree : "an error") + ", expected " + (want[i].ok ? want[i].tree : "an error"); return false; }
            if (direct) { std::string d = direct(S.all[i]); if (d != "?" && d != (got[i].ok ? got[i].tree : "")) { sig = "resolve-direct " + def; why = "input " + show(S.all[i]) + " gives " + (got[i].ok ? got[i].tree : "an error") + ", but the precedences say " + (d.empty() ? "an error" : d); return false; } }
        }
        return true;
    };
    // The manual says that a rule with several operators has the precedence of the first, the code that it has none: either is accepted
    std::string sig, why, sig1, why1;
    if (!judge(m, want, sig, why) && !(m.several && judge(m1, want1, sig1, why1))) { violation(sig, why); return; }
    if (idx % 499 == 5) sample(def);
}

// ---- C17
static void lr1(const char* section, long long idx, const ggram& g, int terms, const strings& S) {
    if (!begin_case(section, idx)) return;
    bnf b(g, terms); b.analyse();
    if (!b.all_productive()) { count("skipped-unproductive"); return; }
    lalr ref(b, false, 400);
    if (ref.tooBig) { count("skipped-big"); return; }
    bool lalrOk = ref.conflict_free();
    lalr canon(b, true, 400);
    bool lr1Ok = !canon.tooBig && canon.conflict_free();
    std::string def = "language L { " + styles[0].lexer + " " + def_grammar(g, styles[0].names) + " }";
    describe(def);
    compilation c; c.sh.options[L"enable-lr1-resolver"] = { L"1" };
    bool ok = c.all(def, L"L", { L"<S>" });
    bool quiet = ok && !c.count(L"CONFLICT_SHIFT_REDUCE") && !c.count(L"CONFLICT_REDUCE_REDUCE");
    ++res().states;
    if (lalrOk && !quiet) { violation("lr1-spurious " + def, c.errors_text()); return; }
    if (quiet && !canon.tooBig && !lr1Ok) { violation("lr1-hidden " + def, "no conflict is reported but the grammar is not LR(1)"); return; }
    if (!quiet) { count(lr1Ok ? "lr1_left_unresolved" : "not_lr1"); return; }
    if (!lalrOk) { ++res().nontrivial; count("resolved"); if (!lr1Ok) count("resolved_not_lr1"); }
    languages lg(b, S, false);
    for (size_t i = 0; i < S.all.size(); ++i) {
        std::wstring w; for (int s : S.all[i]) w += wchar_t('a' + s);
        std::wstringstream str(w);
        dfa::lexeme_stream* stream = c.lexer->get_lexer()->create_stream_from(str);
        lr::ast_parser::state* st = c.ast->create_parser(new lr::ast_parser_actions(stream), 0);
        bool got = st->parse();
        std::string bad;
        if (got) {
            // A derivation with the input's tokens as its leaves
            size_t pos = 0;
            std::function<void(const util::astnode_container&)> rec = [&](const util::astnode_container& n) {
                if (n->lexeme().item()) { if (pos >= S.all[i].size() || vp::narrow(n->lexeme()->content<wchar_t>()) != t_name(S.all[i][pos])) bad = "leaves"; ++pos; return; }
                const contextfree::rule_container& rl = c.language->grammar()->rule_with_identifier(n->rule());
                if (rl->items().size() != n->children().size()) { bad = "length of a rule"; return; }
                for (size_t k = 0; k < n->children().size(); ++k) {
                    auto& ch = n->children()[k]; auto& it = rl->items()[k];
                    if (it->type() == contextfree::item::terminal ? !ch->lexeme().item() || it->symbol() != ch->lexeme()->matched() : ch->lexeme().item() || ch->item_identifier() != c.language->grammar()->identifier_for_item(it)) bad = "items of a rule";
                    rec(ch);
                }
            };
            rec(st->get_item());
            if (pos != S.all[i].size()) bad = "leaves";
        }
        delete st;
        ++res().traces; ++res().transitions;
        if (got != (bool)lg.L[0].in[i]) { violation("lr1 " + def, "input " + show(S.all[i]) + " is " + (got ? "accepted" : "rejected") + " though no conflict is reported"); return; }
        if (!bad.empty()) { violation("lr1-tree " + def, "input " + show(S.all[i]) + ": the tree is not a derivation (" + bad + ")"); return; }
    }
    if (idx % 997 == 5) sample(def);
}

static std::vector<grule> bodies(const std::vector<gitem>& syms, int lo, int hi) {
    std::vector<grule> out(1), r; size_t from = 0;
    if (lo == 0) r.push_back(out[0]);
    for (int l = 1; l <= hi; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule q = out[i]; q.push_back(s); out.push_back(q); if (l >= lo) r.push_back(q); } from = to; }
    return r;
}
static std::vector<std::vector<grule>> subsets(const std::vector<grule>& b, int lo, int hi) {
    std::vector<std::vector<grule>> out; std::vector<grule> cur;
    std::function<void(size_t)> rec = [&](size_t from) {
        if ((int)cur.size() >= lo) out.push_back(cur);
        if ((int)cur.size() == hi) return;
        for (size_t i = from; i < b.size(); ++i) { cur.push_back(b[i]); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    return out;
}
// All ways of giving the terminals in 'which' levels 0..n (without gaps, level 0 undeclared) and each level an associativity
static std::vector<std::vector<prec>> precedences(int terms, const std::vector<int>& which) {
    std::vector<std::vector<prec>> out; int k = (int)which.size();
    std::vector<int> lv(k, 0);
    std::function<void(int)> rec = [&](int i) {
        if (i == k) {
            int top = 0; for (int l : lv) top = std::max(top, l);
            for (int l = 1; l <= top; ++l) { bool used = false; for (int x : lv) used |= x == l; if (!used) return; }
            int combos = 1; for (int l = 0; l < top; ++l) combos *= 3;
            for (int q = 0; q < combos; ++q) {
                std::vector<int> as(top + 1, 0); int z = q; for (int l = 1; l <= top; ++l) { as[l] = z % 3; z /= 3; }
                std::vector<prec> p(terms); for (int x = 0; x < k; ++x) if (lv[x]) { p[which[x]].level = lv[x]; p[which[x]].assoc = as[lv[x]]; }
                out.push_back(p);
            }
            return;
        }
        for (lv[i] = 0; lv[i] <= k; ++lv[i]) rec(i + 1);
        lv[i] = 0;
    };
    rec(0);
    return out;
}

// Operands and binary operators: the tree from the precedences. "?" if the input needs an order that was not declared.
static std::string climb(const std::vector<int>& in, const std::vector<prec>& pr) {
    if (in.size() % 2 == 0) return "";
    for (size_t i = 0; i < in.size(); ++i) if ((in[i] == 0) != (i % 2 == 0)) return "";
    std::function<std::string(int, int)> rec = [&](int lo, int hi) -> std::string {
        if (lo == hi) return "S[a]";
        // The operator done last: lowest level; leftmost of a right associative level, rightmost of a left associative one
        int best = -1;
        for (int i = lo + 1; i < hi; i += 2) {
            if (!pr[in[i]].level) return "?";
            if (best < 0 || pr[in[i]].level < pr[in[best]].level) best = i;
            else if (pr[in[i]].level == pr[in[best]].level) { if (pr[in[i]].assoc == NONASSOC) return "?"; if (pr[in[i]].assoc == LEFT) best = i; }
        }
        if (hi - lo == 2) best = lo + 1;
        std::string l = rec(lo, best - 1), r = rec(best + 1, hi);
        if (l == "?" || r == "?") return "?";
        return "S[" + l + " " + t_name(in[best]) + " " + r + "]";
    };
    return rec(0, (int)in.size() - 1);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough;
        std::string which = cfg().extra.empty() ? "" : cfg().extra[0];
        case_seconds() = 60;
        styles = {
            { {"a", "b", "c", "d", "e"}, "lexer { a = 'a' b = 'b' c = 'c' d = 'd' e = 'e' }", "", false },
            { {"'a'", "'b'", "\"c\"", "'d'", "\"e\""}, "", "", false },
            { {"a", "b", "'c'", "d", "e"}, "weak keywords { e b } lexer { a = 'a' d = 'd' id = /[a-e]/ }", "lexer { x = 'x' }", false },
            { {"a", "b", "c", "d", "e"}, "", "lexer { a = 'a' b = 'b' c = 'c' d = 'd' e = 'e' }", true },
            { {"a", "b", "c", "d", "e"}, "lexer { d = 'd' e = 'e' }", "lexer { a = 'a' b = 'b' c = 'c' }", false },
        };
        gitem a = t(0), b = t(1), c = t(2), d = t(3), S_ = n(0), A = n(1), B = n(2);
        long long idx = 0;
        if (which == "lr1") {
            strings S2(2, th ? 8 : 6), S3(3, th ? 6 : 5), S4(4, th ? 6 : 5);
            for (auto& r : subsets(bodies({ a, b, A, B }, 1, 2), 1, th ? 3 : 2)) for (auto& x : { std::vector<grule>{{a}}, std::vector<grule>{{}}, std::vector<grule>{{a}, {a, A}}, std::vector<grule>{{b}, {}} }) for (auto& y : { std::vector<grule>{{a}}, std::vector<grule>{{}}, std::vector<grule>{{A}}, std::vector<grule>{{b}, {a, B}} }) lr1("small", idx++, { r, x, y }, 2, S2);
            idx = 0;
            std::vector<grule> ctx;
            for (auto& l : { a, b }) for (auto& m : { A, B }) { ctx.push_back({ l, m }); for (auto& r : { a, b, c, d }) ctx.push_back({ l, m, r }); }
            std::vector<std::vector<grule>> in = { {{a}}, {{}}, {{c}}, {{a, b}}, {{a}, {c}}, {{c, A}, {a}}, {{c, B}, {a}} };
            for (auto& x : subsets(ctx, 3, th ? 4 : 3)) for (auto& y : in) for (auto& z : in) { ++idx; if (th || idx % 2) lr1("merged", idx - 1, { x, y, z }, 4, S4); }
            for (auto& x : subsets(ctx, 4, 4)) for (int k = 0; k < (th ? 3 : 1); ++k) { auto& y = in[k * 2]; lr1("merged-4", idx++, { x, y, y }, 4, S4); }
            idx = 0;   // Items that end in further nonterminals: the reduction leads to another one
            gitem C = n(3), D = n(4);
            std::vector<grule> deep; for (auto& l : { a, b }) for (auto& m : { A, B }) for (auto& r : { a, c }) deep.push_back({ l, m, r });
            for (auto& x : subsets(deep, 2, 4)) for (auto& y : { std::vector<grule>{{C}}, std::vector<grule>{{c, C}}, std::vector<grule>{{C}, {d}} }) for (auto& z : { std::vector<grule>{{D}}, std::vector<grule>{{c, D}}, std::vector<grule>{{c, C}, {D}} })
                for (auto& p : { std::vector<grule>{{a}}, std::vector<grule>{{}}, std::vector<grule>{{a}, {b}} }) for (auto& q : { std::vector<grule>{{a}}, std::vector<grule>{{}} }) lr1("deep", idx++, { x, y, z, p, q }, 4, S4);
            idx = 0;   // Three reductions at once
            std::vector<grule> tri; for (auto& l : { a, b, c }) for (auto& m : { A, B, C }) for (auto& r : { a, b, c }) tri.push_back({ l, m, r });
            for (auto& x : subsets(tri, 3, th ? 4 : 3)) lr1("three", idx++, { x, { {d} }, { {d} }, { {d} } }, 4, S4);
            idx = 0;   // EBNF items reducing
            std::vector<gitem> e = { a, b, A, B, opt({A}), star({B}), opt({a}), rep({A}) };
            for (auto& x : bodies(e, 2, 3)) for (auto& y : bodies({ a, b, A, B }, 2, 2)) lr1("ebnf", idx++, { {x, y}, {{a}}, {{a}} }, 2, S2);
            return;
        }
        strings S3(3, th ? 8 : 6), S4(4, th ? 7 : 6), Q2(2, th ? 8 : 6), Q3(3, th ? 7 : 5), Q4(4, th ? 6 : 5);
        // Binary operators b, c over operands a, in every style; then b, c, d
        for (size_t st = 0; st < styles.size(); ++st) for (auto& p : precedences(3, { 1, 2 })) run("binary-2", idx++, { { {S_, b, S_}, {S_, c, S_}, {a} } }, 3, p, styles[st], S3, [&](const std::vector<int>& in) { return climb(in, p); });
        idx = 0;
        for (auto& p : precedences(4, { 1, 2, 3 })) run("binary-3", idx++, { { {S_, b, S_}, {S_, c, S_}, {S_, d, S_}, {a} } }, 4, p, styles[idx % styles.size()], S4, [&](const std::vector<int>& in) { return climb(in, p); });
        // Other forms of operators
        idx = 0;
        std::vector<grule> pool = { {S_, b, S_}, {S_, c, S_}, {b, S_}, {c, S_}, {S_, b}, {S_, c}, {b, S_, c}, {S_, b, b, S_}, {b, S_, S_}, {S_, S_}, {A}, {S_, b, A}, {A, c, S_} };
        for (auto& rs : subsets(pool, 1, th ? 4 : 3)) for (auto& p : precedences(3, { 1, 2 })) {
            std::vector<grule> r = rs; r.push_back({a});
            run("mixed", idx++, { r, { {a, a}, {A, b, A} } }, 3, p, styles[idx % styles.size()], Q3);
        }
        idx = 0;   // EBNF forms
        std::vector<std::vector<grule>> eb = { { {S_, alt({{b}, {c}}), S_}, {a} }, { {a, star({b, S_})} , {S_, c, S_} }, { {S_, b, S_}, {a, opt({c, S_})} }, { {rep({S_}), b}, {a}, {S_, c, S_} }, { {S_, b, S_, opt({c, S_})}, {a} }, { {b, S_, opt({c, S_})}, {a}, {S_, c, S_} } };
        for (auto& r : eb) for (auto& p : precedences(3, { 1, 2 })) run("ebnf", idx++, { r }, 3, p, styles[idx % styles.size()], Q3);
        // Conflict attributes: on every occurrence of a terminal, or on one
        idx = 0;
        auto attributed = [&](const char* sec, const ggram& g, int terms, const strings& S, const std::vector<std::vector<prec>>& ps) {
            int occ = 0; std::function<void(const grule&)> cnt = [&](const grule& r) { for (auto& i : r) { if (i.kind == T) ++occ; for (auto& q : i.rules) cnt(q); } };
            for (auto& x : g) for (auto& r : x) cnt(r);
            for (int how = SHIFT; how <= WEAK; ++how) for (int sel = -terms; sel < occ; ++sel) {
                ggram h = g; int k = 0;
                std::function<void(grule&)> mark = [&](grule& r) { for (auto& i : r) { if (i.kind == T) { if (sel < 0 ? i.sym == -1 - sel : k == sel) i.sym += 16 * how; ++k; } for (auto& q : i.rules) mark(q); } };
                for (auto& x : h) for (auto& r : x) mark(r);
                for (auto& p : ps) run(sec, idx++, h, terms, p, styles[idx % 2], S);
            }
        };
        std::vector<std::vector<prec>> nop(1, std::vector<prec>());
        for (auto& rs : subsets(bodies({ a, b, S_ }, 1, 3), 2, 2)) {
            bnf g({ rs }, 2); g.analyse(); if (!g.all_productive()) continue;
            lalr l(g, false, 400); if (l.conflict_free()) continue;
            attributed("attributes", { rs }, 2, Q2, nop);
        }
        idx = 0;
        for (auto& rs : subsets(bodies({ a, b, S_, A }, 1, 2), 2, th ? 3 : 2)) for (auto& ar : { std::vector<grule>{{a}}, std::vector<grule>{{a}, {}}, std::vector<grule>{{A, b}, {a}}, std::vector<grule>{{b, A}, {S_}} }) {
            bnf g({ rs, ar }, 2); g.analyse(); if (!g.all_productive()) continue;
            lalr l(g, false, 400); if (l.conflict_free()) continue;
            attributed("attributes-2", { rs, ar }, 2, Q2, nop);
        }
        idx = 0;
        for (auto& g : std::vector<ggram>{ { { {b, S_, c, S_}, {b, S_}, {a} } }, { { {b, S_, opt({c, S_})}, {a} } }, { { {b, S_, A}, {a} }, { {c, S_}, {} } }, { { {b, S_, star({c, S_})}, {a} } }, { { {b, S_, alt({{c, S_}, {d}})}, {b, S_}, {a} } }, { { {rep({A, c}), S_}, {A, b}, {a} }, { {a}, {a, c} } },
                { { {star({a, b}), a, c}, {S_, b, a} } }, { { {opt({a}), a, b}, {S_, a} } }, { { {A, star({b, A})}, {S_, b, c} }, { {a}, {A, b, a} } }, { { {A, S_}, {a, A}, {c} }, { {a, rep({b})}, {A, b} } } })
            attributed("statements", g, 4, Q4, nop);
        idx = 0;   // Together with precedence
        for (auto& rs : subsets(pool, 2, 2)) { std::vector<grule> r = rs; r.push_back({a}); attributed("both", { r, { {a, a} } }, 3, Q3, th ? precedences(3, { 1, 2 }) : precedences(3, { 1 })); }
    });
}
