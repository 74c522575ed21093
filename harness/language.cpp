// C21: what a language block means. Sequences of definitions (=, |=, replace; keyword, lexer, ignore and lexer-symbols blocks, weak
// or not, case sensitive or not; nonterminal definitions, attributes and precedence blocks) spread over a chain of inheriting
// languages and files are compiled by TameParse's own pipeline. An independent model works out the effective definition of every
// symbol and the mistakes; the tokens of every string are compared with the model's, and every parse with the parse made by a
// single language that states each effective definition once.
// Modes: lexer, grammar.
#include "cfg.h"
#include "compile.h"
using namespace vp; using namespace comp;

// ---- Text with one definition per line, languages possibly in files of their own
struct place { std::string file; int line, col; bool operator<(const place& p) const { return std::tie(file, line, col) < std::tie(p.file, p.line, p.col); } bool operator==(const place& p) const { return std::tie(file, line, col) == std::tie(p.file, p.line, p.col); } };
struct writer {
    std::map<std::string, std::string> text;
    std::string file = "main.tp";
    std::string tail;
    place here(int col) { int n = 0; for (char c : text[file]) if (c == '\n') ++n; return place{ file, n, col }; }
    place line(const std::string& s, int indent) { place p = here(indent); text[file] += std::string(indent, ' ') + s + "\n"; return p; }
};

struct fault { std::string id; place at; };

// ---- Lexer definitions
enum { KW, LEX, IGN, SYM };
struct lexop { int lang, kind; bool weak; int cs; int name, oper, pat; };     // cs: 0 unspecified, 1 insensitive, 2 sensitive; oper: 0 =, 1 |=, 2 replace
static const char* nm[] = { "a", "ab" };
static const char* opers[] = { "=", "|=", "=" };
static const char* pats[] = { "\"ab\"", "/[ab]/", "/b+/", "/{ab}b/", "'b'", "/a{a}?/", "" };

static std::string header(const lexop& o) {
    static const char* k[] = { "keywords", "lexer", "ignore", "lexer-symbols" };
    return std::string(o.weak ? "weak " : "") + (o.cs == 1 ? "case insensitive " : o.cs == 2 ? "case sensitive " : "") + k[o.kind];
}
static std::string body(const lexop& o) {
    if (o.pat == 6) return nm[o.name];
    return std::string(o.oper == 2 ? "replace " : "") + nm[o.name] + " " + opers[o.oper] + " " + pats[o.pat];
}
struct item_m { int pat, name; int cs; bool weak; int kind; };
struct symbol_m { int id, kind; bool weak; std::vector<item_m> items; place defined; };

struct lexmodel {
    std::map<int, symbol_m> symbols;                    // By name
    std::map<int, std::vector<item_m>> expr;
    std::vector<fault> faults;
    int nextId = 0;
    bool unjudged = false;

    static item_m item(const lexop& o) { return item_m{ o.pat, o.name, o.cs, o.weak, o.kind }; }
    void apply(const lexop& o, const place& at) {
        if (o.kind == SYM) {
            auto& e = expr[o.name];
            if (e.empty() && o.oper == 1) faults.push_back({ "MISSING_LEXER_SYMBOL_FOR_ADDING", at });
            if (e.empty() && o.oper == 2) faults.push_back({ "MISSING_LEXER_SYMBOL_FOR_REPLACING", at });
            if (!e.empty() && o.oper == 0) faults.push_back({ "DUPLICATE_LEXER_SYMBOL", at });
            if (o.oper == 2) e.clear();
            e.push_back(item(o));
            return;
        }
        auto f = symbols.find(o.name);
        if (f == symbols.end()) {
            if (o.oper == 1) { faults.push_back({ "MISSING_LEXER_SYMBOL_FOR_ADDING", at }); return; }
            if (o.oper == 2) { faults.push_back({ "MISSING_LEXER_SYMBOL_FOR_REPLACING", at }); return; }
            symbols[o.name] = symbol_m{ nextId++, o.kind, o.weak, { item(o) }, at };
            return;
        }
        symbol_m& s = f->second;
        if (o.oper == 0) { faults.push_back({ "DUPLICATE_LEXER_SYMBOL", at }); return; }
        if (o.oper == 1) {
            if (s.kind != o.kind) { faults.push_back({ "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", at }); return; }
            if (s.weak != o.weak) unjudged = true;      // Weakness of a symbol with both kinds of definition isn't specified
            s.items.push_back(item(o));
            return;
        }
        s.kind = o.kind; s.weak = o.weak; s.items = { item(o) }; s.defined = at;
    }
    // Set of lengths that the item matches at the start of s
    std::set<int> match(const item_m& i, const std::string& s, size_t from, bool ci, int depth) const {
        auto eq = [&](char c, char d) { return ci ? tolower(c) == tolower(d) : c == d; };
        std::set<int> r;
        if (from > s.size()) return r;
        std::string rest = s.substr(from);
        auto literal = [&](const std::string& l) { if (rest.size() < l.size()) return; for (size_t k = 0; k < l.size(); ++k) if (!eq(rest[k], l[k])) return; r.insert((int) l.size()); };
        auto exp = [&](int name, size_t at) {
            std::set<int> e; auto f = expr.find(name);
            if (f == expr.end() || depth > 3) return e;
            for (auto& x : f->second) { bool xc = x.cs == 1 ? true : x.cs == 2 ? false : ci; for (int l : match(x, s, at, xc, depth + 1)) e.insert(l); }
            return e;
        };
        switch (i.pat) {
        case 0: literal("ab"); break;
        case 1: if (!rest.empty() && (eq(rest[0], 'a') || eq(rest[0], 'b'))) r.insert(1); break;
        case 2: for (size_t k = 0; k < rest.size() && eq(rest[k], 'b'); ++k) r.insert((int) k + 1); break;
        case 3: for (int l : exp(1, from)) if (from + l < s.size() && eq(s[from + l], 'b')) r.insert(l + 1); break;
        case 4: literal("b"); break;
        case 5: if (!rest.empty() && eq(rest[0], 'a')) { r.insert(1); for (int l : exp(0, from + 1)) r.insert(l + 1); } break;
        case 6: literal(nm[i.name]); break;
        }
        return r;
    }
    // Every expression used is defined, and none uses itself
    bool expressions_ok(bool& cyclic) const {
        bool ok = true; cyclic = false;
        auto uses = [](int pat) { return pat == 3 ? 1 : pat == 5 ? 0 : -1; };
        auto check = [&](const item_m& i) { int u = uses(i.pat); if (u >= 0 && (!expr.count(u) || expr.at(u).empty())) ok = false; };
        for (auto& s : symbols) for (auto& i : s.second.items) check(i);
        for (auto& e : expr) for (auto& i : e.second) { check(i); }
        for (int n = 0; n < 2; ++n) {
            std::set<int> seen; std::deque<int> q{ n }; 
            while (!q.empty()) { int m = q.front(); q.pop_front(); auto f = expr.find(m); if (f == expr.end()) continue; for (auto& i : f->second) { int u = uses(i.pat); if (u == n) cyclic = true; if (u >= 0 && seen.insert(u).second) q.push_back(u); } }
        }
        return ok;
    }
    // First token of s: name and length; "ignored" for ignored symbols; length 0 if none
    std::pair<std::string, int> token(const std::string& s) const {
        std::pair<std::string, int> best("none", 0); std::tuple<int,int,int> bestRank;
        for (auto& y : symbols) for (auto& i : y.second.items) for (int l : match(i, s, 0, i.cs == 1, 0)) {
            std::tuple<int,int,int> rank(y.second.weak ? 0 : 1, y.second.kind, y.second.id);
            if (l > best.second || (l == best.second && rank < bestRank)) { best = { y.second.kind == IGN ? "ignored" : nm[y.first], l }; bestRank = rank; }
        }
        return best;
    }
    // One language that defines each symbol once
    std::string flat() const {
        std::string o;
        for (auto& e : expr) { bool first = true; for (auto& i : e.second) { lexop p{ 0, SYM, false, i.cs, e.first, first ? 0 : 1, i.pat }; o += header(p) + " { " + body(p) + " } "; first = false; } }
        std::vector<const std::pair<const int, symbol_m>*> order;
        for (auto& y : symbols) order.push_back(&y);
        std::sort(order.begin(), order.end(), [](const std::pair<const int, symbol_m>* x, const std::pair<const int, symbol_m>* y) { return x->second.id < y->second.id; });
        for (auto* y : order) { bool first = true; for (auto& i : y->second.items) { lexop p{ 0, y->second.kind, y->second.weak, i.cs, y->first, first ? 0 : 1, i.pat }; o += header(p) + " { " + body(p) + " } "; first = false; } }
        return o;
    }
};

static std::string show_faults(const std::vector<fault>& f) { std::string o; for (auto& x : f) o += x.id + "@" + x.at.file + ":" + std::to_string(x.at.line) + ":" + std::to_string(x.at.col) + " "; return o.empty() ? "none" : o; }

static std::string errors_of(const compilation& c) { return c.errors_text(); }
static const std::set<std::string> notes = { "UNUSED_TERMINAL_SYMBOL", "SYMBOL_CANNOT_BE_GENERATED", "SYMBOL_CLASHES_WITH", "IMPLICIT_LEXER_SYMBOL" };

// Compares reported errors with the model's: the first mistake must be reported where it is, and nothing may be reported when there's none
// (cascades: definitions after the mistake depend on what it defined, and may be reported as well)
static bool check_faults(const std::string& desc, compilation& c, const std::vector<fault>& faults, bool cascades = false) {
    std::set<std::pair<std::string, place>> got;
    for (auto& e : c.sh.errors) if (e.sev >= compiler::error::sev_error) got.insert({ narrow(e.id), place{ narrow(e.file), e.line, e.col } });
    if (faults.empty()) {
        if (!got.empty() || c.failed()) { violation("spurious " + desc, "no mistake in the definition, but: " + errors_of(c)); return false; }
        return true;
    }
    for (size_t i = 0; i < faults.size(); ++i) {
        if (i > 0 && faults.size() > 1) break;
        if (!got.count({ faults[i].id, faults[i].at })) { violation("missing " + desc, "expected " + show_faults(faults) + ", reported: " + errors_of(c)); return false; }
    }
    if (faults.size() == 1 && !cascades && got.size() != 1) { violation("extra " + desc, "expected only " + show_faults(faults) + ", reported: " + errors_of(c)); return false; }
    if (!c.failed()) { violation("exit " + desc, "mistakes were reported but the exit code says success"); return false; }
    return true;
}

static const char* langs[] = { "L0", "L1", "L2", "L3" };

static void names_tree(compilation& c, const util::astnode_container& n, std::string& o) {
    if (!n.item()) { o += "NULL"; return; }
    if (n->lexeme().item()) {
        std::wstring txt = n->lexeme()->content<wchar_t>();
        int s = n->lexeme()->matched();
        o += "<" + narrow(c.language->terminals()->name_for_symbol(s)) + ":" + narrow(txt) + ">";
        return;
    }
    contextfree::item_container it = c.language->grammar()->item_with_identifier(n->item_identifier());
    o += it->type() == contextfree::item::nonterminal ? narrow(c.language->grammar()->name_for_nonterminal(it->symbol())) : std::string("e");
    o += "(";
    for (auto& k : n->children()) names_tree(c, k, o);
    o += ")";
}
static std::string parse_named(compilation& c, const std::string& in) {
    std::wstringstream str(wide(in));
    dfa::lexeme_stream* stream = c.lexer->get_lexer()->create_stream_from(str);
    lr::ast_parser::state* st = c.ast->create_parser(new lr::ast_parser_actions(stream), 0);
    std::string tree = "rejected";
    if (st->parse()) { tree.clear(); names_tree(c, st->get_item(), tree); }
    delete st;
    return tree;
}

static std::vector<std::string> all_strings(const std::string& alphabet, int maxLen) {
    std::vector<std::string> r{ "" }; size_t from = 0;
    for (int l = 0; l < maxLen; ++l) { size_t to = r.size(); for (size_t i = from; i < to; ++i) for (char ch : alphabet) r.push_back(r[i] + ch); from = to; }
    return r;
}

// Splits languages over files: with files, every language but the last is in a file of its own, imported by the next
static void open_language(writer& w, int l, int last, bool files) {
    w.file = files && l < last ? std::string("lang") + char('0' + l) + ".tp" : "main.tp";
    if (files && l > 0) w.line(std::string("import \"lang") + char('0' + l - 1) + ".tp\"", 0);
    w.line(std::string("language ") + langs[l] + (l ? std::string(" : ") + langs[l - 1] : "") + " {", 0);
}

static void lex_case(const char* section, long long idx, const std::vector<lexop>& ops, bool files, bool grammar) {
    if (!begin_case(section, idx)) return;
    int last = ops.back().lang;
    // Definitions of one name in blocks of several kinds of one language: the order in which these are looked at isn't specified
    for (auto& x : ops) for (auto& y : ops) if (x.lang == y.lang && x.name == y.name && x.kind != SYM && y.kind != SYM && (x.kind != y.kind || x.weak != y.weak) && !(x.oper == 0 && y.oper == 0)) { count("unspecified-order"); return; }
    writer w; lexmodel m;
    std::vector<place> at(ops.size());
    size_t k = 0;
    for (int l = 0; l <= last; ++l) {
        open_language(w, l, last, files);
        while (k < ops.size() && ops[k].lang == l) {
            std::string h = header(ops[k]);
            w.line(h + " {", 2);
            do { at[k] = w.line(body(ops[k]), 4); ++k; } while ((idx & 1) && k < ops.size() && ops[k].lang == l && header(ops[k]) == h);
            w.line("}", 2);
        }
        if (l == last) w.line(grammar ? "grammar { <S> = <T>* <T> = a ab | ab ab | a }" : "grammar { <S> = }", 2);
        w.line("}", 0);
    }
    // Effects: lexer-symbols first, then weak before strong, keywords, lexer and ignore in turn
    for (int l = 0; l <= last; ++l) {
        for (size_t i = 0; i < ops.size(); ++i) if (ops[i].lang == l && ops[i].kind == SYM) m.apply(ops[i], at[i]);
        for (int wk = 1; wk >= 0; --wk) for (int kind = KW; kind <= IGN; ++kind) for (size_t i = 0; i < ops.size(); ++i) if (ops[i].lang == l && ops[i].kind == kind && (int) ops[i].weak == wk) m.apply(ops[i], at[i]);
    }
    std::string desc;
    for (auto& f : w.text) { desc += f.first + ": "; for (char c : f.second) desc += c == '\n' ? ' ' : c; desc += " "; }
    { std::string o; for (char c : desc) if (c != ' ' || o.empty() || o.back() != ' ') o += c; desc = o; }
    describe(desc);
    if (m.unjudged) { count("unspecified-weakness"); return; }
    if (grammar && m.faults.empty() && (!m.symbols.count(0) || !m.symbols.count(1))) { count("undeclared-keyword"); return; }

    compilation c;
    for (auto& f : w.text) c.sh.files[wide(f.first)] = f.second;
    bool built = c.load("") && c.build_languages();
    ++res().states; res().transitions += ops.size();
    // Errors about the same name in languages that come after the one with the mistake are its consequences
    bool cascades = false;
    if (!m.faults.empty()) for (size_t i = 0; i < ops.size(); ++i) if (at[i] == m.faults[0].at) for (auto& y : ops) cascades |= y.lang > ops[i].lang && y.name == ops[i].name;
    if (!check_faults(desc, c, m.faults, cascades)) return;
    if (!built) { count("mistaken"); return; }
    if (!c.build_language(wide(langs[last]))) { violation("nolang " + desc, "language not found"); return; }
    bool cyclic; bool ok = m.expressions_ok(cyclic);
    if (cyclic) { count("cyclic-expression"); return; }
    built = c.build_lexer(wide(langs[last]));
    if (!ok) {
        bool bad = c.count(L"BAD_REGULAR_EXPRESSION") > 0 && c.failed();
        if (!bad) violation("badregex " + desc, "an undefined lexer symbol is used, but: " + errors_of(c));
        return;
    }
    if (!built || !check_faults(desc, c, {})) { if (c.sh.errors.empty() || !built) violation("lexer " + desc, "no lexer: " + errors_of(c)); return; }
    // Tokens
    static std::vector<std::string> strings = all_strings("abB", 3);
    const std::set<int>& ign = *c.language->ignored_symbols();
    for (auto& s : strings) {
        std::wstringstream str(wide(s));
        dfa::lexeme_stream* ls = c.lexer->get_lexer()->create_stream_from(str);
        dfa::lexeme* lm = NULL; *ls >> lm;
        std::pair<std::string, int> want = m.token(s), got("none", 0);
        if (lm && lm->matched() >= 0) {
            int sym = c.language->terminals()->parent_of(lm->matched());
            got = { ign.count(sym) ? "ignored" : narrow(c.language->terminals()->name_for_symbol(sym)), (int) lm->content<wchar_t>().size() };
        }
        delete lm; delete ls;
        ++res().traces; ++res().evaluations;
        if (got != want) { violation("token " + desc, "'" + s + "' starts with " + got.first + " of length " + std::to_string(got.second) + " instead of " + want.first + " of length " + std::to_string(want.second)); return; }
    }
    // Weak symbols
    std::set<std::string> weakWant, weakGot;
    for (auto& y : m.symbols) if (y.second.weak) weakWant.insert(nm[y.first]);
    for (int s : *c.language->weak_symbols()) weakGot.insert(narrow(c.language->terminals()->name_for_symbol(s)));
    if (weakWant != weakGot) { violation("weakset " + desc, "the weak symbols are not the ones defined in weak blocks"); return; }
    ++res().nontrivial;
    if (idx % 997 == 5) sample(desc);
    if (!grammar) return;
    // Parses: as a single language with one definition of everything
    bool p1 = c.build_parser(wide(langs[last]), { L"<S>" });
    compilation f;
    std::string flat = "language F { " + m.flat() + " grammar { <S> = <T>* <T> = a ab | ab ab | a } }";
    bool p2 = f.all(flat, L"F", { L"<S>" });
    if (p1 != p2) { violation("parser " + desc, std::string(p1 ? "compiles but its equivalent doesn't: " : "doesn't compile but its equivalent does: ") + flat + " " + errors_of(c) + " / " + errors_of(f)); return; }
    if (!p1) return;
    for (auto& s : strings) {
        std::string x = parse_named(c, s), y = parse_named(f, s);
        ++res().traces;
        if (x != y) { violation("parse " + desc, "'" + s + "': " + x + ", but " + y + " for the equivalent " + flat); return; }
    }
}

static void lexer_mode(bool th) {
    std::vector<lexop> base;                    // Without pattern
    struct kd { int kind; bool weak; };
    std::vector<kd> kinds = { {KW, false}, {KW, true}, {LEX, false}, {LEX, true}, {IGN, false}, {SYM, false} };
    for (int n = 0; n < 2; ++n) for (auto& kd : kinds) for (int o = 0; o < 3; ++o) base.push_back(lexop{ 0, kd.kind, kd.weak, 0, n, o, 0 });
    auto with_pats = [&](const std::vector<lexop>& b, const std::vector<int>& pats, const std::vector<int>& css) {
        std::vector<lexop> r;
        for (auto o : b) for (int p : pats) for (int cs : css) {
            if (p == 6 && (o.oper != 0 || o.kind == SYM || o.kind == LEX)) continue;
            if (cs && o.kind == IGN) continue;
            o.pat = p; o.cs = cs; r.push_back(o);
        }
        return r;
    };
    long long idx = 0;
    auto p1 = with_pats(base, { 0, 1, 2, 3, 4, 5, 6 }, { 0, 1, 2 });
    for (auto& x : p1) lex_case("one", idx++, { x }, false, false);
    idx = 0;
    auto p2 = with_pats(base, th ? std::vector<int>{ 0, 1, 2, 3, 4, 5, 6 } : std::vector<int>{ 1, 3, 0 }, { 0, 1, 2 });
    auto p2b = with_pats(base, th ? std::vector<int>{ 0, 1, 2, 3, 6 } : std::vector<int>{ 2, 0, 6 }, { 0, 1 });
    for (auto& x : p2) { if (x.oper) continue; for (auto y : p2b) for (int split = 0; split < 2; ++split) { y.lang = split; lex_case("two", idx++, { x, y }, split && (idx & 2), false); } }
    // Three definitions
    idx = 0;
    static const int splits[][3] = { {0,0,0}, {0,0,1}, {0,1,1}, {0,1,2} };
    std::vector<std::vector<int>> patsets = { { 0, 1, 2 }, { 1, 2, 3 } };
    if (th) { patsets.push_back({ 6, 1, 0 }); patsets.push_back({ 1, 5, 2 }); patsets.push_back({ 4, 0, 1 }); patsets.push_back({ 2, 3, 0 }); }
    for (auto& ps : patsets) for (auto x : base) {
        if (x.oper) continue;
        for (auto y : base) for (auto z : base) for (auto& sp : splits) {
            x.pat = ps[0]; y.pat = ps[1]; z.pat = ps[2];
            if ((x.pat == 6 && (x.kind == SYM || x.kind == LEX)) || (y.pat == 6 && (y.oper || y.kind == SYM || y.kind == LEX))) continue;
            y.lang = sp[1]; z.lang = sp[2];
            // Without anything to add to or replace, later definitions are covered above
            if (!th && y.oper && (y.name != x.name || (y.kind == SYM) != (x.kind == SYM))) continue;
            if (!th && z.oper && !((z.name == x.name && (z.kind == SYM) == (x.kind == SYM)) || (!y.oper && z.name == y.name && (z.kind == SYM) == (y.kind == SYM)))) continue;
            lex_case("three", idx++, { x, y, z }, sp[2] && (idx & 2), false);
        }
    }
    // Both symbols used by a grammar, then changed: three or four definitions
    idx = 0;
    for (auto x : base) for (auto y : base) {
        if (x.oper || y.oper || x.kind == SYM || y.kind == SYM || x.name != 0 || y.name != 1) continue;
        for (auto z : base) {
            if (!z.oper || z.kind == SYM) continue;
            for (int zl = 0; zl < 2; ++zl) for (int pp = 0; pp < 3; ++pp) {
                static const int pt[3][3] = { { 1, 2, 0 }, { 4, 0, 1 }, { 0, 1, 2 } };
                x.pat = pt[pp][0]; y.pat = pt[pp][1]; z.pat = pt[pp][2]; z.lang = zl;
                lex_case("used", idx++, { x, y, z }, zl && (idx & 2), true);
                if (!th && pp) continue;
                for (auto v : base) { if (!v.oper || v.kind == SYM) continue; v.pat = 4; v.lang = 1; lex_case("used-twice", idx++, { x, y, z, v }, false, true); if (th) { v.lang = zl + 1; lex_case("used-chain", idx++, { x, y, z, v }, true, true); } }
            }
        }
    }
}

// ---- Grammars
struct gramop { int lang, nt, oper, prod; };        // nt: 0 S, 1 A; 2 is a precedence block (prod chooses it)
static const char* ntn[] = { "S", "A" };
struct prod_m { std::string text; bool usesA; };
static const std::vector<prod_m> prods = {
    { "'a' <S>", false }, { "<A> 'b'", true }, { "", false }, { "<S> '+' <S>", false }, { "<A>", true }, { "'a'", false },
    { "<A>? 'c'", true }, { "'a' <A>[conflict=reduce]", true }, { "<S>[conflict=shift] 'a'", false }, { "[=> 'a' 'b'] 'a' <A>", true }, { "'a' | 'b' <S>", false }, { "'c' 'a' | <A> <A>", true },
};
static const char* precs[] = { "precedence { left { '+' } }", "precedence { right { '+' 'a' } }", "precedence { non-assoc { '+' } left { 'b' } }" };

static void gram_case(const char* section, long long idx, const std::vector<gramop>& ops, bool files) {
    if (!begin_case(section, idx)) return;
    int last = ops.back().lang;
    writer w; std::vector<place> at(ops.size()); std::vector<fault> faults;
    std::vector<std::vector<std::string>> eff(2); std::vector<std::string> prec;
    std::map<int, place> firstUse; bool uses[2] = { false, false };
    std::set<int> undefinedIn;
    const std::string lexer = "lexer { '+' = '+' 'a' = 'a' 'b' = 'b' 'c' = 'c' }";
    size_t k = 0;
    for (int l = 0; l <= last; ++l) {
        open_language(w, l, last, files);
        if (l == 0) w.line("grammar { <Z> = 'a' 'b' 'c' '+' }", 2);
        while (k < ops.size() && ops[k].lang == l) {
            const gramop& o = ops[k];
            if (o.nt == 2) { w.line(precs[o.prod], 2); prec.push_back(precs[o.prod]); ++k; continue; }
            w.line("grammar {", 2);
            do {
                const gramop& o = ops[k];
                std::string t = std::string(o.oper == 2 ? "replace " : "") + "<" + ntn[o.nt] + "> " + opers[o.oper] + " ";
                at[k] = w.line(t + prods[o.prod].text, 4);
                if (o.oper == 0 && !eff[o.nt].empty()) faults.push_back({ "DUPLICATE_NONTERMINAL_DEFINITION", at[k] });
                if (o.oper == 2) eff[o.nt].clear();
                eff[o.nt].push_back(prods[o.prod].text);
                if (prods[o.prod].usesA) { size_t p = prods[o.prod].text.find("<A>"); if (!uses[1]) firstUse[1] = place{ at[k].file, at[k].line, (int) (4 + t.size() + p) }; uses[1] = true; }
                if (prods[o.prod].text.find("<S>") != std::string::npos) { size_t p = prods[o.prod].text.find("<S>"); if (!uses[0]) firstUse[0] = place{ at[k].file, at[k].line, (int) (4 + t.size() + p) }; uses[0] = true; }
                ++k;
            } while ((idx & 1) && k < ops.size() && ops[k].lang == l && ops[k].nt != 2);
            w.line("}", 2);
        }
        w.line("}", 0);
        for (int n = 0; n < 2; ++n) if (uses[n] && eff[n].empty()) { if (undefinedIn.insert(n).second) faults.push_back({ "UNDEFINED_NONTERMINAL", firstUse[n] }); }
    }
    std::string desc;
    for (auto& f : w.text) { desc += f.first + ": "; for (char c : f.second) desc += c == '\n' ? ' ' : c; desc += " "; }
    { std::string o; for (char c : desc) if (c != ' ' || o.empty() || o.back() != ' ') o += c; desc = o; }
    describe(desc);
    compilation c;
    for (auto& f : w.text) c.sh.files[wide(f.first)] = f.second;
    bool built = c.load("") && c.build_languages();
    ++res().states; res().transitions += ops.size();
    if (!check_faults(desc, c, faults)) return;
    if (!built) { count("mistaken"); return; }
    if (eff[0].empty()) { count("no-start"); return; }
    c.sh.options[L"allow-reduce-conflicts"] = { L"1" };
    bool p1 = c.build_language(wide(langs[last])) && c.build_lexer(wide(langs[last])) && c.build_parser(wide(langs[last]), { L"<S>" });
    std::string flat = "language F { grammar { <Z> = 'a' 'b' 'c' '+' ";
    // Nonterminals are numbered in the order in which they're met; conflicts are resolved without regard to it
    for (int n = 0; n < 2; ++n) { for (size_t i = 0; i < eff[n].size(); ++i) flat += (i ? " | " : std::string("<") + ntn[n] + "> = ") + eff[n][i]; flat += " "; }
    flat += "} "; for (auto& p : prec) flat += p + " "; flat += "}";
    compilation f; f.sh.options[L"allow-reduce-conflicts"] = { L"1" };
    bool p2 = f.all(flat, L"F", { L"<S>" });
    if (p1 != p2) { violation("parser " + desc, std::string(p1 ? "compiles but its equivalent doesn't: " : "doesn't compile but its equivalent does: ") + flat + " " + errors_of(c) + " / " + errors_of(f)); return; }
    if (!p1) { count("rejected"); return; }
    bool rr = f.count(L"CONFLICT_REDUCE_REDUCE") > 0;
    if (c.count(L"CONFLICT_REDUCE_REDUCE") != f.count(L"CONFLICT_REDUCE_REDUCE") || c.count(L"CONFLICT_SHIFT_REDUCE") != f.count(L"CONFLICT_SHIFT_REDUCE")) { violation("conflicts " + desc, "other conflicts than the equivalent " + flat + ": " + errors_of(c) + " / " + errors_of(f)); return; }
    if (rr) { count("reduce-reduce"); return; }          // Which rule wins isn't specified by the definition
    static std::vector<std::string> strings = all_strings("ab+c", cfg().thorough ? 5 : 4);
    bool some = false;
    for (auto& s : strings) {
        std::string x = parse_named(c, s), y = parse_named(f, s);
        ++res().traces; ++res().evaluations;
        if (x != "rejected") some = true;
        if (x != y) { violation("parse " + desc, "'" + s + "': " + x + ", but " + y + " for the equivalent " + flat); return; }
    }
    if (some) ++res().nontrivial;
    if (idx % 997 == 5) sample(desc);
}

static void grammar_mode(bool th) {
    std::vector<gramop> all;
    for (int n = 0; n < 2; ++n) for (int o = 0; o < 3; ++o) for (size_t p = 0; p < prods.size(); ++p) all.push_back(gramop{ 0, n, o, (int) p });
    for (int p = 0; p < 3; ++p) all.push_back(gramop{ 0, 2, 0, p });
    long long idx = 0;
    for (auto& x : all) gram_case("one", idx++, { x }, false);
    idx = 0;
    for (auto& x : all) for (auto y : all) for (int s = 0; s < 2; ++s) { y.lang = s; gram_case("two", idx++, { x, y }, s && (idx & 2)); }
    idx = 0;
    static const int splits[][3] = { {0,0,0}, {0,0,1}, {0,1,1}, {0,1,2} };
    for (auto& x : all) {
        if (x.oper || x.nt == 2) continue;
        for (auto y : all) for (auto z : all) {
            if (!th && ((x.prod + 2 * y.prod + 3 * z.prod + y.oper) % 3 || (y.oper == 0 && y.nt == x.nt))) continue;
            int from = th ? 0 : (int) (idx % 4), to = th ? 4 : from + 1;
            for (int s = from; s < to; ++s) { y.lang = splits[s][1]; z.lang = splits[s][2]; gram_case("three", idx++, { x, y, z }, z.lang && (idx & 2)); }
        }
    }
    // S and A defined, then both changed
    idx = 0;
    for (auto& x : all) for (auto& y : all) {
        if (x.oper || y.oper || x.nt != 0 || y.nt != 1) continue;
        if (!th && (x.prod + y.prod) % 4) continue;
        for (auto z : all) for (auto v : all) {
            if ((!z.oper && z.nt != 2) || (!v.oper && v.nt != 2)) continue;
            if (!th && (z.prod * 5 + v.prod + x.prod) % 7) continue;
            z.lang = 1; v.lang = 1 + (int) (idx & 1);
            gram_case("changed", idx++, { x, y, z, v }, (idx & 4) != 0);
        }
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough;
        case_seconds() = 60;
        std::string mode = cfg().extra.empty() ? "lexer" : cfg().extra[0];
        if (mode == "lexer") lexer_mode(th);
        if (mode == "grammar") grammar_mode(th);
    });
}
