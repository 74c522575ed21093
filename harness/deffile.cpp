// C20: definition files are read exactly as the definition language says: the definition_file equals the one an independent
// reader builds, positions included, and a syntax error is reported at the first token that cannot be there.
#include "vp.h"
#include <memory>
#include "TameParse/TameParse.h"
#include "TameParse/Language/language_parser.h"
#include "TameParse/Language/formatter.h"

using namespace yy_language;

namespace ref {
    struct pos { int off = 0, line = 0, col = 0; };
    enum kind { ID, NT, RE, STR, CHR, PUN, BAD, END };
    struct tok { kind k; std::string s; pos b, e; };

    inline bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_'; }
    inline bool digit(char c) { return c >= '0' && c <= '9'; }
    // Does `body` match ([^q]|\\q)*
    inline bool quoted_body(const std::string& s, size_t b, size_t e, char q) {
        for (size_t i = b; i < e; ++i) if (s[i] == q && !(i > b && s[i - 1] == '\\')) return false;
        return true;
    }
    // Longest prefixes of the regular expressions of definition.tp (length, or 0 for none)
    inline size_t m_ident(const std::string& s, size_t i) { if (i >= s.size() || !letter(s[i])) return 0; size_t j = i + 1; while (j < s.size() && (letter(s[j]) || digit(s[j]))) ++j; return j - i; }
    inline size_t m_nt(const std::string& s, size_t i) { if (s[i] != '<') return 0; size_t n = m_ident(s, i + 1); return n && i + 1 + n < s.size() && s[i + 1 + n] == '>' ? n + 2 : 0; }
    inline size_t m_quoted(const std::string& s, size_t i, char q, size_t least) {
        if (s[i] != q) return 0;
        size_t best = 0;
        for (size_t j = i + 1; j < s.size(); ++j) if (s[j] == q) {
            if (quoted_body(s, i + 1, j, q) && j - i - 1 >= least) best = j + 1 - i;
            if (j == i + 1 || s[j - 1] != '\\') break;          // No longer body gets past an unescaped quote
        }
        return best;
    }
    inline size_t m_regex(const std::string& s, size_t i) {
        if (s[i] != '/' || i + 1 >= s.size() || s[i + 1] == '*' || s[i + 1] == '/') return 0;
        return m_quoted(s, i, '/', 1);
    }
    inline size_t m_char(const std::string& s, size_t i) {
        if (s[i] != '\'') return 0;
        size_t best = 0;
        if (i + 2 < s.size() && s[i + 2] == '\'') best = 3;
        if (i + 3 < s.size() && s[i + 1] == '\\' && s[i + 3] == '\'') best = 4;
        return best;
    }
    inline size_t m_space(const std::string& s, size_t i) { size_t j = i; while (j < s.size() && (s[j] == ' ' || s[j] == '\t')) ++j; return j - i; }
    inline size_t m_newline(const std::string& s, size_t i) { size_t j = i; while (j < s.size() && (s[j] == '\n' || s[j] == '\r')) ++j; return j - i; }
    inline size_t m_comment(const std::string& s, size_t i) { if (s.compare(i, 2, "//") != 0) return 0; size_t j = i + 2; while (j < s.size() && s[j] != '\n' && s[j] != '\r') ++j; return j - i; }
    inline size_t m_ccomment(const std::string& s, size_t i) {
        if (s.compare(i, 2, "/*") != 0) return 0;
        // Positions the body ([^*]|\*[^/])* can have reached
        std::vector<bool> at(s.size() + 1, false); at[i + 2] = true; size_t best = 0;
        for (size_t j = i + 2; j < s.size(); ++j) if (at[j]) {
            if (s.compare(j, 2, "*/") == 0) best = j + 2 - i;
            if (s[j] != '*') at[j + 1] = true;
            else if (j + 1 < s.size() && s[j + 1] != '/') at[j + 2] = true;
        }
        return best;
    }
    inline void advance(pos& p, const std::string& s, size_t from, size_t to) {
        for (size_t i = from; i < to; ++i) {
            ++p.off;
            if (s[i] == '\n') { p.col = 0; if (!(i > 0 && s[i - 1] == '\r')) ++p.line; }
            else if (s[i] == '\r') { ++p.line; p.col = 0; }
            else ++p.col;
        }
    }
    inline std::vector<tok> lex(const std::string& s) {
        static const char* puns[] = { "[=>", "|=", "!=", "{", "}", "(", ")", "[", "]", "*", "+", "?", "=", "|", ".", ":", ",", 0 };
        std::vector<tok> r; pos p;
        for (size_t i = 0; i < s.size(); ) {
            size_t best = 0; kind k = BAD; bool ignore = false;
            auto use = [&](size_t n, kind kk, bool ig) { if (n > best) { best = n; k = kk; ignore = ig; } };
            use(m_ident(s, i), ID, false); use(m_nt(s, i), NT, false); use(m_regex(s, i), RE, false); use(m_quoted(s, i, '"', 0), STR, false); use(m_char(s, i), CHR, false);
            use(m_space(s, i), PUN, true); use(m_newline(s, i), PUN, true); use(m_comment(s, i), PUN, true); use(m_ccomment(s, i), PUN, true);
            for (const char** q = puns; *q; ++q) if (s.compare(i, strlen(*q), *q) == 0) use(strlen(*q), PUN, false);
            if (!best) { best = 1; k = BAD; }
            tok t; t.k = k; t.s = s.substr(i, best); t.b = p; advance(p, s, i, i + best); t.e = p;
            if (!ignore) r.push_back(t);
            i += best;
        }
        tok e; e.k = END; e.b = e.e = p; r.push_back(e);
        return r;
    }

    inline std::string P(const pos& p) { return "@" + std::to_string(p.off) + ":" + std::to_string(p.line) + ":" + std::to_string(p.col); }
    inline std::string dequote(const std::string& s) {
        std::string r;
        for (size_t i = 1; i + 1 < s.size(); ++i) {
            if (s[i] != '\\') { r += s[i]; continue; }
            switch (s[++i]) { case 'a': r += '\a'; break; case 'e': r += '\x1b'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 'f': r += '\f'; break; case 't': r += '\t'; break; default: r += s[i]; }
        }
        return r;
    }

    struct bad { };
    struct reader {
        std::vector<tok> t; size_t i = 0; bool unsupported = false;
        explicit reader(const std::vector<tok>& toks) : t(toks) { }
        const tok& la(size_t n = 0) const { return t[std::min(i + n, t.size() - 1)]; }
        bool pun(const char* s, size_t n = 0) const { return la(n).k == PUN && la(n).s == s; }
        bool word(const char* s, size_t n = 0) const { return la(n).k == ID && la(n).s == s; }
        const tok& take() { return t[i++]; }
        const tok& last() const { return t[i - 1]; }
        tok need(kind k) { if (la().k != k) throw bad(); return take(); }
        void need(const char* s) { if (!pun(s)) throw bad(); ++i; }
        void needw(const char* s) { if (!word(s)) throw bad(); ++i; }
        std::string range(size_t from) { return i == from ? std::string() : P(t[from].b) + P(t[i - 1].e); }

        std::string file() { std::string o; while (la().k != END) o += block(); return o; }
        std::string block() {
            size_t s = i;
            if (word("language")) {
                ++i; std::string n = need(ID).s, inh;
                if (pun(":")) { ++i; inh = ":" + need(ID).s; }
                need("{"); std::string o; while (!pun("}")) o += unit(); ++i;
                return "(language " + n + inh + range(s) + o + ")\n";
            }
            if (word("import")) { ++i; std::string f = dequote(need(STR).s); return "(import " + f + range(s) + ")\n"; }
            if (word("parser")) {
                ++i; std::string n = need(ID).s; need(":"); n += ":" + need(ID).s; need("{");
                std::string o; do { o += " " + nonterminal(NULL); } while (!pun("}")); ++i;
                return "(parser " + n + range(s) + o + ")\n";
            }
            if (word("test")) {
                ++i; std::string n = need(ID).s; need("{"); std::string o; while (!pun("}")) o += testdef(); ++i;
                return "(test " + n + range(s) + o + ")\n";
            }
            throw bad();
        }
        // Reads a nonterminal: returns its name, and the language if wanted
        std::string nonterminal(std::string* lang) {
            if (la().k == ID) { std::string l = take().s; if (lang) *lang = l; need("."); }
            return need(NT).s;
        }
        std::string testdef() {
            std::string l, n = nonterminal(&l), op;
            if (pun("=") || pun("!=")) op = take().s; else if (word("from")) op = take().s; else throw bad();
            std::string o; bool first = true;
            for (;;) {
                size_t s = i; std::string id, str; pos sp;
                if (la().k == STR) { sp = la().b; str = take().s; }
                else if (la().k == ID && pun("(", 1)) { id = take().s; ++i; tok q = need(STR); sp = q.b; str = q.s; need(")"); }
                else if (first) throw bad();
                else break;
                ++sp.off; ++sp.col; first = false;
                o += " (" + l + "." + n + " " + op + " " + id + " [" + dequote(str) + "]" + range(s) + P(sp) + ")";
            }
            return o;
        }
        std::string unit() {
            if (word("grammar")) { ++i; need("{"); std::string o; while (!pun("}")) o += ntdef(); ++i; return "\n (grammar" + o + ")"; }
            if (word("precedence")) {
                size_t s = i; ++i; need("{"); std::string o;
                while (!pun("}")) {
                    std::string a;
                    if (word("left")) a = "left"; else if (word("right")) a = "right"; else if (word("non-assoc") || word("non-associative")) a = "non"; else throw bad();
                    ++i; o += " (" + a;
                    if (pun("{")) { ++i; while (!pun("}")) o += " " + item(); ++i; } else o += " " + item();
                    o += ")";
                }
                ++i; return "\n (precedence" + range(s) + o + ")";
            }
            if (word("ignore")) { ++i; return lexerblock("ignore", false, false, false, true); }
            // Modifiers: the guards look past them
            size_t j = 0; while (word("weak", j) || (word("case", j) && (word("sensitive", j + 1) || word("insensitive", j + 1)))) j += word("weak", j) ? 1 : 2;
            bool lex = word("lexer", j), key = word("keywords", j);
            bool w = false, ins = false, sen = false;
            if (lex || key) {
                for (; j; ) { if (word("weak")) { w = true; ++i; --j; } else { if (word("sensitive", 1)) sen = true; else ins = true; i += 2; j -= 2; } }
                ++i; return lexerblock(lex ? "lexer" : "keywords", w, ins, sen, key);
            }
            while (word("case")) { ++i; if (word("sensitive")) sen = true; else if (word("insensitive")) ins = true; else throw bad(); ++i; }
            needw("lexer-symbols");
            return lexerblock("lexer-symbols", false, ins, sen, false);
        }
        std::string lexerblock(const char* name, bool w, bool ins, bool sen, bool literals) {
            need("{"); std::string o;
            while (!pun("}")) {
                size_t s = i; bool rep = false, add = false;
                if (word("replace") && la(1).k == ID && pun("=", 2)) { rep = true; ++i; }
                tok n = need(ID);
                if (!rep && literals && !pun("=") && !pun("|=")) { o += "\n  (literal " + n.s + " " + n.s + range(s) + P(n.b) + ")"; continue; }
                if (pun("|=") && !rep) add = true; else if (!pun("=")) throw bad();
                ++i;
                if (la().k == ID && !rep && !add) { ++i; need("."); need(ID); unsupported = true; continue; }
                tok d = la(); const char* ty = d.k == RE ? "regex" : d.k == STR ? "string" : d.k == CHR ? "character" : NULL;
                if (!ty) throw bad();
                ++i;
                o += std::string("\n  (") + ty + (add ? " add " : rep ? " replace " : " ") + n.s + " " + d.s + range(s) + P(d.b) + ")";
            }
            ++i;
            return std::string("\n (") + name + (w ? " weak" : "") + (ins ? " insensitive" : "") + (sen ? " sensitive" : "") + o + ")";
        }
        bool starts_definition() const { return (la().k == NT && (pun("=", 1) || pun("|=", 1))) || (word("replace") && la(1).k == NT && pun("=", 2)); }
        std::string ntdef() {
            size_t s = i;
            if (!starts_definition()) throw bad();
            std::string ty = "assign";
            if (word("replace")) { ty = "replace"; ++i; }
            std::string n = take().s; if (pun("|=")) ty = "add"; ++i;
            std::string o = production();
            while (pun("|")) { ++i; o += production(); }
            return "\n  (" + ty + " " + n + range(s) + o + ")";
        }
        bool starts_item() const { return la().k == ID || la().k == NT || la().k == STR || la().k == CHR || pun("[=>") || pun("("); }
        std::string production() {
            size_t s = i; std::string o;
            while (!starts_definition() && starts_item()) o += " " + item();
            return "\n   (" + range(s) + o + ")";
        }
        // The items up to a ) or ], with alternatives
        std::string ebnf(const std::string& attr) {
            size_t s = i; std::vector<std::string> is;
            while (starts_item()) is.push_back(item());
            std::string o;
            std::string alt; bool hasalt = false;
            if (pun("|")) { ++i; hasalt = true; alt = ebnf(""); }
            std::string rg = P(t[s].b);
            if (is.size() == 1) o = is[0];
            else { o = "(seq" + rg; for (auto& x : is) o += " " + x; o += ")"; }
            if (hasalt) { o = "(alt" + attr + rg + " " + o + " " + alt + ")"; }
            return o;
        }
        std::string attributes() {
            if (!pun("[")) return "";
            ++i; std::string name, conf;
            for (;;) {
                if (word("conflict")) {
                    ++i; need("=");
                    if (word("shift")) conf = "shift"; else if (word("reduce")) conf = "reduce"; else if (word("weak")) { ++i; if (!word("reduce")) throw bad(); conf = "weak"; } else throw bad();
                    ++i;
                } else name = need(ID).s;
                if (pun(",")) { ++i; continue; }
                break;
            }
            need("]");
            return "[" + name + (conf.empty() ? "" : "/" + conf) + "]";
        }
        std::string item() {
            size_t s = i; std::string o, attr;
            if (la().k == NT) { std::string n = take().s; attr = attributes(); o = "(nt" + attr + range(s) + " ." + n + ")"; }
            else if (la().k == STR || la().k == CHR) { std::string ty = la().k == STR ? "str" : "chr", n = take().s; attr = attributes(); o = "(" + ty + attr + range(s) + " ." + n + ")"; }
            else if (la().k == ID) {
                std::string l, ty = "term", n = take().s;
                if (pun(".")) {
                    ++i; l = n;
                    if (la().k == NT) ty = "nt"; else if (la().k == STR) ty = "str"; else if (la().k == CHR) ty = "chr"; else if (la().k != ID) throw bad();
                    n = take().s;
                }
                attr = attributes(); o = "(" + ty + attr + range(s) + " " + l + "." + n + ")";
            }
            else if (pun("[=>")) {
                ++i; bool clash = false;
                if (pun("[")) { ++i; needw("can-clash"); need("]"); clash = true; }
                std::string b = ebnf(""); need("]"); attr = attributes();
                o = "(guard" + attr + (clash ? "!" : "") + " " + b + ")";
            }
            else if (pun("(")) {
                ++i;
                // The attributes come after the items
                size_t save = i; ebnf(""); need(")"); attr = attributes(); size_t end = i;
                i = save; o = ebnf(attr); i = end;
            }
            else throw bad();
            while (pun("*") || pun("+") || pun("?")) {
                std::string op = take().s; attr = attributes();
                o = "(" + op + attr + range(s) + " " + o + ")";
            }
            return o;
        }
    };
}

namespace real {
    using ref::P;
    inline std::string N(const std::wstring& w) { std::string o; for (wchar_t c : w) o += c < 256 ? (char) c : '#'; return o; }
    inline std::string P(const dfa::position& p) { return "@" + std::to_string(p.offset()) + ":" + std::to_string(p.line()) + ":" + std::to_string(p.column()); }
    // A node ending in an empty item extends to the next token: that end is as good as the end of the token before
    inline std::map<std::string, std::string>& ends() { static std::map<std::string, std::string> m; return m; }
    inline std::string R(const block* b) { std::string e = P(b->end_pos()); auto f = ends().find(e); return P(b->start_pos()) + (f == ends().end() ? e : f->second); }
    inline void tokens(const std::string& s) {
        ends().clear(); auto ts = ref::lex(s);
        for (size_t i = 1; i < ts.size(); ++i) { ends()[P(ts[i].b)] = P(ts[i - 1].e); }
        if (ts.size() > 1) ends()["@-1:-1:-1"] = P(ts[ts.size() - 2].e);
    }
    inline std::string A(const ebnf_item_attributes& a) {
        static const char* c[] = { "", "/shift", "/reduce", "/weak" };
        std::string o;
        if (!a.name.empty() || a.conflict_action != ebnf_item_attributes::conflict_notspecified) o = "[" + N(a.name) + c[a.conflict_action] + "]";
        if (a.guard_can_clash) o += "!";
        return o;
    }
    inline std::string item(ebnf_item* e) {
        std::string kids; for (auto k : *e) kids += " " + item(k);
        std::string a = A(e->attributes()), id = N(e->source_identifier()) + "." + N(e->identifier());
        switch (e->get_type()) {
        case ebnf_item::ebnf_nonterminal: return "(nt" + a + R(e) + " " + id + ")";
        case ebnf_item::ebnf_terminal: return "(term" + a + R(e) + " " + id + ")";
        case ebnf_item::ebnf_terminal_string: return "(str" + a + R(e) + " " + id + ")";
        case ebnf_item::ebnf_terminal_character: return "(chr" + a + R(e) + " " + id + ")";
        case ebnf_item::ebnf_guard: return "(guard" + a + kids + ")";
        case ebnf_item::ebnf_repeat_zero: return "(*" + a + R(e) + kids + ")";
        case ebnf_item::ebnf_repeat_one: return "(+" + a + R(e) + kids + ")";
        case ebnf_item::ebnf_optional: return "(?" + a + R(e) + kids + ")";
        case ebnf_item::ebnf_parenthesized: return "(seq" + a + P(e->start_pos()) + kids + ")";
        case ebnf_item::ebnf_alternative: return "(alt" + a + P(e->start_pos()) + kids + ")";
        }
        return "?";
    }
    inline std::string lexer(lexer_block* l, const char* name) {
        std::string o = std::string("\n (") + name + (l->is_weak() ? " weak" : "") + (l->is_case_insensitive() ? " insensitive" : "") + (l->is_case_sensitive() ? " sensitive" : "");
        for (auto d : *l) {
            static const char* ty[] = { "literal", "string", "character", "regex" };
            o += std::string("\n  (") + ty[d->get_type()] + (d->add_to_definition() ? " add" : "") + (d->replace_definition() ? " replace " : " ") + N(d->identifier()) + " " + N(d->definition()) + R(d) + P(d->definition_pos()) + ")";
        }
        return o + ")";
    }
    inline std::string production(production_definition* p) { std::string o = "\n   (" + (p->begin() == p->end() ? std::string() : R(p)); for (auto i : *p) o += " " + item(i); return o + ")"; }
    inline std::string nonterminal(nonterminal_definition* n) {
        static const char* ty[] = { "assign", "add", "replace" };
        std::string o = std::string("\n  (") + ty[n->get_type()] + " " + N(n->identifier()) + R(n);
        for (auto p : *n) o += production(p);
        return o + ")";
    }
    inline std::string unit(language_unit* u) {
        const block* in = u->any_lexer_block() ? (const block*) u->any_lexer_block() : u->grammar_definition() ? (const block*) u->grammar_definition() : (const block*) u->precedence_definition();
        if (R(u) != R(in)) return "unit " + R(u) + " is not where its content is " + R(in);
        switch (u->type()) {
        case language_unit::unit_lexer_symbols: return lexer(u->any_lexer_block(), "lexer-symbols");
        case language_unit::unit_keywords_definition: return lexer(u->any_lexer_block(), "keywords");
        case language_unit::unit_lexer_definition: return lexer(u->any_lexer_block(), "lexer");
        case language_unit::unit_ignore_definition: return lexer(u->any_lexer_block(), "ignore");
        case language_unit::unit_grammar_definition: {
            std::string o = "\n (grammar";
            for (auto n : *u->grammar_definition()) o += nonterminal(n);
            return o + ")";
        }
        case language_unit::unit_precedence_definition: {
            static const char* as[] = { "left", "right", "non" };
            std::string o = "\n (precedence" + R(u->precedence_definition());
            for (auto& p : *u->precedence_definition()) { o += std::string(" (") + as[p.assoc]; for (auto i : p.items) o += " " + item(i); o += ")"; }
            return o + ")";
        }
        default: return "?";
        }
    }
    inline std::string language(const language_block* l) {
        std::string o = "(language " + N(l->identifier()); for (auto& x : l->inherits()) o += ":" + N(x); o += R(l);
        for (auto u : *l) o += unit(u);
        return o + ")\n";
    }
    inline std::string test(const test_block* t, bool place = true) {
        std::string o = "(test " + N(t->language()) + (place ? R(t) : "");
        for (auto d : *t) { static const char* ty[] = { "=", "!=", "from" }; o += " (" + N(d->nonterminal_language()) + "." + N(d->nonterminal()) + " " + ty[d->type()] + " " + N(d->identifier()) + " [" + N(d->test_string()) + "]" + R(d) + P(d->test_string_position()) + ")"; }
        return o + ")\n";
    }
    inline std::string toplevel(const toplevel_block* b) {
        if (b->language()) return language(b->language());
        if (b->import()) return "(import " + N(b->import()->import_filename()) + R(b->import()) + ")\n";
        if (b->parser()) { auto p = b->parser(); std::string o = "(parser " + N(p->parser_name()) + ":" + N(p->language_name()) + R(p); for (auto& s : p->start_symbols()) o += " " + N(s); return o + ")\n"; }
        if (b->test()) return test(b->test());
        return "?\n";
    }
    // The objects of each class in a definition
    struct parts {
        std::vector<toplevel_block*> top; std::vector<language_block*> languages; std::vector<language_unit*> units; std::vector<lexer_block*> lexers; std::vector<lexeme_definition*> lexemes; std::vector<grammar_block*> grammars;
        std::vector<nonterminal_definition*> nonterminals; std::vector<production_definition*> productions; std::vector<ebnf_item*> items; std::vector<precedence_block*> precedences; std::vector<test_block*> tests; std::vector<parser_block*> parsers; std::vector<import_block*> imports;
        void add(ebnf_item* i) { items.push_back(i); for (auto k : *i) add(k); }
        explicit parts(const definition_file* f) {
            for (auto b : *f) {
                top.push_back(b);
                if (b->import()) imports.push_back(const_cast<import_block*>(b->import()));
                if (b->parser()) parsers.push_back(const_cast<parser_block*>(b->parser()));
                if (b->test()) tests.push_back(const_cast<test_block*>(b->test()));
                if (b->language()) { languages.push_back(const_cast<language_block*>(b->language())); for (auto u : *b->language()) {
                    units.push_back(u);
                    if (u->any_lexer_block()) { lexers.push_back(u->any_lexer_block()); for (auto d : *u->any_lexer_block()) lexemes.push_back(d); }
                    if (u->precedence_definition()) { precedences.push_back(u->precedence_definition()); for (auto& p : *u->precedence_definition()) for (auto i : p.items) add(i); }
                    if (u->grammar_definition()) { grammars.push_back(u->grammar_definition()); for (auto n : *u->grammar_definition()) { nonterminals.push_back(n); for (auto p : *n) { productions.push_back(p); for (auto i : *p) add(i); } } }
                } }
            }
        }
    };
    inline std::string grammar(grammar_block* g) { std::string o = R(g); for (auto n : *g) o += nonterminal(n); return o; }
    inline std::string precedence(precedence_block* b) { std::string o = R(b); for (auto& p : *b) { o += " (" + std::to_string((int) p.assoc); for (auto i : p.items) o += " " + item(i); o += ")"; } return o; }
    inline std::string lexeme(lexeme_definition* d) { return std::to_string(d->get_type()) + N(d->identifier()) + " " + N(d->definition()) + R(d) + P(d->definition_pos()) + (d->add_to_definition() ? "+" : "") + (d->replace_definition() ? "-" : ""); }
    inline std::string file(const definition_file* f) {
        std::string o;
        const block* first = NULL; const block* last = NULL;
        for (auto b : *f) {
            const block* in = b->language() ? (const block*) b->language() : b->import() ? (const block*) b->import() : b->parser() ? (const block*) b->parser() : (const block*) b->test();
            if (R(b) != R(in)) o += "top-level block " + R(b) + " is not where its content is ";
            if (!first) first = in;
            last = in;
            o += toplevel(b);
        }
        if (first && R(f) != P(first->start_pos()) + R(last).substr(P(last->start_pos()).size())) o += "file is not where its content is: " + R(f);
        return o;
    }
    // What the real parser says about a definition file
    template<class Text> std::string read(language_parser& p, Text&& s) {
        bool ok = p.parse(s);
        if (ok) {
            if (!p.errors().empty()) return "OK with errors";
            definition_file_container f = p.file_definition();
            return f.item() ? file(f.item()) : "NULL";
        }
        if (p.file_definition().item()) return "failed with a definition";
        std::string o;
        for (auto& e : p.errors()) o += "error " + std::to_string((int) e.sev()) + " " + N(e.filename()) + " " + N(e.identifier()) + (e.identifier() == L"SYNTAX_END_OF_FILE" ? "" : P(e.pos())) + "\n";
        return o;
    }
}

// What the reference says. errTok is the token an error is at
static std::string expected(const std::string& s, size_t* errTok = NULL, size_t* count = NULL) {
    ref::reader r(ref::lex(s));
    if (count) *count = r.t.size();
    try {
        std::string o = r.file();
        if (errTok) *errTok = r.t.size();
        return r.unsupported ? "NULL" : o;
    } catch (ref::bad) {
        if (errTok) *errTok = r.i;
        if (r.la().k == ref::END) return "error 4 f.tp SYNTAX_END_OF_FILE\n";
        return "error 4 f.tp SYNTAX_ERROR" + ref::P(r.la().b) + "\n";
    }
}
static std::wstring widen(const std::string& s) { std::wstring w; for (unsigned char c : s) w += c; return w; }
static void compare(const std::string& text, const std::string& want, const std::string& got, const char* how) {
    ++vp::res().evaluations; ++vp::res().states; ++vp::res().transitions;
    if (want == got) return;
    std::string first;
    for (size_t i = 0; i <= want.size(); ++i) if (i >= got.size() || i >= want.size() || want[i] != got[i]) { first = std::to_string(i); break; }
    vp::violation("definition " + vp::current_case() + " " + how + " differs from the definition language: " + text, "at " + first + "\nexpected:\n" + want + "\ngot:\n" + got);
}

struct context { const char* name; std::string pre, post; std::vector<std::string> words; int quick, thorough; };

int main(int argc, char** argv) {
    return vp::run_main(argc, argv, [&]() {
        bool th = vp::cfg().thorough; std::string mode = vp::cfg().extra.empty() ? "" : vp::cfg().extra[0];
        language_parser lp; lp.set_filename(L"f.tp");
        std::vector<context> cx = {
            { "top", "", "", { "language", "import", "parser", "test", "x", "\"s\"", "{", "}", ":", "<N>", "=", "." }, 6, 8 },
            { "units", "language L { ", " }", { "weak", "case", "sensitive", "insensitive", "lexer", "keywords", "lexer-symbols", "ignore", "grammar", "{", "}", "x" }, 6, 8 },
            { "lexer", "language L { lexer { ", " } }", { "x", "replace", "=", "|=", "/r/", "\"s\"", "'c'", ".", "{", "}" }, 7, 9 },
            { "symbols", "language L { lexer-symbols { ", " } }", { "y", "replace", "=", "|=", "/r/", "." }, 7, 9 },
            { "keywords", "language L { keywords { ", " } }", { "x", "replace", "=", "|=", "/r/", "\"s\"", "." }, 6, 8 },
            { "ignore", "language L { ignore { ", " } }", { "x", "replace", "=", "|=", "/r/", "'c'" }, 6, 8 },
            { "grammar", "language L { grammar { ", " } }", { "<A>", "x", "=", "|=", "|", "replace", "\"s\"", ".", "}" }, 6, 7 },
            { "items", "language L { grammar { <A> = ", " } }", { "<B>", "x", "'c'", "|", "(", ")", "*", "?", "[=>", "]", "." }, 6, 7 },
            { "attributes", "language L { grammar { <A> = <B> [", " } }", { "n", "conflict", "=", "shift", "reduce", "weak", ",", "]", "+", "[" }, 7, 9 },
            { "guards", "language L { grammar { <A> = [=> ", " } }", { "[", "can-clash", "]", "x", "|", "<B>", "[=>", "n", ")" }, 6, 8 },
            { "group", "language L { grammar { <A> = ( ", " } }", { ")", "[", "]", "n", "|", "<B>", "+", "(" }, 6, 8 },
            { "precedence", "language L { precedence { ", " } }", { "left", "right", "non-assoc", "non-associative", "'c'", "x", "{", "}", "[", "]", "*", "." }, 6, 7 },
            { "tests", "test L { ", " }", { "<A>", "=", "!=", "from", "\"s\"", "x", "(", ")", ".", "}" }, 7, 8 },
            { "parser", "parser p : L { ", " }", { "<A>", "x", ".", "}", "parser", ":" }, 6, 9 },
        };
        if (mode == "" || mode == "tokens") for (auto& c : cx) {
            long long idx = 0; int depth = th ? c.thorough : c.quick;
            // Tokens the prefix has
            size_t pretoks = ref::lex(c.pre).size() - 1;
            std::function<void(const std::string&, int)> go = [&](const std::string& seq, int n) {
                std::string text = c.pre + seq + c.post; size_t at = 0;
                std::string want = expected(text, &at);
                bool ok = want.compare(0, 5, "error") != 0;
                if (vp::begin_case((std::string("tokens-") + c.name).c_str(), idx++, text)) {
                    ++vp::res().traces; if (ok) ++vp::res().nontrivial;
                    compare(text, want, (real::tokens(text), real::read(lp, widen(text))), "read");
                    if (!c.post.empty()) { std::string t2 = c.pre + seq; compare(t2, expected(t2), (real::tokens(t2), real::read(lp, widen(t2))), "cut short"); }
                    if (ok) vp::sample(text);
                }
                if (n == depth) return;
                if (at + 1 < pretoks + n) return;                       // Wrong already, and one more token has not mattered
                for (auto& w : c.words) go(seq + " " + w, n + 1);
            };
            go("", 0);
        }
        // Layout: what is between the tokens of a valid file
        if (mode == "" || mode == "layout") {
            std::vector<std::string> gaps = { "", " ", "\n", "\t", "\r\n", "\r", "//c\n", "/* c */", "/*\n*/", "  \n\t", "\f", "//\r" };
            for (auto& c : cx) {
                long long idx = 0; int depth = th ? 6 : c.pre.find("grammar") != std::string::npos ? 4 : 5; size_t pretoks = ref::lex(c.pre).size() - 1;
                std::function<void(const std::string&, int)> go = [&](const std::string& seq, int n) {
                    std::string text = c.pre + seq + c.post; size_t at = 0; std::string want = expected(text, &at);
                    if (want.compare(0, 5, "error") != 0) {
                        std::vector<std::string> ts; for (auto& t : ref::lex(text)) if (t.k != ref::END) ts.push_back(t.s);
                        bool mine = vp::begin_case((std::string("layout-") + c.name).c_str(), idx++, text);
                        if (mine) {
                            auto one = [&](const std::string& s) { ++vp::res().traces; vp::describe(s); compare(s, expected(s), (real::tokens(s), real::read(lp, widen(s))), "laid out"); };
                            auto join = [&](size_t g, const std::string& a, size_t h, const std::string& b, const std::string& rest) { std::string s; for (size_t i = 0; i < ts.size(); ++i) { s += i == g ? a : i == h ? b : i ? rest : ""; s += ts[i]; } if (g == ts.size()) s += a; if (h == ts.size()) s += b; return s; };
                            for (size_t g = 0; g <= ts.size(); ++g) for (auto& a : gaps) one(join(g, a, 999, "", " "));
                            for (auto& a : gaps) { std::string s; for (size_t i = 0; i < ts.size(); ++i) s += a + ts[i]; one(s + a); }
                            if (th || n <= 3) for (size_t g = 0; g < ts.size(); ++g) for (auto& a : gaps) for (auto& b : gaps) one(join(g, a, g + 1, b, " "));
                        }
                    }
                    if (n == depth || at + 1 < pretoks + n) return;
                    for (auto& w : c.words) go(seq + " " + w, n + 1);
                };
                go("", 0);
            }
        }
        // Characters: what a token is
        if (mode == "" || mode == "chars") {
            struct cc { const char* name; std::string pre, post, alpha; int quick, thorough; };
            std::vector<cc> ccs = { { "regex", "language L { lexer { x = ", " y = /z/ } }", "/\\a* \n\"", 6, 7 }, { "string", "language L { lexer { x = ", " y = \"z\" } }", "\"\\a'\n/", 6, 8 }, { "character", "language L { lexer { x = ", " } }", "'\\a\n\r\"<", 5, 7 },
                { "comment", "language L { ", " }", "/* \n\ra", 7, 9 }, { "name", "language L { grammar { ", " = 'c' } }", "<>a1-_ .", 5, 7 }, { "operators", "language L { grammar { <A> = a", " } }", "[=>]|*a", 6, 7 }, { "import", "import ", "\nimport \"y\"", "\"\\nteqr", 6, 7 },
                { "test", "test L { <A> != ", " }", "\"\\na(=", 6, 7 }, { "layout", "parser p : L {", " <A> }", " \t\n\r\v<A", 5, 6 } };
            for (auto& c : ccs) {
                long long idx = 0; int depth = th ? c.thorough : c.quick;
                std::function<void(const std::string&)> go = [&](const std::string& s) {
                    std::string text = c.pre + s + c.post;
                    if (vp::begin_case((std::string("chars-") + c.name).c_str(), idx++, text)) {
                        ++vp::res().traces; std::string want = expected(text); if (want.compare(0, 5, "error") != 0) ++vp::res().nontrivial;
                        compare(text, want, (real::tokens(text), real::read(lp, widen(text))), "read");
                        std::string open = c.pre + s; compare(open, expected(open), (real::tokens(open), real::read(lp, widen(open))), "cut short");
                    }
                    if ((int) s.size() < depth) for (char ch : c.alpha) go(s + ch);
                };
                go("");
            }
        }
        // The ways of giving a file to the parser, and using one parser again
        if (mode == "" || mode == "overloads") {
            std::vector<std::string> texts = { "", "language L { }", "language L {", "import \"f\"", "language L { lexer { x = y.z } }", "language L { grammar { <A> = x (<B> | 'c')[n]* replace <B> = } }", "parser p : L { <A> } test L { <A> = \"x\" y(\"z\") }", "@", "language L { lexer { x = \"y }", "language L { keywords { a b = \"c\" } precedence { left 'x' } }", "import", "language L { grammar { <A> = [=> x }" };
            long long idx = 0;
            for (auto& a : texts) for (auto& b : texts) for (int how = 0; how < 9; ++how) {
                if (!vp::begin_case("overloads", idx++, a + " then " + b)) continue;
                language_parser p; p.set_filename(L"f.tp");
                definition_file_container keep(NULL, true); std::string kept;
                for (int k = 0; k < 2; ++k) {
                    const std::string& s = k ? b : a; int h = k ? how / 3 : how % 3; std::string got; real::tokens(s);
                    if (h == 0) got = real::read(p, widen(s)); else if (h == 1) got = real::read(p, s); else { std::stringstream str(s); bool ok; got = real::read(p, static_cast<std::istream&>(str)); (void) ok; }
                    ++vp::res().traces; compare(s, expected(s), got, h == 0 ? "wide string" : h == 1 ? "string" : "stream");
                    if (!k) { keep = p.file_definition(); kept = keep.item() ? real::file(keep.item()) : ""; }
                }
                real::tokens(a); if (keep.item()) compare(a, expected(a), real::file(keep.item()), "kept definition");
                // A copy of the definition is the same
                if (keep.item()) { std::unique_ptr<definition_file> dup(new definition_file(*keep.item())); keep = definition_file_container(NULL, true); compare(a, kept, real::file(dup.get()), "copied definition"); definition_file assigned; assigned = *dup; dup.reset(); compare(a, kept, real::file(&assigned), "assigned definition"); }
            }
            // Every part of a definition can be assigned to any other of its class, and to itself; what it held before is gone, and
            // it is not changed when the source is
            std::vector<std::string> whole = { "", "language L { }", "language L : M, N.o { lexer { x = y.z } }", "import \"f\"", "parser p : L { <A> <B> }", "test L { <A> = \"x\" y(\"z\") }", "test N.L { <A> != a(\"b\") <N.A> from f(\"c\") }",
                "language L { lexer { x = /a/ y = 'b' z = \"c\" x |= /d/ replace y = 'e' } weak lexer { w = 'w' } case insensitive lexer-symbols { q = /x/ } ignore { i = /i/ } keywords { a b = \"c\" } }",
                "language L { grammar { <A> = x (<B> | 'c')[n]* \"s\" replace <B> = } }", "language L { grammar { <A> = [=> x <B>]? y[conflict=shift] | <C>+ | <A> |= z[conflict=weak reduce] } grammar { <D> = (a b)? (c d)* (e)+ M.f <M.G> } }",
                "language L { precedence { left 'x' right { a \"b\" } non-assoc M.c } precedence { } }", "language L { precedence { left <A> } grammar { <A> = } } import \"g\" language M { ignore { } }" };
            std::vector<definition_file_container> defs;
            for (auto& w : whole) { real::tokens(w); language_parser p; p.parse(widen(w)); defs.push_back(p.file_definition()); if (!defs.back().item()) defs.back() = definition_file_container(new definition_file(), true); }
            idx = 0;
            for (size_t a = 0; a < whole.size(); ++a) for (size_t b = 0; b < whole.size(); ++b) {
                if (!vp::begin_case("assign", idx++, whole[a] + " := " + whole[b])) continue;
                real::tokens(whole[b]); ++vp::res().nontrivial;
                auto check = [&](const char* what, const std::string& want, const std::string& got) { ++vp::res().evaluations; if (want != got) vp::violation(std::string("assign ") + what + " " + whole[a] + " := " + whole[b], "expected " + want + " but got " + got); };
                { definition_file x(*defs[a].item()); { std::unique_ptr<definition_file> y(new definition_file(*defs[b].item())); x = *y; definition_file& self = x; x = self; check("file", real::file(defs[b].item()), real::file(&x)); } check("file", real::file(defs[b].item()), real::file(&x)); }
                auto each = [&](const char* what, auto of, auto text) {
                    size_t n = of(real::parts(defs[a].item())).size(), m = of(real::parts(defs[b].item())).size();
                    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                        ++vp::res().traces; definition_file x(*defs[a].item()); std::unique_ptr<definition_file> y(new definition_file(*defs[b].item()));
                        auto* to = of(real::parts(&x))[i]; auto* from = of(real::parts(y.get()))[j]; std::string want = text(from);
                        *to = *from; check(what, want, text(to)); check(what, want, text(from)); check(what, real::file(defs[b].item()), real::file(y.get()));
                        { auto& self = *to; *to = self; } check("self", want, text(to));
                        y.reset(); check(what, want, text(to));
                        { auto* c = new typename std::remove_pointer<decltype(to)>::type(*to); check("copy", want, text(c)); delete c; } check(what, want, text(to));
                    }
                };
                each("toplevel_block", [](real::parts p) { return p.top; }, [](toplevel_block* x) { return real::toplevel(x); });
                each("language_block", [](real::parts p) { return p.languages; }, [](language_block* x) { return real::language(x); });
                each("language_unit", [](real::parts p) { return p.units; }, [](language_unit* x) { return real::unit(x); });
                each("lexer_block", [](real::parts p) { return p.lexers; }, [](lexer_block* x) { return real::lexer(x, "") + real::R(x); });
                each("lexeme_definition", [](real::parts p) { return p.lexemes; }, [](lexeme_definition* x) { return real::lexeme(x); });
                each("grammar_block", [](real::parts p) { return p.grammars; }, [](grammar_block* x) { return real::grammar(x); });
                each("nonterminal_definition", [](real::parts p) { return p.nonterminals; }, [](nonterminal_definition* x) { return real::nonterminal(x); });
                each("production_definition", [](real::parts p) { return p.productions; }, [](production_definition* x) { return real::production(x); });
                each("ebnf_item", [](real::parts p) { return p.items; }, [](ebnf_item* x) { return real::item(x); });
                each("precedence_block", [](real::parts p) { return p.precedences; }, [](precedence_block* x) { return real::precedence(x); });
                each("test_block", [](real::parts p) { return p.tests; }, [](test_block* x) { return real::test(x, false); });
                each("parser_block", [](real::parts p) { return p.parsers; }, [](parser_block* x) { return real::P(x->start_pos()) + real::N(x->parser_name()) + real::N(x->language_name()) + std::to_string(x->start_symbols().size()); });
                each("import_block", [](real::parts p) { return p.imports; }, [](import_block* x) { return real::P(x->start_pos()) + real::N(x->import_filename()); });
            }
            // UTF-8: identifiers and strings beyond ASCII
            idx = 0;
            std::vector<std::pair<std::string, std::wstring>> u = { { "\xc3\xa9", L"\u00e9" }, { "\xce\xbb\xce\xbc", L"\u03bb\u03bc" }, { "\xe6\xbc\xa2", L"\u6f22" }, { "\xf0\x90\x80\x80", L"\xd800\xdc00" }, { "a", L"a" }, { "\xe2\x80\x93", L"\u2013" }, { "\xe2\x80\xbf", L"\u203f" } };
            for (auto& a : u) for (auto& b : u) {
                if (!vp::begin_case("utf8", idx++)) continue;
                std::string n = "language " + a.first + b.first + " { lexer { " + a.first + " = \"" + b.first + "\" } }"; std::wstring w = L"language " + a.second + b.second + L" { lexer { " + a.second + L" = \"" + b.second + L"\" } }";
                language_parser p, q; bool x = p.parse(n), y = q.parse(w); ++vp::res().evaluations;
                if (!x || !y) { vp::violation("definition utf8 " + n + " not read", ""); continue; }
                compare(n, real::file(q.file_definition().item()), real::file(p.file_definition().item()), "UTF-8");
                const language_block* l = (*p.file_definition()->begin())->language();
                if (l->identifier() != a.second + b.second || (*(*l->begin())->any_lexer_block()->begin())->identifier() != a.second) vp::violation("definition utf8 " + n + " misread", "");
            }
        }
    });
}
