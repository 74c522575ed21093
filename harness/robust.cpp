// C32: compiling a definition comes to an end, the same way every time. Sequences of statements, sound ones and mistakes, are put
// into a language, or spread over a language and its base, and taken through TameParse's own stages up to the generated source and
// the parsing of every short string. Every report must be at a place inside the file it names, what is reported and written must
// be the same when the text is compiled again with the free memory in another order, and no stream may stay open.
// Modes: memory (AddressSanitizer watches, one compilation), same (two compilations).
#include "compile.h"
#include <cstring>
#include <sstream>
#include "TameParse/Compiler/OutputStages/cplusplus.h"
using namespace vp; using namespace comp;

static const std::vector<const char*> menu = {
    // Symbols
    "lexer { a = \"a\" }", "lexer { b = /b+/ c = 'c' }", "weak lexer { a = \"a\" w = /[ab]/ }", "case insensitive lexer { k = \"Ab\" b = /B/ }", "keywords { a b }", "weak keywords { a c }", "ignore { sp = / +/ a = \"a\" }",
    "lexer { e = /()/ }", "lexer { e = \"\" }", "lexer { x = /{y}c?/ }", "lexer-symbols { y = /a|b/ }", "lexer-symbols { y = /{y}/ }", "lexer-symbols { y = /{z}/ z = /{y}a/ }", "lexer { a |= \"b\" }", "lexer { replace a = 'c' }", "weak keywords { replace b }", "ignore { a |= / / }",
    "lexer { r = /[/ }", "lexer { r = /(a/ }", "lexer { r = /a**/ }", "lexer { r = /{nosuch}/ }", "lexer { r = /[^a-c]/ }", "lexer { r = /[b-a]/ }", "lexer { r = /./ n = /[^]/ }", "lexer { u = /\\u{0}/ v = \"\\U00010000\" }",
    // Grammar
    "grammar { <S> = a }", "grammar { <S> = <S> a | }", "grammar { <S> = <S> }", "grammar { <S> = <U> }", "grammar { <S> |= b }", "grammar { replace <S> = b | <T> }", "grammar { <S> = (a b)* }", "grammar { <S> = (a b?)* c? }", "grammar { <S> = ((a | b)+)? c }",
    "grammar { <S> = [=> a b] a | b }", "grammar { <S> = [=> [=> a] <S>] a | a b }", "grammar { <S> = ([=> a] b)* c | [=> (a | b)+ c] <T> }", "grammar { <S> = [=> a*] b }", "grammar { <S> = \"ab\" 'c' }", "grammar { <S> = a[x] b[x] <T>[x] }", "grammar { <S> = a b[conflict=reduce] | a[conflict=shift] <T>[conflict=weak reduce] }",
    "grammar { <S> = <T> }", "grammar { <T> = <S> }", "grammar { <T> = <T> b <T> | a }", "grammar { <S> = <S> <S> | a b }", "grammar { }", "grammar { <T> = }", "grammar { <S> = nosuch sp }", "grammar { <S> = (<S>)+ }", "grammar { <S> = <P.S> <Q.T> }",
    // Precedence
    "precedence { left a right { b c } }", "precedence { left nosuch non-assoc b }", "precedence { right b left b }",
};

struct outcome { std::string reports, outputs, parses; };
static outcome compile(const std::string& text, bool& ok, const std::vector<std::wstring>& inputs, std::string& why) {
    outcome o;
    shared* sh; std::unique_ptr<compilation> c(new compilation()); sh = &c->sh;
    ok = c->all(text, L"L", { L"<S>" });
    o.reports = c->errors_text();
    std::vector<size_t> lines(1, 0); for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n') lines.push_back(i + 1);
    for (auto& e : sh->errors) {
        if (e.line < 0) continue;
        std::string at = narrow(e.id) + " at " + std::to_string(e.line) + ":" + std::to_string(e.col) + " (" + std::to_string(e.offset) + ") in " + narrow(e.file);
        if (e.file != L"main.tp") { why = at + ": there is no such file"; break; }
        if (e.line >= (int) lines.size() || e.col < 0 || e.offset < 0) { why = at + ": there is no such place"; break; }
        if (lines[e.line] + e.col != (size_t) e.offset || e.offset > (int) text.size()) { why = at + ": the parts of the position are of different places"; break; }
    }
    if (!ok && sh->errors.empty()) why = "there is no parser but nothing was reported";
    if (ok) {
        {
            compiler::output_cplusplus out(c->cc, L"main.tp", c->lexer.get(), c->language, c->lr.get(), L"out", L"out", L"");
            out.compile();
        }
        if (c->failed()) why = "no parser was written: " + c->errors_text();
        // (all but the time of day)
        for (auto& f : sh->outputs) { std::istringstream in(f.second); std::string line; o.outputs += narrow(f.first) + ":"; while (std::getline(in, line)) if (line.find("by TameParse at ") == std::string::npos) o.outputs += line + "\n"; }
        for (auto& in : inputs) { std::string t; o.parses += c->parse(in, 0, &t) ? t : std::string("no"); o.parses += "\n"; }
    }
    c->ast.reset(); c->lr.reset(); c->lexer.reset(); c->builder.reset(); c->import.reset(); c->parser.reset();
    if (sh->live && why.empty()) why = "a stream was left open";
    return o;
}

// Leaves the free memory in another order
static void stir(unsigned seed) {
    static std::vector<void*> kept;
    for (void* p : kept) free(p);
    kept.clear();
    std::vector<void*> v;
    for (int round = 0; round < 12; ++round) for (size_t sz = 16; sz <= 400; sz += 16) v.push_back(malloc(sz));
    for (size_t i = 0; i < v.size(); ++i) { seed = seed * 1103515245u + 12345u; std::swap(v[i], v[(seed >> 8) % v.size()]); }
    for (size_t i = 0; i < v.size(); ++i) if (i % 9) free(v[i]); else kept.push_back(v[i]);
}

static bool g_same;
// Guards which lead back to themselves past nothing: explored by themselves
static const int repeated_empty = -1;
static const char* statement(int p) { return p == repeated_empty ? "ignore { sp = / +/ a = \"a\" } grammar { <S> = (a?)* b }" : menu[p]; }
static bool endless(const std::vector<int>& picks) { bool g = false, back = false; for (int p : picks) { if (p == repeated_empty) return true; if (strstr(menu[p], "+ c] <T>") || strstr(menu[p], "[=> a] <S>")) g = true; if (!strcmp(menu[p], "grammar { <T> = <S> }")) back = true; } return g && back; }
static void check(const char* section, long long idx, const std::vector<int>& picks, int layout) {
    if (endless(picks) == !!strcmp(section, "endless")) return;
    if (!begin_case(section, idx)) return;
    std::string text; const char* sep = layout & 1 ? "\n" : " ";
    if (layout & 2) {
        // The first statement in the base language
        text = std::string("language L : P {") + sep; for (size_t i = 1; i < picks.size(); ++i) text += std::string(statement(picks[i])) + sep;
        text += std::string("}") + sep + "language P {" + sep + statement(picks[0]) + sep + "}";
    } else { text = std::string("language L {") + sep; for (int p : picks) text += std::string(statement(p)) + sep; text += "}"; }
    std::string desc; for (char ch : text) desc += ch == '\n' ? ' ' : ch;
    describe(desc);
    static const std::vector<std::wstring> inputs = [] { std::vector<std::wstring> o(1, L""); for (size_t i = 0; i < o.size() && o[i].size() < 3; ++i) for (wchar_t ch : { L'a', L'b', L'c', L' ' }) o.push_back(o[i] + ch); return o; }();
    bool ok; std::string why; outcome one = compile(text, ok, inputs, why);
    ++res().states; ++res().traces; res().transitions += 1 + (ok ? inputs.size() : 0);
    if (!why.empty()) { violation(std::string(section) + " " + desc, why); return; }
    if (g_same) {
        stir((unsigned) idx * 7 + 1);
        bool ok2; outcome two = compile(text, ok2, inputs, why); ++res().traces;
        if (ok != ok2 || one.reports != two.reports) { violation("reports " + desc, "first: " + one.reports + " -- then: " + two.reports); return; }
        if (one.parses != two.parses) { violation("parses " + desc, "the second parser is another one"); return; }
        if (one.outputs != two.outputs) { size_t p = 0; while (p < one.outputs.size() && p < two.outputs.size() && one.outputs[p] == two.outputs[p]) ++p; violation("written " + desc, "first: " + one.outputs.substr(p > 40 ? p - 40 : 0, 100) + " -- then: " + two.outputs.substr(p > 40 ? p - 40 : 0, 100)); return; }
    }
    if (ok) { ++res().nontrivial; count("parsers"); } else count("rejected");
    if (idx % 991 == 5) sample(desc + " :: " + (ok ? "compiles" : one.reports));
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough; g_same = !cfg().extra.empty() && cfg().extra[0] == "same"; int n = (int) menu.size();
        case_seconds() = 10;
        long long idx = 0;
        // Known to go on without end (or until the stack is full)
        int guard = 0, back = 0, frame = 0; for (int i = 0; i < n; ++i) { if (strstr(menu[i], "+ c] <T>")) guard = i; if (!strcmp(menu[i], "grammar { <T> = <S> }")) back = i; }
        check("endless", idx++, { frame, guard, back }, 0);
        check("endless", idx++, { repeated_empty }, 0);
        idx = 0;
        for (int i = 0; i < n; ++i) for (int l = 0; l < 4; ++l) check("one", idx++, { i }, l);
        idx = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < 4; ++l) check("two", idx++, { i, j }, l);
        idx = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { int l = (int) (idx % 4); if (!th && (i * 5 + j * 3 + k) % 7) { ++idx; continue; } check("three", idx++, { i, j, k }, l); }
        // A sound frame, and three statements more
        idx = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) if (th || (i * 3 + j * 5 + k) % 7 == 1) { if (i == 0 || i == 1 || j == 0 || j == 1) { ++idx; continue; } check("framed", idx, { 0, 1, i, j, k }, (int) (idx % 2)); ++idx; } else ++idx;
    });
}
