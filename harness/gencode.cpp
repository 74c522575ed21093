// C27: the C++ that TameParse writes is the parser that TameParse runs. Definitions are compiled by TameParse's own stages and
// output_cplusplus writes the parser; this is compiled with the C++ compiler in batches, loaded into this process, and run on every
// string up to a length. The trees of generated classes are compared with those of the tool's own ast_parser.
// link: dynamic
#include "cfg.h"
#include "compile.h"
#include "gennode.h"
#include "TameParse/Compiler/OutputStages/cplusplus.h"
#include <dlfcn.h>
#include <fstream>
#include <regex>
#include <dirent.h>
using namespace vp; using namespace vp::cfg_model; using namespace comp;

// ---- Definition text
static std::string def_item(const gitem& i);
static std::string def_rule(const grule& r) { std::string o; for (auto& i : r) o += def_item(i) + " "; return o; }
static std::string def_item(const gitem& i) {
    switch (i.kind) {
    case T: return t_name(i.sym);
    case N: return "<" + nt_name(i.sym) + ">";
    case OPT: return "(" + def_rule(i.rules[0]) + ")?";
    case REP: return "(" + def_rule(i.rules[0]) + ")+";
    case STAR: return "(" + def_rule(i.rules[0]) + ")*";
    case GUARD: return "[=> " + def_rule(i.rules[0]) + "]";
    case ALT: { std::string o = "("; for (size_t k = 0; k < i.rules.size(); ++k) o += (k ? "| " : "") + def_rule(i.rules[k]); return o + ")"; }
    }
    return "";
}
static std::string def_grammar(const ggram& g) {
    std::string o = "grammar { ";
    for (size_t i = 0; i < g.size(); ++i) { o += "<" + nt_name((int)i) + "> = "; for (size_t k = 0; k < g[i].size(); ++k) o += (k ? "| " : "") + def_rule(g[i][k]); o += " "; }
    return o + "}";
}
static std::vector<grule> bodies(const std::vector<gitem>& syms, int lo, int hi) {
    std::vector<grule> out(1), r; size_t from = 0;
    if (lo == 0) r.push_back(out[0]);
    for (int l = 1; l <= hi; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule q = out[i]; q.push_back(s); out.push_back(q); if (l >= lo) r.push_back(q); } from = to; }
    return r;
}
static std::vector<std::wstring> words(const std::wstring& alphabet, int maxLen) {
    std::vector<std::wstring> r{ L"" }; size_t from = 0;
    for (int l = 0; l < maxLen; ++l) { size_t to = r.size(); for (size_t i = from; i < to; ++i) for (wchar_t ch : alphabet) r.push_back(r[i] + ch); from = to; }
    return r;
}

// ---- A case waiting for the compiler
struct job {
    std::string section, desc, def, cls = "P", space, prefix; long long idx, number;
    std::vector<std::wstring> starts, inputs;
    std::map<std::string, std::string> names;               // "nonterminal/alternative/item" (numbers from 0): the member expected for it
    std::map<std::string, std::string> options;
    std::unique_ptr<compilation> c;
    std::string header, source;
    bool alone = false;                                     // Compiled by itself: nothing is included before it
};
static std::vector<std::unique_ptr<job>> g_pending;
static size_t g_batch = 24;
static std::string g_dir;
static int g_files = 0;

static void select(const job& j) {
    if (!page()) return;
    page()->index = j.idx; page()->caseNumber = j.number;
    strncpy(page()->section, j.section.c_str(), sizeof(page()->section) - 1); strncpy(page()->desc, j.desc.c_str(), sizeof(page()->desc) - 1);
}
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str()); o << s; }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string cid(const job& j) { std::string c = j.cls; for (char& ch : c) if (ch == '-') ch = '_'; return j.space.empty() ? "yy_" + c : "yy_" + j.space + "::yy_" + c; }

// ---- The code which walks over a tree of generated classes: it's written from the declarations in the generated header
struct gclass { std::string name, base; std::vector<std::pair<std::string, std::string>> members; bool list = false; };
static std::vector<gclass> classes_of(const std::string& header) {
    std::vector<gclass> r; std::stringstream in(header); std::string l;
    std::regex cls("^\\s*class\\s+(\\w+)\\s*:\\s*public\\s+(\\w+)"), mem("syntax_ptr<\\s*(?:class\\s+)?(\\w+)\\s*>\\s*(\\w+)\\s*;"); std::smatch m;
    while (std::getline(in, l)) {
        size_t k = l.find("//"); if (k != std::string::npos) l.erase(k);
        if (std::regex_search(l, m, cls)) { gclass c; c.name = m[1]; c.base = m[2]; r.push_back(c); continue; }
        if (r.empty() || l.find('(') != std::string::npos) { if (l.find("class parser_actions") != std::string::npos) break; continue; }
        if (l.find("class parser_actions") != std::string::npos) break;
        if (l.find("node_type") != std::string::npos && l.find("typedef") != std::string::npos) { r.back().list = true; continue; }
        if (l.find("typedef") == std::string::npos && std::regex_search(l, m, mem)) r.back().members.push_back({ m[1], m[2] });
    }
    return r;
}
static std::string walker(const job& j, const std::string& fn) {
    std::string C = cid(j), o; auto cls = classes_of(j.header);
    o += "static void at(gnode& g, const dfa::position& a, const dfa::position& b) { g.at[0] = a.offset(); g.at[1] = a.line(); g.at[2] = a.column(); g.at[3] = b.offset(); g.at[4] = b.line(); g.at[5] = b.column(); }\n";
    for (auto& c : cls) if (c.base != "parser_actions" && c.name != "terminal") o += "static gnode walk(const " + C + "::" + c.name + "* n);\n";
    o += "template<class X> static gnode go(const X* n) { if (typeid(*n) != typeid(X)) { gnode g; g.wrong = std::string(typeid(*n).name()) + \" where there should be \" + typeid(X).name(); return g; } return walk(n); }\n";
    for (auto& c : cls) {
        if (c.name == "terminal") continue;
        o += "static gnode walk(const " + C + "::" + c.name + "* n) { gnode g; g.cls = \"" + c.name + "\"; at(g, n->pos(), n->final_pos());\n";
        if (c.base == "terminal") o += "  g.kind = 1; std::wstring w = n->content<wchar_t>(); for (wchar_t x : w) { char b[16]; if (x > 32 && x < 127) g.text += (char) x; else { snprintf(b, sizeof b, \"{%x}\", (unsigned) x); g.text += b; } }\n";
        else if (c.list) o += "  g.kind = 3; size_t k = 0; for (" + C + "::" + c.name + "::iterator i = n->begin(); i != n->end(); ++i, ++k) { if ((*n)[k] != i->item()) g.wrong = \"iteration and index differ\"; g.kids.push_back(std::make_pair(std::string(), go(i->item()))); } if (k != n->size()) g.wrong = \"the size is wrong\";\n";
        else { o += "  g.kind = 2;\n"; for (auto& m : c.members) o += "  if (n->" + m.second + ".item()) g.kids.push_back(std::make_pair(std::string(\"" + m.second + "\"), go(n->" + m.second + ".item())));\n"; }
        o += "  return g; }\n";
    }
    o += "static gnode any(const " + C + "::syntax_node* n) { gnode g; if (!n) { g.wrong = \"no result\"; return g; }\n";
    for (auto& c : cls) if (c.name != "terminal") o += "  if (typeid(*n) == typeid(" + C + "::" + c.name + ")) return walk((const " + C + "::" + c.name + "*) n);\n";
    o += "  g.wrong = \"an unknown class\"; return g; }\n";
    o += "gresult " + fn + "(const std::wstring& in, int start, int how) {\n  gresult r; std::wstringstream s(in); " + C + "::state* st = NULL;\n";
    std::set<std::string> startNames;
    for (size_t k = 0; k < j.starts.size(); ++k) {
        std::string nm = narrow(j.starts[k]); nm = nm.substr(1, nm.size() - 2); for (char& ch : nm) if (ch == '-') ch = '_';
        std::string base = nm; for (int v = 2; !startNames.insert(nm).second; ++v) nm = base + "_" + std::to_string(v);
        o += "  if (start == " + std::to_string(k) + ") { if (how == 0) st = " + C + "::create_yy_" + nm + "(s); else if (how == 1) st = " + C + "::create_yy_" + nm + "<wchar_t>(s); else if (how == 2) st = " + C + "::create_yy_" + nm + "(" + C + "::lexer.create_stream_from(s), true); else st = " + C + "::create_yy_" + nm + "(new " + C + "::parser_actions(" + C + "::lexer.create_stream_from(s), true));\n";
        o += "    r.accepted = st->parse(); if (st->look().item()) { r.hasLook = true; dfa::position p = st->look()->pos(); r.look[0] = p.offset(); r.look[1] = p.line(); r.look[2] = p.column(); }\n";
        o += "    if (r.accepted) r.root = any(st->get_item().item()); }\n";
    }
    o += "  delete st; return r; }\n";
    return o;
}

static const char* common_includes =
    "#include <vector>\n#include <string>\n#include <sstream>\n#include <typeinfo>\n#include <cstdio>\n#include \"gennode.h\"\n";
static const char* tame_includes =
    "#include \"TameParse/Util/syntax_ptr.h\"\n#include \"TameParse/Dfa/lexer.h\"\n#include \"TameParse/Lr/parser.h\"\n#include \"TameParse/Lr/parser_tables.h\"\n"
    "#include \"TameParse/Dfa/hard_coded_symbol_table.h\"\n#include \"TameParse/Dfa/state_machine.h\"\n";

static bool cxx(const std::string& src, const std::string& so, std::string& why) {
    const char* repo = getenv("VP_REPO"); std::string R = repo && *repo ? repo : "/repo";
    const char* file = __FILE__; std::string H = file; H = H.substr(0, H.rfind('/'));
    std::string log = so + ".log";
    std::string cmd = "g++ -std=gnu++17 -O0 -w -pipe -fPIC -shared -fno-gnu-unique -D_GLIBCXX_ASSERTIONS -I" + R + " -I" + H + " -I" + g_dir + " " + src + " -o " + so + " >" + log + " 2>&1";
    int rc = system(cmd.c_str());
    if (rc) { std::string l = slurp(log); size_t e = l.find("error"); size_t b = e == std::string::npos ? 0 : l.rfind('\n', e); why = l.substr(b == std::string::npos ? 0 : b, 700); for (char& ch : why) if (ch == '\n') ch = ' '; }
    unlink(log.c_str());
    return rc == 0;
}

// ---- What the tree should be, from the tool's own parser
struct enode { int kind = 0; std::string cls, text, member; bool empty = false; int at[6] = { 0, 0, 0, 0, 0, 0 }; std::vector<enode> kids; };

static bool simple(const std::string& s) { if (s.empty()) return false; for (char ch : s) if (!isalnum((unsigned char) ch)) return false; return true; }
static std::string unquote(const std::string& s) { return s.size() > 2 && (s[0] == '<' || s[0] == '\'' || s[0] == '"') ? s.substr(1, s.size() - 2) : s; }

struct expecter {
    const job& j; const contextfree::grammar& g; const contextfree::terminal_dictionary& t;
    expecter(const job& jj) : j(jj), g(*jj.c->language->grammar()), t(*jj.c->language->terminals()) { }
    static void put(int* a, const dfa::position& p) { a[0] = p.offset(); a[1] = p.line(); a[2] = p.column(); }
    // The children of a node, without guards
    void kids(const util::astnode* n, enode& e, size_t from) {
        contextfree::rule_container r = g.rule_with_identifier(n->rule());
        contextfree::item_container nt = g.item_with_identifier(n->item_identifier());
        std::string ntName = nt->type() == contextfree::item::nonterminal ? unquote(narrow(g.name_for_nonterminal(nt->symbol()))) : "";
        // The name of a member is that of the symbol, or given by the definition; where the rules use a name for several things, they
        // only have to have different ones
        auto name_of = [&](int alternative, size_t i, const contextfree::item_container& it) -> std::string {
            auto f = j.names.find(ntName + "/" + std::to_string(alternative) + "/" + std::to_string(i));
            if (f != j.names.end()) return f->second;
            if (it->type() == contextfree::item::terminal) return unquote(narrow(t.name_for_symbol(it->symbol())));
            if (it->type() == contextfree::item::nonterminal) return unquote(narrow(g.name_for_nonterminal(it->symbol())));
            return "";
        };
        int alternative = -1, k = 0; std::map<std::string, std::set<int>> things; bool odd = false;
        if (!ntName.empty()) { const contextfree::rule_list& rl = g.rules_for_nonterminal(nt->symbol()); for (auto& x : rl) { if (*x == *r) alternative = k; for (size_t i = 0; i < x->items().size(); ++i) { std::string nm = name_of(k, i, x->items()[i]); if (!simple(nm)) odd = true; things[nm].insert(g.identifier_for_item(x->items()[i])); } ++k; } }
        else for (auto& i : r->items()) things[name_of(-1, 0, i)].insert(g.identifier_for_item(i));
        std::map<std::string, int> used;
        for (size_t i = 0; i < r->items().size(); ++i) {
            contextfree::item_container it = r->items()[i];
            std::string name = name_of(alternative, i, it);
            if (it->type() == contextfree::item::guard || i < from) continue;
            enode c = node(n->children()[i].item());
            if (simple(name) && things[name].size() == 1) { int u = ++used[name]; if (u == 1 || !odd) c.member = "yy_" + name + (u > 1 ? "_" + std::to_string(u) : ""); }
            e.kids.push_back(c);
        }
    }
    static void place(enode& e) {
        if (e.kids.empty()) { e.empty = true; return; }
        for (int k = 0; k < 3; ++k) { e.at[k] = e.kids.front().at[k]; e.at[k + 3] = e.kids.back().at[k + 3]; }
    }
    void elements(const util::astnode* n, enode& list) {
        contextfree::rule_container r = g.rule_with_identifier(n->rule());
        bool recursive = r->items().size() && g.identifier_for_item(r->items()[0]) == n->item_identifier();
        if (recursive) elements(n->children()[0].item(), list);
        else if (g.item_with_identifier(n->item_identifier())->type() == contextfree::item::repeat_zero_or_one) return;
        enode c; c.kind = 4; kids(n, c, recursive ? 1 : 0); place(c); list.kids.push_back(c);
    }
    enode node(const util::astnode* n) {
        enode e;
        if (n->lexeme().item()) {
            e.kind = 1; put(e.at, n->lexeme()->pos()); put(e.at + 3, n->lexeme()->final_pos());
            std::wstring w = n->lexeme()->content<wchar_t>(); for (wchar_t x : w) { char b[16]; if (x > 32 && x < 127) e.text += (char) x; else { snprintf(b, sizeof b, "{%x}", (unsigned) x); e.text += b; } }
            return e;
        }
        contextfree::item_container it = g.item_with_identifier(n->item_identifier());
        if (it->type() == contextfree::item::repeat || it->type() == contextfree::item::repeat_zero_or_one) { e.kind = 3; elements(n, e); place(e); return e; }
        e.kind = 2;
        if (it->type() == contextfree::item::nonterminal) { std::string nm = unquote(narrow(g.name_for_nonterminal(it->symbol()))); if (simple(nm) && nm != "epsilon" && nm != j.cls && t.symbol_for_name(wide(nm)) < 0) e.cls = "yy_" + nm + "_n"; }
        kids(n, e, 0); place(e);
        return e;
    }
};
// Empty nodes are where the next token starts (or at the end of the text)
static void settle(enode& e, int* next, bool& known) {
    for (size_t i = e.kids.size(); i > 0; --i) settle(e.kids[i - 1], next, known);
    if (e.kind == 1) { for (int k = 0; k < 3; ++k) next[k] = e.at[k]; known = true; return; }
    if (e.kids.empty()) { e.empty = true; for (int k = 0; k < 3; ++k) e.at[k] = e.at[k + 3] = known ? next[k] : -1; }
    else for (int k = 0; k < 3; ++k) { e.at[k] = e.kids.front().at[k]; e.at[k + 3] = e.kids.back().at[k + 3]; }
}
static std::string show(const enode& e) {
    static const char* k[] = { "?", "", "", "list", "content" };
    std::string o = k[e.kind]; if (e.kind == 1) o = "'" + e.text + "'"; else { o += e.cls + "("; for (auto& c : e.kids) o += (c.member.empty() ? "" : c.member + ":") + show(c) + " "; o += ")"; }
    return o;
}
static std::string show(const gnode& e) {
    if (!e.wrong.empty()) return "{" + e.wrong + "}";
    std::string o; if (e.kind == 1) return e.cls + "'" + e.text + "'"; o = e.cls + (e.kind == 3 ? "[" : "("); for (auto& c : e.kids) o += (c.first.empty() ? "" : c.first + ":") + show(c.second) + " ";
    return o + (e.kind == 3 ? "]" : ")");
}
static bool match(const enode& e, const gnode& g, std::string& why) {
    auto fail = [&](const std::string& w) { if (why.empty()) why = w; return false; };
    if (!g.wrong.empty()) return fail(g.wrong);
    if ((e.kind == 1) != (g.kind == 1) || (e.kind == 3) != (g.kind == 3)) return fail("a different kind of node: " + show(g) + " instead of " + show(e));
    if (!e.cls.empty() && e.cls != g.cls) return fail("an object of class " + g.cls + " instead of " + e.cls);
    if (e.kind == 1 && e.text != g.text) return fail("the text '" + g.text + "' instead of '" + e.text + "'");
    for (int k = 0; k < 6; ++k) if (e.at[k] >= 0 && e.at[k] != g.at[k]) return fail(show(g) + " is at " + std::to_string(g.at[0]) + ":" + std::to_string(g.at[1]) + ":" + std::to_string(g.at[2]) + "-" + std::to_string(g.at[3]) + ":" + std::to_string(g.at[4]) + ":" + std::to_string(g.at[5]) + " instead of " + std::to_string(e.at[0]) + ":" + std::to_string(e.at[1]) + ":" + std::to_string(e.at[2]) + "-" + std::to_string(e.at[3]) + ":" + std::to_string(e.at[4]) + ":" + std::to_string(e.at[5]));
    if (e.kids.size() != g.kids.size()) return fail(std::to_string(g.kids.size()) + " children instead of " + std::to_string(e.kids.size()) + ": " + show(g) + " instead of " + show(e));
    if (g.kind == 3) { for (size_t i = 0; i < e.kids.size(); ++i) if (!match(e.kids[i], g.kids[i].second, why)) return false; return true; }
    // Members in any order: named ones first, the others in whatever way matches
    std::vector<char> taken(g.kids.size(), 0); std::vector<const enode*> rest;
    for (auto& c : e.kids) {
        if (c.member.empty()) { rest.push_back(&c); continue; }
        size_t k = 0; while (k < g.kids.size() && g.kids[k].first != c.member) ++k;
        if (k == g.kids.size()) return fail("no member " + c.member + " in " + show(g));
        taken[k] = 1; if (!match(c, g.kids[k].second, why)) return false;
    }
    std::function<bool(size_t)> assign = [&](size_t i) { if (i == rest.size()) return true; for (size_t k = 0; k < g.kids.size(); ++k) if (!taken[k]) { std::string w; if (!match(*rest[i], g.kids[k].second, w)) continue; taken[k] = 1; if (assign(i + 1)) return true; taken[k] = 0; } return false; };
    if (!assign(0)) return fail("the members of " + show(g) + " aren't " + show(e));
    return true;
}

static void check(job& j, gresult (*fn)(const std::wstring&, int, int)) {
    select(j); arm();
    bool some = false; long long n = 0;
    for (size_t st = 0; st < j.starts.size(); ++st) for (auto& in : j.inputs) {
        ++n; ++res().traces; ++res().transitions; ++res().evaluations;
        std::wstringstream str(in);
        dfa::lexeme_stream* stream = j.c->lexer->get_lexer()->create_stream_from(str);
        lr::ast_parser::state* ps = j.c->ast->create_parser(new lr::ast_parser_actions(stream), (int) st);
        bool ok = ps->parse(); enode want;
        if (ok) { want = expecter(j).node(ps->get_item().item()); int next[3]; bool known = false; settle(want, next, known); some = true; }
        bool hasLook = ps->look().item() != NULL; int look[3] = { -1, -1, -1 }; if (hasLook) expecter::put(look, ps->look()->pos());
        delete ps;
        gresult r = fn(in, (int) st, (int) (n % 4));
        std::string what = "start " + narrow(j.starts[st]) + ", input '" + narrow(in) + "': ";
        if (r.accepted != ok) { violation("verdict " + j.desc, what + (ok ? "accepted by the tool, rejected by the generated parser" : "rejected by the tool, accepted by the generated parser")); return; }
        if (!ok && (r.hasLook != hasLook || r.look[0] != look[0] || r.look[1] != look[1] || r.look[2] != look[2])) { violation("look " + j.desc, what + "the generated parser stops somewhere else"); return; }
        if (ok) { std::string why; if (!match(want, r.root, why)) { violation("tree " + j.desc, what + why + " :: " + show(r.root)); return; } }
    }
    // Symbol numbers
    std::map<std::string, int> consts; { std::stringstream in(j.header); std::string l; std::regex e("static const int (\\w+) = (\\d+);"); std::smatch m; while (std::getline(in, l)) if (std::regex_search(l, m, e)) consts.insert({ m[1], atoi(std::string(m[2]).c_str()) }); }
    for (const char* s : { "a", "b", "c" }) { int id = j.c->language->terminals()->symbol_for_name(wide(s)); if (id >= 0 && (!consts.count(std::string("yy_") + s) || consts[std::string("yy_") + s] != id)) violation("constant " + j.desc, std::string("the number of ") + s + " isn't in the header"); }
    if (some) ++res().nontrivial;
    if (j.idx % 61 == 5) sample(j.desc);
}

static void compile_and_check(std::vector<job*> js) {
    if (js.empty()) return;
    std::string stem = g_dir + "/b" + std::to_string(g_files++);
    std::string src; bool alone = js.size() == 1 && js[0]->alone;
    // Every parser has a namespace of its own, also across batches (a library's vague symbols can outlive dlclose)
    static int batch = 0; std::string ns = "vp" + std::to_string(batch++) + "x";
    src += alone ? "" : std::string(common_includes) + tame_includes;
    for (size_t k = 0; k < js.size(); ++k) {
        std::string inc = "#include \"" + js[k]->prefix + ".cpp\"\n";
        std::string fn = "run";
        if (alone) src += inc + common_includes;
        src += "namespace " + ns + std::to_string(k) + " {\n" + (alone ? "" : inc) + walker(*js[k], fn) + "}\nextern \"C\" void vp_case_" + std::to_string(k) + "(const std::wstring& in, int s, int h, gresult& r) { r = " + ns + std::to_string(k) + "::run(in, s, h); }\n";
    }
    spit(stem + ".cpp", src);
    std::string why;
    if (!cxx(stem + ".cpp", stem + ".so", why)) {
        unlink((stem + ".cpp").c_str());
        if (js.size() == 1) { select(*js[0]); violation("compile " + js[0]->desc, "the generated code doesn't compile: " + why); return; }
        std::vector<job*> x(js.begin(), js.begin() + js.size() / 2), y(js.begin() + js.size() / 2, js.end());
        compile_and_check(x); compile_and_check(y); return;
    }
    void* h = dlopen((stem + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { violation("load " + js[0]->desc, std::string("can't load: ") + dlerror()); return; }
    typedef void (*fn_t)(const std::wstring&, int, int, gresult&);
    static fn_t current;
    for (size_t k = 0; k < js.size(); ++k) {
        current = (fn_t) dlsym(h, ("vp_case_" + std::to_string(k)).c_str());
        check(*js[k], [](const std::wstring& in, int s, int hw) { gresult r; current(in, s, hw, r); return r; });
    }
    dlclose(h);
    unlink((stem + ".cpp").c_str()); unlink((stem + ".so").c_str());
}
static void flush_jobs() {
    std::vector<job*> js; for (auto& j : g_pending) { if (j->alone) { compile_and_check({ j.get() }); continue; } js.push_back(j.get()); }
    compile_and_check(js);
    for (auto& j : g_pending) { unlink((g_dir + "/" + j->prefix + ".cpp").c_str()); unlink((g_dir + "/" + j->prefix + ".h").c_str()); }
    g_pending.clear();
}

static void add(job* raw) {
    std::unique_ptr<job> j(raw);
    if (!begin_case(j->section.c_str(), j->idx, j->desc)) return;
    j->number = page() ? page()->caseNumber : 0;
    static int serial = 0; j->prefix = "out" + std::to_string(serial++);
    if (j->starts.empty()) j->starts = { L"<S>" };
    j->c.reset(new compilation());
    for (auto& o : j->options) j->c->sh.options[wide(o.first)] = { wide(o.second) };
    ++res().states;
    if (!j->c->all(j->def, L"L", j->starts)) { count("rejected"); if (!cfg().extra.empty()) printf("rejected %s: %s\n", j->desc.c_str(), j->c->errors_text().c_str()); return; }
    {
        compiler::output_cplusplus out(j->c->cc, L"main.tp", j->c->lexer.get(), j->c->language, j->c->lr.get(), wide(j->prefix), wide(j->cls), wide(j->space));
        out.compile();
    }
    if (j->c->failed()) { violation("output " + j->desc, j->c->errors_text()); return; }
    j->header = j->c->sh.outputs[wide(j->prefix + ".h")]; j->source = j->c->sh.outputs[wide(j->prefix + ".cpp")];
    spit(g_dir + "/" + j->prefix + ".h", j->header); spit(g_dir + "/" + j->prefix + ".cpp", j->source);
    g_pending.push_back(std::move(j));
    if (g_pending.size() >= g_batch || cfg().replayIndex >= 0) flush_jobs();
}

static const std::vector<std::wstring>& ab(int len) { static std::map<int, std::vector<std::wstring>> m; auto& v = m[len]; if (v.empty()) v = words(L"ab", len); return v; }

static void gram(const char* section, long long idx, const ggram& g, int len, const std::string& lexer = "lexer { a = 'a' b = 'b' }") {
    job* j = new job(); j->section = section; j->idx = idx; j->def = "language L { " + lexer + " " + def_grammar(g) + " }"; j->desc = text(g); j->inputs = ab(len);
    if (idx % 3 == 1 && g.size() > 1) j->starts = { L"<S>", L"<A>" };
    if (idx % 5 == 2) j->space = "space";
    add(j);
}
static void custom(const char* section, long long idx, const std::string& def, const std::wstring& alphabet, int len, std::map<std::string, std::string> names = {}, std::vector<std::wstring> starts = {}) {
    job* j = new job(); j->section = section; j->idx = idx; j->def = "language L { " + def + " }"; j->desc = def; for (char& ch : j->desc) if (ch == '\n') ch = ' ';
    j->inputs = words(alphabet, len); j->names = names; j->starts = starts;
    add(j);
}

#include "gencode_cases.h"

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        char t[] = "/tmp/vp-gencode-XXXXXX"; g_dir = mkdtemp(t);
        case_seconds() = 60;
        cases(cfg().thorough);
        flush_jobs();
        rmdir(g_dir.c_str());
    });
}
