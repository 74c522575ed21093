// C31: what is shown of a grammar, its states, actions and conflicts, and of syntax trees, can be read back as just what it is. All
// grammars of bounded families: a reader written from the notation of the manual reads each text, and the result is compared with the objects.
#include <memory>
#include "cfg.h"
#include "compile.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Language/formatter.h"
using namespace vp; using namespace vp::cfg_model; using namespace contextfree; using namespace lr; using namespace yy_language; using namespace std;

// Reads items, rules and lists of them; the result is in the notation of real::name
struct reader {
    string s; size_t p = 0; bool bad = false; int dot = -1;
    reader(const wstring& w) { for (wchar_t c : w) s += (char) c; }
    reader(const string& w) : s(w) { }
    void space() { while (p < s.size() && s[p] == ' ') ++p; }
    bool is(const char* x) { space(); size_t l = strlen(x); if (s.compare(p, l, x)) return false; p += l; return true; }
    bool end() { space(); return p >= s.size(); }
    bool at(const char* x) { space(); return p < s.size() && strchr(x, s[p]); }
    int number() { space(); if (p >= s.size() || !isdigit(s[p])) { bad = true; return -1; } int n = 0; while (p < s.size() && isdigit(s[p])) n = n * 10 + s[p++] - '0'; return n; }
    string item() {
        if (is("[empty]")) return "%";
        if (is("[=>")) { string i = items(); if (!is("]")) bad = true; return "[=>" + i + "]"; }
        if (is("$")) return "$";
        if (is("%")) return "$eog";
        if (is("(")) {
            vector<string> alts(1, items()); while (is("|")) alts.push_back(items());
            if (!is(")")) bad = true;
            string o = "("; for (size_t i = 0; i < alts.size(); ++i) o += (i ? "|" : "") + alts[i]; o += ")";
            if (p < s.size() && strchr("?+*", s[p])) { if (alts.size() > 1) bad = true; o += s[p++]; }
            return o;
        }
        space(); if (p < s.size() && isalpha(s[p]) && (p + 1 >= s.size() || !isalpha(s[p + 1]))) return string(1, s[p++]);
        bad = true; p = s.size(); return "?";
    }
    string items() { string o; while (!end() && !at(")|]")) { if (o.size()) o += " "; o += item(); } return o; }
    // NAME = items, with a dot
    string rule() {
        space(); string o = item(); if (!is("=")) bad = true; o += "->"; int n = 0; string i;
        while (!end() && !at("),|[(") || at("([")) {
            if (at("([") && after()) break;
            if (is("^")) { if (dot >= 0) bad = true; dot = n; continue; }
            if (i.size()) i += " "; i += item(); ++n;
        }
        return o + i;
    }
    // A list of lookaheads comes after a dotted rule
    bool listFollows = false;
    bool after() { if (!listFollows) return false; size_t q = s.rfind(at("[") ? '[' : '('); size_t open = lastList(); return open != string::npos && p == open && (void(q), true); }
    size_t lastList() { if (s.empty() || (s.back() != ')' && s.back() != ']')) return string::npos; int depth = 0; for (size_t i = s.size(); i-- > 0; ) { if (s[i] == ')' || s[i] == ']') ++depth; if (s[i] == '(' || s[i] == '[') if (--depth == 0) return i; } return string::npos; }
    multiset<string> list() { multiset<string> o; if (!is("(") && !is("[")) bad = true; if (at(")]")) { ++p; return o; } do o.insert(item()); while (is(",")); if (!is(")") && !is("]")) bad = true; return o; }
};
static vector<string> lines(const wstring& w) { vector<string> o(1); for (wchar_t c : w) if (c == L'\n') o.push_back(""); else o.back() += (char) c; return o; }
static int NT = 2; static string mode;

// Rules with all their guards (rule_text of real leaves guards out)
static string full(const real& r, const rule& x) { string o = r.name(x.nonterminal()) + "->"; for (rule::iterator i = x.begin(); i != x.end(); ++i) o += (i != x.begin() ? " " : "") + r.name(*i); return o; }
static multiset<string> names(const real& r, const item_set& s) { multiset<string> o; for (item_set::const_iterator i = s.begin(); i != s.end(); ++i) o.insert(r.name(*i)); return o; }
typedef pair<pair<string, int>, multiset<string>> dotted;      // Rule, place of the dot, lookahead
static dotted dotted_of(const real& r, const lr0_item& i, const item_set* la) { return dotted(make_pair(full(r, *i.rule()), i.offset()), la ? names(r, *la) : multiset<string>()); }
// The lookahead of an item in a state is in (), that of one in a closure in []. An item without lookahead has no list.
static bool read_dotted(const string& line, const char* open, dotted& d) {
    // An item that ends in an EBNF item or guard of its own, and no lookahead, is read without a list as well
    for (int with = 1; with >= 0; --with) {
        reader x(line); x.listFollows = with; if (with && (x.lastList() == string::npos || x.s[x.lastList()] != *open)) continue;
        string t = x.rule(); multiset<string> la; if (with) { if (!x.at(open)) continue; la = x.list(); }
        if (x.bad || !x.end() || x.dot < 0) continue;
        d = dotted(make_pair(t, x.dot), la); return true;
    }
    return false;
}
static string name_of(const dotted& d) { string o = d.first.first + " dot " + to_string(d.first.second) + " on"; for (auto& s : d.second) o += " " + s; return o; }

static void compare(const string& what, const string& why) { violation(what, why); }

static bool texts(const real& r, const ggram& g, const string& desc) {
    // The grammar: the rules of all nonterminals
    {
        multiset<string> want, got; string bad;
        for (size_t i = 0; i < g.size(); ++i) for (auto& rl : g[i]) want.insert(nt_name((int) i) + "->" + text(rl));
        for (auto& l : lines(formatter::to_string(r.gram, r.dict))) { if (l.empty()) continue; reader x(l); string t = x.rule(); if (x.bad || !x.end()) bad = l; got.insert(t); }
        if (bad.size()) { compare("grammar " + desc, "this is not a rule: " + bad); return false; }
        if (got != want) { string o; for (auto& t : got) o += t + "; "; compare("grammar " + desc, "the text is that of the rules " + o); return false; }
    }
    // Each rule and each item
    for (size_t i = 0; i < g.size(); ++i) {
        const rule_list& rs = r.gram.rules_for_nonterminal(r.nts[i]->symbol());
        for (auto& rc : rs) {
            string want = full(r, *rc);
            for (int dot = -1; dot <= (int) rc->items().size(); ++dot) for (int nt = 0; nt < 2; ++nt) {
                ++res().traces; ++res().transitions;
                wstring t = formatter::to_string(*rc, r.gram, r.dict, dot, nt); reader x(nt ? t : wstring(L"S = ") + t); string got = x.rule(); if (!nt) got = r.name(rc->nonterminal()) + got.substr(1);
                if (x.bad || !x.end() || got != want || x.dot != dot) { compare("rule " + want + " dot " + to_string(dot), "the text is " + narrow(t)); return false; }
            }
            for (auto& it : rc->items()) { wstring t = formatter::to_string(*it, r.gram, r.dict); reader x(t); string got = x.item(); if (x.bad || !x.end() || got != r.name(it)) { compare("item " + r.name(it), "the text is " + narrow(t)); return false; } }
        }
        // FIRST and FOLLOW as sets
        for (int k = 0; k < 2; ++k) { const item_set& s = k ? r.gram.follow(*r.nts[i]) : r.gram.first(r.nts[i]); wstring t = formatter::to_string(s, r.gram, r.dict); reader x(t); multiset<string> got = x.list(); if (x.bad || !x.end() || got != names(r, s)) { compare("set " + desc, "the text is " + narrow(t)); return false; } }
    }
    return true;
}

// One state: the items, then those of the closure after a line --
static string state_text(const real& r, const lalr_state& st, const vector<string>& ls, bool closure) {
    multiset<dotted> want, got, cwant, cgot; bool second = false;
    for (lalr_state::iterator i = st.begin(); i != st.end(); ++i) want.insert(dotted_of(r, **i, st.lookahead_for(*i)));
    if (closure) { lr1_item_set c; lalr_builder::generate_closure(st, c, &r.gram); for (auto& i : c) cwant.insert(dotted_of(r, *i, &i->lookahead())); }
    for (auto& l : ls) {
        if (l == "--") { if (second || !closure) return "there is a line --"; second = true; continue; }
        dotted d; if (!read_dotted(l, second ? "[" : "(", d)) return "this is not an item: " + l;
        (second ? cgot : got).insert(d);
    }
    if (closure && !second) return "the closure is missing";
    if (got != want) { for (auto& d : want) if (!got.count(d)) return name_of(d) + " is missing from the state"; return "the state has other items"; }
    if (cgot != cwant) { for (auto& d : cwant) if (!cgot.count(d)) return name_of(d) + " is missing from the closure"; return "the closure has other items"; }
    return "";
}
typedef tuple<int, string, int, string> act;                   // Kind, item, state, rule
static act act_of(const real& r, const lr_action& a) {
    bool rule = a.type() == lr_action::act_reduce || a.type() == lr_action::act_weakreduce || a.type() == lr_action::act_accept || a.type() == lr_action::act_guard, to = a.type() == lr_action::act_shift || a.type() == lr_action::act_shiftstrong || a.type() == lr_action::act_goto;
    return act(a.type(), r.name(a.item()), to ? a.next_state() : -1, rule ? full(r, *a.rule()) : "");
}
static bool read_action(const string& l, act& a) {
    static const struct { const char* text; int kind; } kinds[] = { { "Weak reduce", lr_action::act_weakreduce }, { "Reduce", lr_action::act_reduce }, { "Accept", lr_action::act_accept }, { "Guard", lr_action::act_guard }, { "Goto", lr_action::act_goto },
        { "Ignore", lr_action::act_ignore }, { "Divert", lr_action::act_divert }, { "Shift strong equivalent to", lr_action::act_shiftstrong }, { "Shift to", lr_action::act_shift } };
    reader x(l);
    for (auto& k : kinds) if (x.is(k.text)) {
        int to = k.kind == lr_action::act_goto || k.kind == lr_action::act_shift || k.kind == lr_action::act_shiftstrong ? x.number() : -1;
        if (!x.is("on")) return false; string item = x.item(), rule;
        if (!x.end()) { if (!x.is("(") || x.s.back() != ')') return false; reader y(x.s.substr(x.p, x.s.size() - x.p - 1)); rule = y.rule(); if (y.bad || !y.end() || y.dot >= 0) return false; x.p = x.s.size(); }
        a = act(k.kind, item, to, rule); return !x.bad;
    }
    return false;
}
static string act_name(const act& a) { return "action " + to_string(get<0>(a)) + " on " + get<1>(a) + " to " + to_string(get<2>(a)) + " " + get<3>(a); }

static bool machine(const real& r, const lalr_builder& b, const string& desc) {
    for (int closure = 0; closure < 2; ++closure) for (int transitions = 0; transitions < 2; ++transitions) {
        ++res().traces;
        vector<string> ls = lines(transitions ? formatter::to_string(b.machine(), r.gram, r.dict, closure) : formatter::to_string(b, r.gram, r.dict, closure)); size_t p = 0; string why; int s = 0;
        for (; s < b.count_states() && why.empty(); ++s) {
            ++res().states;
            while (p < ls.size() && ls[p].empty()) ++p;
            if (p >= ls.size() || ls[p] != "State #" + to_string(s)) { why = "state " + to_string(s) + " is missing"; break; }
            vector<string> items; for (++p; p < ls.size() && !ls[p].empty(); ++p) items.push_back(ls[p]);
            why = state_text(r, *b.machine().state_with_id(s), items, closure); if (why.size()) break;
            while (p < ls.size() && ls[p].empty()) ++p;
            multiset<act> want, got;
            if (transitions) for (auto& t : b.machine().transitions_for_state(s)) want.insert(act(-1, r.name(t.first), t.second, "")); else for (auto& a : b.actions_for_state(s)) want.insert(act_of(r, *a));
            for (; p < ls.size() && !ls[p].empty() && ls[p].compare(0, 7, "State #"); ++p) {
                act a; if (transitions) { reader x(ls[p]); string i = x.item(); bool ok = x.is("->"); int to = x.number(); if (!ok || x.bad || !x.end()) { why = "this is not a transition: " + ls[p]; break; } a = act(-1, i, to, ""); }
                else if (!read_action(ls[p], a)) { why = "this is not an action: " + ls[p]; break; }
                got.insert(a); ++res().transitions;
            }
            if (why.empty() && got != want) { for (auto& a : want) if (!got.count(a)) { why = act_name(a) + " is missing"; break; } if (why.empty()) why = "there is another action"; }
            if (why.size()) why = "state " + to_string(s) + ": " + why;
        }
        if (why.empty()) { while (p < ls.size() && ls[p].empty()) ++p; if (p < ls.size()) why = "there is more: " + ls[p]; }
        if (why.size()) { compare(string(transitions ? "machine" : "builder") + (closure ? " with closures " : " ") + desc, why); return false; }
    }
    return true;
}
static bool conflicts(const real& r, const lalr_builder& b, const string& desc) {
    conflict_list cl; conflict::find_conflicts(b, cl);
    for (auto& c : cl) {
        ++res().traces; count("conflicts");
        wstring t = formatter::to_string(*c, r.gram, r.dict); vector<string> ls = lines(t); string why; multiset<pair<string, int>> sh, re, wsh, wre;
        for (auto i = c->first_shift_item(); i != c->last_shift_item(); ++i) wsh.insert({ full(r, *(*i)->rule()), (*i)->offset() });
        for (auto i = c->first_reduce_item(); i != c->last_reduce_item(); ++i) wre.insert({ full(r, *i->first->rule()), i->first->offset() });
        { reader x(ls[0]); bool srK = x.is("Shift/reduce"); if (!srK && !x.is("Reduce/reduce")) why = "no kind"; if (srK == wsh.empty()) why = "the kind is wrong"; x.is("conflict in state"); if (x.number() != c->state()) why = "the state is wrong"; x.is("on"); if (x.item() != r.name(c->token()) || x.bad || !x.end()) why = "the symbol is wrong"; }
        bool inReduce = false; for (size_t i = 1; i < ls.size() && why.empty(); ++i) {
            if (ls[i] == "  Shift:") { if (inReduce) why = "shift after reduce"; continue; }
            if (ls[i] == "  Or reduce:" || ls[i] == "  Reduce:") { inReduce = true; continue; }
            reader x(ls[i]); string rl = x.rule(); if (x.bad || !x.end() || x.dot < 0) why = "this is not an item: " + ls[i]; (inReduce ? re : sh).insert({ rl, x.dot });
        }
        if (why.empty() && (re != wre || sh != wsh)) why = "the items are others";
        if (why.size()) { compare("conflict " + desc, why + " in " + narrow(t)); return false; }
    }
    return true;
}
// Trees: one line for each node, with its depth given by the lines drawn before it
static string tree_model(const real& r, const util::astnode& n) {
    string o; if (n.lexeme().item()) o = "'" + narrow(n.lexeme()->content<wchar_t>()) + "':" + t_name(n.lexeme()->matched()); else o = r.name(r.gram.item_with_identifier(n.item_identifier()));
    o += "{"; for (auto& c : n.children()) o += tree_model(r, *c); return o + "}";
}
static string tree_read(const vector<string>& ls, bool& bad) {
    string o; int last = -1;
    vector<bool> more;                                          // For each level, whether a line is drawn on to another child
    vector<vector<int>> at; for (size_t i = 0; i < ls.size(); ++i) {
        size_t p = 0; int depth = 0; const string& l = ls[i];
        while (l.compare(p, 3, "|  ") == 0 || l.compare(p, 3, "   ") == 0) { p += 3; ++depth; }
        if (l.compare(p, 3, "+- ") == 0) { p += 3; ++depth; } else if (i || depth) { bad = true; return o; }
        if (depth > last + 1 || (i && !depth)) { bad = true; return o; }
        // A line | is drawn where another child of the same node follows
        for (int d = 0; d + 1 < depth; ++d) { bool drawn = l[d * 3] == '|', follows = false; for (size_t j = i + 1; j < ls.size(); ++j) { size_t q = 0; int dj = 0; while (ls[j].compare(q, 3, "|  ") == 0 || ls[j].compare(q, 3, "   ") == 0) { q += 3; ++dj; } if (ls[j].compare(q, 3, "+- ") == 0) ++dj; if (dj <= d) break; if (dj == d + 1) { follows = true; break; } } if (drawn != follows) { bad = true; return o; } }
        while (last >= depth) { o += "}"; --last; }
        reader x(l.substr(p)); string name = x.item(); x.space();
        if (x.p < x.s.size()) { if (x.s[x.p] != '"') { string n2 = x.item(); x.space(); if (n2 != name) bad = true; } size_t e = x.s.rfind('"'); if (x.p >= x.s.size() || x.s[x.p] != '"' || e == x.p || e + 1 != x.s.size()) { bad = true; return o; } o += "'" + x.s.substr(x.p + 1, e - x.p - 1) + "':" + name; x.p = x.s.size(); } else o += name;
        if (x.bad || bad) { bad = true; return o; }
        o += "{"; last = depth;
    }
    while (last >= 0) { o += "}"; --last; }
    return o;
}
static bool trees(const real& r, const lalr_builder& b, int start, const string& desc, const strings& S) {
    conflict_list cl; conflict::find_conflicts(b, cl); if (!cl.empty()) return true;
    parser_tables tab(b, NULL); ast_parser p(tab);
    for (auto& in : S.all) {
        unique_ptr<ast_parser::state> st(p.create_parser(new ast_parser_actions(new fixed_stream(in)), start));
        if (!st->parse()) continue;
        ++res().traces; count("trees");
        wstring t = formatter::to_string(*st->get_item(), r.gram, r.dict); bool bad = false; string got = tree_read(lines(t), bad), want = tree_model(r, *st->get_item());
        if (bad || got != want) { compare("tree " + desc + " input " + show(in), (bad ? "the text cannot be read: " : "the text is that of another tree: ") + narrow(t)); return false; }
    }
    return true;
}

static void check(const char* section, long long idx, const ggram& g, const strings& S) {
    NT = S.terms; if (!begin_case(section, idx)) return; string desc = text(g); describe(desc);
    ++res().nontrivial; ++res().evaluations;
    for (int weak = 0; weak < 2; ++weak) {
        real r(g, NT); weak_symbols ws(&r.gram);
        if (weak) { item_set w(r.gram); w.insert(item_container(new terminal(1), true)); ws.add_symbols(item_container(new terminal(0), true), w); }
        if (!weak && !texts(r, g, desc)) return;
        lalr_builder b(r.gram, r.dict); if (weak) b.add_rewriter(action_rewriter_container(ws.clone(), true));
        int start = b.add_initial_state(r.nts[0]); b.complete_parser();
        if (!machine(r, b, desc)) return;
        if (!weak && (!conflicts(r, b, desc) || !trees(r, b, start, desc, S))) return;
    }
    if (idx % 997 == 5) sample(string(section) + ": " + desc);
}
// Definitions: the text of the grammar that was compiled, put into a definition, is compiled to a grammar with the same rules
static string def_item(const gitem& i, const vector<string>& names);
static string def_items(const grule& r, const vector<string>& names) { string o; for (auto& i : r) o += (o.empty() ? "" : " ") + def_item(i, names); return o; }
static const char* def_nt[] = { "<S>", "<A-b_1>", "<\xc3\xa9t\xc3\xa9>" };
static string def_item(const gitem& i, const vector<string>& names) {
    switch (i.kind) {
        case T: return names[i.sym]; case N: return def_nt[i.sym];
        case OPT: return "(" + def_items(i.rules[0], names) + ")?"; case REP: return "(" + def_items(i.rules[0], names) + ")+"; case STAR: return "(" + def_items(i.rules[0], names) + ")*"; case GUARD: return "[=>" + def_items(i.rules[0], names) + "]";
        case ALT: { string o = "("; for (size_t k = 0; k < i.rules.size(); ++k) o += (k ? "|" : "") + def_items(i.rules[k], names); return o + ")"; }
    }
    return "";
}
static void definition(const char* section, long long idx, const ggram& g) {
    if (!begin_case(section, idx)) return; string desc = text(g); describe(desc); ++res().nontrivial;
    static const vector<vector<string>> nameSets = { { "num", "ident" }, { "'+'", "\"if\"" }, { "'\\''", "\"\\\"\"" }, { "'('", "\"[=>\"" }, { "'|'", "'\\\\'" } };
    for (auto& names : nameSets) {
        ++res().traces;
        string lexer = names[0][0] == 'n' ? "lexer { num = /[0-9]+/ ident = /[a-z]+/ }" : "", body; size_t rules = 0;
        for (size_t i = 0; i < g.size(); ++i) { body += string(def_nt[i]) + " = "; for (size_t k = 0; k < g[i].size(); ++k, ++rules) body += (k ? "\n  | " : "") + def_items(g[i][k], names); body += "\n"; }
        multiset<string> got[2];
        for (int round = 0; round < 2; ++round) {
            comp::compilation c; c.load("language L { " + lexer + " grammar { " + body + " } }"); if (!c.failed()) { c.build_languages(); c.build_language(L"L"); }
            if (!round && c.count(L"INEFFECTIVE_GUARD")) { count("skipped_nullable_guard"); return; }
            for (auto& e : c.sh.errors) if (e.sev >= compiler::error::sev_error) { violation("definition " + desc + " with " + names[0] + (round ? ": the text of the grammar " : " "), "is not compiled: " + c.errors_text() + " " + body); return; }
            if (!c.language) { violation("definition " + desc, "there is no language"); return; }
            string t; for (wchar_t w : formatter::to_string(*c.language->grammar(), *c.language->terminals())) { if (w < 0x80) t += (char) w; else { t += (char) (0xc0 | w >> 6); t += (char) (0x80 | (w & 0x3f)); } }
            body.clear(); string lastNt; size_t from = 0; while (from < t.size()) { size_t e = t.find('\n', from); if (e == string::npos) e = t.size(); if (e > from) { string l = t.substr(from, e - from), nt = l.substr(0, l.find(" = ") + 3); got[round].insert(l); body += (nt == lastNt ? "| " + l.substr(nt.size()) : l) + "\n"; lastNt = nt; } from = e + 1; }
        }
        if (got[0].size() != rules || got[1] != got[0]) { violation("definition " + desc + " with " + names[0], "the text of the grammar has " + to_string(got[0].size()) + " rules, and is compiled to others: " + body); return; }
    }
}
static vector<grule> bodies(const vector<gitem>& syms, int lo, int hi) {
    vector<grule> out(1), res; size_t from = 0; if (lo == 0) res.push_back(out[0]);
    for (int l = 1; l <= hi; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule r = out[i]; r.push_back(s); out.push_back(r); if (l >= lo) res.push_back(r); } from = to; }
    return res;
}
int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough; case_seconds() = 30; strings S2(2, th ? 6 : 5);
        gitem a = t(0), b = t(1), S_ = n(0), A = n(1); long long idx = 0, def = 0;
        vector<vector<grule>> as = { { {a}, {} }, { {a, A}, {b} }, { {A, a}, {a} } };
        {   // Pairs of rules
            auto bd = bodies({ a, b, S_, A }, 0, th ? 5 : 4); auto b2 = bodies({ a, b, A }, 0, 2);
            for (auto& x : bd) for (auto& y : b2) if (text(x) != text(y)) for (auto& ar : as) check("rules", idx++, { {x, y}, ar }, S2);
        }
        idx = 0;
        {   // Every EBNF item and guard inside every other, in every place of a rule
            vector<gitem> one; auto wrap = [&](const vector<gitem>& in) { vector<gitem> o; for (auto& i : in) { o.push_back(opt({i})); o.push_back(rep({i, b})); o.push_back(star({a, i})); o.push_back(alt({{i}, {b}})); o.push_back(alt({{}, {i, a}})); o.push_back(grd({i, b})); o.push_back(grd({i})); } return o; };
            vector<gitem> l1 = wrap({ a, A }), l2 = wrap(l1), l3 = wrap(l2);
            for (auto* l : { &l1, &l2, &l3 }) for (auto& i : *l) for (int where = 0; where < 5; ++where) { grule x = where == 0 ? grule{ i } : where == 1 ? grule{ i, a } : where == 2 ? grule{ b, i } : where == 3 ? grule{ a, i, b } : grule{ i, A }; check("nested", idx++, { {x, {b, b}}, as[idx % as.size()] }, S2); if (l != &l3 || th) definition("definition", def++, { {x, {b, b}}, as[def % as.size()] }); }
            auto bd = bodies({ opt({a}), star({A, b}), alt({{a}, {b, A}}), rep({b}), grd({a, b}), a }, 1, th ? 5 : 4); for (auto& x : bd) { check("ebnf", idx++, { {x}, as[idx % as.size()] }, S2); definition("definition", def++, { {x}, as[def % as.size()] }); }
        }
        idx = 0;
        {   // Several nonterminals, some of them unused, or without rules of more than one symbol
            vector<gitem> nt = { n(0), n(1), n(2), n(3), a }; auto bd = bodies(nt, 0, 2);
            for (auto& x : bd) for (auto& y : bd) check("several", idx++, { {x}, {y}, { {b}, {n(1)} }, { {n(2), b}, {} } }, S2);
        }
    });
}
