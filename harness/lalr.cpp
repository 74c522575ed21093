// C09 FIRST/FOLLOW, C10 parsers accept exactly the language, C11 trees are derivations, C12 conflicts are exactly LALR(1)'s.
// All grammars of several bounded families; for each the real LALR builder, tables and parser run on every string up to a length.
#include "cfg.h"
#include <memory>
#include "tables.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/ast_parser.h"
using namespace vp; using namespace vp::cfg_model;
using namespace contextfree; using namespace lr;

static std::string mode;
static int NT = 2;        // Terminals
static strings* S6; static strings* S7; static strings* T5;

// ---- FIRST and FOLLOW
static unsigned mask_of(const item_set& s, const real& r, bool& eps, bool& eoi, std::string& junk) {
    unsigned m = 0; eps = eoi = false;
    for (item_set::const_iterator i = s.begin(); i != s.end(); ++i) {
        const item_container& c = *i;
        if (c->type() == contextfree::item::terminal) m |= 1u << c->symbol();
        else if (c->type() == contextfree::item::empty) eps = true;
        else if (c->type() == contextfree::item::eoi) eoi = true;
    }
    return m;
}
static void collect(const grule& r, std::vector<gitem>& out, std::set<std::string>& seen) {
    for (auto& i : r) { if (i.kind != T && seen.insert(text(i)).second) out.push_back(i); for (auto& q : i.rules) collect(q, out, seen); }
}
static void first_sets(const ggram& g, const std::string& desc) {
    bnf b(g, NT);
    std::vector<gitem> items; std::set<std::string> seen;
    for (size_t i = 0; i < g.size(); ++i) { gitem x = n((int)i); if (seen.insert(text(x)).second) items.push_back(x); }
    for (auto& rl : g) for (auto& r : rl) collect(r, items, seen);
    // (alternatives inside alternatives are asked for too: with the rules they'd have by themselves)
    for (auto& it : items) b.sym(it);
    b.analyse();
    // Which nonterminals each is asked for first matters to the caches: rotate the order
    size_t orders = items.size();
    for (size_t o = 0; o < orders; ++o) {
        real r(g, NT);
        ++res().traces;
        for (int pass = 0; pass < 2; ++pass) for (size_t k = 0; k < items.size(); ++k) {
            const gitem& it = items[(o + k) % items.size()];
            item_container c = r.item(it);
            bool eps, eoi; std::string junk;
            unsigned got = mask_of(r.gram.first(c), r, eps, eoi, junk);
            int s = b.sym(it) - NT;
            ++res().transitions;
            if (got != b.first[s] || eps != (bool)b.nullable[s]) {
                std::ostringstream d; d << "FIRST(" << text(it) << ") is mask " << got << (eps ? "+empty" : "") << ", should be " << b.first[s] << (b.nullable[s] ? "+empty" : "") << " (asked in rotation " << o << ", pass " << pass << ")";
                violation("first " + desc, d.str()); return;
            }
        }
        for (size_t k = 0; k < items.size(); ++k) {
            const gitem& it = items[(o + k) % items.size()];
            if (it.kind != N) continue;
            bool eps, eoi; std::string junk;
            unsigned got = mask_of(r.gram.follow(r.item(it)), r, eps, eoi, junk);
            int s = b.sym(it) - NT;
            ++res().transitions;
            if (got != (b.follow[s] & 0x7fffffff)) {
                std::ostringstream d; d << "FOLLOW(" << text(it) << ") has terminals mask " << got << ", should be " << b.follow[s];
                violation("follow " + desc, d.str()); return;
            }
        }
    }
    ++res().states;
    if (items.size() > 1) ++res().nontrivial;
}

// ---- Conflicts
struct built {
    real r; lalr_builder builder; int start; std::vector<int> starts; conflict_list conflicts;
    built(const ggram& g, int nStarts = 1) : r(g, NT), builder(r.gram, r.dict) {
        for (int i = 0; i < nStarts; ++i) starts.push_back(builder.add_initial_state(r.nts[i]));
        start = starts[0];
        builder.complete_parser();
        conflict::find_conflicts(builder, conflicts);
    }
};

static void check_conflicts(const ggram& g, const std::string& desc) {
    bnf b(g, NT); b.analyse();
    lalr ref(b);
    built x(g);
    ++res().traces;
    // Walk the two automata in step
    std::map<int, int> toReal; std::deque<int> todo; toReal[0] = x.start; todo.push_back(0);
    std::map<int, int> back; back[x.start] = 0;
    std::map<std::pair<int,int>, std::set<std::string>> want, got;
    for (size_t i = 0; i < x.conflicts.size(); ++i) {
        const conflict& c = *x.conflicts[i];
        int sym = c.token()->type() == contextfree::item::eoi ? NT : c.token()->type() == contextfree::item::terminal ? c.token()->symbol() : -100 - (int)c.token()->type();
        std::set<std::string>& s = got[std::make_pair(c.state(), sym)];
        for (conflict::reduce_iterator r = c.first_reduce_item(); r != c.last_reduce_item(); ++r) s.insert(x.r.rule_text(*r->first->rule()));
        if (c.first_shift_item() != c.last_shift_item()) s.insert("shift");
    }
    while (!todo.empty()) {
        int st = todo.front(); todo.pop_front();
        int rs = toReal[st];
        ++res().states;
        for (auto& a : ref.actions(st)) if (a.second.conflict()) {
            std::set<std::string>& s = want[std::make_pair(rs, a.first)];
            for (int p : a.second.reduce) s.insert(b.prod_text(p));
            if (a.second.accept) s.insert("%-> S");
            if (a.second.shift) s.insert("shift");
        }
        std::map<std::string, int> moves;
        const lr_action_set& acts = x.builder.actions_for_state(rs);
        for (lr_action_set::const_iterator a = acts.begin(); a != acts.end(); ++a)
            if ((*a)->type() == lr_action::act_shift || (*a)->type() == lr_action::act_goto) moves[x.r.name((*a)->item())] = (*a)->next_state();
        for (auto& tr : ref.trans[st]) {
            ++res().transitions;
            std::string nm = b.sym_name(tr.first);
            auto f = moves.find(nm);
            if (f == moves.end()) { violation("automaton " + desc, "state " + std::to_string(rs) + " has no move on " + nm); return; }
            auto old = toReal.find(tr.second);
            if (old == toReal.end()) { toReal[tr.second] = f->second; todo.push_back(tr.second); }
        }
    }
    if (want != got) {
        std::ostringstream o; o << "expected conflicts:";
        for (auto& w : want) { o << " [state " << w.first.first << " on " << (w.first.second == NT ? "$" : t_name(w.first.second)) << ":"; for (auto& s : w.second) o << " {" << s << "}"; o << "]"; }
        o << " reported:";
        for (auto& w : got) { o << " [state " << w.first.first << " on " << (w.first.second == NT ? "$" : w.first.second < 0 ? "?" : t_name(w.first.second)) << ":"; for (auto& s : w.second) o << " {" << s << "}"; o << "]"; }
        violation("conflicts " + desc, o.str());
    }
    // The items which each conflict names: those that can shift the symbol, those to reduce, and for each of these the items the lookahead comes from
    if (want == got && !want.empty()) {
        const int MARK = 30; typedef lalr::core core; typedef std::pair<int, core> node;             // (Kernel items of the reference automaton)
        auto core_text = [&](const core& c) { return (c.p < 0 ? "%-> S" : b.prod_text(c.p)) + " @" + std::to_string(c.dot); };
        std::map<int, int> toRef; for (auto& s : toReal) toRef[s.second] = s.first;
        std::map<node, std::map<node, unsigned>> into;                                              // Target, source: lookaheads that come from the source
        for (size_t s = 0; s < ref.kernels.size(); ++s) for (auto& k : ref.kernels[s]) {
            lalr::iset c; c[k.first] = 1u << MARK; ref.closure(c);
            for (auto& e : c) { std::vector<int> r = ref.rhs(e.first.p); if (e.first.dot < (int) r.size()) into[node(ref.trans[s].at(r[e.first.dot]), core{ e.first.p, e.first.dot + 1 })][node((int) s, k.first)] |= e.second; }
        }
        for (size_t i = 0; i < x.conflicts.size(); ++i) {
            const conflict& c = *x.conflicts[i]; int tok = c.token()->type() == contextfree::item::eoi ? NT : c.token()->symbol(), st = toRef[c.state()];
            std::set<std::string> shift, gotShift; std::map<std::string, std::set<std::string>> red, gotRed; lalr::iset full = ref.kernels[st]; ref.closure(full);
            bool canShift = ref.trans[st].count(tok);
            for (auto& e : full) { std::vector<int> r = ref.rhs(e.first.p); if (canShift && e.first.dot < (int) r.size()) { int s = r[e.first.dot]; if (b.is_nt(s) ? b.first[s - b.terminals] >> tok & 1 : s == tok) shift.insert(core_text(e.first)); } }
            for (auto& k : ref.kernels[st]) {
                if (k.first.dot == (int) ref.rhs(k.first.p).size()) {
                    if (!(k.second >> tok & 1)) continue;
                    std::set<std::string>& to = red[core_text(k.first)]; std::set<node> seen; std::deque<node> next(1, node(st, k.first));
                    while (!next.empty()) {
                        node nd = next.front(); next.pop_front(); if (!seen.insert(nd).second) continue;
                        for (auto& src : into[nd]) {
                            bool carries = (src.second >> MARK & 1) && (ref.kernels[src.first.first].at(src.first.second) >> tok & 1);
                            if (carries || (src.second >> tok & 1)) to.insert(std::to_string(toReal[src.first.first]) + ": " + core_text(src.first.second));
                            if (carries) next.push_back(src.first);
                        }
                    }
                } else {
                    lalr::iset cl; cl[k.first] = k.second; ref.closure(cl);
                    for (auto& e : cl) if (e.first.dot == (int) ref.rhs(e.first.p).size() && (e.second >> tok & 1)) red[core_text(e.first)].insert(std::to_string(c.state()) + ": " + core_text(k.first));
                }
            }
            for (lr0_item_set::const_iterator s = c.first_shift_item(); s != c.last_shift_item(); ++s) gotShift.insert(x.r.rule_text(*(*s)->rule()) + " @" + std::to_string((*s)->offset()));
            for (conflict::reduce_iterator r = c.first_reduce_item(); r != c.last_reduce_item(); ++r) {
                std::set<std::string>& to = gotRed[x.r.rule_text(*r->first->rule()) + " @" + std::to_string(r->first->offset())];
                for (auto& id : r->second) { const lr0_item_container& it = (*x.builder.machine().state_with_id(id.state_id))[id.item_id]; to.insert(std::to_string(id.state_id) + ": " + x.r.rule_text(*it->rule()) + " @" + std::to_string(it->offset())); }
            }
            count("conflicts_explained"); ++res().traces;
            std::string where = " in state " + std::to_string(c.state()) + " on " + (tok == NT ? std::string("$") : t_name(tok));
            if (shift != gotShift) { std::string o; for (auto& s : gotShift) o += " {" + s + "}"; o += " instead of"; for (auto& s : shift) o += " {" + s + "}"; violation("shift-items " + desc + where, "the items to shift are" + o); return; }
            if (red != gotRed) { std::string o; for (auto& m : { gotRed, red }) { for (auto& s : m) { o += " {" + s.first + " from"; for (auto& q : s.second) o += " " + q + ","; o += "}"; } o += &m == &m ? " / " : ""; } violation("reduce-items " + desc + where, "the items to reduce (and those expected) are" + o); return; }
        }
    }
    if (want.empty()) count("conflict_free"); else count("with_conflicts");
    if (!want.empty()) ++res().nontrivial;
}

// ---- Parsing
static bool check_tree(const util::astnode_container& root, const real& r, const bnf& b, const std::vector<int>& input, int start, std::string& why, int& nodes) {
    std::set<std::string> rules; for (size_t p = 0; p < b.prods.size(); ++p) rules.insert(b.prod_text((int)p));
    size_t pos = 0;
    std::function<bool(const util::astnode_container&)> rec = [&](const util::astnode_container& nd) -> bool {
        ++nodes;
        if (nd->lexeme().item()) {
            if (!nd->children().empty()) { why = "a terminal has children"; return false; }
            if (pos >= input.size() || nd->lexeme()->matched() != input[pos] || nd->lexeme()->pos().offset() != (int)pos) { why = "the leaves are not the input in order"; return false; }
            ++pos; return true;
        }
        const rule_container& rl = r.gram.rule_with_identifier(nd->rule());
        std::string rt = r.rule_text(*rl);
        if (!rules.count(rt)) { why = "a node uses rule '" + rt + "' which isn't in the grammar"; return false; }
        if (r.gram.identifier_for_item(rl->nonterminal()) != nd->item_identifier()) { why = "a node isn't labelled with the nonterminal of its rule"; return false; }
        std::vector<item_container> its; for (rule::iterator i = rl->begin(); i != rl->end(); ++i) if ((*i)->type() != contextfree::item::guard) its.push_back(*i);
        if (its.size() != nd->children().size()) { why = "a node has " + std::to_string(nd->children().size()) + " children for rule '" + rt + "'"; return false; }
        for (size_t i = 0; i < its.size(); ++i) {
            const util::astnode_container& ch = nd->children()[i];
            if (its[i]->type() == contextfree::item::terminal) { if (!ch->lexeme().item() || ch->lexeme()->matched() != its[i]->symbol()) { why = "a child isn't the terminal the rule '" + rt + "' has there"; return false; } }
            else if (ch->lexeme().item() || ch->item_identifier() != r.gram.identifier_for_item(its[i])) { why = "a child isn't the nonterminal the rule '" + rt + "' has there"; return false; }
            if (!rec(ch)) return false;
        }
        return true;
    };
    if (!root.item()) { why = "no tree"; return false; }
    if (root->lexeme().item() || root->item_identifier() != r.gram.identifier_for_item(r.nts[start])) { why = "the root isn't the language"; return false; }
    if (!rec(root)) return false;
    if (pos != input.size()) { why = "the leaves don't cover the input"; return false; }
    return true;
}

static void check_parse(const ggram& g, const std::string& desc, const strings& S, int nStarts) {
    built x(g, nStarts);
    if (!x.conflicts.empty()) { count("skipped_conflicts"); return; }
    bnf b(g, NT); b.analyse();
    languages ls(b, S, mode == "language");
    ast_parser p(x.builder, NULL);
    count("parsers");
    bool viable = b.all_productive();
    if (ls.L[0].list.size() > 1) ++res().nontrivial;
    for (int start = 0; start < nStarts; ++start) for (size_t i = 0; i < S.all.size(); ++i) {
        const std::vector<int>& in = S.all[i];
        bool want = ls.L[start].in[i];
        if (mode == "ast" && !want) continue;
        std::unique_ptr<ast_parser::state> st(p.create_parser(new ast_parser_actions(new fixed_stream(in)), x.starts[start]));
        bool ok = st->parse();
        ++res().traces; res().transitions += in.size() + 1;
        std::string where = desc + (start ? " start " + nt_name(start) : "") + " input " + show(in);
        if (mode == "language") {
            if (ok != want) { violation("parse " + where, std::string("the parser ") + (ok ? "accepts" : "rejects") + " a string that is " + (want ? "" : "not ") + "in the language"); return; }
            if (!ok && viable) {
                size_t k = 0; while (k < in.size() && ls.P[start].in[S.index(std::vector<int>(in.begin(), in.begin() + k + 1))]) ++k;
                const dfa::lexeme_container& la = st->look();
                size_t at = la.item() ? (size_t)la->pos().offset() : in.size();
                if (at != k) { violation("error-token " + where, "the error is reported at token " + std::to_string(at) + ", but the first token that can't continue is " + std::to_string(k)); return; }
            }
        } else {
            std::string why; int nodes = 0;
            if (ok && !check_tree(st->get_item(), x.r, b, in, start, why, nodes)) { violation("tree " + where, why); return; }
            res().states += nodes;
        }
    }
    if (mode == "language") res().states += x.builder.count_states();
}

// ---- Tables
static void check_tables(const ggram& g, const std::string& desc) {
    // Tables of something else, to be assigned over
    static ggram og = { {{t(0), n(0), t(1)}, {n(1)}}, {{t(1)}, {}} };
    static built* other = new built(og); static lr::parser_tables* ot = new lr::parser_tables(other->builder, NULL);
    // Without weak symbols, and with one terminal standing in for another
    for (int weak = 0; weak < 2; ++weak) {
        real r(g, NT);
        lr::weak_symbols ws(&r.gram); std::map<int,int> wm;
        if (weak) { item_set w(r.gram); item_container b1(new terminal(1), true); w.insert(b1); ws.add_symbols(item_container(new terminal(0), true), w); wm[1] = 0;
            if (NT > 2) { item_set w2(r.gram); w2.insert(item_container(new terminal(2), true)); ws.add_symbols(item_container(new terminal(0), true), w2); wm[2] = 0; } }
        lalr_builder b(r.gram, r.dict);
        if (weak) b.add_rewriter(action_rewriter_container(ws.clone(), true));
        b.add_initial_state(r.nts[0]); b.complete_parser();
        ++res().traces;
        lr::parser_tables tab(b, weak ? &ws : NULL);
        std::string why = tables_check::against(tab, b, wm, NT);
        if (why.empty() && mode == "copies") why = tables_check::copies(b, weak ? &ws : NULL, *ot);
        if (!why.empty()) { violation(std::string("tables ") + (weak ? "(weak) " : "") + desc, why); return; }
        if (weak) { for (int s = 0; s < tab.count_states(); ++s) for (int k = 0; k + 1 < tab.action_counts()[s].numTerminals; ++k) if (tab.terminal_actions()[s][k].symbolId == tab.terminal_actions()[s][k + 1].symbolId) { ++res().nontrivial; return; } }
    }
}

static void run(const char* section, long long idx, const ggram& g, const strings& S, int nStarts = 1) {
    NT = S.terms;
    if (mode == "copies" && strcmp(section, "one") && strcmp(section, "ebnf") && strcmp(section, "named") && strcmp(section, "nullable")) return;
    if (!begin_case(section, idx)) return;
    std::string d = text(g);
    describe(d);
    if (mode == "first") first_sets(g, d);
    else if (mode == "conflicts") check_conflicts(g, d);
    else if (mode == "tables" || mode == "copies") check_tables(g, d);
    else check_parse(g, d, S, nStarts);
    if (idx % 7001 == 17) sample(std::string(section) + ": " + d);
}

// ---- Families
static std::vector<grule> bodies(const std::vector<gitem>& syms, int maxLen) {
    std::vector<grule> out(1); size_t from = 0;
    for (int l = 1; l <= maxLen; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule r = out[i]; r.push_back(s); out.push_back(r); } from = to; }
    return out;
}
static std::vector<std::vector<grule>> subsets(const std::vector<grule>& b, int lo, int hi) {
    std::vector<std::vector<grule>> out; std::vector<grule> cur;
    std::function<void(size_t)> rec = [&](size_t from) {
        if ((int)cur.size() >= lo) out.push_back(cur);
        if ((int)cur.size() == hi) return;
        for (size_t i = from; i < b.size(); ++i) { cur.push_back(b[i]); rec(i + 1); cur.pop_back(); }
    };
    rec(0);
    return out;
}

static void families() {
    bool th = cfg().thorough;
    long long idx = 0;
    {   // One nonterminal, longer rules
        auto r = subsets(bodies({ t(0), t(1), n(0) }, 3), 1, 3);
        for (auto& s : r) run("one", idx++, { s }, *S7);
    }
    {   // Two nonterminals, up to two rules each
        idx = 0;
        auto r = subsets(bodies({ t(0), t(1), n(0), n(1) }, 2), 1, 2);
        for (auto& s : r) for (auto& a : r) run("two", idx++, { s, a }, *S6);
        idx = 0;
        if (mode == "language" || mode == "ast") for (auto& s : r) for (auto& a : r) run("two-starts", idx++, { s, a }, *S6, 2);
    }
    {   // Three nonterminals
        idx = 0;
        auto bd = bodies({ t(0), t(1), n(0), n(1), n(2) }, 2);
        auto r1 = subsets(bd, 1, 1);
        for (auto& s : r1) for (auto& a : r1) for (auto& b : r1) run("three", idx++, { s, a, b }, *S6);
        idx = 0;
        // S has two rules that start with A or B; one rule each for A and B over terminals and B
        auto bs = bodies({ t(0), t(1), n(1), n(2) }, 3);
        std::vector<grule> longer; for (auto& x : bs) if (x.size() >= 2) longer.push_back(x);
        auto ab = subsets(bodies({ t(0), t(1) }, 1), 1, 2);
        auto s2 = subsets(longer, th ? 2 : 1, th ? 2 : 1);
        for (auto& s : s2) for (auto& a : ab) for (auto& b : ab) run("nullable", idx++, { s, a, b }, *S6);
        {
            idx = 0;
            auto r2 = subsets(bodies({ t(0), t(1), n(1), n(2) }, 2), 2, 2);
            if (th) r2 = subsets(bd, 2, 2);
            for (auto& s : r2) for (auto& a : r1) for (auto& b : r1) run("three-2", idx++, { s, a, b }, *S6);
        }
    }
    {   // Three terminals
        idx = 0;
        auto r1 = subsets(bodies({ t(0), t(1), t(2), n(1) }, 3), 1, 1), r2 = subsets(bodies({ t(0), t(1), n(0), n(1) }, 2), 2, 2);
        for (auto& s : r1) for (auto& a : r2) run("three-terminals", idx++, { s, a }, *T5);
    }
    {   // Longer rules of things that may be empty, over three terminals
        idx = 0;
        gitem a = t(0), b = t(1), c = t(2);
        auto only = [&](const std::vector<grule>& all, size_t lo) { std::vector<grule> o; for (auto& x : all) if (x.size() >= lo) o.push_back(x); return o; };
        for (auto& s : only(bodies({ a, b, c, opt({a}), opt({b}), opt({c}), star({a}), rep({b}) }, th ? 6 : 5), 4)) run("long-ebnf", idx++, { {s} }, *T5);
        idx = 0;
        for (auto& s : only(bodies({ a, c, n(1), n(2), n(3) }, 5), 3)) for (int k = 0; k < 3; ++k) run("long-nullable", idx++, { {s}, { {a}, {} }, k == 1 ? std::vector<grule>{ {b, n(1)}, {} } : std::vector<grule>{ {b}, {} }, k == 2 ? std::vector<grule>{ {n(1)} } : std::vector<grule>{ {c}, {} } }, *T5);
        idx = 0;
        // Lists whose elements may be empty
        auto el = only(bodies({ a, b, n(1), n(2) }, 3), 1);
        for (auto& s : el) for (auto& x : el) run("long-lists", idx++, { {s, {c, n(0)}}, {x, {}}, { {c}, {} } }, *T5);
    }
    {   // EBNF items
        gitem a = t(0), b = t(1), A = n(1), Sx = n(0);
        std::vector<gitem> pool = { a, b, A, opt({a}), rep({a}), star({a}), opt({A}), rep({A}), star({b}), alt({{a},{b}}), alt({{a},{b,a}}), rep({a,b}), star({opt({a}),b}), opt({star({a})}),
            alt({{opt({a})},{b}}), alt({{a},{alt({{b},{b,b}})}}), rep({opt({a})}), star({alt({{a},{b}})}), opt({b,Sx}), rep({alt({{a,A},{b}})}), alt({{},{a}}), star({A,b}) };
        idx = 0;
        auto bd = bodies(pool, 2);
        auto ar = subsets(bodies({ a, b }, 1), 1, 1); ar.push_back({ {a}, {} }); ar.push_back({ {b, A}, {a} });
        std::vector<std::vector<grule>> sr = subsets(bd, 1, 1);
        { auto s2 = subsets(bodies(pool, 1), 2, 2); sr.insert(sr.end(), s2.begin(), s2.end()); }
        for (auto& s : sr) for (auto& x : ar) run("ebnf", idx++, { s, x }, *S6);
        idx = 0;
        // Three EBNF items in a row, and two rules of two
        auto b3 = bodies(pool, 3); std::vector<grule> three; for (auto& x : b3) if (x.size() == 3) three.push_back(x);
        for (auto& s : three) run("ebnf-3", idx++, { {s}, { {a}, {b} } }, *S6);
        { idx = 0; std::vector<grule> two; for (auto& x : bd) if (x.size() == 2) two.push_back(x); auto s2 = subsets(two, 2, 2); for (auto& s : s2) run("ebnf-2x2", idx++, { s, { {a}, {b} } }, *S6); }
    }
    {   // Textbook grammars: LALR but not SLR, LR(1) but not LALR, expressions, unit cycles, hidden left recursion
        idx = 0;
        gitem a = t(0), b = t(1), S_ = n(0), A = n(1), B = n(2), C = n(3), D = n(4);
        std::vector<ggram> named = {
            { {{A, a, B}, {B}}, {{b, B}, {a, a}}, {{A}} },                       // S = L=R | R
            { {{a, A, a}, {b, B, a}, {a, B, b}, {b, A, b}}, {{a}}, {{a}} },      // LR(1), not LALR(1)
            { {{A, a}, {b, A, b}, {B, b}, {b, B, a}}, {{a}}, {{a}} },
            { {{A, B, C}}, {{a}, {}}, {{b}, {}}, {{a, b}, {}} },
            { {{S_, a, A}, {A}}, {{A, b, B}, {B}}, {{a, a, S_, b, b}, {b, a}} },
            { {{A}, {B}}, {{B}, {a}}, {{C}, {b}}, {{a, C}, {b, b}} },
            { {{A, S_, a}, {b}}, {{}, {b, b}} },                                  // Hidden left recursion
            { {{A, A, A, A}}, {{a}, {}} },
            { {{A, B}, {B, A}}, {{a, A}, {}}, {{b, B}, {}} },
            { {{a, A, b}}, {{B, C}}, {{a, B}, {}}, {{D, D}}, {{b, a}, {}} },
            { {{S_, S_}, {a}} }, { {{S_}, {a}} }, { {{A}, {a}}, {{S_}, {b}} },
            { {{a, S_, b}, {a, S_, b, b}, {}} },
            { {{A, a, A, b}, {B, b, B, a}}, {{}}, {{}} },                         // LL(1), not SLR(1)
        };
        for (auto& g : named) run("named", idx++, g, *S7);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        mode = cfg().extra.empty() ? "language" : cfg().extra[0];
        case_seconds() = 20;
        S6 = new strings(NT, cfg().thorough ? 7 : 5); S7 = new strings(NT, cfg().thorough ? 8 : 7); T5 = new strings(3, cfg().thorough ? 6 : 4);
        families();
    });
}
