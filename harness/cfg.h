// Independent model of context-free grammars with EBNF items: desugaring, languages truncated to a length, viable prefixes,
// FIRST/FOLLOW, LALR(1) automata (by merging canonical LR(1) states), and the bridge to the real grammar classes.
#ifndef VP_CFG_H
#define VP_CFG_H
#include "vp.h"
#include <bitset>
#include "TameParse/TameParse.h"

namespace vp {
namespace cfg_model {
    struct gitem;
    typedef std::vector<gitem> grule;
    enum gkind { T, N, OPT, REP, STAR, ALT, GUARD };
    struct gitem { gkind kind; int sym; std::vector<grule> rules; };
    inline gitem t(int s) { return gitem{T, s, {}}; }
    inline gitem n(int s) { return gitem{N, s, {}}; }
    inline gitem opt(grule r) { return gitem{OPT, 0, {r}}; }
    inline gitem rep(grule r) { return gitem{REP, 0, {r}}; }
    inline gitem star(grule r) { return gitem{STAR, 0, {r}}; }
    inline gitem alt(std::vector<grule> r) { return gitem{ALT, 0, r}; }
    inline gitem grd(grule r) { return gitem{GUARD, 0, {r}}; }

    typedef std::vector<std::vector<grule>> ggram;      // Rules of each nonterminal; 0 is the language

    inline std::string nt_name(int i) { return std::string(1, "SABCDEFGH"[i]); }
    inline std::string t_name(int i) { return std::string(1, char('a' + i)); }

    inline std::string text(const gitem& i);
    inline std::string text(const grule& r) { std::string o; for (size_t k = 0; k < r.size(); ++k) o += (k ? " " : "") + text(r[k]); return o; }
    inline std::string text(const gitem& i) {
        switch (i.kind) {
        case T: return t_name(i.sym);
        case N: return nt_name(i.sym);
        case OPT: return "(" + text(i.rules[0]) + ")?";
        case REP: return "(" + text(i.rules[0]) + ")+";
        case STAR: return "(" + text(i.rules[0]) + ")*";
        case GUARD: return "[=>" + text(i.rules[0]) + "]";
        case ALT: { std::string o = "("; for (size_t k = 0; k < i.rules.size(); ++k) o += (k ? "|" : "") + text(i.rules[k]); return o + ")"; }
        }
        return "";
    }
    inline std::string text(const ggram& g) {
        std::string o;
        for (size_t i = 0; i < g.size(); ++i) { o += nt_name((int)i) + "="; for (size_t k = 0; k < g[i].size(); ++k) o += (k ? "|" : "") + (g[i][k].empty() ? std::string("%") : text(g[i][k])); o += "; "; }
        return o;
    }

    // ---- Plain grammar. Symbols: 0..nt-1 terminals, nt.. nonterminals. Guards are dropped.
    struct bnf {
        int terminals = 0;
        std::vector<std::string> names;             // Nonterminals
        std::map<std::string, int> ids;
        struct prod { int lhs; std::vector<int> rhs; };
        std::vector<prod> prods;
        std::vector<std::vector<int>> byLhs;
        int nts() const { return (int)names.size(); }
        bool is_nt(int s) const { return s >= terminals; }
        std::string sym_name(int s) const { return is_nt(s) ? names[s - terminals] : t_name(s); }
        std::string prod_text(int p) const { std::string o = sym_name(prods[p].lhs) + "->"; for (int s : prods[p].rhs) o += " " + sym_name(s); return o; }

        void add(int lhs, const std::vector<int>& rhs) {
            for (int p : byLhs[lhs - terminals]) if (prods[p].rhs == rhs) return;
            byLhs[lhs - terminals].push_back((int)prods.size());
            prods.push_back(prod{lhs, rhs});
        }
        int intern(const std::string& name) { auto f = ids.find(name); if (f != ids.end()) return -1; int id = terminals + nts(); ids[name] = id; names.push_back(name); byLhs.emplace_back(); return id; }
        int sym(const gitem& i) {
            if (i.kind == T) return i.sym;
            if (i.kind == N) return terminals + i.sym;
            std::string nm = text(i);
            auto f = ids.find(nm);
            if (f != ids.end()) return f->second;
            int id = intern(nm);
            switch (i.kind) {
            case OPT: add(id, {}); add(id, syms(i.rules[0])); break;
            case REP: { std::vector<int> r = syms(i.rules[0]); add(id, r); r.insert(r.begin(), id); add(id, r); break; }
            case STAR: { std::vector<int> r = syms(i.rules[0]); add(id, {}); r.insert(r.begin(), id); add(id, r); break; }
            case ALT: flatten(id, i); break;
            default: break;
            }
            return id;
        }
        void flatten(int id, const gitem& i) {
            for (auto& r : i.rules) {
                if (r.size() == 1 && r[0].kind == ALT) flatten(id, r[0]);
                else add(id, syms(r));
            }
        }
        std::vector<int> syms(const grule& r) { std::vector<int> o; for (auto& i : r) if (i.kind != GUARD) o.push_back(sym(i)); return o; }

        bnf(const ggram& g, int nTerm) : terminals(nTerm) {
            for (size_t i = 0; i < g.size(); ++i) intern(nt_name((int)i));
            for (size_t i = 0; i < g.size(); ++i) for (auto& r : g[i]) { std::vector<int> s = syms(r); add(terminals + (int)i, s); }
        }

        // ---- FIRST, nullable, FOLLOW
        std::vector<bool> nullable, productive, reachable;
        std::vector<unsigned> first, follow;            // Bit masks of terminals; bit 31 in follow: end of input
        void analyse() {
            int k = nts();
            nullable.assign(k, false); productive.assign(k, false); reachable.assign(k, false); first.assign(k, 0); follow.assign(k, 0);
            bool ch = true;
            while (ch) {
                ch = false;
                for (auto& p : prods) {
                    int l = p.lhs - terminals; bool nul = true, pro = true; unsigned f = 0;
                    for (int s : p.rhs) {
                        if (nul) f |= is_nt(s) ? first[s - terminals] : 1u << s;
                        if (!is_nt(s) || !nullable[s - terminals]) nul = false;
                        if (is_nt(s) && !productive[s - terminals]) pro = false;
                    }
                    if ((first[l] | f) != first[l]) { first[l] |= f; ch = true; }
                    if (nul && !nullable[l]) { nullable[l] = true; ch = true; }
                    if (pro && !productive[l]) { productive[l] = true; ch = true; }
                }
            }
            reachable[0] = true; ch = true;
            while (ch) { ch = false; for (auto& p : prods) if (reachable[p.lhs - terminals]) for (int s : p.rhs) if (is_nt(s) && !reachable[s - terminals]) { reachable[s - terminals] = true; ch = true; } }
            ch = true;
            while (ch) {
                ch = false;
                for (auto& p : prods) {
                    unsigned trail = follow[p.lhs - terminals];
                    for (int i = (int)p.rhs.size() - 1; i >= 0; --i) {
                        int s = p.rhs[i];
                        if (is_nt(s)) {
                            unsigned& fo = follow[s - terminals];
                            if ((fo | trail) != fo) { fo |= trail; ch = true; }
                            if (nullable[s - terminals]) trail |= first[s - terminals]; else trail = first[s - terminals];
                        } else trail = 1u << s;
                    }
                }
            }
        }
        bool all_productive() const { for (int i = 0; i < nts(); ++i) if (reachable[i] && !productive[i]) return false; return true; }
    };

    // ---- All strings up to a length
    struct strings {
        int terms, maxLen;
        std::vector<std::vector<int>> all;
        std::vector<int> base;         // First index of each length
        strings(int t, int m) : terms(t), maxLen(m) {
            all.push_back({}); base.push_back(0);
            size_t from = 0;
            for (int l = 1; l <= m; ++l) { size_t to = all.size(); base.push_back((int)to); for (size_t i = from; i < to; ++i) for (int c = 0; c < t; ++c) { auto s = all[i]; s.push_back(c); all.push_back(s); } from = to; }
            base.push_back((int)all.size());
        }
        int len(int i) const { return (int)all[i].size(); }
        int cat(int a, int b) const {
            // Index of concatenation, -1 if too long
            int la = len(a), lb = len(b);
            if (la + lb > maxLen) return -1;
            long long p = 1; for (int i = 0; i < lb; ++i) p *= terms;
            return (int)(base[la + lb] + (a - base[la]) * p + (b - base[lb]));
        }
        int index(const std::vector<int>& s) const { int v = 0; for (int c : s) v = v * terms + c; return base[s.size()] + v; }
    };
    inline std::string show(const std::vector<int>& s) { std::string o; for (int c : s) o += t_name(c); return "\"" + o + "\""; }

    struct lang {
        std::vector<char> in; std::vector<int> list;
        bool add(int i) { if (in[i]) return false; in[i] = 1; list.push_back(i); return true; }
    };
    // Truncated languages of every nonterminal, and the truncated sets of prefixes of their (unbounded) languages
    struct languages {
        std::vector<lang> L, P;
        languages(const bnf& g, const strings& S, bool prefixes) {
            L.resize(g.nts()); for (auto& l : L) l.in.assign(S.all.size(), 0);
            bool ch = true;
            auto catAll = [&](const std::vector<int>& left, int s) {
                std::vector<int> out; std::vector<char> seen(S.all.size(), 0);
                for (int a : left) {
                    if (!g.is_nt(s)) { if (S.len(a) < S.maxLen) { int c = S.cat(a, S.base[1] + s); if (!seen[c]) { seen[c] = 1; out.push_back(c); } } }
                    else for (int b : L[s - g.terminals].list) { int c = S.cat(a, b); if (c >= 0 && !seen[c]) { seen[c] = 1; out.push_back(c); } }
                }
                return out;
            };
            while (ch) {
                ch = false;
                for (auto& p : g.prods) {
                    std::vector<int> cur(1, 0);
                    for (int s : p.rhs) { cur = catAll(cur, s); if (cur.empty()) break; }
                    for (int c : cur) if (L[p.lhs - g.terminals].add(c)) ch = true;
                }
            }
            if (!prefixes) return;
            P.resize(g.nts()); for (auto& l : P) l.in.assign(S.all.size(), 0);
            ch = true;
            while (ch) {
                ch = false;
                for (auto& p : g.prods) {
                    lang& target = P[p.lhs - g.terminals];
                    if (target.add(0)) ch = true;
                    std::vector<int> cur(1, 0);
                    for (int s : p.rhs) {
                        for (int a : cur) {
                            if (!g.is_nt(s)) { if (S.len(a) < S.maxLen && target.add(S.cat(a, S.base[1] + s))) ch = true; }
                            else { std::vector<int> pl = P[s - g.terminals].list; for (int b : pl) { int c = S.cat(a, b); if (c >= 0 && target.add(c)) ch = true; } }
                        }
                        cur = catAll(cur, s);
                        if (cur.empty()) break;
                    }
                }
            }
        }
    };

    // ---- LALR(1): canonical LR(1) item sets merged by core. Lookahead bit 'terminals' is the end of input.
    struct lalr {
        const bnf& g;
        // Production -1 is the initial one: ' -> start
        struct core { int p, dot; bool operator<(const core& c) const { return p != c.p ? p < c.p : dot < c.dot; } bool operator==(const core& c) const { return p == c.p && dot == c.dot; } };
        typedef std::map<core, unsigned> iset;
        std::vector<iset> kernels;                       // Merged kernels
        std::vector<std::map<int,int>> trans;
        int eoi;
        const std::vector<int>& rhs(int p) const { static thread_local std::vector<int> r; if (p >= 0) return g.prods[p].rhs; r.assign(1, g.terminals); return r; }
        void closure(iset& s) const {
            bool ch = true;
            while (ch) {
                ch = false;
                iset cur = s;
                for (auto& e : cur) {
                    std::vector<int> r = rhs(e.first.p);
                    if (e.first.dot >= (int)r.size() || !g.is_nt(r[e.first.dot])) continue;
                    unsigned la = 0; bool nul = true;
                    for (size_t k = e.first.dot + 1; k < r.size() && nul; ++k) { if (g.is_nt(r[k])) { la |= g.first[r[k] - g.terminals]; nul = g.nullable[r[k] - g.terminals]; } else { la |= 1u << r[k]; nul = false; } }
                    if (nul) la |= e.second;
                    for (int p : g.byLhs[r[e.first.dot] - g.terminals]) { unsigned& x = s[core{p, 0}]; if (s.size() != cur.size() || (x | la) != x) { if ((x | la) != x) ch = true; x |= la; } }
                    if (s.size() != cur.size()) ch = true;
                }
            }
        }
        bool tooBig = false;
        // starts: further initial items (production at its beginning, lookahead bit); their states come after state 0
        std::vector<int> startStates;
        lalr(const bnf& gram, bool canonical = false, size_t limit = 4000, const std::vector<std::pair<int,int>>& starts = {}) : g(gram), eoi(gram.terminals) {
            // LALR by lookahead propagation on merged kernels (fixed point); canonical keeps lookaheads apart
            std::map<std::vector<core>, int> byCore; std::map<iset, int> byItems;
            std::deque<int> todo; std::vector<char> queued;
            auto find = [&](const iset& k) {
                if (canonical) { auto f = byItems.find(k); if (f != byItems.end()) return f->second; int id = (int)kernels.size(); byItems[k] = id; kernels.push_back(k); trans.emplace_back(); todo.push_back(id); queued.push_back(1); return id; }
                std::vector<core> c; for (auto& e : k) c.push_back(e.first);
                auto f = byCore.find(c);
                if (f == byCore.end()) { int id = (int)kernels.size(); byCore[c] = id; kernels.push_back(k); trans.emplace_back(); todo.push_back(id); queued.push_back(1); return id; }
                iset& old = kernels[f->second]; bool grew = false;
                for (auto& e : k) { unsigned& x = old[e.first]; if ((x | e.second) != x) { x |= e.second; grew = true; } }
                if (grew && !queued[f->second]) { queued[f->second] = 1; todo.push_back(f->second); }
                return f->second;
            };
            iset start; start[core{-1, 0}] = 1u << eoi;
            find(start);
            for (auto& x : starts) { iset k; k[core{x.first, 0}] = 1u << x.second; startStates.push_back(find(k)); }
            while (!todo.empty()) {
                int st = todo.front(); todo.pop_front(); queued[st] = 0;
                if (kernels.size() > limit) { tooBig = true; return; }
                iset c = kernels[st]; closure(c);
                std::map<int, iset> next;
                for (auto& e : c) { std::vector<int> r = rhs(e.first.p); if (e.first.dot < (int)r.size()) next[r[e.first.dot]][core{e.first.p, e.first.dot + 1}] = e.second; }
                for (auto& x : next) { int to = find(x.second); trans[st][x.first] = to; }
            }
        }
        struct entry { bool shift = false, accept = false; std::set<int> reduce; bool conflict() const { return (int)shift + (int)accept + (int)reduce.size() > 1; } };
        // 'extra' further lookahead bits follow the end of input
        std::map<int, entry> actions(int st, int extra = 0) const {
            std::map<int, entry> a;
            iset c = kernels[st]; closure(c);
            for (auto& e : c) {
                std::vector<int> r = rhs(e.first.p);
                if (e.first.dot < (int)r.size()) { if (!g.is_nt(r[e.first.dot])) a[r[e.first.dot]].shift = true; }
                else for (int x = 0; x <= g.terminals + extra; ++x) if (e.second >> x & 1) { if (e.first.p < 0) a[x].accept = true; else a[x].reduce.insert(e.first.p); }
            }
            return a;
        }
        bool conflict_free() const { for (size_t s = 0; s < kernels.size(); ++s) for (auto& a : actions((int)s)) if (a.second.conflict()) return false; return true; }
    };

    // ---- The real thing
    struct real {
        contextfree::grammar gram;
        contextfree::terminal_dictionary dict;
        std::vector<contextfree::item_container> nts;
        int terms;
        real(const ggram& g, int nTerm) : terms(nTerm) {
            for (int i = 0; i < nTerm; ++i) { std::wstring w(1, wchar_t('a' + i)); dict.add_symbol(w); }
            for (size_t i = 0; i < g.size(); ++i) { std::string s = nt_name((int)i); nts.push_back(gram.get_nonterminal(std::wstring(s.begin(), s.end()))); }
            for (size_t i = 0; i < g.size(); ++i) for (auto& r : g[i]) {
                contextfree::rule rl(nts[i]);
                fill(rl, r);
                contextfree::rule_list& list = gram.rules_for_nonterminal(nts[i]->symbol());
                list.push_back(contextfree::rule_container(new contextfree::rule(rl), true));
            }
        }
        void fill(contextfree::rule& target, const grule& r) { for (auto& i : r) target << item(i); }
        contextfree::item_container item(const gitem& i) {
            using namespace contextfree;
            switch (i.kind) {
            case T: return item_container(new terminal(i.sym), true);
            case N: return nts[i.sym];
            case OPT: { ebnf_optional* o = new ebnf_optional(); fill(*o->get_rule(), i.rules[0]); return item_container(o, true); }
            case REP: { ebnf_repeating* o = new ebnf_repeating(); fill(*o->get_rule(), i.rules[0]); return item_container(o, true); }
            case STAR: { ebnf_repeating_optional* o = new ebnf_repeating_optional(); fill(*o->get_rule(), i.rules[0]); return item_container(o, true); }
            case GUARD: { guard* o = new guard(); fill(*o->get_rule(), i.rules[0]); return item_container(o, true); }
            case ALT: { ebnf_alternate* o = new ebnf_alternate(); fill(*o->get_rule(), i.rules[0]); for (size_t k = 1; k < i.rules.size(); ++k) fill(*o->add_rule(), i.rules[k]); return item_container(o, true); }
            }
            return item_container();
        }
        // The same notation as text(gitem), from the real items
        std::string name(const contextfree::item_container& c) const {
            using namespace contextfree;
            switch (c->type()) {
            case contextfree::item::terminal: return t_name(c->symbol());
            case contextfree::item::nonterminal: return vp::narrow(gram.name_for_nonterminal(c->symbol()));
            case contextfree::item::eoi: return "$";
            case contextfree::item::eog: return "$eog";
            case contextfree::item::empty: return "%";
            case contextfree::item::guard: return "[=>" + items(*c->cast_guard()->get_rule()) + "]";
            case contextfree::item::optional: return "(" + items(*c->cast_ebnf()->get_rule()) + ")?";
            case contextfree::item::repeat: return "(" + items(*c->cast_ebnf()->get_rule()) + ")+";
            case contextfree::item::repeat_zero_or_one: return "(" + items(*c->cast_ebnf()->get_rule()) + ")*";
            case contextfree::item::alternative: { std::string o = "("; const ebnf* e = c->cast_ebnf(); for (ebnf::rule_iterator r = e->first_rule(); r != e->last_rule(); ++r) o += (r != e->first_rule() ? "|" : "") + items(**r); return o + ")"; }
            default: return "?";
            }
        }
        std::string items(const contextfree::rule& r) const { std::string o; for (contextfree::rule::iterator i = r.begin(); i != r.end(); ++i) o += (i != r.begin() ? " " : "") + name(*i); return o; }
        std::string rule_text(const contextfree::rule& r) const { std::string o = name(r.nonterminal()) + "->"; for (contextfree::rule::iterator i = r.begin(); i != r.end(); ++i) if ((*i)->type() != contextfree::item::guard) o += " " + name(*i); return o; }
        // Inverse of name() for whole symbols
        int to_sym(const bnf& b, const contextfree::item_container& c) const {
            if (c->type() == contextfree::item::terminal) return c->symbol();
            auto f = b.ids.find(name(c)); return f == b.ids.end() ? -1 : f->second;
        }
    };

    // Feeds a fixed list of symbols to a parser
    class fixed_stream : public dfa::lexeme_stream {
        std::vector<int> m_Syms; size_t m_Pos;
    public:
        int* reads; bool* deleted;
        fixed_stream(const std::vector<int>& s, int* r = nullptr, bool* d = nullptr) : m_Syms(s), m_Pos(0), reads(r), deleted(d) {}
        virtual ~fixed_stream() { if (deleted) *deleted = true; }
        virtual dfa::lexeme_stream& operator>>(dfa::lexeme*& result) {
            if (m_Pos >= m_Syms.size()) { result = NULL; return *this; }
            if (reads) ++*reads;
            std::vector<int> content(1, 'a' + m_Syms[m_Pos]);
            result = new dfa::lexeme(content.begin(), content.end(), dfa::position((int)m_Pos, 0, (int)m_Pos), m_Syms[m_Pos], 1);
            ++m_Pos;
            return *this;
        }
        virtual void set_initial_state(int) {}
    };
}}
#endif
