// C18: parser tables hold exactly the builder's actions, in order of priority, and so do their copies.
#ifndef VP_TABLES_H
#define VP_TABLES_H
#include <memory>
#include <cstdlib>
#include <algorithm>
#include "TameParse/Lr/parser_tables.h"
#include "TameParse/Lr/ast_parser.h"
#include "vp.h"
namespace vp { namespace tables_check {
    using lr::parser_tables; using lr::lr_action;
    // Which action goes first if several apply: guards, weak reductions, shifts, reductions, gotos
    inline int score(int type) {
        switch (type) {
            case lr_action::act_guard: return 0;
            case lr_action::act_weakreduce: return 1;
            case lr_action::act_shift: case lr_action::act_shiftstrong: case lr_action::act_divert: return 2;
            case lr_action::act_reduce: return 3;
            case lr_action::act_goto: return 4;
            default: return 5;
        }
    }
    // Tables without a byte to spare, as a generated parser has them
    struct exact {
        std::vector<void*> mem; std::unique_ptr<parser_tables> tables;
        template<class V> V* arr(const V* from, int n) { V* p = (V*) malloc(n ? n * sizeof(V) : 1); mem.push_back(p); for (int i = 0; i < n; ++i) p[i] = from[i]; return p; }
        exact(const parser_tables& t) {
            int n = t.count_states();
            std::vector<parser_tables::action*> te, nt;
            for (int s = 0; s < n; ++s) {
                te.push_back(arr(t.terminal_actions()[s], t.action_counts()[s].numTerminals));
                nt.push_back(arr(t.nonterminal_actions()[s], t.action_counts()[s].numNonterminals));
            }
            tables.reset(new parser_tables(n, t.end_of_input(), t.end_of_guard(), arr(te.data(), n), arr(nt.data(), n), arr(t.action_counts(), n),
                arr(t.end_of_guard_states(), t.count_end_of_guards()), t.count_end_of_guards(), t.count_reduce_rules(), arr(t.reduce_rules(), t.count_reduce_rules()),
                t.count_weak_to_strong(), t.count_weak_to_strong() ? arr(t.weak_to_strong(), t.count_weak_to_strong()) : NULL));
        }
        ~exact() { tables.reset(); for (void* p : mem) free(p); }
    };
    typedef std::vector<std::vector<long long>> dump_t;
    inline dump_t dump(const parser_tables& t) {
        dump_t d;
        d.push_back({ t.count_states(), t.end_of_input(), t.end_of_guard(), t.count_end_of_guards(), t.count_reduce_rules(), t.count_weak_to_strong() });
        for (int s = 0; s < t.count_states(); ++s) {
            d.push_back({ t.action_counts()[s].numTerminals, t.action_counts()[s].numNonterminals, t.count_actions_for_state(s) });
            for (int k = 0; k < t.action_counts()[s].numTerminals; ++k) { auto& a = t.terminal_actions()[s][k]; d.push_back({ (int)a.type, (int)a.nextState, a.symbolId }); }
            for (int k = 0; k < t.action_counts()[s].numNonterminals; ++k) { auto& a = t.nonterminal_actions()[s][k]; d.push_back({ (int)a.type, (int)a.nextState, a.symbolId }); }
        }
        for (int k = 0; k < t.count_end_of_guards(); ++k) d.push_back({ t.end_of_guard_states()[k] });
        for (int k = 0; k < t.count_reduce_rules(); ++k) d.push_back({ t.reduce_rules()[k].identifier, t.reduce_rules()[k].ruleId, t.reduce_rules()[k].length });
        for (int k = 0; k < t.count_weak_to_strong(); ++k) d.push_back({ t.weak_to_strong()[k].m_OriginalSymbol, t.weak_to_strong()[k].m_MappedTo });
        return d;
    }
    // The tables against the builder. Empty string if they're right
    inline std::string against(const parser_tables& t, const lr::lalr_builder& b, const std::map<int,int>& weak, int terminals) {
        const contextfree::grammar& gram = b.gram();
        if (t.count_states() != b.count_states()) return "number of states";
        contextfree::end_of_input eoi; contextfree::end_of_guard eog;
        if (t.end_of_input() != gram.identifier_for_item(eoi) || t.end_of_guard() != gram.identifier_for_item(eog)) return "end of input/guard symbol";
        for (int w = 0; w < terminals + 4; ++w) { auto f = weak.find(w); if (t.strong_for_weak(w) != (f == weak.end() ? w : f->second)) return "strong symbol for terminal " + std::to_string(w); }
        for (int s = 0; s < t.count_states(); ++s) {
            std::map<int, std::vector<std::vector<int>>> want[2];
            bool guardEnd = false;
            const lr::lr_action_set& acts = b.actions_for_state(s);
            for (auto a = acts.begin(); a != acts.end(); ++a) {
                bool term = (*a)->item()->type() == contextfree::item::terminal;
                int sym = term ? (*a)->item()->symbol() : gram.identifier_for_item((*a)->item());
                if (!term && (*a)->item()->type() == contextfree::item::eog) guardEnd = true;
                int type = (*a)->type();
                std::vector<int> v{ type };
                if (type == lr_action::act_reduce || type == lr_action::act_weakreduce || type == lr_action::act_accept) { v.push_back(gram.identifier_for_item((*a)->rule()->nonterminal())); v.push_back((*a)->rule()->identifier(gram)); v.push_back((int)(*a)->rule()->items().size()); }
                else v.push_back((*a)->next_state());
                want[term].insert(std::make_pair(sym, std::vector<std::vector<int>>())).first->second.push_back(v);
            }
            if (t.has_end_of_guard(s) != guardEnd) return "state " + std::to_string(s) + ": end of guard state";
            for (int term = 0; term < 2; ++term) {
                std::set<int> syms; for (auto& w : want[term]) syms.insert(w.first);
                for (int k = -1; k < terminals + 12; ++k) syms.insert(k);
                for (int sym : syms) {
                    std::vector<std::vector<int>> got, wanted; int last = -1;
                    auto end = term ? t.last_terminal_action(s) : t.last_nonterminal_action(s);
                    for (auto a = term ? t.find_terminal(s, sym) : t.find_nonterminal(s, sym); a != end && a->symbolId == sym; ++a) {
                        std::vector<int> v{ (int)a->type };
                        int type = a->type;
                        if (type == lr_action::act_reduce || type == lr_action::act_weakreduce || type == lr_action::act_accept) {
                            if ((int)a->nextState >= t.count_reduce_rules()) return "rule number out of range";
                            auto& r = t.rule(a->nextState); v.push_back(r.identifier); v.push_back(r.ruleId); v.push_back(r.length);
                        } else v.push_back((int)a->nextState);
                        if (score(type) < last) return "state " + std::to_string(s) + " symbol " + std::to_string(sym) + ": actions aren't in order of priority";
                        last = score(type); got.push_back(v);
                        ++res().transitions;
                    }
                    auto f = want[term].find(sym); if (f != want[term].end()) wanted = f->second;
                    std::sort(got.begin(), got.end()); std::sort(wanted.begin(), wanted.end());
                    if (got != wanted) return "state " + std::to_string(s) + (term ? " terminal " : " nonterminal ") + std::to_string(sym) + ": not the actions of the builder";
                }
            }
            ++res().states;
        }
        return "";
    }
    // All ways of copying tables. 'other' are tables of some other grammar
    inline std::string copies(const lr::lalr_builder& b, const lr::weak_symbols* w, const parser_tables& other) {
        std::unique_ptr<parser_tables> t(new parser_tables(b, w));
        dump_t d = dump(*t), od = dump(other);
        std::unique_ptr<parser_tables> c1(new parser_tables(*t));
        std::unique_ptr<parser_tables> c2(new parser_tables(other)); *c2 = *t;
        std::unique_ptr<parser_tables> c3(new parser_tables(*t)); *c3 = other; *c3 = *c1;
        c1.reset(new parser_tables(*c1)); parser_tables& self = *c1; self = self;
        std::unique_ptr<exact> e(new exact(*t));
        std::unique_ptr<parser_tables> c4(new parser_tables(*e->tables)), c5(new parser_tables(other)); *c5 = *e->tables;
        lr::ast_parser p1(*t), p2(b, w), p3(&*t, false);
        { lr::ast_parser q1(p1), q2(p2), q3(p3); lr::ast_parser* q4 = new lr::ast_parser(q1); delete q4; }
        if (dump(*e->tables) != d) return "tables with borrowed arrays";
        t.reset(); e.reset();
        if (dump(*c1) != d) return "a copy differs";
        if (dump(*c2) != d) return "assigned tables differ";
        if (dump(*c3) != d) return "tables assigned twice differ";
        if (dump(*c4) != d) return "a copy of borrowed tables differs";
        if (dump(*c5) != d) return "tables assigned from borrowed ones differ";
        if (dump(p1.get_tables()) != d || dump(p2.get_tables()) != d) return "a parser's tables differ";
        if (dump(other) != od) return "assigning tables changed another";
        return "";
    }
} }
#endif
