// The definitions for gencode.cpp
static void cases(bool th) {
    gitem a = t(0), b = t(1), A = n(1), B = n(2);
    std::vector<std::vector<grule>> as = { { {a}, {} }, { {a} }, { {a, A}, {b} }, { {A, a}, {a} }, { {star({a}), b}, {b} } };
    long long idx = 0;
    // Plain rules and EBNF items side by side
    std::vector<gitem> items = { a, b, A, opt({a}), star({a, b}), rep({b}), alt({{a}, {b, b}}), star({A}), opt({b, A}) };
    for (auto& x : bodies(items, 1, 2)) { for (size_t k = 0; k < (th ? as.size() : 1); ++k) gram("ebnf", idx, { {x}, as[(idx + k) % as.size()] }, 5); ++idx; }
    idx = 0;
    auto small = bodies({ a, A, star({b}), opt({a}) }, 0, 2);
    for (auto& x : small) for (auto& y : small) { if (!th && (idx++ % 3)) continue; if (th) ++idx; gram("pair", idx, { {x, y}, as[idx % as.size()] }, 5); }
    // Nested EBNF items
    idx = 0;
    std::vector<gitem> nested = { star({a, opt({b})}), rep({alt({{a}, {b, A}})}), alt({{a, star({b})}, {b}}), opt({rep({a}), b}), star({star({a}), b}), rep({rep({a}), opt({b})}), alt({{a}, {}}), alt({{star({a})}, {b, opt({a})}}), rep({A, b}), star({opt({a}), b, b}), opt({alt({{a}, {b}})}), alt({{A}, {b, b}, {a, b}}) };
    for (auto& x : bodies(nested, 1, 2)) { if (x.size() > 1 && !th && idx++ % 2) continue; if (th) ++idx; gram("nested", idx, { {x}, as[idx % as.size()] }, 6); grule y = x; y.push_back(b); gram("nested-b", idx, { {y, {a, a, a}}, as[(idx + 1) % as.size()] }, 6); }
    // Guards: they take no part in the tree, and rules that only differ in them have the same items
    idx = 0;
    std::vector<grule> heads = { {}, { grd({a}) }, { grd({b}) }, { grd({a, b}) }, { grd({A, b}) } };
    auto tails = bodies({ a, b, A, star({a}) }, 0, 2);
    for (size_t g = 0; g < heads.size(); ++g) for (size_t h = 0; h < heads.size(); ++h) for (auto& x : tails) for (auto& y : tails) {
        bool same = x.size() == y.size() && def_rule(x) == def_rule(y);
        if (g == h || (g == 0 && h == 0)) continue;
        if (!same && idx++ % (th ? 5 : 37)) continue;
        if (same && !th && (g + h) % 2 == 0) continue;
        grule p = heads[g], q = heads[h]; p.insert(p.end(), x.begin(), x.end()); q.insert(q.end(), y.begin(), y.end());
        gram("guard", idx, { {p, q}, as[idx % as.size()] }, 5);
    }
    for (auto& x : bodies({ a, b, grd({a}), grd({b, b}), star({grd({a}), a, b}), rep({grd({b, a}), b}), alt({{grd({a}), a}, {b}}), opt({grd({b}), b}) }, 1, 2)) gram("guard-in", idx++, { {x}, {{a}} }, 5);
    // Named items
    idx = 0;
    struct item { std::string def, name; };
    std::vector<item> ni = { { "a", "a" }, { "b", "b" }, { "<A>", "A" }, { "a[x]", "x" }, { "b[x]", "x" }, { "<A>[x]", "x" }, { "b[a]", "a" }, { "a[A]", "A" }, { "a[x-y]", "" }, { "b[x_y]", "" }, { "a[a_2]", "" }, { "a*[x]", "x" }, { "(b)?[b]", "b" } };
    auto named = [&](const std::vector<std::vector<int>>& alts) {
        auto base = [](const std::string& d) { return d.substr(0, d.find('[')); };
        if (alts.size() == 2 && alts[0].size() == alts[1].size()) { bool eq = true; for (size_t i = 0; i < alts[0].size(); ++i) eq = eq && base(ni[alts[0][i]].def) == base(ni[alts[1][i]].def); if (eq) return; }
        std::map<std::string, std::string> names; std::string def = "lexer { a = 'a' b = 'b' } grammar { <S> =";
        for (size_t k = 0; k < alts.size(); ++k) { if (k) def += " |"; for (size_t i = 0; i < alts[k].size(); ++i) { auto& it = ni[alts[k][i]]; def += " " + it.def; names["S/" + std::to_string(k) + "/" + std::to_string(i)] = it.name; } }
        custom("names", idx, def + " <A> = b }", L"ab", 4, names);
    };
    for (size_t x = 0; x < ni.size(); ++x) for (size_t y = 0; y < ni.size(); ++y) { ++idx; named({ { (int) x, (int) y } }); if (x != y) { named({ { (int) x }, { (int) y } }); if (th) for (size_t z = 0; z < ni.size(); ++z) named({ { (int) x, (int) y }, { (int) z } }); } }
    // Symbols whose names are alike, are those of other things in the parser, or aren't C++ names
    idx = 0;
    std::vector<std::string> nts = { "A-b", "A_b", "A_b_1", "A_b_2", "a", "a_n", "int", "terminal", "syntax_node", "lexer", "lr_tables", "state", "parser_actions", "end_of_input", "epsilon", "list_of_a", "list-of-a", "P", "yy_S", "S_n", "S-n", "optional_a", "one_of_a_or_b", "node", "item", "nonterminal" };
    for (size_t x = 0; x < nts.size(); ++x) for (size_t y = x; y < nts.size(); ++y) {
        ++idx; if (!th && y > x + 1 && idx % 4) continue;
        if (x == y) { custom("symbols", idx, "lexer { a = 'a' b = 'b' } grammar { <S> = <" + nts[x] + "> a* (a|b) b? <" + nts[x] + "> = a }", L"ab", 4); continue; }
        custom("symbols", idx, "lexer { a = 'a' b = 'b' } grammar { <S> = <" + nts[x] + "> <" + nts[y] + "> a* | b (a|b) a? <" + nts[x] + "> = a <" + nts[y] + "> = b b? }", L"ab", 5);
    }
    std::vector<std::string> ts = { "a-b", "a_b", "a_b_1", "a_b_2", "S", "A", "int", "terminal", "state", "lexer", "end_of_input", "list_of_a", "P", "S_n", "symbol_name", "'+'", "'-'", "\"+-\"", "\"x\"", "'('", "\"+\"" };
    for (size_t x = 0; x < ts.size(); ++x) for (size_t y = x; y < ts.size(); ++y) {
        ++idx; if (!th && y > x + 1 && idx % 3) continue;
        auto lex = [](const std::string& n, char ch) { return n[0] == '\'' || n[0] == '"' ? std::string() : n + " = '" + ch + "' "; };
        std::wstring alphabet = L"ab"; for (auto s : { ts[x], ts[y] }) if (s[0] == '\'' || s[0] == '"') for (size_t k = 1; k + 1 < s.size(); ++k) if (alphabet.find((wchar_t) s[k]) == std::wstring::npos) alphabet += (wchar_t) s[k];
        std::string second = x == y ? "" : lex(ts[y], 'b');
        custom("terminals", idx, "lexer { " + lex(ts[x], 'a') + second + "} grammar { <S> = " + ts[x] + " " + ts[y] + " | " + ts[y] + "* <A> <A> = " + ts[x] + " }", alphabet, alphabet.size() > 3 ? 4 : 5);
    }
    // Lexers
    idx = 0;
    struct lexcase { const char* def; const wchar_t* alphabet; int len; };
    std::vector<lexcase> lexers = {
        { "lexer { a = /a+/ b = /(ab)+/ c = /b/ } grammar { <S> = (a|b|c)* }", L"ab", 7 },
        { "lexer { a = /[a-b]+/ b = /ab/ c = /[^a-c]/ } grammar { <S> = (a|b|c)* }", L"abcd", 5 },
        { "weak lexer { a = /ab?/ } lexer { b = /[a-c]+/ } grammar { <S> = b b* a? }", L"abc", 5 },
        { "lexer { b = /[a-c]+/ } weak keywords { ab ba } ignore { w = ' ' } grammar { <S> = b* ab b | ab ba }", L"ab ", 6 },
        { "lexer { b = /[a-c]+/ } weak keywords { ab } ignore { w = ' ' } grammar { <S> = ab b | <A> <A> = b b b }", L"ab ", 6 },
        { "lexer { b = /[a-c]+/ } keywords { ab ba } ignore { w = ' ' } grammar { <S> = (b|ab)* | ba ba }", L"ab ", 6 },
        { "weak keywords { a b } lexer { c = /[a-b]/ d = /ab/ } grammar { <S> = (a c)* d | <A> b <A> = c b }", L"ab", 6 },
        { "weak keywords { a b } lexer { c = /[a-b]/ } lexer { d = /[b-c]/ } grammar { <S> = c d | d c | a }", L"abc", 5 },
        { "weak lexer { w = /[a-c]/ } lexer { x = 'a' y = 'b' } grammar { <S> = w x y | x w <A> <A> = w | y }", L"abc", 5 },
        { "weak lexer { w = /[a-b]+/ } lexer { x = /a+/ y = /a*b/ z = /b[a-b]*/ } ignore { i = ' ' } grammar { <S> = w (x|y|z)* | x w | y y }", L"ab ", 6 },
        { "weak lexer { v = /a|ab/ w = /[a-b]+/ } lexer { x = /a+/ y = /a*b/ } ignore { i = ' ' } grammar { <S> = w (x|y)* v | x v w | y y }", L"ab ", 6 },
        { "lexer { a = /[\\u0000-\\u00ff]/ b = /[\\u0100-\\uffff]/ } grammar { <S> = a b* a? }", L"a\u00ff\u0100\u01ff\u2000\uffff", 4 },
        { "lexer { a = /[\\u00fe-\\u0101]+/ b = /\\uff00|\\u0200/ } grammar { <S> = (a b?)* }", L"\u00fd\u00fe\u00ff\u0100\u0101\u0102\u0200\uff00\ufeff", 3 },
        { "lexer { a = /[^a]/ b = /aa*/ } grammar { <S> = (a b)* }", L"ab\u0100\uffff", 4 },
        { "lexer { a = /.\\n/ b = /[a-b]/ } ignore { w = /[ \\n]/ } grammar { <S> = (a|b)* }", L"ab \n", 5 },
        { "lexer { a = 'a' b = 'b' } ignore { w = /[ \\n\\r]+/ } grammar { <S> = a* b? }", L"ab \n\r", 5 },
        { "case insensitive lexer { a = 'a' b = /[b-c]+/ } grammar { <S> = a* b? }", L"aAbBc", 4 },
        { "lexer { a = /a?b/ b = /a*/ c = /aab/ } grammar { <S> = (a|b|c)* }", L"ab", 7 },
        { "lexer-symbols { d = /[a-b]/ } lexer { a = /{d}c/ b = /{d}{d}/ } grammar { <S> = (a|b)* }", L"abc", 6 },
    };
    for (auto& l : lexers) for (int o = 0; o < 4; ++o) {
        job* j = new job(); j->section = "lexers"; j->idx = idx++; j->def = std::string("language L { ") + l.def + " }"; j->desc = std::string(l.def) + (o & 1 ? " disable-compact-dfa" : "") + (o & 2 ? " disable-merged-dfa" : "");
        if (o & 1) j->options["disable-compact-dfa"] = ""; if (o & 2) j->options["disable-merged-dfa"] = "";
        j->inputs = words(l.alphabet, l.len - (th ? 0 : 1)); add(j);
    }
    // Several start symbols, and code compiled with nothing included before it
    idx = 0;
    for (int k = 0; k < 6; ++k) for (int l = 0; l < 2; ++l) {
        job* j = new job(); j->section = "starts"; j->idx = idx++; j->def = "language L { lexer { a = 'a' b = 'b' } ignore { w = ' ' } grammar { <S> = a <A>* | <B> <A> = b a? <B> = [=> a a] a a | a b } }"; j->desc = "starts " + std::to_string(k) + (l ? " alone" : "");
        std::vector<std::wstring> all = { L"<S>", L"<A>", L"<B>" }; std::vector<std::vector<int>> o = { {0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1}, {2}, {1, 2} };
        for (int x : o[k]) j->starts.push_back(all[x]);
        j->inputs = words(L"ab ", 4); j->alone = l; if (k % 2) { j->space = "space"; j->cls = "some-parser"; } add(j);
    }
}
