// Runs TameParse's own pipeline (parser, import, language, lexer and LR stages) on definition text held in memory, with a
// console that records every error, and parses input with the result.
#ifndef COMPILE_H
#define COMPILE_H
#include "vp.h"
#include <memory>
#include "TameParse/TameParse.h"

namespace comp {
    struct err { compiler::error::severity sev; std::wstring id, desc, file; int line, col, offset; };

    struct shared {
        std::map<std::wstring, std::string> files, outputs;
        std::map<std::wstring, std::vector<std::wstring> > options;
        std::vector<err> errors;
        std::vector<std::wstring> opened;
        std::map<std::wstring, std::wstring> real;              // Real paths of files (if not the name itself)
        std::wstring input;
        compiler::error::severity worst = compiler::error::sev_message;
        int live = 0;                                           // Streams handed out and not yet deleted
        std::wostringstream messages;
        bool recordMessages = false;
    };

    struct nullbuf : public std::wstreambuf { int_type overflow(int_type c) { return traits_type::not_eof(c); } };
    inline std::wostream& null_stream() { static nullbuf b; static std::wostream s(&b); return s; }

    struct counted_in : public std::istringstream {
        shared* s;
        counted_in(const std::string& d, shared* sh) : std::istringstream(d), s(sh) { ++s->live; }
        ~counted_in() { --s->live; }
    };
    struct mem_out : public std::ostringstream {
        shared* s; std::wstring name;
        mem_out(shared* sh, const std::wstring& n) : s(sh), name(n) { ++s->live; }
        ~mem_out() { s->outputs[name] = str(); --s->live; }
    };

    class mem_console : public compiler::console {
    public:
        shared* s;
        explicit mem_console(shared* sh) : s(sh) { }
        virtual compiler::console* clone() const { return new mem_console(s); }
        virtual void report_error(const compiler::error& e) {
            err r; r.sev = e.sev(); r.id = e.identifier(); r.desc = e.description(); r.file = e.filename();
            r.line = e.pos().line(); r.col = e.pos().column(); r.offset = e.pos().offset();
            s->errors.push_back(r);
            if (e.sev() > s->worst) s->worst = e.sev();
        }
        virtual int exit_code() { return s->worst >= compiler::error::sev_error ? (int) s->worst : 0; }
        virtual std::wostream& message_stream() { return s->recordMessages ? (std::wostream&) s->messages : null_stream(); }
        virtual std::wostream& verbose_stream() { return null_stream(); }
        virtual std::wstring get_option(const std::wstring& name) const {
            auto f = s->options.find(name);
            return f == s->options.end() || f->second.empty() ? std::wstring() : f->second[0];
        }
        virtual std::vector<std::wstring> get_option_list(const std::wstring& name) {
            auto f = s->options.find(name);
            return f == s->options.end() ? std::vector<std::wstring>() : f->second;
        }
        virtual const std::wstring& input_file() const { return s->input; }
        virtual std::wstring real_path(const std::wstring& p) { auto f = s->real.find(p); return f == s->real.end() ? p : f->second; }
        virtual std::istream* open_file(const std::wstring& n) {
            s->opened.push_back(n);
            auto f = s->files.find(n);
            if (f == s->files.end()) return NULL;
            return new counted_in(f->second, s);
        }
        virtual std::ostream* open_binary_file_for_writing(const std::wstring& n) { return new mem_out(s, n); }
    };

    inline std::string utf8(const std::wstring& w) { std::string o; for (wchar_t c : w) o += (char) c; return o; }
    inline std::wstring wide(const std::string& w) { std::wstring o; for (unsigned char c : w) o += (wchar_t) c; return o; }

    // Everything produced for one definition
    struct compilation {
        shared sh;
        mem_console con;
        compiler::console_container cc;
        std::unique_ptr<compiler::parser_stage> parser;
        std::unique_ptr<compiler::import_stage> import;
        std::unique_ptr<compiler::language_builder_stage> builder;
        std::unique_ptr<compiler::lexer_stage> lexer;
        std::unique_ptr<compiler::lr_parser_stage> lr;
        std::unique_ptr<lr::ast_parser> ast;
        compiler::language_stage* language = NULL;

        compilation() : con(&sh), cc(&con, false) { }

        bool failed() { return con.exit_code() != 0; }
        std::string errors_text() const {
            std::string o;
            for (auto& e : sh.errors) { char b[80]; snprintf(b, sizeof b, "[%d@%d:%d] ", (int) e.sev, e.line, e.col); o += b + vp::narrow(e.file) + " " + vp::narrow(e.id) + " " + vp::narrow(e.desc) + "; "; }
            return o;
        }
        int count(const wchar_t* id) const { int n = 0; for (auto& e : sh.errors) if (e.id == id) ++n; return n; }

        // As parsetool's main: stops at the first stage that leaves an error. Returns true if the whole pipeline ran without one.
        bool load(const std::string& definition) {
            if (sh.input.empty()) sh.input = L"main.tp";
            if (!definition.empty()) sh.files[sh.input] = definition;
            parser.reset(new compiler::parser_stage(cc, sh.input));
            parser->compile();
            if (failed() || !parser->definition_file().item()) return false;
            import.reset(new compiler::import_stage(cc, sh.input, parser->definition_file()));
            import->compile();
            return !failed();
        }
        bool build_languages() {
            builder.reset(new compiler::language_builder_stage(cc, sh.input, import.get()));
            builder->compile();
            return !failed();
        }
        bool build_language(const std::wstring& name) {
            language = builder->language_with_name(name);
            return language != NULL;
        }
        bool build_lexer(const std::wstring& name) {
            lexer.reset(new compiler::lexer_stage(cc, import->file_with_language(name), language));
            lexer->compile();
            return !failed();
        }
        bool build_parser(const std::wstring& name, const std::vector<std::wstring>& start) {
            lr.reset(new compiler::lr_parser_stage(cc, import->file_with_language(name), language, lexer.get(), start));
            lr->compile();
            if (failed() || !lr->get_tables()) return false;
            ast.reset(new lr::ast_parser(*lr->get_tables()));
            return true;
        }
        bool all(const std::string& definition, const std::wstring& name, const std::vector<std::wstring>& start) {
            return load(definition) && build_languages() && build_language(name) && build_lexer(name) && build_parser(name, start);
        }

        // Parses the input; the tree is written out as rule numbers and lexemes when wanted
        bool parse(const std::wstring& input, int initialState = 0, std::string* tree = NULL) {
            std::wstringstream str(input);
            dfa::lexeme_stream* stream = lexer->get_lexer()->create_stream_from(str);
            lr::ast_parser::state* st = ast->create_parser(new lr::ast_parser_actions(stream), initialState);
            bool ok = st->parse();
            if (ok && tree) *tree = show(st->get_item());
            delete st;
            return ok;
        }
        std::string show(const util::astnode_container& n) {
            if (!n.item()) return "NULL";
            if (n->lexeme().item()) {
                int s = n->lexeme()->matched();
                std::wstring txt = n->lexeme()->content<wchar_t>();
                return "<" + std::to_string(s) + ":" + vp::narrow(txt) + ">";
            }
            std::string o = std::to_string(n->item_identifier()) + "#" + std::to_string(n->rule()) + "(";
            for (auto& c : n->children()) o += show(c);
            return o + ")";
        }
    };
}
#endif
