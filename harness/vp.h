// Shared machinery of the exhaustive explorers: case addressing, sharding, counters, violations, hang watchdog.
//
// A harness enumerates "cases" (an automaton, a grammar, a history...). begin_case() decides whether this shard runs the
// case; the case is recorded in a shared page first, so a crash or a hang of the code under test is attributed to it.
#ifndef VP_H
#define VP_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>

namespace vp {
    struct config {
        bool thorough = false;
        int shard = 0, shards = 1;
        std::string out, cur, replaySection;
        long long replayIndex = -1;
        long long resumeAfter = -1;       // Global case number to resume after (a crashed case)
        std::vector<std::string> extra;
    };
    inline config& cfg() { static config c; return c; }

    struct shared_page { long long caseNumber; long long index; char section[64]; char desc[65536]; };
    inline shared_page*& page() { static shared_page* p = nullptr; return p; }

    struct result {
        unsigned long long cases = 0, states = 0, transitions = 0, traces = 0, evaluations = 0, nontrivial = 0;
        std::map<std::string, unsigned long long> counters;
        std::vector<std::string> samples;
        std::vector<std::pair<std::string,std::string>> violations;     // signature, details
        unsigned long long violationCount = 0;
        bool complete = false;
    };
    inline result& res() { static result r; return r; }
    inline long long& case_number() { static long long n = -1; return n; }
    inline int& case_seconds() { static int n = 60; return n; }

    inline std::string json_escape(const std::string& s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }

    inline void write_result() {
        if (cfg().out.empty()) return;
        result& r = res();
        FILE* f = fopen((cfg().out + ".tmp").c_str(), "w");
        fprintf(f, "{\"complete\": %s, \"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"violation_count\": %llu,\n \"counters\": {",
            r.complete ? "true" : "false", r.cases, r.states, r.transitions, r.traces, r.evaluations, r.nontrivial, r.violationCount);
        bool first = true;
        for (auto& c : r.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(c.first).c_str(), c.second); first = false; }
        fprintf(f, "},\n \"samples\": [");
        first = true;
        for (auto& s : r.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", json_escape(s).c_str()); first = false; }
        fprintf(f, "],\n \"violations\": [");
        first = true;
        for (auto& v : r.violations) { fprintf(f, "%s{\"signature\": \"%s\", \"details\": \"%s\"}", first ? "" : ",\n  ", json_escape(v.first).c_str(), json_escape(v.second).c_str()); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
        rename((cfg().out + ".tmp").c_str(), cfg().out.c_str());
    }

    inline void arm() {
        struct itimerval t; memset(&t, 0, sizeof t);
        t.it_value.tv_sec = case_seconds();
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    inline void on_hang(int) {
        if (cfg().out.empty() && page()) { fprintf(stderr, "HANG in %s#%lld %s\n", page()->section, page()->index, page()->desc); }
        _exit(91);
    }

    // Starts a case. Returns false if it is not for this shard.
    inline bool begin_case(const char* section, long long index, const std::string& desc = "") {
        long long n = ++case_number();
        config& c = cfg();
        if (c.replayIndex >= 0) { if (c.replaySection != section || c.replayIndex != index) return false; }
        else {
            if (n % c.shards != c.shard) return false;
            if (n <= c.resumeAfter) return false;
        }
        if (page()) {
            page()->caseNumber = n; page()->index = index;
            strncpy(page()->section, section, sizeof(page()->section) - 1);
            strncpy(page()->desc, desc.c_str(), sizeof(page()->desc) - 1);
        }
        ++res().cases;
        arm();
        return true;
    }
    // Cheap test used before building an expensive description
    inline void describe(const std::string& d) { if (page()) strncpy(page()->desc, d.c_str(), sizeof(page()->desc) - 1); }

    inline std::string current_case() {
        if (!page()) return "";
        return std::string(page()->section) + "#" + std::to_string(page()->index);
    }
    // Reports that the property is broken. The signature identifies the failing input/history: it's what known findings match.
    inline void violation(const std::string& signature, const std::string& details) {
        result& r = res();
        ++r.violationCount;
        static std::map<std::string, int> kinds;           // (one frequent kind leaves room for others)
        if (kinds[signature.substr(0, 12)]++ < 20 && r.violations.size() < 100) r.violations.push_back(std::make_pair(current_case() + " " + signature, details));
        if (r.violationCount >= 2000 && !cfg().out.empty()) { write_result(); _exit(92); }
    }
    inline void sample(const std::string& s, size_t max = 3) { if (res().samples.size() < max) res().samples.push_back(s); }
    inline void count(const std::string& k, unsigned long long n = 1) { res().counters[k] += n; }

    inline std::string narrow(const std::wstring& w) {
        std::string o;
        for (wchar_t c : w) { if (c >= 0x20 && c < 0x7f) o += (char)c; else { char b[16]; snprintf(b, sizeof b, "\\u{%x}", (unsigned)c); o += b; } }
        return o;
    }
    inline std::string narrow(const std::string& w) {
        std::string o;
        for (unsigned char c : w) { if (c >= 0x20 && c < 0x7f) o += (char)c; else { char b[16]; snprintf(b, sizeof b, "\\x%02x", (unsigned)c); o += b; } }
        return o;
    }

    inline int run_main(int argc, char** argv, std::function<void()> body) {
        config& c = cfg();
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier") c.thorough = std::string(argv[++i]) == "thorough";
            else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &c.shard, &c.shards); }
            else if (a == "--out") c.out = argv[++i];
            else if (a == "--cur") c.cur = argv[++i];
            else if (a == "--resume-after") c.resumeAfter = atoll(argv[++i]);
            else if (a == "--replay") { std::string r = argv[++i]; size_t h = r.find('#'); c.replaySection = r.substr(0, h); c.replayIndex = atoll(r.c_str() + h + 1); }
            else c.extra.push_back(a);
        }
        if (!c.cur.empty()) {
            int fd = open(c.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (ftruncate(fd, sizeof(shared_page)) != 0) return 90;
            page() = (shared_page*) mmap(nullptr, sizeof(shared_page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        } else page() = (shared_page*) calloc(1, sizeof(shared_page));
        signal(SIGPROF, on_hang);
        // std::wcerr/wcout output of the code under test isn't interesting
        arm();
        body();
        struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_PROF, &t, nullptr);
        res().complete = true;
        write_result();
        if (c.replayIndex >= 0 || c.out.empty()) {
            result& r = res();
            fprintf(stderr, "cases=%llu states=%llu transitions=%llu traces=%llu evaluations=%llu nontrivial=%llu violations=%llu\n", r.cases, r.states, r.transitions, r.traces, r.evaluations, r.nontrivial, r.violationCount);
            for (auto& k : r.counters) fprintf(stderr, "  %s=%llu\n", k.first.c_str(), k.second);
            int n = 0;
            for (auto& v : r.violations) { if (++n > 25) break; fprintf(stderr, "VIOL %s :: %s\n", v.first.c_str(), v.second.c_str()); }
        }
        return res().violationCount ? 1 : 0;
    }
}
#endif
