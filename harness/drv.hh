// Case loop shared by every harness program.
//   prog --mode M --seed S --from A --to B [--opt k=v]... [--show I]
// stdout protocol, read by tools/check.py:
//   B <case>                     case starts
//   V <case> <kind> <one-line message>      the monitor saw the property broken
//   U <case> <message>           outcome could not be judged (counted, never ignored)
//   F <finding-id> <0|1> <msg>   a fixed probe: 1 = the defect is present
//   S <json>                     statistics of the whole range
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

extern "C" inline const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"; }
extern "C" inline const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

namespace drv {
struct Args {
    std::string mode;
    uint64_t seed = 1, from = 0, to = 1;
    bool show = false;
    std::map<std::string, std::string> opt;
    uint64_t get(const std::string& k, uint64_t d) const {
        auto i = opt.find(k);
        return i == opt.end() ? d : std::stoull(i->second);
    }
};
inline std::string one_line(std::string s) {
    for (auto& c : s)
        if (c == '\n' || c == '\r') c = ' ';
    if (s.size() > 600) s = s.substr(0, 600) + "...";
    return s;
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if ((unsigned char)c < 32)
            o += ' ';
        else
            o += c;
    }
    return o;
}
struct Stats {
    std::map<std::string, uint64_t> n;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    void add(const std::string& k, uint64_t v = 1) { n[k] += v; }
    void merge(const std::map<std::string, uint64_t>& m, const std::string& p = "") {
        for (auto& x : m) n[p + x.first] += x.second;
    }
    void see(const std::string& s) {
        uint64_t h = 1469598103934665603ull;
        for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
        distinct.insert(h);
    }
    void sample(const std::string& s, size_t max = 2) {
        if (samples.size() < max) samples.push_back(s.size() > 3000 ? s.substr(0, 3000) + "..." : s);
    }
    std::string json() const {
        std::string o = "{\"counts\":{";
        bool f = true;
        for (auto& x : n) {
            o += (f ? "" : ",") + ("\"" + jesc(x.first) + "\":") + std::to_string(x.second);
            f = false;
        }
        o += "},\"distinct\":[";
        f = true;
        for (auto h : distinct) {
            o += (f ? "" : ",") + ("\"" + std::to_string(h)) + "\"";
            f = false;
        }
        o += "],\"samples\":[";
        f = true;
        for (auto& s : samples) {
            o += (f ? "" : ",") + ("\"" + jesc(s)) + "\"";
            f = false;
        }
        return o + "]}";
    }
};
struct Case {
    const Args& a;
    uint64_t i;
    Stats& st;
    bool bad = false;
    void violation(const std::string& kind, const std::string& msg) {
        bad = true;
        std::cout << "V " << i << " " << kind << " " << one_line(msg) << std::endl;
    }
    void unjudged(const std::string& msg) {
        st.add("unjudged");
        std::cout << "U " << i << " " << one_line(msg) << std::endl;
    }
};
inline int run(int argc, char** argv, const std::map<std::string, std::function<void(Case&)>>& modes) {
    Args a;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (k == "--mode") a.mode = nxt();
        else if (k == "--seed") a.seed = std::stoull(nxt());
        else if (k == "--from") a.from = std::stoull(nxt());
        else if (k == "--to") a.to = std::stoull(nxt());
        else if (k == "--show") a.show = true;
        else if (k == "--opt") {
            auto s = nxt();
            auto p = s.find('=');
            a.opt[s.substr(0, p)] = s.substr(p + 1);
        }
    }
    if (!modes.count(a.mode)) {
        std::cerr << "no mode " << a.mode << "\n";
        return 2;
    }
    auto& f = modes.at(a.mode);
    Stats st;
    for (uint64_t i = a.from; i < a.to; i++) {
        std::cout << "B " << i << std::endl;
        Case c{a, i, st};
        try {
            f(c);
        } catch (const std::exception& e) {
            c.violation("exception", std::string("escaped: ") + e.what());
        }
        st.add("cases");
    }
    std::cout << "S " << st.json() << std::endl;
    fflush(nullptr);
    std::_Exit(0);  // static destruction order of the library is not under test here
}
}  // namespace drv
