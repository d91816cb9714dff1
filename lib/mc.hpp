// Common driver for the exhaustive harnesses: case selection (partitioning over worker
// processes, single-case replay), counters, samples and violation reports.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <fnmatch.h>
#include <time.h>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace mc {

struct Violation { std::string caseId, sig, msg; };

struct Ctx {
    bool thorough = false;
    long seed = 1;
    long part = 0, nparts = 1;
    std::string only;            // run only this case
    std::string scratch, out;
    char * progress = nullptr;   // shared mapping: the case being run
    std::map<std::string, long long> count;
    std::map<std::string, long long> gauge;     // reported as max over parts
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::set<std::string> sigs;
    std::set<std::string> outcomes;
    long long caseIndex = 0;
    std::string current;
    bool stop = false;
    double badSince = 0;         // when the first violation that is not a known finding was seen
    std::vector<std::string> known;

    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    void init(int argc, char ** argv) {
        for(int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if(k == "--tier") thorough = v == "thorough";
            else if(k == "--seed") seed = atol(v.c_str());
            else if(k == "--part") { part = atol(v.c_str()); nparts = atol(v.substr(v.find('/') + 1).c_str()); }
            else if(k == "--only") only = v;
            else if(k == "--scratch") scratch = v;
            else if(k == "--out") out = v;
            else if(k == "--progress") {
                int fd = open(v.c_str(), O_RDWR | O_CREAT, 0600);
                if(fd >= 0 && ftruncate(fd, 8192) == 0)
                    progress = (char *) mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if(fd >= 0) close(fd);
                if(progress == MAP_FAILED) progress = nullptr;
            }
        }
        if(scratch.empty()) { scratch = "/tmp/z5v_scratch"; }
        if(const char * k = getenv("Z5V_KNOWN")) {
            std::istringstream is(k);
            for(std::string l; std::getline(is, l);) if(!l.empty()) known.push_back(l);
        }
    }

    // wrong code can make the explored space much larger: the exploration ends some time after the first violation
    void giveUp() {
        if(badSince == 0 || now() - badSince < 20) return;
        ++count["ended_early"];
        finish();
        _exit(0);
    }

    // is this case ours? (cases are dealt round-robin over the worker processes)
    bool want(const std::string & id) {
        if(stop) return false;
        giveUp();
        const long long i = caseIndex++;
        if(!only.empty()) { if(only != id) return false; }
        else if(i % nparts != part) return false;
        setCurrent(id);
        ++count["cases"];
        return true;
    }
    void setCurrent(const std::string & id) {
        current = id;
        if(progress) { strncpy(progress, id.c_str(), 8000); progress[8000] = 0; }
    }
    void sample(const std::string & s, std::size_t max = 6) { if(samples.size() < max) samples.push_back(s); }
    void outcome(const std::string & s) { if(outcomes.size() < 5000) outcomes.insert(s); }

    void violation(const std::string & sig, const std::string & msg) {
        if(badSince == 0) {
            bool k = false;
            for(auto & p : known) k = k || fnmatch(p.c_str(), sig.c_str(), 0) == 0;
            if(!k) badSince = now();
        }
        if(sigs.size() >= 400) return;
        if(!sigs.insert(sig).second) { ++count["repeated_violations"]; return; }
        violations.push_back({current, sig, msg});
    }
    // false => report
    bool check(bool ok, const std::string & sig, const std::function<std::string()> & msg) {
        ++count["checks"];
        if(badSince != 0) giveUp();
        if(!ok) violation(sig, msg());
        return ok;
    }

    int finish() {
        nlohmann::json j;
        j["count"] = count; j["gauge"] = gauge; j["samples"] = samples;
        j["outcomes"] = outcomes.size();
        j["violations"] = nlohmann::json::array();
        for(auto & v : violations) {
            j["violations"].push_back({{"case", v.caseId}, {"sig", v.sig}, {"msg", v.msg}});
        }
        const std::string s = j.dump(1, ' ', false, nlohmann::json::error_handler_t::replace);
        if(out.empty()) { fputs(s.c_str(), stdout); fputs("\n", stdout); }
        else { std::ofstream f(out); f << s; }
        return 0;
    }
};

template<class V> inline std::string str(const V & v) {
    std::ostringstream o; o << "(";
    for(std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << +v[i];
    o << ")"; return o.str();
}

// FNV-1a
inline uint64_t hash64(const void * p, std::size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char * c = (const unsigned char *) p;
    for(std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
struct Hash128 { uint64_t a, b; bool operator<(const Hash128 & o) const { return a != o.a ? a < o.a : b < o.b; } };
inline Hash128 hash128(const std::string & s) {
    return {hash64(s.data(), s.size()), hash64(s.data(), s.size(), 0x9E3779B97F4A7C15ull) * 31 + s.size()};
}

// enumerate all tuples with lo[d] <= t[d] < hi[d]
inline bool next(std::vector<std::size_t> & t, const std::vector<std::size_t> & hi) {
    for(int d = (int) t.size() - 1; d >= 0; --d) {
        if(++t[d] < hi[d]) return true;
        t[d] = 0;
    }
    return false;
}

}
