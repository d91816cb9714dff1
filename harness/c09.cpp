// C09: concurrent single-chunk operations through one dataset object lose no updates, under every schedule.
#include "mcrt.hpp"
#include "mk.hpp"
#include "z5/multiarray/array_access.hxx"
#include <thread>

using namespace z5::multiarray;
typedef std::string Str;
typedef mk::S S;
typedef int32_t T;

// W write values, F write fill values (removes the chunk), R remove, r read, e existence
struct Op { char kind; S chunk; int tag = 1; Str id() const { return Str(1, kind) + (kind == 'W' ? std::to_string(tag) : "") + mc::str(chunk); } };
typedef std::vector<Op> Prog;

static Str ROOT;
static std::unique_ptr<z5::Dataset> DS;
static std::size_t N;       // elements per chunk
static T FILL;

// contents: tag 0 is the fill value, tag < 10 compresses well, tag >= 10 does not
static std::vector<T> data(int tag) {
    std::vector<T> v(N, FILL);
    if(tag) for(std::size_t i = 0; i < N; ++i) v[i] = tag < 10 ? 100 + tag : (T) (tag * 7919u + i * 2654435761u);
    return v;
}
static Str show(const std::vector<T> & v) { for(int t = 0; t < 40; ++t) if(data(t) == v) return "v" + std::to_string(t); Str s = "garbage"; for(auto x : v) s += " " + std::to_string(x); return s; }
static Str readBack(const z5::Dataset & d, const S & c) {
    if(!d.chunkExists(c)) return "v0";
    std::vector<T> v(N, -9); d.readChunk(c, v.data()); return show(v);
}
static Str run1(const Op & op) {
    try {
        if(op.kind == 'W' || op.kind == 'F') DS->writeChunk(op.chunk, data(op.kind == 'F' ? 0 : op.tag).data());
        else if(op.kind == 'R') DS->removeChunk(op.chunk);
        else if(op.kind == 'e') return DS->chunkExists(op.chunk) ? "yes" : "no";
        else return readBack(*DS, op.chunk);
    } catch(const std::exception & e) { return Str("error: ") + e.what(); }
    return "ok";
}

static void scenario(mc::Ctx & ctx, mk::Conf c, const std::vector<Prog> & progs, const std::map<S, int> & initial, int bound, double secs) {
    c.fill = c.zarr() ? 7 : 0;
    mcrt::Scenario s;
    s.name = c.id() + " {";
    for(auto & kv : initial) s.name += mc::str(kv.first) + "=v" + std::to_string(kv.second) + " ";
    s.name += "}";
    for(auto & p : progs) { s.name += " |"; for(auto & o : p) s.name += " " + o.id(); }
    s.name = "chunk ops|" + s.name;
    auto init = std::make_shared<tree::Snapshot>(), have = std::make_shared<tree::Snapshot>();
    auto prepared = std::make_shared<bool>(false);
    // allowed final contents of each chunk, expected results of reads
    std::map<S, std::set<Str>> final;
    std::map<S, std::map<int, Str>> last;    // per thread: its last effect on the chunk
    std::map<S, std::set<int>> writers;
    for(std::size_t t = 0; t < progs.size(); ++t) for(auto & o : progs[t]) if(o.kind == 'W' || o.kind == 'F' || o.kind == 'R') { last[o.chunk][t] = o.kind == 'W' ? "v" + std::to_string(o.tag) : "v0"; writers[o.chunk].insert(t); }
    for(auto & kv : initial) final[kv.first] = {"v" + std::to_string(kv.second)};
    for(auto & kv : last) { final[kv.first].clear(); for(auto & p : kv.second) final[kv.first].insert(p.second); }
    std::vector<std::vector<std::set<Str>>> results;
    for(std::size_t t = 0; t < progs.size(); ++t) {
        results.emplace_back(); std::map<S, Str> own; for(auto & kv : initial) own[kv.first] = "v" + std::to_string(kv.second);
        for(auto & o : progs[t]) {
            if(o.kind == 'W' || o.kind == 'F' || o.kind == 'R') { results.back().push_back({"ok"}); own[o.chunk] = o.kind == 'W' ? "v" + std::to_string(o.tag) : "v0"; continue; }
            std::set<int> w = writers[o.chunk]; w.erase(t);
            const Str v = own.count(o.chunk) ? own[o.chunk] : "v0";
            if(!w.empty()) results.back().push_back({});      // races with a writer of the same chunk: anything but garbage
            else if(o.kind == 'e') results.back().push_back({v == "v0" ? "no" : "yes"});
            else results.back().push_back({v});
        }
    }
    auto prep = [=]() {
        DS.reset();
        DS = mk::create(ROOT, c); N = DS->isZarr() ? DS->defaultChunkSize() : DS->defaultChunkSize(); FILL = c.fill;
        for(auto & kv : initial) if(kv.second) DS->writeChunk(kv.first, data(kv.second).data());
        DS.reset();
        *init = tree::snapshot(ROOT); *have = *init; *prepared = true;
    };
    s.setup = [=]() {
        if(!*prepared) prep(); else *have = tree::snapshot(ROOT);
        tree::restore(ROOT, *init, *have);
        DS = mk::open(ROOT);
    };
    s.run = [=]() -> Str {
        std::vector<std::vector<Str>> out(progs.size());
        std::vector<std::thread> th;
        for(std::size_t t = 1; t < progs.size(); ++t) th.emplace_back([&, t] { for(auto & o : progs[t]) out[t].push_back(run1(o)); });
        for(auto & o : progs[0]) out[0].push_back(run1(o));
        for(auto & t : th) t.join();
        Str r;
        for(std::size_t t = 0; t < progs.size(); ++t) for(std::size_t i = 0; i < out[t].size(); ++i) {
            r += out[t][i] + ";";
            if(results[t][i].empty() ? out[t][i].find("garbage") != Str::npos : !results[t][i].count(out[t][i]))
                return "BAD thread " + std::to_string(t) + " operation " + progs[t][i].id() + ": " + out[t][i];
        }
        return r;
    };
    s.verify = [=](const Str & o) -> Str {
        if(o.compare(0, 3, "BAD") == 0) return o;
        DS.reset();
        auto d = mk::open(ROOT);
        std::set<Str> paths;
        for(auto & kv : final) {
            Str v; try { v = readBack(*d, kv.first); } catch(const std::exception & e) { v = Str("error: ") + e.what(); }
            if(!kv.second.count(v)) { Str e; for(auto & x : kv.second) e += " " + x; return "chunk " + mc::str(kv.first) + " holds " + v + ", expected" + e; }
            if(v != "v0") { fs::path p; d->chunkPath(kv.first, p); paths.insert(fs::relative(p, ROOT).string()); }
        }
        // no other files than before and those of the chunks
        for(auto & kv : tree::snapshot(ROOT)) {
            if(kv.first.back() == '/') continue;
            if(paths.count(kv.first)) continue;
            const bool meta = kv.first.find(".z") != Str::npos || kv.first.find(".json") != Str::npos;
            if(!meta) return "unexpected file " + kv.first;
        }
        return "";
    };
    mcrt::Limits l; l.bound = bound; l.seconds = secs; l.coldBound = 0; l.spurious = false;
    mcrt::explore(ctx, s, l);
    DS.reset();
}

int main(int argc, char ** argv) {
    mc::Ctx ctx; ctx.init(argc, argv);
    ROOT = ctx.scratch + "/z5v_c09";
    const bool th = ctx.thorough;
    auto conf = [](const Str & fmt, S sh, S ch, S shard = S(), const Str & codec = "raw") { mk::Conf c; c.fmt = fmt; c.shape = sh; c.chunk = ch; c.shard = shard; c.codec = codec; return c; };
    // a, b: same directory / same shard; o: another directory / shard
    struct G { mk::Conf c; S a, b, o; bool main; };
    std::vector<G> gs = {
        {conf("z3/", {2, 4}, {1, 2}), {0, 0}, {0, 1}, {1, 0}, true},
        {conf("n5", {4, 2}, {2, 1}), {0, 0}, {1, 0}, {0, 1}, true},
        {conf("sh/", {2, 4}, {1, 1}, {1, 2}), {0, 0}, {0, 1}, {1, 2}, true},
        {conf("z2.", {6}, {2}), {0}, {1}, {2}, false},
        {conf("z2/", {2, 4}, {1, 2}), {0, 0}, {0, 1}, {1, 1}, false},
        {conf("v2.", {6}, {2}), {0}, {1}, {2}, false},
        {conf("sv.", {8}, {2}, {4}, "gzip"), {0}, {1}, {2}, false},
        {conf("z3/", {2, 32}, {1, 16}, {}, "gzip"), {0, 0}, {0, 1}, {1, 0}, true},
        {conf("n5", {32, 2}, {16, 1}, {}, "zstd"), {0, 0}, {1, 0}, {0, 1}, false},
    };
    // two threads, one operation each: every pair of operations, same chunk / same directory or shard / elsewhere
    for(auto & g : gs) {
        const int b = g.main ? (th ? 3 : 2) : (th ? 2 : 1);
        const double sec = th ? 90 : 8;
        for(int state = 0; state < 4; ++state) {
            // 0: nothing there, 1: both there, 2: only the second one (same directory / shard exists), 3: only the first one
            for(const S & second : {g.b, g.o, g.a}) {
                const bool same = second == g.a;
                if(same && state >= 2) continue;
                std::map<S, int> init{{g.a, 0}, {second, 0}, {g.b, 0}};
                if(state == 3) init[g.a] = 3;
                if(state == 1) { init[g.a] = 3; init[second] = 4; }
                if(state == 2) init[second] = 4;
                for(char k1 : Str("WFR")) for(char k2 : Str("WFRre")) {
                    if(state == 0 && (k1 == 'R' || k1 == 'F') && (k2 != 'W')) continue;
                    if(state == 0 && same && (k1 == 'R' || k1 == 'F')) continue;
                    if(same && (k2 == 'r' || k2 == 'e')) continue;
                    if(same && k1 != 'W' && k2 == 'W') continue;         // symmetric
                    scenario(ctx, g.c, {{{k1, g.a, 1}}, {{k2, second, 12}}}, init, b, sec);
                }
            }
        }
    }
    // longer programs and more threads
    for(auto & g : gs) {
        if(!g.main && !th) continue;
        const int b2 = th ? 2 : 1, b3 = 1;
        const double sec = th ? 90 : 8;
        std::map<S, int> none{{g.a, 0}, {g.b, 0}, {g.o, 0}}, all{{g.a, 3}, {g.b, 4}, {g.o, 5}};
        for(auto * init : {&none, &all}) {
            scenario(ctx, g.c, {{{'W', g.a, 1}, {'W', g.o, 2}}, {{'W', g.b, 13}}}, *init, b2, sec);
            scenario(ctx, g.c, {{{'W', g.a, 1}, {'F', g.a}}, {{'W', g.b, 13}, {'r', g.b}}}, *init, b2, sec);
            scenario(ctx, g.c, {{{'W', g.a, 1}, {'r', g.a}}, {{'F', g.b}, {'W', g.b, 13}}}, *init, b2, sec);
            scenario(ctx, g.c, {{{'R', g.a}, {'W', g.a, 1}}, {{'R', g.b}, {'W', g.b, 13}}}, *init, b2, sec);
            scenario(ctx, g.c, {{{'W', g.a, 1}}, {{'W', g.b, 12}}, {{'W', g.o, 3}}}, *init, b3, sec);
            scenario(ctx, g.c, {{{'W', g.a, 1}}, {{'F', g.b}}, {{'r', g.o}}}, *init, b3, sec);
            scenario(ctx, g.c, {{{'W', g.a, 1}}, {{'W', g.a, 12}}, {{'W', g.b, 3}}}, *init, b3, sec);
        }
    }
    // a chunk of another thread's nested path, three levels deep
    {
        auto c = conf("z3/", {1, 1, 4}, {1, 1, 1}); auto n = conf("n5", {4, 1, 1}, {1, 1, 1});
        scenario(ctx, c, {{{'W', {0, 0, 0}, 1}}, {{'W', {0, 0, 1}, 2}}, {{'W', {0, 0, 2}, 3}}}, {}, 1, th ? 60 : 8);
        scenario(ctx, n, {{{'W', {0, 0, 0}, 1}}, {{'W', {1, 0, 0}, 2}}, {{'W', {2, 0, 0}, 3}}}, {}, 1, th ? 60 : 8);
        scenario(ctx, n, {{{'W', {0, 0, 0}, 1}}, {{'W', {1, 0, 0}, 2}}}, {}, 2, th ? 60 : 8);
    }
    return ctx.finish();
}
