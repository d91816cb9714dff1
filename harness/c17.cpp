// C17: whole-dataset helpers (iteration, unique values, trivial chunks, dataset removal) against sequential references,
// for every occupancy of the chunks with every kind of content; with SCHED: under every schedule of their threads.
#include "mk.hpp"
#include "spec.hpp"
#include "z5/util/functions.hxx"
#include "z5/util/for_each.hxx"
#ifdef SCHED
#include "mcrt.hpp"
#else
#include <mutex>
#endif
#include <cmath>
typedef std::string B;
using mk::S;
mc::Ctx ctx;

#ifndef ELEM
#define ELEM int32_t
#define ELEMNAME "int32"
#endif
typedef ELEM T;

template<class V> static B bytesOf(const std::vector<V> & v) { return B((const char *) v.data(), v.size() * sizeof(V)); }

// contents of a chunk
enum Kind { ABSENT, FILLED, CONSTANT, LASTDIFF, FIRSTDIFF, PADSAME, VARLEN, KINDS };
static const char * kindName[] = {"-", "f", "c", "l", "d", "p", "v"};
static T fillOf(const mk::Conf & c) { return (T) c.fill; }
static const T CONST = 5, OTHER = 9;

// the elements of the chunk within the array
static std::vector<T> elements(const mk::Conf & c, const S & id, int kind) {
    S cs = c.chunk; for(std::size_t d = 0; d < cs.size(); ++d) cs[d] = std::min(cs[d], c.shape[d] - id[d] * c.chunk[d]);
    std::vector<T> v(mk::prod(cs), kind == FILLED ? fillOf(c) : CONST);
    if(kind == LASTDIFF) v.back() = OTHER;
    if(kind == FIRSTDIFF) v.front() = OTHER;
    if(kind == VARLEN) { v.assign(mk::prod(cs) + 3, CONST); v.back() = 11; }
    return v;
}
// one-element chunks cannot differ in themselves
struct Layout { std::map<S, int> kinds; B id; };

static void store(const B & dir, const mk::Conf & c, const spec::Array & a, const Layout & l, T pad) {
    // all chunks as one array for the independent writer, which skips the absent ones
    B arr(mk::prod(c.shape) * sizeof(T), 0); std::set<S> skip; std::map<S, B> var;
    for(auto & kv : l.kinds) {
        if(kv.second == ABSENT || kv.second == VARLEN) { skip.insert(kv.first); }
        if(kv.second == ABSENT) continue;
        if(kv.second == VARLEN) continue;
        const auto v = elements(c, kv.first, kv.second);
        S cs = c.chunk; for(std::size_t d = 0; d < cs.size(); ++d) cs[d] = std::min(cs[d], c.shape[d] - kv.first[d] * c.chunk[d]);
        S p(cs.size(), 0); std::size_t n = 0;
        do { std::size_t o = 0; for(std::size_t d = 0; d < cs.size(); ++d) o = o * c.shape[d] + kv.first[d] * c.chunk[d] + p[d]; memcpy(&arr[o * sizeof(T)], &v[n++], sizeof(T)); } while(mc::next(p, cs));
    }
    spec::writeChunks(dir, a, arr, B((const char *) &pad, sizeof(T)), skip);
    for(auto & kv : l.kinds) if(kv.second == VARLEN) {
        const auto v = elements(c, kv.first, VARLEN); S cs = c.chunk; for(std::size_t d = 0; d < cs.size(); ++d) cs[d] = std::min(cs[d], c.shape[d] - kv.first[d] * c.chunk[d]);
        const B path = dir + "/" + spec::key(a, kv.first);
        std::filesystem::create_directories(std::filesystem::path(path).parent_path());
        tree::spit(path, spec::encodeChunk(a, cs, bytesOf(v), v.size()));
    }
}

static std::map<S, B> cellsOf(const B & dir, const spec::Array & a) {
    std::map<S, B> m; for(auto & kv : spec::readAll(dir, a)) m[kv.first] = kv.second.elems + (kv.second.varlen ? "v" : ""); return m;
}

static std::vector<mk::Conf> confs() {
    std::vector<mk::Conf> r;
    const auto add = [&](const B & fmt, S sh, S ch, S shard, double fill, const B & codec) {
        mk::Conf c; c.fmt = fmt; c.dtype = ELEMNAME; c.shape = sh; c.chunk = ch; c.shard = shard; c.fill = fmt == "n5" ? 0 : fill; c.codec = codec; r.push_back(c);
    };
    const std::vector<B> fmts = ctx.thorough ? std::vector<B>{"n5", "z2.", "z2/", "z3/", "z3.", "v2.", "sh/", "sv."} : std::vector<B>{"n5", "z2.", "z2/", "z3/", "v2.", "sh/"};
    for(auto & f : fmts) {
        const bool s = f[0] == 's'; const B k = f == "n5" ? "gzip" : f == "z2." ? "raw" : "blosc";
        add(f, {5}, {2}, s ? S{4} : S{}, 0, k);
        add(f, {3, 3}, {2, 2}, s ? S{4, 4} : S{}, 3, k);
        add(f, {3, 4}, {2, 3}, s ? S{2, 6} : S{}, 5, k);
        add(f, {1, 1}, {1, 1}, s ? S{1, 1} : S{}, 0, k);
        add(f, {2, 3, 3}, {2, 3, 2}, s ? S{2, 3, 4} : S{}, 0, k);
        if(ctx.thorough) { add(f, {5, 3}, {2, 2}, s ? S{4, 4} : S{}, 0, k); add(f, {3, 3, 3}, {3, 2, 2}, s ? S{3, 4, 2} : S{}, 3, k); add(f, {7}, {2}, s ? S{4} : S{}, 3, k); }
    }
    return r;
}

template<class F> static void layouts(const mk::Conf & c, int kindsUsed, const F & f) {
    S n(c.shape.size()); for(std::size_t d = 0; d < n.size(); ++d) n[d] = (c.shape[d] + c.chunk[d] - 1) / c.chunk[d];
    std::vector<S> ids; S p(n.size(), 0); do ids.push_back(p); while(mc::next(p, n));
    std::vector<int> kinds; for(int k = 0; k < kindsUsed; ++k) if(k != PADSAME && (k != VARLEN || !c.zarr())) kinds.push_back(k);
    S choice(ids.size(), 0), hi(ids.size(), kinds.size());
    do {
        Layout l; for(std::size_t i = 0; i < ids.size(); ++i) { l.kinds[ids[i]] = kinds[choice[i]]; l.id += kindName[kinds[choice[i]]]; }
        f(l);
    } while(mc::next(choice, hi));
}

struct Reference { std::set<T> uniques; std::map<T, std::size_t> counts; std::map<S, B> afterTrivial, afterSpecific; };
static Reference reference(const mk::Conf & c, const Layout & l, const std::map<S, B> & cells, T specific) {
    Reference r; r.afterTrivial = r.afterSpecific = cells;
    for(auto & kv : l.kinds) {
        if(!cells.count(kv.first)) continue;
        const auto v = elements(c, kv.first, kv.second);
        bool same = true;
        for(T x : v) { r.uniques.insert(x); ++r.counts[x]; same &= x == v[0]; }
        if(same) { r.afterTrivial.erase(kv.first); if(v[0] == specific) r.afterSpecific.erase(kv.first); }
    }
    return r;
}
template<class M> static B showCounts(const M & m) { B s; for(auto & kv : m) s += std::to_string((double) kv.first) + "x" + std::to_string(kv.second) + " "; return s; }
static B showSet(const std::set<T> & m) { B s; for(auto & v : m) s += std::to_string((double) v) + " "; return s; }
static B keysOf(const std::map<S, B> & m) { B s; for(auto & kv : m) s += mc::str(kv.first) + " "; return s; }

// files outside of the dataset, and its documents
static tree::Snapshot rest(const B & root, const B & ds, const std::map<S, B> *) {
    tree::Snapshot s; for(auto & kv : tree::snapshot(root)) { const auto n = kv.first.find(ds + "/") == 0; const B leaf = kv.first.substr(kv.first.rfind('/') + 1); if(!n || leaf == ".zarray" || leaf == ".zattrs" || leaf == "zarr.json" || leaf == "attributes.json") s[kv.first] = kv.second; } return s;
}

#ifndef SCHED
static void values(const mk::Conf & c) {
    const B root = ctx.scratch + "/z5v_c17"; B base;
    const B cid = c.id();
    // threads, padding and layouts
    tree::wipe(root);
    auto created = mk::create(root, c); created.reset();
    { z5::filesystem::handle::File f(root, z5::FileMode(z5::FileMode::a)); z5::createGroup(f, "dd", c.zformat()); mk::Conf o = c; o.codec = "raw"; createIn(root, o, "d2"); }
    const spec::Array a = spec::parse(root + "/d");
    const tree::Snapshot bare = tree::snapshot(root);
    std::size_t chunks = 1; for(std::size_t d = 0; d < c.shape.size(); ++d) chunks *= (c.shape[d] + c.chunk[d] - 1) / c.chunk[d];
    const int kinds = chunks <= (ctx.thorough ? 4 : 3) ? KINDS : LASTDIFF + 1;
    const bool edge = [&] { for(std::size_t d = 0; d < c.shape.size(); ++d) if(c.shape[d] % c.chunk[d]) return true; return false; }();
    std::vector<T> pads = {fillOf(c)}; if(edge && c.zarr()) { pads.push_back(CONST); pads.push_back(77); }
    std::size_t n = 0;
    layouts(c, kinds, [&](const Layout & l) {
        for(T pad : pads) {
            const B id = "values|" + cid + "|" + l.id + "|pad " + std::to_string((int) pad);
            if(!ctx.want(id)) continue;
            ++ctx.count["cases"];
            const int threads[] = {1, 3, 2, 8, -1, 0};
            const std::vector<int> th = chunks <= 2 || ctx.thorough ? std::vector<int>(threads, threads + 6) : std::vector<int>{threads[n % 6], threads[(n + 1) % 6]}; ++n;
            const auto reset = [&] { tree::restore(root, bare, tree::snapshot(root)); store(root + "/d", c, a, l, pad); };
            reset();
            const std::map<S, B> cells = cellsOf(root + "/d", a);
            const tree::Snapshot whole = tree::snapshot(root);
            const Reference ref = reference(c, l, cells, CONST);
            for(int t : th) {
                const B at = " (" + std::to_string(t) + " threads)";
                reset();
                auto ds = mk::open(root);
                const auto guarded = [&](const B & what, const std::function<void()> & f) { const B e = mk::errOf(f); ctx.check(e.empty(), "fails:" + what + ":" + c.fmt, [&] { return id + ": " + what + at + " fails: " + e; }); return e.empty(); };
                std::set<T> u; std::map<T, std::size_t> m;
                if(guarded("unique", [&] { z5::util::unique<T>(*ds, t, u); })) ctx.check(u == ref.uniques, "unique:" + c.fmt, [&] { return id + ": unique" + at + " gives " + showSet(u) + ", the chunks contain " + showSet(ref.uniques); });
                if(guarded("uniqueWithCounts", [&] { z5::util::uniqueWithCounts<T>(*ds, t, m); })) ctx.check(m == ref.counts, "counts:" + c.fmt, [&] { return id + ": uniqueWithCounts" + at + " gives " + showCounts(m) + ", the chunks contain " + showCounts(ref.counts); });
                ctx.check(tree::snapshot(root) == whole, "reading-changes:" + c.fmt, [&] { return id + ": unique" + at + " changes the container"; });
                if(guarded("removeTrivialChunks", [&] { z5::util::removeTrivialChunks<T>(*ds, t, true, CONST); })) {
                    const auto got = cellsOf(root + "/d", a);
                    ctx.check(got == ref.afterSpecific, "specific:" + c.fmt, [&] { return id + ": removing chunks of " + std::to_string((int) CONST) + at + " leaves " + keysOf(got) + "instead of " + keysOf(ref.afterSpecific); });
                }
                if(guarded("removeTrivialChunks", [&] { z5::util::removeTrivialChunks<T>(*ds, t); })) {
                    const auto got = cellsOf(root + "/d", a);
                    ctx.check(got == ref.afterTrivial, "trivial:" + c.fmt, [&] { return id + ": removing trivial chunks" + at + " leaves " + keysOf(got) + "instead of " + keysOf(ref.afterTrivial); });
                }
                ctx.check(rest(root, "d", nullptr) == rest("", "", nullptr) || [&] { tree::Snapshot x; for(auto & kv : whole) if(rest(root, "d", nullptr).count(kv.first)) x[kv.first] = kv.second; return x == rest(root, "d", nullptr) ; }(), "others:" + c.fmt, [&] { return id + ": removing trivial chunks" + at + " changes documents or other nodes"; });
                // read-only: refused, nothing changed
                reset();
                auto ro = mk::open(root, "d", z5::FileMode::r);
                ctx.check(!mk::errOf([&] { z5::util::removeTrivialChunks<T>(*ro, t); }).empty() && !mk::errOf([&] { z5::util::removeDataset(*ro, t); }).empty() && tree::snapshot(root) == whole, "readonly:" + c.fmt, [&] { return id + ": removal in read-only mode" + at; });
                // removal of the dataset
                ds = mk::open(root);
                if(guarded("removeDataset", [&] { z5::util::removeDataset(*ds, t); })) {
                    tree::Snapshot want; for(auto & kv : whole) if(kv.first.compare(0, 2, "d/") != 0) want[kv.first] = kv.second;
                    ctx.check(tree::snapshot(root) == want, "remove:" + c.fmt, [&] { return id + ": removeDataset" + at + " leaves something of the dataset or changes something else"; });
                }
            }
            if(ctx.samples.size() < 3) ctx.sample(id + ": " + std::to_string(cells.size()) + " chunks, values " + showCounts(ref.counts));
        }
    });
    tree::wipe(root);
}

// iteration over chunks and blocks
static B visit(int t, std::size_t expected, const std::function<void(const std::function<void(int, B)> &)> & f, std::multiset<B> & seen) {
    std::mutex m; int lo = 0, hi = 0; const int n = z5::util::ParallelOptions(t).getActualNumThreads();
    B err = mk::errOf([&] { f([&](int tid, B what) { std::lock_guard<std::mutex> l(m); lo = std::min(lo, tid); hi = std::max(hi, tid); seen.insert(what); }); });
    if(err.empty() && (lo < 0 || hi >= n)) err = "thread id outside of [0, " + std::to_string(n) + ")";
    return err;
}
static B show(const std::multiset<B> & s) { B o; for(auto & x : s) o += x + " "; return o; }

static void iteration(const S & shape, const S & chunk) {
    const B root = ctx.scratch + "/z5v_c17i"; const std::size_t nd = shape.size();
    mk::Conf c; c.fmt = "n5"; c.dtype = ELEMNAME; c.shape = shape; c.chunk = chunk;
    const B id = "iteration|" + mc::str(shape) + "/" + mc::str(chunk);
    if(!ctx.want(id)) return;
    ++ctx.count["cases"];
    for(B fmt : {"n5", "sh/"}) {
        c.fmt = fmt; if(fmt == "sh/") { c.shard = chunk; for(auto & x : c.shard) x *= 2; }
        auto ds = mk::create(root, c);
        int k = 0; const int threads[] = {1, 4, 0, 2, -1};
        const auto th = [&] { return threads[k++ % 5]; };
        const auto grid = [&](const S & block, const S & lo, const S & hi, bool withShape) {
            std::multiset<B> e; S n(nd), p(nd, 0); for(std::size_t d = 0; d < nd; ++d) n[d] = (shape[d] + block[d] - 1) / block[d];
            do {
                bool in = true; S b(nd), s(nd);
                for(std::size_t d = 0; d < nd; ++d) { b[d] = p[d] * block[d]; s[d] = std::min(block[d], shape[d] - b[d]); in &= b[d] < hi[d] && b[d] + s[d] > lo[d]; }
                if(in) e.insert(withShape ? mc::str(b) + "+" + mc::str(s) : mc::str(p));
            } while(mc::next(p, n));
            return e;
        };
        const S zero(nd, 0);
        for(int i = 0; i < 5; ++i) {
            const int t = th(); const auto want = grid(chunk, zero, shape, false); std::multiset<B> seen; bool same = true;
            const B err = visit(t, want.size(), [&](auto rec) { z5::util::parallel_for_each_chunk(*ds, t, [&](int tid, const z5::Dataset & d, const S & p) { same &= &d == ds.get(); rec(tid, mc::str(p)); }); }, seen);
            ctx.check(err.empty() && seen == want && same, "chunks", [&] { return id + " " + fmt + ": chunks with " + std::to_string(t) + " threads: " + err + " visited " + show(seen) + "expected " + show(want); });
        }
        // blocks
        std::vector<S> blocks; { S b(nd, 1), lim(nd); for(std::size_t d = 0; d < nd; ++d) lim[d] = shape[d] + 2; S q(nd, 0), m(nd); for(std::size_t d = 0; d < nd; ++d) m[d] = lim[d] - 1; do { for(std::size_t d = 0; d < nd; ++d) b[d] = q[d] + 1; blocks.push_back(b); } while(mc::next(q, m)); }
        for(auto & b : blocks) {
            const int t = th(); const auto want = grid(b, zero, shape, true); std::multiset<B> seen;
            const B err = visit(t, want.size(), [&](auto rec) { z5::util::parallel_for_each_block(*ds, b, t, [&](int tid, const z5::Dataset &, const S & p, const S & s) { rec(tid, mc::str(p) + "+" + mc::str(s)); }); }, seen);
            ctx.check(err.empty() && seen == want, "blocks", [&] { return id + " " + fmt + ": blocks of " + mc::str(b) + " with " + std::to_string(t) + " threads: " + err + " visited " + show(seen) + "expected " + show(want); });
        }
        // every region
        S lo(nd, 0), lim = shape;
        do {
            S len(nd), q(nd, 0); for(std::size_t d = 0; d < nd; ++d) len[d] = shape[d] - lo[d];
            do {
                S hi(nd); for(std::size_t d = 0; d < nd; ++d) hi[d] = lo[d] + q[d] + 1;
                { const int t = th(); const auto want = grid(chunk, lo, hi, false); std::multiset<B> seen;
                  const B err = visit(t, want.size(), [&](auto rec) { z5::util::parallel_for_each_chunk_in_roi(*ds, lo, hi, t, [&](int tid, const z5::Dataset &, const S & p) { rec(tid, mc::str(p)); }); }, seen);
                  ctx.check(err.empty() && seen == want, "chunks-roi", [&] { return id + " " + fmt + ": chunks in " + mc::str(lo) + "-" + mc::str(hi) + " with " + std::to_string(t) + " threads: " + err + " visited " + show(seen) + "expected " + show(want); }); }
                for(auto & b : blocks) {
                    if(!ctx.thorough && nd > 1 && mk::prod(b) > 4 && b != chunk) continue;
                    const int t = ctx.thorough ? th() : (k++ % 7 ? 1 : 3); const auto want = grid(b, lo, hi, true); std::multiset<B> seen;
                    const B err = visit(t, want.size(), [&](auto rec) { z5::util::parallel_for_each_block_in_roi(*ds, b, lo, hi, t, [&](int tid, const z5::Dataset &, const S & p, const S & s) { rec(tid, mc::str(p) + "+" + mc::str(s)); }); }, seen);
                    ctx.check(err.empty() && seen == want, "blocks-roi", [&] { return id + " " + fmt + ": blocks of " + mc::str(b) + " in " + mc::str(lo) + "-" + mc::str(hi) + " with " + std::to_string(t) + " threads: " + err + " visited " + show(seen) + "expected " + show(want); });
                }
            } while(mc::next(q, len));
        } while(mc::next(lo, lim));
    }
    tree::wipe(root);
}

// chunks that contain NaN, which does not compare: not the same value as anything, no value besides it may be lost
static void nans(const mk::Conf & c0) {
    if(!std::is_floating_point<T>::value) return;
    mk::Conf c = c0; c.shape = {6}; c.chunk = {3}; if(c.sharded()) c.shard = {6};
    const T N = std::numeric_limits<T>::quiet_NaN(); const T alphabet[] = {N, 1, 2};
    const B root = ctx.scratch + "/z5v_c17n";
    S p(3, 0), hi(3, 3);
    do {
        const B id = "nan|" + c.id() + "|" + mc::str(p);
        if(!ctx.want(id)) continue;
        ++ctx.count["cases"];
        std::vector<T> v, w(3, 2); std::set<B> all; std::map<B, std::size_t> counts; const auto name = [](T x) { return std::isnan((double) x) ? B("nan") : std::to_string((double) x); };
        for(auto i : p) v.push_back(alphabet[i]);
        for(auto * q : {&v, &w}) for(T x : *q) { all.insert(name(x)); ++counts[name(x)]; }
        auto ds = mk::create(root, c); ds->writeChunk(S{0}, v.data()); ds->writeChunk(S{1}, w.data());
        const bool hasNan = all.count("nan");
        std::set<T> u; z5::util::unique<T>(*ds, 1, u); std::set<B> got; for(T x : u) got.insert(name(x));
        ctx.check(got == all && u.size() == got.size(), hasNan ? B("unique-nan") : "unique:" + c.fmt, [&] { B s; for(auto & x : got) s += x + " "; return id + ": unique gives " + s; });
        std::map<T, std::size_t> m; z5::util::uniqueWithCounts<T>(*ds, 1, m); std::map<B, std::size_t> gm; for(auto & kv : m) gm[name(kv.first)] += kv.second;
        ctx.check(gm == counts, hasNan ? B("counts-nan") : "counts:" + c.fmt, [&] { B s; for(auto & x : gm) s += x.first + "x" + std::to_string(x.second) + " "; return id + ": uniqueWithCounts gives " + s; });
        z5::util::removeTrivialChunks<T>(*ds, 1);
        const bool same = p == S{1, 1, 1} || p == S{2, 2, 2}, allNan = p == S{0, 0, 0};
        ctx.check(allNan || ds->chunkExists(S{0}) == !same, "trivial-nan:" + c.fmt, [&] { return id + ": removing trivial chunks removes a chunk with several values or leaves one with a single value"; });
        ctx.check(!ds->chunkExists(S{1}), "trivial:" + c.fmt, [&] { return id + ": trivial chunk remains"; });
    } while(mc::next(p, hi));
    tree::wipe(root);
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    if(std::is_floating_point<T>::value) { for(auto & c : confs()) if(c.shape == S{5}) { values(c); nans(c); } return ctx.finish(); }
    for(auto & c : confs()) values(c);
    const auto all = [&](int nd, std::size_t max) {
        S s(nd, 0), m(nd, max), ch(nd);
        do { S sh(nd), q(nd, 0), lim(nd); for(int d = 0; d < nd; ++d) { sh[d] = s[d] + 1; lim[d] = sh[d] + 1; } do { for(int d = 0; d < nd; ++d) ch[d] = q[d] + 1; iteration(sh, ch); } while(mc::next(q, lim)); } while(mc::next(s, m));
    };
    all(1, ctx.thorough ? 6 : 5); all(2, ctx.thorough ? 4 : 3); if(ctx.thorough) all(3, 2); else { iteration({2, 3, 2}, {1, 2, 2}); iteration({2, 2, 3}, {2, 1, 2}); }
    return ctx.finish();
}
#else
static void scenario(const mk::Conf & c, const Layout & l, int threads, const B & what, int bound) {
    mcrt::Scenario s; s.name = what + "|" + c.id() + "|" + l.id + "|" + std::to_string(threads) + " threads";
    struct State { tree::Snapshot bare, have; bool ready = false; std::unique_ptr<z5::Dataset> ds; std::map<S, B> cells; spec::Array a; };
    auto st = std::make_shared<State>(); const B root = ctx.scratch + "/z5v_c17s";
    s.setup = [=] {
        if(!st->ready) {
            mk::create(root, c).reset();
            st->a = spec::parse(root + "/d"); store(root + "/d", c, st->a, l, fillOf(c)); st->cells = cellsOf(root + "/d", st->a);
            st->have = st->bare = tree::snapshot(root); st->ready = true;
        }
        st->ds.reset();
        if(what != "unique" && what != "counts") tree::restore(root, st->bare, tree::snapshot(root));
        st->ds = mk::open(root);
    };
    s.run = [=]() -> B {
        try {
            if(what == "unique") { std::set<T> u; z5::util::unique<T>(*st->ds, threads, u); return showSet(u); }
            if(what == "counts") { std::map<T, std::size_t> u; z5::util::uniqueWithCounts<T>(*st->ds, threads, u); return showCounts(u); }
            if(what == "trivial") z5::util::removeTrivialChunks<T>(*st->ds, threads);
            if(what == "remove") z5::util::removeDataset(*st->ds, threads);
        } catch(std::exception & e) { return B("error: ") + e.what(); }
        return "ok";
    };
    s.verify = [=](const B & out) -> B {
        const Reference r = reference(c, l, st->cells, CONST);
        if(what == "unique") return out == showSet(r.uniques) ? "" : "unique gives " + out + ", the chunks contain " + showSet(r.uniques);
        if(what == "counts") return out == showCounts(r.counts) ? "" : "uniqueWithCounts gives " + out + ", the chunks contain " + showCounts(r.counts);
        if(out != "ok") return out;
        if(what == "trivial") { const auto got = cellsOf(root + "/d", st->a); return got == r.afterTrivial ? "" : "leaves " + keysOf(got) + "instead of " + keysOf(r.afterTrivial); }
        return std::filesystem::exists(root + "/d") ? "the dataset still exists" : "";
    };
    mcrt::Limits lim; lim.bound = bound; lim.spurious = ctx.thorough; lim.seconds = ctx.thorough ? 120 : 12;
    mcrt::explore(ctx, s, lim);
}
int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const auto conf = [&](const B & f, S sh, S ch, S shard) { mk::Conf c; c.fmt = f; c.dtype = ELEMNAME; c.shape = sh; c.chunk = ch; if(f[0] == 's') c.shard = shard; c.fill = f == "n5" ? 0 : 3; return c; };
    for(B f : {"n5", "z2/", "sh/"}) for(B what : {"unique", "counts", "trivial", "remove"}) for(int threads : {2, 3}) {
        const mk::Conf c = conf(f, {5}, {2}, {4});
        for(auto kinds : std::vector<std::vector<int>>{{CONSTANT, LASTDIFF, CONSTANT}, {LASTDIFF, ABSENT, FILLED}, {FIRSTDIFF, LASTDIFF, CONSTANT}}) {
            Layout l; for(std::size_t i = 0; i < kinds.size(); ++i) { l.kinds[S{i}] = kinds[i]; l.id += kindName[kinds[i]]; }
            scenario(c, l, threads, what, ctx.thorough ? (threads == 2 ? 2 : 1) : (threads == 2 ? 1 : 0));
        }
    }
    return ctx.finish();
}
#endif
