// C01: explicit-state exploration of the real implementation. A state is the byte contents of the
// dataset directory; every operation of the alphabet is executed on the real code from every
// reachable state and compared with a plain in-memory array. Second mode: every operation sequence
// up to a depth on one live handle. One translation unit per element type (-DELEM=...).
#include "mc.hpp"
#include "tree.hpp"
#include "z5/factory.hxx"
#include "z5/filesystem/handle.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include <deque>
#include <complex>
#include <cmath>
#include <unordered_map>

typedef z5::types::ShapeType S;
using namespace z5::multiarray;

struct Conf {
    std::string fmt;                 // n5 z2. z2/ z3/ z3. v2. v2/ sh/ sh.
    std::string codec; z5::types::CompressionOptions opts;
    S shape, chunk, shard;
    double fill = 0;
    int nvals = 2;                   // non-fill values in the alphabet
    int depth = 0;                   // > 0: live sequences of this depth instead of state exploration
    std::string tag;
    bool junk = false;               // chunk writes with non-fill padding
};

#ifdef ELEM
extern mc::Ctx ctx;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

namespace {
typedef ELEM T;

bool eq(const T & x, const T & y) { return x == y || (x != x && y != y); }

template<class U> U mkvalT(int i) {
    typedef U T;
    // values whose bytes all differ so that byte order matters
    if constexpr(std::is_floating_point_v<T>) return i == 0 ? (T) 1.5 : i == 1 ? (T) -1.0e-30 : (T) 3;
    else if constexpr(std::is_integral_v<T>) { T v = 0; for(unsigned k = 0; k < sizeof(T); ++k) v = (T)((unsigned long long) v | ((unsigned long long)(i * 0x40 + 0x11 + k) << (8 * k))); return v; }
    else return T((float) (i + 1.25), (float) (-i - 0.5));
}
T mkval(int i) { return mkvalT<T>(i); }

struct Op {
    enum Kind { WRITE, SCALAR, CHUNK, CHUNKJUNK, REMOVE } kind;
    S off, sh;       // region, or chunk id in off
    std::vector<int> vals;   // value index per element (-1 = fill value); one entry: constant
    int threads = 1;
    std::string str() const {
        static const char * n[] = {"write", "scalar", "writeChunk", "writeChunk(junk padding)", "removeChunk"};
        std::ostringstream o; o << n[kind] << mc::str(off);
        if(kind == WRITE || kind == SCALAR) o << "+" << mc::str(sh);
        if(kind != REMOVE) o << "=" << (vals.size() == 1 ? std::string(vals[0] < 0 ? "fill" : vals[0] ? "b" : "a") : std::string("pattern"));
        if(threads != 1) o << " threads " << threads;
        return o.str();
    }
};

struct Model {
    std::vector<T> a;
    std::vector<char> junk;      // chunk was written with non-fill padding
};

struct Explorer {
    Conf c; int nd; T fill; bool zarr; int zf; std::string delim, enc;
    std::string root; S cpd; std::size_t nchunks = 1, size = 1, csize = 1;
    std::unique_ptr<z5::Dataset> ds;
    std::vector<Op> ops;
    std::string id;

    Explorer(const Conf & conf, const std::string & id_) : c(conf), id(id_) {
        nd = c.shape.size();
        fill = static_cast<T>(c.fill);
        zarr = c.fmt != "n5"; zf = c.fmt == "n5" || c.fmt[0] == 'z' && c.fmt[1] == '2' ? 2 : 3;
        delim = c.fmt == "n5" ? "." : c.fmt.substr(2); enc = c.fmt.substr(0, 2) == "v2" ? "v2" : "default";
        root = ctx.scratch + "/c01";
        for(int d = 0; d < nd; ++d) { cpd.push_back((c.shape[d] + c.chunk[d] - 1) / c.chunk[d]); nchunks *= cpd[d]; size *= c.shape[d]; csize *= c.chunk[d]; }
        buildOps();
    }
    T val(int i) const { return i < 0 ? fill : mkval(i); }
    bool sharded() const { return !c.shard.empty(); }
    std::size_t lin(const S & p) const { std::size_t l = 0; for(int d = 0; d < nd; ++d) l = l * c.shape[d] + p[d]; return l; }
    std::size_t chunkLin(const S & p) const { std::size_t l = 0; for(int d = 0; d < nd; ++d) l = l * cpd[d] + p[d]; return l; }

    template<class F> void forRegions(F && f) const {
        S o(nd, 0);
        do {
            S room(nd), s(nd, 0); for(int d = 0; d < nd; ++d) room[d] = c.shape[d] - o[d];
            do { S sh(nd); for(int d = 0; d < nd; ++d) sh[d] = s[d] + 1; f(o, sh); } while(mc::next(s, room));
        } while(mc::next(o, c.shape));
    }
    template<class F> void forChunks(F && f) const { S p(nd, 0); do f(p); while(mc::next(p, cpd)); }
    template<class F> void forPts(const S & sh, F && f) const { S p(nd, 0); do f(p); while(mc::next(p, sh)); }

    void buildOps() {
        static const int threads[] = {1, 2, 1, 1, 1, 1, 0, 1, 1, 1, 1, 3, 1, 1, 1, -1, 1, 1, 2};
        int k = 0;
        forRegions([&](const S & o, const S & sh) {
            std::size_t n = 1; for(auto x : sh) n *= x;
            if(c.depth) {
                if(n == 1 || n == size) for(int v = -1; v < 1; ++v) { ops.push_back({n == 1 ? Op::WRITE : Op::SCALAR, o, sh, {v}, 1}); }
                return;
            }
            for(int v = -1; v < c.nvals; ++v) {
                ops.push_back({Op::WRITE, o, sh, {v}, threads[k++ % 19]});
                ops.push_back({Op::SCALAR, o, sh, {v}, threads[k++ % 19]});
            }
            if(n > 1) {
                std::vector<int> v(n); for(std::size_t i = 0; i < n; ++i) v[i] = (int)(i % (c.nvals + 1)) - (c.nvals > 1 ? 1 : 0);
                if(c.nvals == 1) for(auto & x : v) x = x ? -1 : 0;
                ops.push_back({Op::WRITE, o, sh, v, threads[k++ % 19]});
            }
        });
        forChunks([&](const S & p) {
            for(int v = c.depth ? 0 : -1; v < c.nvals; ++v) ops.push_back({Op::CHUNK, p, {}, {v}});
            if(zarr && c.junk) ops.push_back({Op::CHUNKJUNK, p, {}, {0}});
            ops.push_back({Op::REMOVE, p, {}, {}});
        });
    }

    void create() {
        tree::wipe(root);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
        z5::createFile(file, zarr, zf);
        if constexpr(!std::is_arithmetic_v<T>) {    // complex types exist in zarr v2 metadata only
            z5::types::CompressionOptions o; z5::types::defaultCompressionOptions(z5::types::raw, o, true);
            ds = z5::createDataset(file, "d", z5::DatasetMetadata(z5::types::complex64, c.shape, c.chunk, true, z5::types::raw, o, c.fill, delim));
        } else ds = z5::createDataset(file, "d", dtypeName(), c.shape, c.chunk, c.codec, c.opts, c.fill, delim, zf, enc, c.shard);
    }
    static std::string dtypeName() {
        if constexpr(std::is_same_v<T, int16_t>) return "int16"; else if constexpr(std::is_same_v<T, uint8_t>) return "uint8";
        else if constexpr(std::is_same_v<T, int64_t>) return "int64"; else if constexpr(std::is_same_v<T, float>) return "float32";
        else if constexpr(std::is_same_v<T, double>) return "float64"; else if constexpr(std::is_same_v<T, uint32_t>) return "uint32";
        else if constexpr(std::is_same_v<T, int8_t>) return "int8"; else return "complex64";
    }
    std::unique_ptr<z5::Dataset> reopen() const {
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::r_p));
        return z5::openDataset(file, "d");
    }

    // extent of the chunk inside the array
    S chunkExtent(const S & p) const { S e(nd); for(int d = 0; d < nd; ++d) e[d] = std::min(c.chunk[d], c.shape[d] - p[d] * c.chunk[d]); return e; }

    void apply(const z5::Dataset & d, const Op & op) const {
        switch(op.kind) {
            case Op::WRITE: {
                std::size_t n = 1; for(auto x : op.sh) n *= x;
                std::vector<T> b(n);
                for(std::size_t i = 0; i < n; ++i) b[i] = val(op.vals.size() == 1 ? op.vals[0] : op.vals[i]);
                writeSubarray<T>(d, makeView((const T *) b.data(), op.sh), op.off.begin(), op.threads);
                break; }
            case Op::SCALAR: writeScalar<T>(d, op.off.begin(), op.sh.begin(), val(op.vals[0]), op.threads); break;
            case Op::CHUNK: case Op::CHUNKJUNK: {
                const S e = chunkExtent(op.off);
                if(!zarr) { std::size_t n = 1; for(auto x : e) n *= x; std::vector<T> b(n, val(op.vals[0])); d.writeChunk(op.off, b.data()); }
                else {
                    std::vector<T> b(csize, op.kind == Op::CHUNK ? fill : mkval(1));
                    S st = cOrderStrides(c.chunk);
                    forPts(e, [&](const S & p) { std::size_t o = 0; for(int k = 0; k < nd; ++k) o += p[k] * st[k]; b[o] = val(op.vals[0]); });
                    d.writeChunk(op.off, b.data());
                }
                break; }
            case Op::REMOVE: d.removeChunk(op.off); break;
        }
    }
    void applyModel(Model & m, const Op & op) const {
        if(op.kind == Op::WRITE || op.kind == Op::SCALAR) {
            std::size_t i = 0;
            forPts(op.sh, [&](const S & p) { S g(nd); for(int d = 0; d < nd; ++d) g[d] = op.off[d] + p[d]; m.a[lin(g)] = val(op.vals.size() == 1 ? op.vals[0] : op.vals[i]); ++i; });
        } else {
            const T v = op.kind == Op::REMOVE ? fill : val(op.vals[0]);
            forPts(chunkExtent(op.off), [&](const S & p) { S g(nd); for(int d = 0; d < nd; ++d) g[d] = op.off[d] * c.chunk[d] + p[d]; m.a[lin(g)] = v; });
            const S e = chunkExtent(op.off);
            m.junk[chunkLin(op.off)] = op.kind == Op::CHUNKJUNK && e != c.chunk;
        }
    }
    bool chunkTrivial(const Model & m, const S & p) const {
        bool t = true;
        forPts(chunkExtent(p), [&](const S & q) { S g(nd); for(int d = 0; d < nd; ++d) g[d] = p[d] * c.chunk[d] + q[d]; t = t && eq(m.a[lin(g)], fill); });
        return t;
    }
    std::string show(const std::vector<T> & a) const {
        std::ostringstream o; o << "[";
        for(auto & x : a) { if constexpr(std::is_arithmetic_v<T>) o << +x << " "; else o << x << " "; }
        o << "]"; return o.str();
    }

    // quick comparison after every transition: whole array + chunk presence
    bool compare(const z5::Dataset & d, const Model & m, const std::string & how, int threads, const std::string & what) {
        std::vector<T> r(size, mkval(0));
        readSubarray<T>(d, makeView(r.data(), c.shape), S(nd, 0).begin(), threads);
        bool ok = true; for(std::size_t i = 0; i < size; ++i) ok = ok && eq(r[i], m.a[i]);
        if(!ctx.check(ok, "values:" + what, [&]{ return how + ": read " + show(r) + ", expected " + show(m.a); })) return false;
        bool pres = true; std::string bad;
        forChunks([&](const S & p) {
            const bool e = d.chunkExists(p), triv = chunkTrivial(m, p);
            if(e == triv && !(triv && (m.junk[chunkLin(p)] || fill != fill))) { pres = false; bad += mc::str(p); }
        });
        return ctx.check(pres, "presence:" + what, [&]{ return how + ": presence of chunks " + bad + " does not match the contents " + show(m.a); });
    }

    // thorough look at a new state: every region, several thread counts, chunk reads, a fresh handle
    void inspect(const z5::Dataset & d, const Model & m, const std::string & how) {
        int k = 0;
        static const int threads[] = {1, 1, 2, 1, 1, 1, 0, 1, 1, 3};
        forRegions([&](const S & o, const S & sh) {
            std::size_t n = 1; for(auto x : sh) n *= x;
            std::vector<T> r(n, mkval(1));
            const int th = threads[k++ % 10];
            readSubarray<T>(d, makeView(r.data(), sh), o.begin(), th);
            bool ok = true; std::size_t i = 0;
            forPts(sh, [&](const S & p) { S g(nd); for(int e = 0; e < nd; ++e) g[e] = o[e] + p[e]; ok = ok && eq(r[i++], m.a[lin(g)]); });
            ++ctx.count["region_reads"];
            ctx.check(ok, "region-read:" + c.fmt, [&]{ return how + ": reading " + mc::str(o) + "+" + mc::str(sh) + " (threads " + std::to_string(th) + ") gave " + show(r) + " from contents " + show(m.a); });
        });
        forChunks([&](const S & p) {
            if(!d.chunkExists(p)) return;
            const S e = chunkExtent(p);
            std::vector<T> b(csize, mkval(1));
            bool vl = d.readChunk(p, b.data());
            const S st = cOrderStrides(zarr ? c.chunk : e);
            bool ok = !vl;
            forPts(e, [&](const S & q) { std::size_t o = 0; S g(nd); for(int k = 0; k < nd; ++k) { o += q[k] * st[k]; g[k] = p[k] * c.chunk[k] + q[k]; } ok = ok && eq(b[o], m.a[lin(g)]); });
            ++ctx.count["chunk_reads"];
            ctx.check(ok, "chunk-read:" + c.fmt, [&]{ return how + ": readChunk " + mc::str(p) + " gave " + show(b) + " from contents " + show(m.a); });
        });
    }

    typedef std::pair<tree::Snapshot, Model> State;
    std::string key(const tree::Snapshot & s, const Model & m) const { return tree::flat(s) + std::string(m.junk.begin(), m.junk.end()); }

    void explore(long maxStates) {
        create();
        struct Node { tree::Snapshot snap; Model m; int parent; int op; };
        std::vector<Node> nodes;
        std::unordered_map<std::string, int> seen;      // full keys: no hash collisions
        auto path = [&](int n) { std::string s; std::vector<std::string> v; while(nodes[n].op >= 0) { v.push_back(ops[nodes[n].op].str()); n = nodes[n].parent; } for(auto it = v.rbegin(); it != v.rend(); ++it) s += *it + "; "; return s; };
        Model m0{std::vector<T>(size, fill), std::vector<char>(nchunks, 0)};
        tree::Snapshot cur = tree::snapshot(root);
        nodes.push_back({cur, m0, -1, -1}); seen[key(cur, m0)] = 0;
        { auto d = reopen(); compare(*ds, m0, id + " (new)", 1, c.fmt); compare(*d, m0, id + " (new, reopened)", 1, c.fmt); inspect(*d, m0, id + " (new)"); }
        ds.reset();
        for(std::size_t n = 0; n < nodes.size(); ++n) {
            if(ctx.violations.size() > 20) break;
            for(std::size_t k = 0; k < ops.size(); ++k) {
                tree::restore(root, nodes[n].snap, cur);
                auto d = reopen();
                Model m = nodes[n].m;
                auto how = [&]{ return id + ": " + path(n) + ops[k].str(); };
                ++ctx.count["transitions"];
                try { apply(*d, ops[k]); }
                catch(const std::exception & e) { ctx.violation("exception:" + c.fmt, how() + " raised " + e.what()); cur = tree::snapshot(root); continue; }
                applyModel(m, ops[k]);
                cur = tree::snapshot(root);
                // a chunk that was rewritten with fill only is gone together with its junk
                forChunks([&](const S & p) { if(m.junk[chunkLin(p)] && !d->chunkExists(p)) m.junk[chunkLin(p)] = 0; });
                const std::string kk = key(cur, m);
                auto it = seen.find(kk);
                if(it != seen.end()) {
                    // same bytes: the model must agree with the recorded one
                    bool ok = true; const auto & o = nodes[it->second].m.a;
                    for(std::size_t i = 0; i < size; ++i) ok = ok && eq(o[i], m.a[i]);
                    ctx.check(ok, "values:" + c.fmt, [&]{ return how() + ": stored bytes are those of contents " + show(o) + ", expected " + show(m.a); });
                    // the live handle must agree as well (it may keep state)
                    if(k % 3 == 0) compare(*d, m, how() + " (same handle)", 1, c.fmt);
                    continue;
                }
                if(!compare(*d, m, how() + " (same handle)", 1, c.fmt)) continue;
                auto f = reopen();
                if(!compare(*f, m, how() + " (reopened)", 2, c.fmt)) continue;
                if(tree::snapshot(root) != cur) ctx.violation("read-modifies", how() + ": reading changed the stored files");
                inspect(*f, m, how());
                if((long) nodes.size() < maxStates) { seen[kk] = nodes.size(); nodes.push_back({cur, m, (int) n, (int) k}); }
                else ctx.gauge["capped"] = 1;
            }
        }
        ctx.count["states"] += nodes.size();
        ctx.gauge["max_states_per_config"] = std::max<long long>(ctx.gauge["max_states_per_config"], nodes.size());
        ctx.outcome(id + std::to_string(nodes.size()));
        ctx.sample(id + ": " + std::to_string(nodes.size()) + " states, last reached by " + path(nodes.size() - 1), 3);
    }

    // every sequence of `depth` operations on one live handle, checked after every step
    void sequences() {
        std::vector<std::size_t> idx(c.depth, 0), hi(c.depth, ops.size());
        create();
        tree::Snapshot blank = tree::snapshot(root);
        do {
            if(ctx.violations.size() > 20) return;
            // a fresh handle per sequence, not across sequences
            tree::restore(root, blank, tree::snapshot(root));
            ds = reopen();
            Model m{std::vector<T>(size, fill), std::vector<char>(nchunks, 0)};
            std::string how = id + " live:";
            for(int i = 0; i < c.depth; ++i) {
                const Op & op = ops[idx[i]];
                how += " " + op.str() + ";";
                try { apply(*ds, op); } catch(const std::exception & e) { ctx.violation("exception:" + c.fmt, how + " raised " + e.what()); break; }
                applyModel(m, op);
                ++ctx.count["live_steps"];
                if(!compare(*ds, m, how, 1, c.fmt)) break;
            }
            auto f = reopen();
            compare(*f, m, how + " (reopened)", 1, c.fmt);
            ++ctx.count["live_sequences"];
        } while(mc::next(idx, hi));
    }
};
}
void CAT(run_, ELEMNAME)(const Conf & c, const std::string & id, bool thorough) {
    Explorer e(c, id);
    if(c.depth) e.sequences(); else e.explore(thorough ? 200000 : 30000);
}
#else

mc::Ctx ctx;
#define DECL(n) void run_##n(const Conf &, const std::string &, bool);
DECL(i16) DECL(u8) DECL(i64) DECL(f32) DECL(f64) DECL(c64)

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool T = ctx.thorough;
    typedef std::function<void(const Conf &, const std::string &, bool)> Run;
    const std::map<std::string, Run> runs = {{"i16", run_i16}, {"u8", run_u8}, {"i64", run_i64}, {"f32", run_f32}, {"f64", run_f64}, {"c64", run_c64}};
    const std::vector<std::string> fmts = {"n5", "z2.", "z2/", "z3/", "z3.", "v2.", "v2/", "sh/", "sh."};
    auto go = [&](const std::string & type, Conf c) {
        if(c.fmt.substr(0, 2) != "sh") c.shard.clear();
        const std::string id = c.fmt + ":" + type + ":" + c.codec + c.tag + ":" + mc::str(c.shape) + "/" + mc::str(c.chunk) + (c.shard.empty() ? "" : "/" + mc::str(c.shard))
            + ":fill" + std::to_string((int) c.fill) + (std::isnan(c.fill) ? "nan" : "") + (c.depth ? ":live" + std::to_string(c.depth) : "");
        if(!ctx.want(id)) return;
        try { runs.at(type)(c, id, T); }
        catch(const std::exception & e) { ctx.violation("exception:" + c.fmt, id + ": " + e.what()); }
    };
    const double nan = std::nan("");
    for(auto & f : fmts) {
        const bool n5 = f == "n5";
        // shapes
        if(T || f == "n5" || f == "z2." || f == "z3/" || f == "sh/") go("i16", {f, "raw", {}, {3, 3}, {2, 2}, {4, 2}, 0, 1});
        const bool core = f == "n5" || f == "z2." || f == "z3/" || f == "sh/";
        go("i16", {f, "raw", {}, {3, 2}, {2, 2}, {2, 4}, n5 ? 0. : 7., T || core ? 2 : 1});
        go("i64", {f, "raw", {}, {5}, {2}, {4}, n5 ? 0. : -3., T || core ? 2 : 1});
        go("u8", {f, "raw", {}, {4}, {2}, {8}, 0, 2});
        go("u8", {f, "raw", {}, {5}, {3}, {6}, n5 ? 0. : 255., T || core ? 2 : 1});
        go("i16", {f, "raw", {}, {3}, {5}, {5}, n5 ? 0. : 1000., 2});
        if(T || core) go("f64", {f, "raw", {}, {2, 2, 2}, {2, 1, 2}, {2, 2, 4}, n5 ? 0. : 0.1, 1});
        go("i16", {f, "raw", {}, {1, 5}, {1, 2}, {1, 4}, 0, 1});
        if(T || !core) go("i16", {f, "raw", {}, {2, 4}, {2, 1}, {2, 3}, 0, 1});
        if(!n5) go("f32", {f, "raw", {}, {5}, {2}, {4}, nan, T ? 2 : 1});
        go("f32", {f, "raw", {}, {4}, {3}, {6}, n5 ? 0. : -INFINITY, 2});
        if(f.substr(0, 2) == "z2") go("c64", {f, "raw", {}, {3}, {2}, {4}, 0, 2});
        if(!n5) go("i64", {f, "raw", {}, {3}, {2}, {4}, 5, 2, 0, "junk", true});
        if(!n5) go("i16", {f, "raw", {}, {3, 2}, {2, 2}, {4, 2}, 0, 1, 0, "junk", true});
        // live handles
        go("i16", {f, "raw", {}, {3}, {2}, {4}, n5 ? 0. : 9., 1, T ? 4 : 3});
        go("u8", {f, "raw", {}, {2, 2}, {2, 1}, {2, 2}, 0, 1, T ? 4 : 2});
        // codecs
        std::vector<std::string> codecs = n5 ? std::vector<std::string>{"gzip", "bzip2", "xz", "lz4", "blosc", "zstd"}
            : f[1] == '2' && f[0] == 'z' ? std::vector<std::string>{"zlib", "bzip2", "lz4", "blosc", "zstd"} : std::vector<std::string>{"gzip", "blosc", "zstd"};
        for(auto & cd : codecs) {
            go("i16", {f, cd, {}, {3, 2}, {2, 2}, {4, 2}, n5 ? 0. : 5., 1});
            if(T || f == "n5" || f == "z2." || f == "sh/") go("f64", {f, cd, {}, {4}, {3}, {6}, 0, 2});
            if(T) go("i64", {f, cd, {}, {5}, {2}, {4}, 0, 2});
        }
        if(T) {
            go("i16", {f, "raw", {}, {3, 3}, {2, 2}, {4, 4}, 0, 1});
            go("i16", {f, "raw", {}, {7}, {3}, {6}, 0, 2});
            go("u8", {f, "raw", {}, {3, 3}, {3, 2}, {3, 4}, n5 ? 0. : 1., 1});
            go("i16", {f, "raw", {}, {2, 2, 3}, {2, 2, 2}, {2, 2, 4}, 0, 1});
            go("i64", {f, "raw", {}, {2, 5}, {2, 2}, {2, 4}, 0, 1});
        }
    }
    return ctx.finish();
}
#endif
