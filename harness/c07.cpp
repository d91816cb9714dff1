// C07: region I/O with several threads, under every schedule, equals the single-threaded operation.
#include "mcrt.hpp"
#include "mk.hpp"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"

using namespace z5::multiarray;
typedef std::string Str;
typedef mk::S S;
typedef int32_t T;

struct Op {
    Str kind;               // read write scalar
    S off, shape;
    int threads;
    T value = 0;            // scalar
    bool mixed = false;     // the written region contains a block of fill values
    std::vector<S> corrupt; // chunk files that cannot be decoded
    bool blocked = false;   // chunk paths of `corrupt` are directories (writing fails)
    Str id() const {
        Str s = kind + mc::str(off) + "+" + mc::str(shape) + " threads " + std::to_string(threads);
        if(kind == "scalar") s += " value " + std::to_string(value);
        if(mixed) s += " with fill block";
        if(!corrupt.empty()) { s += blocked ? " blocked" : " corrupt"; for(auto & c : corrupt) s += mc::str(c); }
        return s;
    }
};

static Str ROOT;
static std::unique_ptr<z5::Dataset> DS;
static std::vector<T> BUF;

static T cell(const S & shape, std::size_t i, const Op & op) { return op.mixed && i < mk::prod(shape) / 2 ? 7 : (T) (1000 + 3 * i); }

static Str perform(const Op & op, int threads) {
    Str res = "ok|";
    try {
        if(op.kind == "read") readSubarray<T>(*DS, makeView(BUF.data(), op.shape), op.off.begin(), threads);
        else if(op.kind == "write") writeSubarray<T>(*DS, ConstArrayView<T>(BUF.data(), op.shape, cOrderStrides(op.shape)), op.off.begin(), threads);
        else writeScalar<T>(*DS, op.off.begin(), op.shape.begin(), op.value, threads);
    }
    catch(const std::exception & e) { res = Str("error ") + e.what() + "|"; }
    catch(...) { res = "error unknown|"; }
    // the caller may reuse its buffer now
    for(auto & x : BUF) { res += std::to_string(x) + ","; x = -5; }
    DS.reset();
    return res;
}
static void fillBuf(const Op & op) {
    BUF.assign(mk::prod(op.shape), -77);
    if(op.kind == "write") for(std::size_t i = 0; i < BUF.size(); ++i) BUF[i] = cell(op.shape, i, op);
}

static void scenarios(mc::Ctx & ctx, mk::Conf c, const Op & op, int bound, double secs) {
    c.fill = c.zarr() ? 7 : 0;
    if(!op.corrupt.empty() && !op.blocked && c.zarr() && !c.sharded()) c.codec = c.zformat() == 2 ? "zlib" : "gzip";
    mcrt::Scenario s;
    s.name = op.kind + (op.corrupt.empty() ? "" : " failing") + "|" + c.id() + " " + op.id();
    // initial contents: all chunks but the last written
    auto initial = std::make_shared<tree::Snapshot>(), expected = std::make_shared<tree::Snapshot>();
    auto expRes = std::make_shared<Str>();
    auto have = std::make_shared<tree::Snapshot>();
    auto prepared = std::make_shared<bool>(false);
    auto corruptTree = std::make_shared<std::set<Str>>();
    auto prep = [=]() {
        DS.reset();
        auto d = mk::create(ROOT, c);
        S off(c.shape.size(), 0), shp = c.shape; shp[0] = c.shape[0] > 2 ? c.shape[0] - 2 : 1;
        std::vector<T> v(mk::prod(shp)); for(std::size_t i = 0; i < v.size(); ++i) v[i] = 50 + i;
        writeSubarray<T>(*d, ConstArrayView<T>(v.data(), shp, cOrderStrides(shp)), off.begin());
        for(auto & ch : op.corrupt) {
            fs::path p; d->chunkPath(ch, p);
            fs::create_directories(p.parent_path());
            if(op.blocked) { fs::remove(p); fs::create_directories(p); }
            else tree::spit(p, c.fmt == "n5" ? c.shape.size() == 1 ? Str("\0\1\0\1\0\0\0\1\0\0\0\4", 12) : Str("\0\1\0\2\0\0\0\1\0\0\0\1\0\0\0\4", 16) : Str("corrupt!"));
            corruptTree->insert(fs::relative(p, ROOT).string());
        }
        d.reset();
        *initial = tree::snapshot(ROOT);
        DS = mk::open(ROOT);
        fillBuf(op);
        *expRes = perform(op, 1);
        *expected = tree::snapshot(ROOT);
        *have = *expected;
        *prepared = true;
    };
    s.setup = [=]() {
        if(!*prepared) prep();
        else *have = tree::snapshot(ROOT);
        tree::restore(ROOT, *initial, *have);
        DS = mk::open(ROOT);
        fillBuf(op);
    };
    s.run = [=]() -> Str { return perform(op, op.threads); };
    s.verify = [=](const Str & o) -> Str {
        const auto now = tree::snapshot(ROOT);
        if(op.corrupt.empty()) {
            if(o != *expRes) return "result " + o + ", single-threaded " + *expRes;
            if(now != *expected) return "stored files " + tree::names(now) + " differ from the single-threaded ones " + tree::names(*expected);
            return "";
        }
        if(o.compare(0, 5, "error") != 0) return "no error reported: " + o;
        if(expRes->compare(0, 5, "error") != 0) return "";
        // every other chunk: old or new contents; no foreign files
        for(auto & kv : now) {
            if(initial->count(kv.first) && initial->at(kv.first) == kv.second) continue;
            if(corruptTree->count(kv.first)) { if(op.kind == "write") continue; return "file " + kv.first + " was changed"; }
            if(kv.first.back() == '/') continue;
            if(op.kind == "read") return "reading changed " + kv.first;
        }
        for(auto & kv : *initial) if(!now.count(kv.first) && (op.kind == "read" || !(op.mixed || op.kind == "scalar"))) return "file " + kv.first + " disappeared";
        return "";
    };
    mcrt::Limits l; l.bound = bound; l.seconds = secs; l.coldBound = 0;
    mcrt::explore(ctx, s, l);
    DS.reset();
}

int main(int argc, char ** argv) {
    mc::Ctx ctx; ctx.init(argc, argv);
    ROOT = ctx.scratch + "/z5v_c07";
    const bool th = ctx.thorough;
    auto conf = [](const Str & fmt, S sh, S ch, S shard = S(), const Str & codec = "raw") { mk::Conf c; c.fmt = fmt; c.shape = sh; c.chunk = ch; c.shard = shard; c.codec = codec; return c; };
    struct G { mk::Conf c; S full, inner, innerOff; S bad; };
    std::vector<G> gs = {
        {conf("z3/", {6}, {2}), {6}, {4}, {1}, {1}},
        {conf("sh/", {6}, {1}, {2}), {6}, {4}, {1}, {2}},
        {conf("n5", {6}, {2}), {6}, {4}, {1}, {1}},
        {conf("z2.", {5}, {2}), {5}, {3}, {1}, {1}},
        {conf("sh/", {3, 2}, {1, 1}, {1, 2}), {3, 2}, {3, 1}, {0, 1}, {1, 0}},
        // several chunks in a directory which does not exist yet
        {conf("z3/", {4, 2}, {2, 1}), {4, 2}, {1, 2}, {3, 0}, {1, 0}},
        {conf("n5", {2, 4}, {1, 2}), {2, 4}, {1, 3}, {1, 1}, {1, 0}},
    };
    for(auto & g : gs) {
        const bool main = &g - &gs[0] < 3;
        
        for(int threads : {2, 3}) {
            const int b = threads == 2 ? (th ? 2 : 1) : (th ? 1 : 0);
            const double sec = th ? 60 : 6;
            const S zero(g.full.size(), 0);
            scenarios(ctx, g.c, {"read", zero, g.full, threads}, b, sec);
            scenarios(ctx, g.c, {"write", zero, g.full, threads}, b, sec);
            scenarios(ctx, g.c, {"write", g.innerOff, g.inner, threads}, b, sec);
            scenarios(ctx, g.c, {"write", zero, g.full, threads, 0, true}, b, sec);
            scenarios(ctx, g.c, {"scalar", g.innerOff, g.inner, threads, 9}, b, sec);
            scenarios(ctx, g.c, {"scalar", zero, g.full, threads, (T) (g.c.zarr() ? 7 : 0)}, b, sec);
            if(threads == 2 || th) {
                scenarios(ctx, g.c, {"read", g.innerOff, g.inner, threads}, b, sec);
                scenarios(ctx, g.c, {"read", zero, g.full, threads, 0, false, {g.bad}}, b, sec);
                scenarios(ctx, g.c, {"write", g.innerOff, g.inner, threads, 0, false, {g.innerOff.size() == 1 ? S{0} : g.bad}}, b, sec);
                scenarios(ctx, g.c, {"write", zero, g.full, threads, 0, false, {g.bad}, true}, b, sec);
            }
        }
        for(int threads : {0, 1}) { const S zero(g.full.size(), 0); scenarios(ctx, g.c, {"write", g.innerOff, g.inner, threads}, 0, 2); scenarios(ctx, g.c, {"read", zero, g.full, threads}, 0, 2); }
    }
    // shared codec state, other element counts: any schedule shows a race
    for(const Str fmt : {"n5", "z2.", "z3/", "sh/"}) for(const Str codec : {"zlib", "gzip", "bzip2", "xz", "lz4", "zstd", "blosc"}) {
        if((codec == "bzip2" || codec == "lz4") && (fmt == "z3/" || fmt == "sh/") || (codec == "xz" && fmt != "n5") || (codec == "zlib" && fmt != "z2.") || (codec == "gzip" && fmt == "z2.")) continue;
        auto c = conf(fmt, {24}, {8}, fmt == "sh/" ? S{8} : S(), codec);
        if(fmt == "sh/") c.chunk = {4};
        scenarios(ctx, c, {"write", {2}, {20}, 2}, th ? 1 : 0, th ? 40 : 5);
        scenarios(ctx, c, {"read", {0}, {24}, 2}, th ? 1 : 0, th ? 40 : 5);
    }
    return ctx.finish();
}
