// C12: damaged stored data. Every truncation, every single-byte substitution, extensions and crafted headers of every
// stored file of small datasets, read through every entry point of the real code under two memory monitors:
//   ASAN build: instrumented z5 code;  GUARD build: every heap allocation ends at an inaccessible page, so that
//   reads and writes behind a buffer are caught inside the (uninstrumented) codec libraries as well.
#include <new>
#include <malloc.h>
#include <sys/mman.h>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <unistd.h>

static const std::size_t MEMLIMIT = std::size_t(64) << 20;     // larger requests fail, as on a small machine
#ifdef GUARD
// slots of 2^k pages followed by an inaccessible page; the allocation is placed at the end of its slot
namespace guard {
static const std::size_t PG = 4096;
struct Free { Free * next; };
static Free * freeList[20];
static std::mutex m;
static unsigned char * get(std::size_t n) {
    if(n > MEMLIMIT) throw std::bad_alloc();
    int k = 0; while((PG << k) < n + 32) ++k;
    const std::size_t slot = PG << k;
    unsigned char * p;
    std::lock_guard<std::mutex> l(m);
    if(freeList[k]) { p = (unsigned char *) freeList[k]; freeList[k] = freeList[k]->next; }
    else {
        p = (unsigned char *) mmap(nullptr, slot + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED) throw std::bad_alloc();
        mprotect(p + slot, PG, PROT_NONE);
    }
    // alignment: the largest power of two that divides the size, at most 16
    std::size_t a = n ? (n & ~(n - 1)) : 1; if(a > 16) a = 16;
    unsigned char * r = p + ((slot - n) / a) * a;
    // header in front (bytewise, maybe unaligned) tells the slot
    const uint64_t tag[2] = {(uint64_t) (uintptr_t) p, 0x5A35A5A500000000ull | (uint64_t) k};
    memcpy(r - 16, tag, 16);
    memset(r, 0xDB, n < 512 ? n : 512);
    return r;
}
static void put(void * q) {
    if(!q) return;
    uint64_t tag[2]; memcpy(tag, (char *) q - 16, 16);
    if((tag[1] & 0xFFFFFFFF00000000ull) != 0x5A35A5A500000000ull) { const char t[] = "GUARD: memory in front of a buffer was overwritten\n"; if(write(2, t, sizeof(t) - 1)) {} abort(); }
    std::lock_guard<std::mutex> l(m);
    Free * f = (Free *) (uintptr_t) tag[0]; f->next = freeList[tag[1] & 31]; freeList[tag[1] & 31] = f;
}
}
#include <unistd.h>
void * operator new(std::size_t n) { return guard::get(n); }
void * operator new[](std::size_t n) { return guard::get(n); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return guard::get(n); } catch(...) { return nullptr; } }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return guard::get(n); } catch(...) { return nullptr; } }
void operator delete(void * p) noexcept { guard::put(p); }
void operator delete[](void * p) noexcept { guard::put(p); }
void operator delete(void * p, std::size_t) noexcept { guard::put(p); }
void operator delete[](void * p, std::size_t) noexcept { guard::put(p); }
#else
// malloc is the sanitizer's; requests beyond the limit fail with bad_alloc instead of ending the process
static void * alloc(std::size_t n) { if(n > MEMLIMIT) throw std::bad_alloc(); void * p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void * operator new(std::size_t n) { return alloc(n); }
void * operator new[](std::size_t n) { return alloc(n); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return n > MEMLIMIT ? nullptr : malloc(n ? n : 1); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return n > MEMLIMIT ? nullptr : malloc(n ? n : 1); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, std::size_t) noexcept { free(p); }
void operator delete[](void * p, std::size_t) noexcept { free(p); }
extern "C" const char * __asan_default_options() { return "allocator_may_return_null=1:max_allocation_size_mb=64:detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=1:quarantine_size_mb=16:malloc_context_size=8"; }
extern "C" const char * __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=99"; }
#endif

#include "mk.hpp"
#include "spec.hpp"
#include "z5/multiarray/array_access.hxx"
#include "z5/util/functions.hxx"
#include "z5/attributes.hxx"
using namespace mk;
mc::Ctx ctx;
typedef std::string B;

enum Must { ANY, FAIL };        // what a reader of the damaged chunk may do

struct Ds {
    Conf c; B root; std::size_t e = 0; bool varlen = false;
    std::vector<S> ids;
    tree::Snapshot good;
    std::map<S, B> values;      // decoded chunks of the undamaged dataset
};

// one reader call: "" or "error ..."
template<class F> static B attempt(F && f) {
    ++ctx.count["transitions"];
    try { f(); return ""; } catch(std::exception & e) { return B("error: ") + e.what(); }
}

// read one chunk into a buffer sized like the library's own callers do; twice over different garbage: every element
// reported as read has to come from the stored data
static B readOne(const z5::Dataset & ds, const Ds & d, const S & id, B & out) {
    B r[2];
    for(int k = 0; k < 2; ++k) {
        const B err = attempt([&] {
            std::size_t n;
            const bool vl = ds.checkVarlenChunk(id, n);
            if(!vl && ds.isZarr()) n = ds.defaultChunkSize();
            std::vector<char> buf(std::max(ds.defaultChunkSize(), n) * d.e, k ? '\x3C' : '\xA5');
            ds.readChunk(id, buf.data());
            r[k].assign(buf.data(), n * d.e);
        });
        if(!err.empty()) return err;
    }
    out = r[0];
    if(r[0] != r[1]) {
        ctx.violation("unset:" + d.c.id() + ":chunk", ctx.current + ": readChunk " + mc::str(id) + " returns normally but leaves elements unset");
    }
    return "";
}

template<class T>
static B readAllT(const z5::Dataset & ds, const Ds & d, const S & shape, int threads) {
    B r[2];
    for(int k = 0; k < 2; ++k) {
        const B err = attempt([&] {
            std::size_t n = prod(shape);
            std::vector<char> buf(n * sizeof(T), k ? '\x3C' : '\xA5');
            auto v = z5::multiarray::makeView((T *) buf.data(), shape);
            const S zero(shape.size(), 0);
            z5::multiarray::readSubarray<T>(ds, v, zero.begin(), threads);
            r[k].assign(buf.data(), buf.size());
        });
        if(!err.empty()) return err;
    }
    if(r[0] != r[1]) ctx.violation("unset:" + d.c.id() + ":region", ctx.current + ": readSubarray returns normally but leaves elements unset");
    return "";
}
template<class T>
static B writePartT(const z5::Dataset & ds, const S & shape) {
    return attempt([&] {
        // everything but the first element in the last dimension: partial writes of all chunks
        S sh = shape, off(shape.size(), 0);
        if(sh.back() < 2) return;
        sh.back() -= 1; off.back() = 1;
        std::vector<T> buf(prod(sh), T(7));
        auto v = z5::multiarray::makeView((const T *) buf.data(), sh);
        z5::multiarray::writeSubarray<T>(ds, v, off.begin());
    });
}
template<class T> static B uniqT(const z5::Dataset & ds) { return attempt([&] { std::set<T> u; z5::util::unique<T>(ds, 1, u); }); }
template<class T> static B trivT(const z5::Dataset & ds) { return attempt([&] { z5::util::removeTrivialChunks<T>(ds, 1); }); }
#define BYTYPE(dt, F, ...) (dt == "int16" ? F<int16_t>(__VA_ARGS__) : dt == "uint8" ? F<uint8_t>(__VA_ARGS__) : dt == "float64" ? F<double>(__VA_ARGS__) : F<uint32_t>(__VA_ARGS__))

// run every reader over the damaged dataset; 'bad': the chunks whose data is damaged
static void probe(const Ds & d, const B & what, const B & file, const B & data, const std::vector<S> & bad, Must must, bool writes = true) {
    const B path = d.root + "/" + file;
    tree::spit(path, data);
    ++ctx.count["states"];
    {
        std::unique_ptr<z5::Dataset> ds;
        B err = attempt([&] { ds = mk::open(d.root); });
        if(!err.empty()) { ctx.violation("open:" + d.c.id(), ctx.current + ": " + what + ": the dataset cannot be opened (" + err + ")"); goto done; }
        B r[6];
        for(auto & id : bad) {
            B out; std::size_t n;
            const B e1 = readOne(*ds, d, id, out);
            attempt([&] { ds->chunkExists(id); });
            attempt([&] { S sh; ds->getChunkShape(id, sh, true); });
            attempt([&] { ds->getChunkShape(id, 0u, true); });
            attempt([&] { ds->checkVarlenChunk(id, n); });
            attempt([&] { std::vector<char> raw; ds->readRawChunk(id, raw);
                          std::vector<char> outv(ds->defaultChunkSize() * d.e);
                          ds->decompress(raw, outv.data(), ds->defaultChunkSize()); });
            ctx.outcome(d.c.codec + " " + e1);
            if(ctx.samples.size() < 6 && ctx.caseIndex % 97 == 0) ctx.sample(ctx.current + ": " + (e1.empty() ? B("accepted") : e1));
            if(must == FAIL) ctx.check(!e1.empty(), "accepted:" + d.c.id() + ":chunk", [&] { return ctx.current + ": " + what + ": readChunk " + mc::str(id) + " returns data instead of an error"; });
            if(e1.empty()) ++ctx.count["accepted"]; else ++ctx.count["refused"];
        }
        const B e2 = BYTYPE(d.c.dtype, readAllT, *ds, d, d.c.shape, 1);
        if(must == FAIL && !d.varlen) ctx.check(!e2.empty(), "accepted:" + d.c.id() + ":region", [&] { return ctx.current + ": " + what + ": readSubarray returns data instead of an error"; });
        if(!writes && !ctx.thorough) { tree::spit(path, d.good.at(file)); return; }
        const B e3 = BYTYPE(d.c.dtype, uniqT, *ds);
        if(must == FAIL) ctx.check(!e3.empty(), "accepted:" + d.c.id() + ":unique", [&] { return ctx.current + ": " + what + ": unique returns values instead of an error"; });
        // a partial write has to read the damaged chunk: it must not replace it silently
        const B e4 = BYTYPE(d.c.dtype, writePartT, *ds, d.c.shape);
        if(must == FAIL && !d.varlen && bad[0].back() == 0) {       // (otherwise it may be replaced as a whole)
            ctx.check(!e4.empty(), "accepted:" + d.c.id() + ":partial-write", [&] { return ctx.current + ": " + what + ": a partial write over the damaged chunk succeeds"; });
            B now; try { now = tree::slurp(path); } catch(...) {}
            ctx.check(now == data, "replaced:" + d.c.id() + ":partial-write", [&] { return ctx.current + ": " + what + ": a refused partial write changed the damaged file"; });
        }
        tree::spit(path, data);
        const B e5 = BYTYPE(d.c.dtype, trivT, *ds);
        if(must == FAIL) ctx.check(!e5.empty(), "accepted:" + d.c.id() + ":trivial", [&] { return ctx.current + ": " + what + ": removeTrivialChunks succeeds over the damaged chunk"; });
        // sharded: writing and removing another chunk reads and rebuilds the damaged shard
        if(d.c.sharded()) {
            tree::spit(path, data);
            std::vector<char> one(prod(d.c.chunk) * d.e, 1);
            const B e6 = attempt([&] { ds->writeChunk(bad.back(), one.data()); });
            const B e7 = attempt([&] { ds->removeChunk(bad.front()); });
        }
    }
done:
    tree::restore(d.root, d.good, tree::snapshot(d.root));
}

static void words(std::size_t n, const std::function<void(std::size_t, const B &)> & f) {
    static const std::vector<B> W = {B("\0\0\0\0", 4), B("\xff\xff\xff\xff", 4), B("\xff\xff\xff\x7f", 4), B("\x7f\xff\xff\xff", 4), B("\0\0\0\x80", 4), B("\x80\0\0\0", 4), B("\0\0\1\0", 4), B("\1\0\0\0", 4), B("\0\0\0\1", 4)};
    for(std::size_t i = 0; i + 4 <= n; ++i) for(auto & w : W) f(i, w);
}

static void build(Ds & d, const Conf & c, const B & name) {
    d.c = c; d.e = esize(c.dtype); d.root = ctx.scratch + "/" + name;
    auto ds = mk::create(d.root, c);
    S n(c.shape.size()), p(c.shape.size(), 0); for(std::size_t k = 0; k < n.size(); ++k) n[k] = (c.shape[k] + c.chunk[k] - 1) / c.chunk[k];
    int i = 0;
    do {
        std::vector<char> buf(prod(c.chunk) * d.e);
        for(std::size_t k = 0; k < buf.size(); ++k) buf[k] = k % d.e ? 0 : (k / d.e < 3 ? 1 + k + i : 5);
        if(d.varlen) ds->writeChunk(p, buf.data(), true, 3 + i);
        else ds->writeChunk(p, buf.data());
        d.ids.push_back(p); ++i;
    } while(mc::next(p, n));
    d.good = tree::snapshot(d.root);
}
static B fileOf(const Ds & d, const S & id) { auto ds = mk::open(d.root); std::filesystem::path p; ds->chunkPath(id, p); return p.string().substr(d.root.size() + 1); }

// damage of one chunk / shard file
static void chunkFile(const Ds & d, const B & file, const std::vector<S> & ids) {
    const B orig = d.good.at(file); const std::size_t N = orig.size();
    const B base = d.c.id() + (d.varlen ? " varlen" : "") + " " + file;
    for(std::size_t k = 0; k < N; ++k) {
        if(!ctx.want(base + " cut " + std::to_string(k))) continue;
        probe(d, "cut to " + std::to_string(k) + " of " + std::to_string(N) + " bytes", file, orig.substr(0, k), ids, FAIL);
    }
    const std::size_t foot = d.c.sharded() ? 16 * (prod(d.c.shard) / prod(d.c.chunk)) + 4 : 0;
    for(std::size_t k = 0; k < N; ++k) {
        if(!ctx.want(base + " byte " + std::to_string(k))) continue;
        std::set<int> vals = {0, 1, 0x7f, 0x80, 0xff, 0x0f, (unsigned char) orig[k] ^ 1, (unsigned char) orig[k] ^ 0x80, ((unsigned char) orig[k] + 1) & 255, ((unsigned char) orig[k] - 1) & 255};
        const bool head = k < 24 && !d.c.sharded() && (d.c.shape.size() == 1 || d.c.codec == "blosc");
#ifndef GUARD
        const bool few = !ctx.thorough;      // (the codec libraries are not instrumented: their input matters to the other build)
#else
        const bool few = false;
#endif
        if(few) vals = {0, 0xff, (unsigned char) orig[k] ^ 1, (unsigned char) orig[k] ^ 0x80};
        if(head && !few || ctx.thorough) for(int v = 0; v < 256; ++v) vals.insert(v);
        for(int v : vals) {
            if(v == (unsigned char) orig[k]) continue;
            B data = orig; data[k] = v;
            probe(d, "byte " + std::to_string(k) + " = " + std::to_string(v), file, data, ids, foot && k >= N - foot ? FAIL : ANY, v == ((unsigned char) orig[k] ^ 1));
        }
    }
    for(auto & add : std::vector<B>{B(1, '\0'), B(1, '\xff'), B(4, '\0'), B(7, '\x01'), B(foot ? foot : 16, '\xff'), orig, B(5000, 'x')}) {
        if(!ctx.want(base + " add " + std::to_string(add.size()) + " of " + std::to_string((unsigned char) add[0]))) continue;
        probe(d, "extended by " + std::to_string(add.size()) + " bytes", file, orig + add, ids, ANY);
    }
    const std::size_t lim = ctx.thorough ? N : std::min<std::size_t>(N, d.c.sharded() ? N - foot : 40);
    words(lim, [&](std::size_t k, const B & w) {
        if(!ctx.want(base + " word " + std::to_string(k) + " " + std::to_string(mc::hash64(w.data(), 4) & 0xffff))) return;
        B data = orig; data.replace(k, 4, w); if(data == orig) return;
        probe(d, "bytes " + std::to_string(k) + "..+4 replaced", file, data, ids, ANY, false);
    });
}

static void le(B & s, uint64_t v) { for(int i = 0; i < 8; ++i) s += char(v >> (8 * i)); }
// shard indexes with a correct checksum but arbitrary entries
static void shardIndexes(const Ds & d, const B & file, const std::vector<S> & ids) {
    const B orig = d.good.at(file); const std::size_t slots = prod(d.c.shard) / prod(d.c.chunk), foot = 16 * slots + 4, data = orig.size() - foot;
    const uint64_t M = ~0ull;
    uint64_t o0 = spec::le64(orig.data() + data), n0 = spec::le64(orig.data() + data + 8);
    const std::vector<uint64_t> A = {0, 1, o0, n0, data - 1, data, data + 1, orig.size(), orig.size() + 1, M, M - 1, M - 15, M - n0 + 1, M - data, 1ull << 63, (1ull << 63) - 1, 1ull << 32, (1ull << 32) - 1};
    for(std::size_t s : std::set<std::size_t>{0, slots - 1}) for(std::size_t i = 0; i < A.size(); ++i) for(std::size_t j = 0; j < A.size(); ++j) {
        const uint64_t o = A[i], n = A[j];
        if(!ctx.want(d.c.id() + " " + file + " entry " + std::to_string(s) + " " + std::to_string(o) + "+" + std::to_string(n))) continue;
        B idx = orig.substr(data, 16 * slots), ent; le(ent, o); le(ent, n);
        idx.replace(16 * s, 16, ent);
        const uint32_t crc = spec::crc32c(idx);
        B all = orig.substr(0, data) + idx; for(int k = 0; k < 4; ++k) all += char(crc >> (8 * k));
        // beyond the data of the shard: not a valid index
        const bool empty = o == M && n == M, out = !empty && n != M && (o > data || n > data - o);
        probe(d, "index entry " + std::to_string(o) + "+" + std::to_string(n), file, all, {ids[s < ids.size() ? s : 0]}, out && n > 0 && o != M && ids.size() == slots ? FAIL : ANY);
    }
}

// crafted n5 chunk headers
static void be16(B & s, unsigned v) { s += char(v >> 8); s += char(v); }
static void be32(B & s, uint64_t v) { for(int i = 3; i >= 0; --i) s += char(v >> (8 * i)); }
static void n5Headers(const Ds & d) {
    const S id = d.ids[0]; const B file = fileOf(d, id); const B orig = d.good.at(file);
    const std::size_t nd = d.c.shape.size(), h = 4 + 4 * nd;
    std::vector<uint64_t> A = {0, 1, d.c.chunk[0], d.c.chunk[0] + 1, 2 * d.c.chunk[0], 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
    std::vector<uint64_t> V = {0, 1, prod(d.c.chunk) - 1, prod(d.c.chunk), prod(d.c.chunk) + 1, 100, 0x10000, 0x20000000, 0x40000000, 0x7fffffff, 0x80000000u, 0xffffffffu};
    if(nd > 2 && !ctx.thorough) A = {0, 1, d.c.chunk[0], d.c.chunk[0] + 1, 0x80000000u, 0xffffffffu};
    for(unsigned mode : {0u, 1u, 2u, 3u, 255u, 256u, 65535u}) if(nd < 3 || mode < 3 || ctx.thorough) for(unsigned dims : {0u, 1u, (unsigned) nd, (unsigned) nd + 1, 8u, 255u, 256u, 65535u}) {
        std::vector<S> shapes;
        if(dims == nd) { S t(nd, 0); const S hi(nd, A.size()); do { S s; for(auto k : t) s.push_back(A[k]); shapes.push_back(s); } while(mc::next(t, hi)); }
        else for(auto a : {A[0], A[1], A[2], A[8]}) shapes.push_back(S(std::min(dims, 20u), a));
        for(std::size_t q = 0; q < shapes.size(); ++q) {
            if(!ctx.want(d.c.id() + (d.varlen ? " varlen" : "") + " header " + std::to_string(mode) + " " + std::to_string(dims) + " " + mc::str(shapes[q]))) continue;
            for(std::size_t v = 0; v < (mode ? V.size() : 1); ++v) {
                B hd; be16(hd, mode); be16(hd, dims); for(auto x : shapes[q]) be32(hd, x); if(mode) be32(hd, V[v]);
                const B payload = orig.substr(h + (d.varlen ? 4 : 0));
                const bool keep = dims == nd && mode == 0;
                bool over = dims != nd; for(std::size_t k = 0; k < nd && !over; ++k) over = shapes[q][k] > d.c.chunk[k];
                // a header that cannot belong to a chunk of this dataset
                const Must must = mode == 0 && over ? FAIL : ANY;
                probe(d, "header mode " + std::to_string(mode) + " dims " + std::to_string(dims) + " shape " + mc::str(shapes[q]) + (mode ? " size " + std::to_string(V[v]) : B()), file, hd + payload, {id}, must, v < 2 && q % 9 == 0);
            }
            for(std::size_t k = 0; k <= h; k += 1) if(q == 0 && mode < 2) {       // nothing but (a part of) the header
                B hd; be16(hd, mode); be16(hd, dims); for(auto x : shapes[q]) be32(hd, x);
                if(k <= hd.size()) probe(d, "header only", file, hd.substr(0, k), {id}, FAIL);
            }
        }
    }
}

// metadata documents
static void openAndRead(const Ds & d, const B & what) {
    std::unique_ptr<z5::Dataset> ds;
    const B err = attempt([&] { ds = mk::open(d.root); });
    attempt([&] { z5::filesystem::handle::File f(d.root, z5::FileMode(z5::FileMode::r)); nlohmann::json j; z5::readAttributes(f, j); });
    attempt([&] { z5::filesystem::handle::File f(d.root, z5::FileMode(z5::FileMode::r)); z5::filesystem::handle::Dataset h(f, "d"); nlohmann::json j; z5::readAttributes(h, j); });
    attempt([&] { z5::filesystem::handle::File f(d.root, z5::FileMode(z5::FileMode::r)); f.isZarr(); std::vector<B> k; f.keys(k); f.in("d"); z5::filesystem::handle::Dataset h(f, "d"); h.isZarr(); });
    if(!ds) { ++ctx.count["refused"]; return; }
    ++ctx.count["accepted"];
    const S shape = ds->shape();
    S id(shape.size(), 0), last = ds->chunksPerDimension();
    for(auto & x : last) x = x ? x - 1 : 0;
    std::size_t n; S sh;
    for(auto & i : {id, last, S(shape.size(), 1)}) {
        attempt([&] { ds->chunkExists(i); });
        attempt([&] { ds->getChunkShape(i, sh, true); });
        attempt([&] { ds->checkVarlenChunk(i, n); });
        attempt([&] { std::vector<char> raw; ds->readRawChunk(i, raw); });
        attempt([&] {
            std::size_t m; if(!ds->checkVarlenChunk(i, m) && ds->isZarr()) m = ds->defaultChunkSize();
            const std::size_t cnt = std::max(m, ds->defaultChunkSize());
            if(cnt > (1u << 18)) return;
            std::vector<char> buf(cnt * 16); ds->readChunk(i, buf.data());
        });
    }
    S rs = shape; for(auto & x : rs) x = std::min<std::size_t>(x, 6);
    attempt([&] {
        std::vector<char> buf(prod(rs) * d.e); const S zero(shape.size(), 0);
#define RD(T) { auto v = z5::multiarray::makeView((T *) buf.data(), rs); z5::multiarray::readSubarray<T>(*ds, v, zero.begin()); }
        if(d.c.dtype == "int16") RD(int16_t) else if(d.c.dtype == "uint8") RD(uint8_t) else if(d.c.dtype == "float64") RD(double) else RD(uint32_t)
    });
}
static void metaFile(const Ds & d, const B & file, bool dataset) {
    const B orig = d.good.at(file), base = d.c.id() + " " + file, path = d.root + "/" + file;
    const auto one = [&](const B & what, const B & data) {
        tree::spit(path, data);
        ++ctx.count["states"];
        openAndRead(d, what);
        if(dataset) {
            bool valid = nlohmann::json::accept(data);
            if(valid) { try { valid = nlohmann::json::parse(data).is_object(); } catch(...) { valid = false; } }
            if(!valid) {
                const B e = attempt([&] { mk::open(d.root); });
                ctx.check(!e.empty(), "accepted:" + d.c.fmt + ":metadata", [&] { return ctx.current + ": " + what + ": a dataset whose metadata is not a JSON object opens"; });
            }
        }
        tree::spit(path, orig);
    };
    for(std::size_t k = 0; k < orig.size(); ++k) if(ctx.want(base + " cut " + std::to_string(k))) one("cut to " + std::to_string(k), orig.substr(0, k));
    for(std::size_t k = 0; k < orig.size(); ++k) {
        if(k && orig[k] == ' ' && orig[k - 1] == ' ' && !ctx.thorough) continue;
        if(!ctx.want(base + " byte " + std::to_string(k))) continue;
        std::set<int> vals = {0, ' ', '"', '0', '1', '9', '-', ',', 'e', '{', '[', ']', '}', ':', 0x80, 0xff, '.', '\\', '/', '<', '>', '|', 'n', '2', '3'};
        if(!ctx.thorough) vals = {0, '"', '0', '9', '-', ',', '{', '}', 0xff};
        if(ctx.thorough) for(int v = 0; v < 256; ++v) vals.insert(v);
        for(int v : vals) if(v != (unsigned char) orig[k]) { B x = orig; x[k] = v; one("byte " + std::to_string(k) + " = " + std::to_string(v), x); }
        for(auto & ins : {B("9"), B("-"), B("99999999999"), B("0"), B("[[[["), B("e9")}) { B x = orig; x.insert(k, ins); one("inserted " + ins + " at " + std::to_string(k), x); }
    }
    if(ctx.want(base + " other")) {
        for(auto & x : {B("null"), B("[]"), B("{}"), B("0"), B("\"\""), B("true"), B(""), B("\xef\xbb\xbf") + orig, orig + orig, orig + "x", B(100000, '['), B(200000, ' ')}) one("other document", x);
    }
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    typedef Opts O;
    struct Cd { const char * n5, * zarr; O opts; const char * dtype; };
    const std::vector<Cd> codecs = {
        {"raw", "raw", {}, "int16"}, {"gzip", "zlib", {}, "int16"}, {nullptr, "gzip", {}, "uint8"}, {"zlib", nullptr, {}, "uint32"}, {"bzip2", "bzip2", {}, "uint8"},
        {"xz", "xz", {{"level", 0}}, "uint8"}, {"lz4", "lz4", {}, "uint32"}, {"zstd", "zstd", {}, "int16"},
        {"blosc", "blosc", {{"codec", B("lz4")}, {"level", 5}, {"shuffle", 1}, {"blocksize", 0}}, "uint32"},
        {nullptr, "blosc", {{"codec", B("blosclz")}, {"level", 9}, {"shuffle", 2}, {"blocksize", 0}}, "int16"},
        {nullptr, "blosc", {{"codec", B("zstd")}, {"level", 5}, {"shuffle", 1}, {"blocksize", 16}}, "uint32"},
        {"blosc", nullptr, {{"codec", B("zlib")}, {"level", 1}, {"shuffle", 0}, {"blocksize", 0}}, "float64"},
        {"blosc", nullptr, {{"codec", B("lz4hc")}, {"level", 0}, {"shuffle", 1}, {"blocksize", 0}}, "uint32"},
    };
    std::vector<std::pair<Conf, bool>> confs;
    for(auto & k : codecs) {
        Conf c; c.dtype = k.dtype; c.opts = k.opts;
        if(k.n5) {
            c.fmt = "n5"; c.codec = k.n5; c.shape = {7}; c.chunk = {5}; confs.push_back({c, false});
            c.shape = {5}; confs.push_back({c, true});
        }
        if(k.zarr) {
            c.codec = k.zarr; c.fmt = "z2."; c.shape = {3, 3}; c.chunk = {2, 3};
            const bool noXz = c.codec == "xz"; if(noXz) continue;        // not part of z5's zarr codecs
            // z2 and z3 name the deflate codec differently
            if(c.codec != "gzip") confs.push_back({c, false});
            c.codec = c.codec == "zlib" ? "" : c.codec;
            if(c.codec == "gzip" || c.codec == "blosc" || c.codec == "zstd" || c.codec == "raw") {
                c.fmt = "z3/"; if(c.codec == "raw" || ctx.thorough) confs.push_back({c, false});
                c.fmt = "sh/"; c.shape = {3, 2}; c.chunk = {2, 1}; c.shard = {4, 2}; confs.push_back({c, false});
            }
        }
    }
    // blosc blocks: several blocks, split and not
    { Conf c; c.fmt = "z2."; c.codec = "blosc"; c.dtype = "uint32"; c.opts = {{"codec", B("lz4")}, {"level", 5}, {"shuffle", 1}, {"blocksize", 128}}; c.shape = {300}; c.chunk = {200}; confs.push_back({c, false}); }
#ifdef STOCK      // third build: the stock zlib backend instead of libdeflate
    { std::vector<std::pair<Conf, bool>> z; for(auto & cf : confs) if(cf.first.codec == "gzip" || cf.first.codec == "zlib") z.push_back(cf); confs = z; }
#endif
    int i = 0;
    for(auto & cf : confs) {
        Ds d; d.varlen = cf.second;
        const B name = "z5v" + std::to_string(i++);
        B err;
        try { build(d, cf.first, name); } catch(std::exception & e) { err = e.what(); }
        if(!err.empty()) { ctx.setCurrent("build"); ctx.violation("build:" + cf.first.id(), cf.first.id() + ": cannot be created: " + err); continue; }
        const bool big = cf.first.shape[0] == 300;
        if(d.c.sharded()) {
            const B f = fileOf(d, d.ids[0]);
            chunkFile(d, f, d.ids); shardIndexes(d, f, d.ids);
        } else {
            chunkFile(d, fileOf(d, d.ids[0]), {d.ids[0]});
            if(d.ids.size() > 1 && !big && (cf.first.codec == "raw" || ctx.thorough)) chunkFile(d, fileOf(d, d.ids.back()), {d.ids.back()});
            if(d.c.fmt == "n5" && (d.c.codec == "raw" || d.c.codec == "gzip" && ctx.thorough)) n5Headers(d);
        }
        tree::wipe(d.root);
    }
#ifdef STOCK
    return ctx.finish();
#endif
    // headers in more dimensions (products that exceed 64 bit)
    for(bool vl : {false, true}) {
        Ds d; d.varlen = vl; Conf c; c.fmt = "n5"; c.dtype = "uint32"; c.shape = {2, 2, 2}; c.chunk = {2, 2, 2};
        if(!ctx.thorough && vl) continue;
        build(d, c, "z5vh"); n5Headers(d); tree::wipe(d.root);
    }
    // metadata
    for(B fmt : {"n5", "z2.", "z3/", "v2.", "sh/"}) {
        Ds d; Conf c; c.fmt = fmt; c.dtype = "int16"; c.shape = {5, 3}; c.chunk = {2, 3}; c.shard = {4, 3}; if(fmt[0] != 's') c.shard.clear();
        c.codec = fmt == "n5" || fmt[0] == 's' || fmt == "z3/" ? "gzip" : "blosc";
        build(d, c, "z5vm");
        for(auto & kv : d.good) {
            const auto & n = kv.first;
            const bool doc = n.find("json") != B::npos || n.find(".z") != B::npos;
            if(doc) metaFile(d, n, n.compare(0, 2, "d/") == 0 && n.find("zattrs") == B::npos);
        }
        tree::wipe(d.root);
    }
    return ctx.finish();
}
