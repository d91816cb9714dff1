// C04: every codec / option / element type / chunk class round-trips bit for bit on the real code,
// and no encode or decode influences a later one.
#include "mk.hpp"
#include <bzlib.h>
#include <lzma.h>
#include <zlib.h>
#include <zstd.h>
#include <sys/mman.h>
#include "z5/compression/lz4_compressor.hxx"
using namespace mk;
mc::Ctx ctx;

static const char * PN[] = {"ramp", "noise", "ones", "last-bit", "first", "signbits", "alternating", "repeat", "zero", "runs"};
static const int NP = 10;
// element-wise patterns on raw bytes (n elements of e bytes)
static std::string pattern(int k, std::size_t n, std::size_t e) {
    std::string b(n * e, '\0'); uint64_t x = 88172645463325252ull + k;
    for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < e; ++j) {
        unsigned char v = 0;
        switch(k) {
            case 0: v = (i >> (8 * std::min<std::size_t>(j, 7))) + (j ? 0 : 1); break;
            case 1: x ^= x << 13; x ^= x >> 7; x ^= x << 17; v = x >> 24; break;
            case 2: v = 0xFF; break;
            case 3: v = i == n - 1 && j == 0 ? 1 : 0; break;
            case 4: v = i == 0 ? 0x11 * (j + 1) : 0; break;
            case 5: v = j == e - 1 ? 0x80 : 0; break;
            case 6: v = (i % 2) && j == e - 1 ? 0x80 : 0; break;
            case 7: v = 0x3F - j; break;
            case 8: v = 0; break;
            case 9: v = (i / 97) % 3 == 1 ? 7 + j : 0; break;
        }
        b[i * e + j] = v;
    }
    return b;
}
// complex numbers: both components carry the sign bit
static std::string pat(int k, std::size_t n, const std::string & dtype) {
    const bool cx = dtype.find("complex") == 0; const std::size_t e = esize(dtype) / (cx ? 2 : 1);
    return pattern(k, n * (cx ? 2 : 1), e);
}

struct Ds {
    Conf c; std::string root; std::unique_ptr<z5::Dataset> ds; std::size_t e;
    std::vector<S> chunks; std::vector<std::size_t> sizes;      // number of stored elements
    void init(const Conf & conf, const std::string & r) {
        c = conf; root = r; ds = mk::create(r, c); e = esize(c.dtype);
        S n(c.shape.size()), p(c.shape.size(), 0); for(std::size_t d = 0; d < n.size(); ++d) n[d] = (c.shape[d] + c.chunk[d] - 1) / c.chunk[d];
        do { chunks.push_back(p); sizes.push_back(c.zarr() ? prod(c.chunk) : ds->getChunkSize(p)); } while(mc::next(p, n));
    }
    // write / read one chunk, "" when fine
    std::string put(std::size_t i, const std::string & b) const { return errOf([&] { ds->writeChunk(chunks[i], b.data()); }); }
    std::string get(const z5::Dataset & d, std::size_t i, const std::string & want) const {
        const bool zero = want.find_first_not_of('\0') == std::string::npos;
        ++ctx.count["transitions"];
        try {
            if(d.chunkExists(chunks[i]) == zero) return zero ? "the all-fill chunk is reported present" : "the chunk is reported absent";
            if(zero) return "";
            std::string got(sizes[i] * e + 64, '\x5A');
            if(d.readChunk(chunks[i], &got[0])) return "readChunk reports a variable-length chunk";
            if(got.compare(sizes[i] * e, 64, std::string(64, '\x5A'))) return "readChunk wrote behind the chunk";
            got.resize(sizes[i] * e);
            if(got != want) {
                std::size_t k = 0; while(got[k] == want[k]) ++k;
                return "byte " + std::to_string(k) + " of the chunk is " + std::to_string((unsigned char) got[k]) + ", stored " + std::to_string((unsigned char) want[k]);
            }
            // raw access + decompress
            std::vector<char> raw; d.readRawChunk(chunks[i], raw);
            if(raw.empty()) return "readRawChunk returned nothing";
            const std::size_t h = c.zarr() ? 0 : 4 + 4 * c.shape.size();
            std::string dec(sizes[i] * e, '\0');
            d.decompress(raw.data() + h, raw.size() - h, &dec[0], sizes[i]);
            if(!c.zarr() && e > 1) for(std::size_t k = 0; k < dec.size(); k += e) std::reverse(dec.begin() + k, dec.begin() + k + e);
            if(dec != want) return "decompress(readRawChunk) differs from the stored data";
            const std::vector<char> rv(raw.begin() + h, raw.end()); std::string dec2(sizes[i] * e, '\0');
            d.decompress(rv, &dec2[0], sizes[i]);
            if(!c.zarr() && e > 1) for(std::size_t k = 0; k < dec2.size(); k += e) std::reverse(dec2.begin() + k, dec2.begin() + k + e);
            if(dec2 != want) return "decompress(vector) differs from the stored data";
        } catch(std::exception & ex) { return std::string("error: ") + ex.what(); }
        return "";
    }
};

struct CodecOpt { std::string codec; Opts o; };
static std::vector<CodecOpt> codecOptions(bool all) {
    std::vector<CodecOpt> r{{"raw", {}}};
    for(int l : all ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 5, 9}) { r.push_back({"zlib", {{"level", l}, {"useZlib", true}}}); r.push_back({"gzip", {{"level", l}, {"useZlib", false}}}); }
    for(int l : all ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{1, 9}) r.push_back({"bzip2", {{"level", l}}});
    for(int l : all ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 3}) r.push_back({"xz", {{"level", l}}});
    for(int l : all ? std::vector<int>{0, 1, 6, 12} : std::vector<int>{6}) r.push_back({"lz4", {{"level", l}}});
    for(int l : all ? std::vector<int>{-7, -1, 0, 1, 3, 5, 9, 15, 19, 22} : std::vector<int>{-1, 3, 9}) r.push_back({"zstd", {{"level", l}}});
    for(const char * n : {"blosclz", "lz4", "lz4hc", "zlib", "zstd", "snappy"}) {
        if(blosc_compname_to_compcode(n) < 0) continue;
        for(int l : all ? std::vector<int>{0, 1, 5, 9} : std::vector<int>{0, 5})
            for(int sh : {0, 1, 2})
                for(int bs : all ? std::vector<int>{0, 16, 512} : std::vector<int>{0})
                    r.push_back({"blosc", {{"codec", std::string(n)}, {"level", l}, {"shuffle", sh}, {"blocksize", bs}, {"nthreads", 1}}});
    }
    for(int t : {2, 4}) r.push_back({"blosc", {{"codec", std::string("lz4")}, {"level", 5}, {"shuffle", 1}, {"blocksize", 64}, {"nthreads", t}}});
    return r;
}
#ifdef STOCK      // second build: the stock zlib backend instead of libdeflate; only its codecs differ
static bool built(const std::string & codec) { return codec == "zlib" || codec == "gzip"; }
#else
static bool built(const std::string &) { return true; }
#endif
static bool allowed(const std::string & fmt, const std::string & codec) {
    if(!built(codec)) return false;
    if(fmt == "n5") return codec != "zlib";
    if(fmt.substr(0, 2) == "z2") return codec != "xz";
    return codec == "raw" || codec == "gzip" || codec == "zstd" || codec == "blosc";
}

static void roundtrip(const Conf & c, const std::vector<int> & pats) {
    Ds d; d.init(c, ctx.scratch + "/c04");
    std::unique_ptr<z5::Dataset> again = mk::open(d.root);
    for(std::size_t i = 0; i < d.chunks.size(); ++i) for(int k : pats) {
        const std::string b = pat(k, d.sizes[i], c.dtype);
        ++ctx.count["states"];
        std::string err = d.put(i, b);
        if(err.empty()) err = d.get(*d.ds, i, b);
        if(err.empty()) err = d.get(*again, i, b);
        if(!ctx.check(err.empty(), "roundtrip:" + c.fmt + ":" + c.codec + ":" + c.dtype, [&] { return c.id() + ": chunk " + mc::str(d.chunks[i]) + ", data '" + PN[k] + "': " + err; })) return;
    }
}

static const std::vector<std::string> DT{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"};

static void varlen(const std::string & codec, const Opts & o, const std::string & dtype, const S & shape, const S & chunk) {
    Conf c; c.fmt = "n5"; c.dtype = dtype; c.shape = shape; c.chunk = chunk; c.codec = codec; c.opts = o;
    Ds d; d.init(c, ctx.scratch + "/c04");
    const std::size_t e = d.e, max = 2 * prod(chunk) + 3;
    std::vector<std::size_t> lens; for(std::size_t n = 0; n <= max; ++n) lens.push_back(n); lens.push_back(5000);
    auto bad = [&](const std::string & w, std::size_t n, const S & id) { ctx.check(false, "varlen:" + codec + ":" + dtype, [&] { return c.id() + ": variable-length chunk " + mc::str(id) + " with " + std::to_string(n) + " elements: " + w; }); };
    for(std::size_t i = 0; i < d.chunks.size(); ++i) for(std::size_t n : lens) for(int prev = 0; prev < 3; ++prev) {
        const S & id = d.chunks[i];
        ++ctx.count["states"]; ++ctx.count["checks"];
        try {
            // what was there before must not matter: nothing, a fixed-size chunk, another variable-length chunk
            if(prev == 0) d.ds->removeChunk(id);
            else if(prev == 1) d.ds->writeChunk(id, pat(1, d.sizes[i], dtype).data());
            else d.ds->writeChunk(id, pat(1, 7, dtype).data(), true, 7);
            for(int k : {0, 1, 8}) {
                const std::string b = pat(k, n, dtype);
                d.ds->writeChunk(id, b.data(), true, n);
                ++ctx.count["transitions"];
                std::size_t len = 99999;
                if(n == 0) { if(d.ds->chunkExists(id)) bad("is present", n, id); continue; }
                if(!d.ds->chunkExists(id)) { bad("is absent", n, id); continue; }
                auto o2 = mk::open(d.root);
                for(const z5::Dataset * q : {d.ds.get(), o2.get()}) {
                    if(!q->checkVarlenChunk(id, len)) { bad("is not reported as variable-length", n, id); continue; }
                    if(len != n) { bad("reported length " + std::to_string(len), n, id); continue; }
                    S sh; q->getChunkShape(id, sh, true); S want; q->getChunkShape(id, want, false);
                    if(sh != want) bad("shape from header " + mc::str(sh) + ", expected " + mc::str(want), n, id);
                    for(unsigned dim = 0; dim < sh.size(); ++dim) if(q->getChunkShape(id, dim, true) != want[dim]) bad("extent from header", n, id);
                    std::string got(n * e + 64, '\x5A');
                    if(!q->readChunk(id, &got[0])) bad("readChunk does not report a variable-length chunk", n, id);
                    if(got != b + std::string(64, '\x5A')) bad("the elements read differ", n, id);
                }
            }
            // and a fixed-size chunk over it
            const std::string b = pat(0, d.sizes[i], dtype); d.ds->writeChunk(id, b.data());
            std::size_t len = 0; if(d.ds->checkVarlenChunk(id, len) || len != d.sizes[i]) bad("fixed-size chunk written over it is still reported as variable-length", n, id);
            const std::string err = d.get(*d.ds, i, b); if(!err.empty()) bad("fixed-size chunk written over it: " + err, n, id);
            S sh, want; d.ds->getChunkShape(id, sh, true); d.ds->getChunkShape(id, want, false); if(sh != want) bad("shape from header of a fixed-size chunk " + mc::str(sh), n, id);
        } catch(std::exception & ex) { bad(std::string("error: ") + ex.what(), n, id); }
    }
}

// sizes beyond 32 bit: the codec either refuses the chunk or stores all of it. The input is a mapping of zero pages.
static uint64_t decodedSize(const std::string & cd, const std::vector<char> & in) {
    std::vector<char> buf(1 << 20); uint64_t total = 0; std::size_t pos = 0;
    if(cd == "zlib" || cd == "gzip") {
        z_stream s; memset(&s, 0, sizeof(s)); inflateInit2(&s, MAX_WBITS + 32); int r = Z_OK;
        while(r == Z_OK) {
            if(s.avail_in == 0) { const std::size_t n = std::min<std::size_t>(in.size() - pos, 1 << 30); s.next_in = (Bytef *) in.data() + pos; s.avail_in = n; pos += n; }
            s.next_out = (Bytef *) buf.data(); s.avail_out = buf.size(); r = inflate(&s, Z_NO_FLUSH); total += buf.size() - s.avail_out;
        }
        inflateEnd(&s); return r == Z_STREAM_END ? total : 0;
    }
    if(cd == "bzip2") {
        bz_stream s; memset(&s, 0, sizeof(s)); BZ2_bzDecompressInit(&s, 0, 0); int r = BZ_OK;
        while(r == BZ_OK) {
            if(s.avail_in == 0) { const std::size_t n = std::min<std::size_t>(in.size() - pos, 1 << 30); s.next_in = (char *) in.data() + pos; s.avail_in = n; pos += n; }
            s.next_out = buf.data(); s.avail_out = buf.size(); r = BZ2_bzDecompress(&s); total += buf.size() - s.avail_out;
        }
        BZ2_bzDecompressEnd(&s); return r == BZ_STREAM_END ? total : 0;
    }
    if(cd == "xz") {
        lzma_stream s = LZMA_STREAM_INIT; lzma_stream_decoder(&s, UINT64_MAX, 0); s.next_in = (const uint8_t *) in.data(); s.avail_in = in.size(); lzma_ret r = LZMA_OK;
        while(r == LZMA_OK) { s.next_out = (uint8_t *) buf.data(); s.avail_out = buf.size(); r = lzma_code(&s, LZMA_FINISH); total += buf.size() - s.avail_out; }
        lzma_end(&s); return r == LZMA_STREAM_END ? total : 0;
    }
    if(cd == "zstd") {
        ZSTD_DStream * z = ZSTD_createDStream(); ZSTD_inBuffer i{in.data(), in.size(), 0}; std::size_t r = 1;
        while(r && !ZSTD_isError(r)) { ZSTD_outBuffer o{buf.data(), buf.size(), 0}; const std::size_t before = i.pos; r = ZSTD_decompressStream(z, &o, &i); total += o.pos; if(o.pos == 0 && i.pos == before) break; }
        ZSTD_freeDStream(z); return r ? 0 : total;
    }
    // blosc: the decoded size is in the header
    std::size_t n = 0; if(cd == "blosc" && blosc_cbuffer_validate(in.data(), in.size(), &n) == 0) return n;
    return 0;
}
static void huge(const std::string & cd, const Opts & o, std::size_t bytes, bool wide) {
    z5::DatasetMetadata m; m.compressionOptions = o; m.compressor = z5::types::Compressors::stringToCompressor().at(cd);
    const bool zl = cd == "zlib" || cd == "gzip";
    z5::types::defaultCompressionOptions(m.compressor, m.compressionOptions, cd != "gzip");
    if(zl) m.compressionOptions["useZlib"] = cd == "zlib";
    void * p = mmap(nullptr, bytes, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) throw std::runtime_error("cannot map the input");
    ++ctx.count["states"]; ++ctx.count["checks"];
    std::vector<char> out; std::string err;
    auto run = [&](auto t) {
        typedef decltype(t) T; typedef z5::compression::CompressorBase<T> Base; std::unique_ptr<Base> c;
        if(zl) c.reset(new z5::compression::ZlibCompressor<T>(m)); else if(cd == "bzip2") c.reset(new z5::compression::Bzip2Compressor<T>(m));
        else if(cd == "lz4") c.reset(new z5::compression::Lz4Compressor<T>(m)); else if(cd == "blosc") c.reset(new z5::compression::BloscCompressor<T>(m));
        else if(cd == "zstd") c.reset(new z5::compression::ZstdCompressor<T>(m)); else c.reset(new z5::compression::XzCompressor<T>(m));
        err = errOf([&] { c->compress((const T *) p, out, bytes / sizeof(T)); });
    };
    if(wide) run(uint64_t()); else run(uint8_t());
    munmap(p, bytes);
    if(!err.empty()) { ++ctx.count["refused"]; ctx.outcome("huge " + cd + " " + err); return; }
    const uint64_t got = decodedSize(cd, out); ctx.outcome("huge " + cd + " stored");
    ctx.check(got == bytes, "huge:" + cd, [&] { return cd + ": " + std::to_string(bytes) + " bytes are accepted, the stream decodes to " + std::to_string(got) + " bytes"; });
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool th = ctx.thorough;
    std::vector<int> all; for(int k = 0; k < NP; ++k) all.push_back(k);
    // every element type x codec x option x format; three chunk classes: full, edge in every axis, single element
    for(const std::string & f : {"n5", "z2.", "z3/", "sh/"}) for(const std::string & t : DT) for(auto & o : codecOptions(th)) {
        if(!allowed(f, o.codec)) continue;
        Conf c; c.fmt = f; c.dtype = t; c.codec = o.codec; c.opts = o.o;
        c.shape = {3, 5}; c.chunk = {2, 3}; c.shard = {2, 6};
        if(!ctx.want("opt " + c.id())) continue;
        roundtrip(c, all);
    }
    for(const std::string & t : {"complex64", "complex128"}) for(const std::string & cd : {"raw", "zlib", "bzip2", "zstd", "blosc", "lz4"}) {
        Conf c; c.fmt = "z2."; c.dtype = t; c.codec = cd; c.shape = {3, 5}; c.chunk = {2, 3};
        if(!built(cd)) continue;
        if(!ctx.want("opt " + c.id())) continue;
        roundtrip(c, all);
    }
    // chunk geometries (sizes around the block sizes of the codecs) with the default options
    std::vector<std::pair<S, S>> geo{{{1}, {1}}, {{7}, {7}}, {{9}, {4}}, {{1, 1, 1}, {1, 1, 1}}, {{2, 3, 5}, {2, 2, 2}}, {{3, 3}, {9, 9}}, {{2, 2, 2, 2}, {1, 2, 1, 2}},
        {{255}, {255}}, {{256}, {256}}, {{1025}, {1024}}, {{70000}, {65536}}, {{300001}, {300001}}};
    if(th) for(std::size_t n = 2; n < 300; ++n) geo.push_back({{n}, {n}});
    if(th) for(std::size_t n : {4095u, 4096u, 4097u, 16383u, 16384u, 16385u, 131072u, 131073u, 262143u, 262144u, 262145u, 900001u, 1048577u}) geo.push_back({{n}, {n}});
    for(const std::string & f : {"n5", "z2.", "z3/", "sh/"}) for(const std::string & cd : {"raw", "zlib", "gzip", "bzip2", "xz", "lz4", "zstd", "blosc"}) for(const std::string & t : th ? DT : std::vector<std::string>{"uint8", "int16", "float32", "uint64"}) for(auto & g : geo) {
        if(!allowed(f, cd)) continue;
        const std::size_t n = prod(g.second);
        if(!th && n > 5000 && t != "uint8" && t != "float32") continue;
        if(n > 200000 && (t != "uint8" && (t != "float32" || f != "n5"))) continue;
        Conf c; c.fmt = f; c.dtype = t; c.codec = cd; c.shape = g.first; c.chunk = g.second; c.shard = g.second; if(c.shard[0] < 100) c.shard[0] *= 2;
        if(cd == "xz") c.opts["level"] = n > 5000 ? 1 : 0;
        if(!ctx.want("geo " + c.id())) continue;
        roundtrip(c, n > 5000 ? std::vector<int>{0, 1, 3, 9} : all);
    }
    // variable-length chunks
    for(const std::string & cd : {"raw", "gzip", "bzip2", "xz", "lz4", "zstd", "blosc"}) for(const std::string & t : th ? DT : std::vector<std::string>{"uint8", "int16", "uint64", "float32"}) for(auto & g : std::vector<std::pair<S, S>>{{{5}, {3}}, {{2, 3}, {2, 2}}, {{2, 1, 3}, {1, 2, 2}}}) {
        if(!th && t != "uint64" && g.first.size() > 1) continue;
        Opts o; if(cd == "xz") o["level"] = 0;
        if(!built(cd)) continue;
        if(!ctx.want("varlen " + cd + " " + t + " " + mc::str(g.first) + "/" + mc::str(g.second))) continue;
        varlen(cd, o, t, g.first, g.second);
    }
    // more than 32 bit of data
    for(const char * cd : {"zlib", "gzip", "bzip2", "lz4", "blosc", "zstd", "xz"}) for(int wide : {0, 1}) for(std::size_t n : th ? std::vector<std::size_t>{(1ull << 31) - 8, 1ull << 31, (1ull << 31) + 8, (1ull << 32) - 8, 1ull << 32, (1ull << 32) + 8} : std::vector<std::size_t>{(1ull << 32) + 8}) {
        const std::string c = cd;
        if(!built(c)) continue;
#ifndef STOCK
        if(!th && (c == "xz" || c == "zlib" || c == "gzip" || c == "zstd")) continue;      // (64 bit interfaces, but slow)
#endif
        Opts o; if(c == "xz") o["level"] = 0; else if(c != "blosc") o["level"] = 1;
        if(!ctx.want("huge " + c + " " + std::to_string(wide) + " " + std::to_string(n))) continue;
        huge(c, o, n, wide);
    }
    // order independence: every ordered pair (thorough: triple) of chunk operations over datasets of all codecs
    {
        struct Slot { Ds d; };
        std::vector<Conf> confs;
        for(const std::string & cd : {"raw", "gzip", "zlib", "bzip2", "xz", "lz4", "zstd", "blosc"}) for(const std::string & f : {"n5", "z2."}) for(const std::string & t : {"uint8", "int32", "float64"}) {
            if(!allowed(f, cd)) continue;
            Conf c; c.fmt = f; c.codec = cd; c.dtype = t; c.shape = {t == "int32" ? 40u : 9u}; c.chunk = {t == "int32" ? 40u : 6u}; if(cd == "xz") c.opts["level"] = 0; if(cd == "blosc") c.opts["shuffle"] = f == "n5" ? 1 : 2;
            confs.push_back(c);
        }
        for(std::size_t i = 0; i < confs.size(); ++i) {
            if(!ctx.want("order " + std::to_string(i))) continue;
            std::vector<Ds> ds(confs.size());
            tree::wipe(ctx.scratch + "/c04o");
            for(std::size_t k = 0; k < confs.size(); ++k) ds[k].init(confs[k], ctx.scratch + "/c04o/" + std::to_string(k));
            Ds & a = ds[i]; const std::size_t la = a.chunks.size() - 1;
            for(int pi : {1, 5, 9}) for(std::size_t k = 0; k < confs.size(); ++k) for(int pk : {0, 2}) for(int order = 0; order < 4; ++order) {
                Ds & b = ds[k]; const std::size_t cb = k == i ? 0 : b.chunks.size() - 1;
                if(k == i && la == 0) continue;
                const std::string x = pat(pi, a.sizes[la], a.c.dtype), y = pat(pk, b.sizes[cb], b.c.dtype);
                ++ctx.count["states"];
                std::string err;
                // order: encode a, encode b, decode ... and every other interleaving of the two
                if(order == 0) { err = a.put(la, x); if(err.empty()) err = b.put(cb, y); if(err.empty()) err = a.get(*a.ds, la, x); if(err.empty()) err = b.get(*b.ds, cb, y); }
                if(order == 1) { err = b.put(cb, y); if(err.empty()) err = a.put(la, x); if(err.empty()) err = a.get(*a.ds, la, x); if(err.empty()) err = b.get(*b.ds, cb, y); }
                if(order == 2) { err = b.put(cb, y); if(err.empty()) err = b.get(*b.ds, cb, y); if(err.empty()) err = a.put(la, x); if(err.empty()) err = a.get(*a.ds, la, x); }
                if(order == 3) {   // a failing decode in between must leave nothing behind
                    err = a.put(la, x); if(err.empty()) err = b.put(cb, y);
                    if(err.empty()) {
                        std::vector<char> junk{1, 2, 3, 4, 5}; std::vector<char> buf(b.sizes[cb] * b.e);
                        if(b.c.codec != "raw" && b.c.codec != "blosc") try { b.ds->decompress(junk, buf.data(), b.sizes[cb]); } catch(std::exception &) {}
                        err = a.get(*a.ds, la, x); if(err.empty()) err = b.get(*b.ds, cb, y);
                    }
                }
                if(!ctx.check(err.empty(), "order:" + a.c.codec + ":" + b.c.codec, [&] { return "operations on " + a.c.id() + " ('" + PN[pi] + "') and " + b.c.id() + " ('" + PN[pk] + "') in order " + std::to_string(order) + ": " + err; })) break;
            }
            tree::wipe(ctx.scratch + "/c04o");
        }
    }
    ctx.sample("n5 int16 gzip level 5, shape (3,5) chunks (2,3): 4 chunks x 10 data patterns, written, read by the same and a fresh handle, decompressed from raw bytes");
    ctx.sample("n5 uint64 zstd chunk (0,1) of (2,3)/(2,2): every variable length 0..11 and 5000 over {nothing, fixed, variable} predecessor");
    tree::wipe(ctx.scratch + "/c04");
    return ctx.finish();
}
