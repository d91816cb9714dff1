// Independent reader / writer of n5, zarr v2 and zarr v3 containers, written from the
// specifications only (no z5 header is used here).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <stdexcept>
#include <cstring>
#include <cstdint>
#include <algorithm>
#include <cmath>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <lz4.h>
#include <zstd.h>
#include <blosc.h>
#include <nlohmann/json.hpp>
#include "tree.hpp"

namespace spec {
typedef std::vector<std::size_t> S;
typedef std::string Bytes;
using nlohmann::json;

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::size_t prod(const S & s) { std::size_t n = 1; for(auto x : s) n *= x; return n; }
inline bool step(S & t, const S & hi) {
    for(int d = (int) t.size() - 1; d >= 0; --d) { if(++t[d] < hi[d]) return true; t[d] = 0; }
    return false;
}

// ------------------------------------------------------------------ codecs
struct Codec {
    std::string id = "raw";     // raw zlib gzip bzip2 xz zstd blosc lz4block(raw block) lz4zarr lz4n5
    int level = 5;
    std::string cname = "lz4"; int shuffle = 1; int blocksize = 0; int typesize = 1;
    bool checksum = false;
};

inline Bytes compress(const Codec & c, const Bytes & in) {
    Bytes out;
    if(c.id == "raw") return in;
    if(c.id == "zlib" || c.id == "gzip") {
        z_stream z; memset(&z, 0, sizeof z);
        if(deflateInit2(&z, c.level, Z_DEFLATED, c.id == "gzip" ? 31 : 15, 9, Z_DEFAULT_STRATEGY) != Z_OK) throw Bad("deflateInit");
        out.resize(deflateBound(&z, in.size()) + 64);
        z.next_in = (Bytef *) in.data(); z.avail_in = in.size(); z.next_out = (Bytef *) out.data(); z.avail_out = out.size();
        if(deflate(&z, Z_FINISH) != Z_STREAM_END) throw Bad("deflate");
        out.resize(z.total_out); deflateEnd(&z);
    } else if(c.id == "bzip2") {
        unsigned n = in.size() * 1.02 + 700; out.resize(n);
        if(BZ2_bzBuffToBuffCompress(&out[0], &n, (char *) in.data(), in.size(), c.level, 0, 0) != BZ_OK) throw Bad("bz2");
        out.resize(n);
    } else if(c.id == "xz") {
        out.resize(lzma_stream_buffer_bound(in.size())); std::size_t pos = 0;
        if(lzma_easy_buffer_encode(c.level, LZMA_CHECK_CRC64, nullptr, (const uint8_t *) in.data(), in.size(), (uint8_t *) &out[0], &pos, out.size()) != LZMA_OK) throw Bad("xz");
        out.resize(pos);
    } else if(c.id == "zstd") {
        ZSTD_CCtx * x = ZSTD_createCCtx();
        ZSTD_CCtx_setParameter(x, ZSTD_c_compressionLevel, c.level); ZSTD_CCtx_setParameter(x, ZSTD_c_checksumFlag, c.checksum);
        out.resize(ZSTD_compressBound(in.size()));
        const std::size_t n = ZSTD_compress2(x, &out[0], out.size(), in.data(), in.size()); ZSTD_freeCCtx(x);
        if(ZSTD_isError(n)) throw Bad("zstd"); out.resize(n);
    } else if(c.id == "blosc") {
        out.resize(in.size() + BLOSC_MAX_OVERHEAD);
        const int n = blosc_compress_ctx(c.level, c.shuffle, c.typesize, in.size(), in.data(), &out[0], out.size(), c.cname.c_str(), c.blocksize, 1);
        if(n <= 0) throw Bad("blosc"); out.resize(n);
    } else if(c.id == "lz4block" || c.id == "lz4zarr") {
        out.resize(LZ4_compressBound(in.size()));
        const int n = LZ4_compress_default(in.data(), &out[0], in.size(), out.size()); if(n <= 0) throw Bad("lz4"); out.resize(n);
        if(c.id == "lz4zarr") { uint32_t l = in.size(); Bytes h((char *) &l, 4); out = h + out; }
    } else throw Bad("codec " + c.id);
    return out;
}

// decodes exactly `size` bytes and consumes the whole input
inline Bytes decompress(const std::string & id, const Bytes & in, std::size_t size) {
    Bytes out(size, '\0');
    if(id == "raw") { if(in.size() != size) throw Bad("raw chunk has " + std::to_string(in.size()) + " bytes, expected " + std::to_string(size)); return in; }
    if(id == "zlib" || id == "gzip") {
        z_stream z; memset(&z, 0, sizeof z);
        if(inflateInit2(&z, id == "gzip" ? 31 : 15) != Z_OK) throw Bad("inflateInit");
        z.next_in = (Bytef *) in.data(); z.avail_in = in.size(); z.next_out = (Bytef *) out.data(); z.avail_out = out.size();
        const int r = inflate(&z, Z_FINISH); const auto t = z.total_out, left = (uLong) z.avail_in; inflateEnd(&z);
        if(r != Z_STREAM_END) throw Bad("not a " + id + " stream (" + std::to_string(r) + ")");
        if(t != size || left) throw Bad(id + " stream has the wrong length");
    } else if(id == "bzip2") {
        unsigned n = size;
        if(BZ2_bzBuffToBuffDecompress(&out[0], &n, (char *) in.data(), in.size(), 0, 0) != BZ_OK) throw Bad("not a bzip2 stream");
        if(n != size) throw Bad("bzip2 stream has the wrong length");
    } else if(id == "xz") {
        uint64_t mem = UINT64_MAX; std::size_t ip = 0, op = 0;
        if(lzma_stream_buffer_decode(&mem, 0, nullptr, (const uint8_t *) in.data(), &ip, in.size(), (uint8_t *) &out[0], &op, size) != LZMA_OK) throw Bad("not an xz stream");
        if(ip != in.size() || op != size) throw Bad("xz stream has the wrong length");
    } else if(id == "zstd") {
        const std::size_t n = ZSTD_decompress(&out[0], size, in.data(), in.size());
        if(ZSTD_isError(n) || n != size) throw Bad("not a zstd frame of the right length");
    } else if(id == "blosc") {
        std::size_t nb = 0, cb = 0, bs = 0;
        if(in.size() < 16) throw Bad("blosc chunk too short");
        blosc_cbuffer_sizes(in.data(), &nb, &cb, &bs);
        if(nb != size || cb != in.size()) throw Bad("blosc chunk has the wrong length");
        if(blosc_decompress_ctx(in.data(), &out[0], size, 1) != (int) size) throw Bad("not a blosc chunk");
    } else if(id == "lz4block") {
        if(LZ4_decompress_safe(in.data(), &out[0], in.size(), size) != (int) size) throw Bad("not an lz4 block");
    } else if(id == "lz4zarr") {      // numcodecs LZ4: little-endian uint32 length, then one block
        uint32_t l; if(in.size() < 4) throw Bad("lz4 chunk too short"); memcpy(&l, in.data(), 4);
        if(l != size) throw Bad("lz4 chunk without the numcodecs length header");
        return decompress("lz4block", in.substr(4), size);
    } else if(id == "lz4n5") {        // n5: LZ4BlockOutputStream framing
        if(in.compare(0, 8, "LZ4Block") != 0) throw Bad("lz4 chunk without the n5 LZ4Block framing");
        throw Bad("LZ4Block decoding not implemented");
    } else throw Bad("codec " + id);
    return out;
}

// ------------------------------------------------------------------ array description
struct Array {
    int kind = 2;                    // 5: n5, 2: zarr v2, 3: zarr v3
    std::string dtype;               // int8 ... float64 complex64 complex128 complex256
    std::size_t esize = 1, ccount = 1;   // bytes per element, components (complex: 2)
    S shape, chunk, shard;           // chunk: inner chunk when sharded
    std::string sep = ".", keyenc = "default";
    Codec codec;
    json fill = 0;
    bool big = false;                // big-endian (n5 always)
    bool indexStart = false, indexCrc = true;
    S grid() const { return shard.empty() ? chunk : shard; }
};

inline std::size_t dtypeSize(const std::string & d) {
    static const std::map<std::string, std::size_t> m{{"int8", 1}, {"uint8", 1}, {"int16", 2}, {"uint16", 2}, {"int32", 4}, {"uint32", 4},
        {"int64", 8}, {"uint64", 8}, {"float32", 4}, {"float64", 8}, {"complex64", 8}, {"complex128", 16}, {"complex256", 32}};
    auto it = m.find(d); if(it == m.end()) throw Bad("unknown data type " + d);
    return it->second;
}

inline Bytes swapped(const Bytes & b, std::size_t width) {
    Bytes o = b;
    for(std::size_t i = 0; i + width <= o.size(); i += width) std::reverse(o.begin() + i, o.begin() + i + width);
    return o;
}

inline uint32_t crc32c(const Bytes & s) {    // bitwise, straight from the polynomial
    uint32_t c = 0xFFFFFFFFu;
    for(unsigned char ch : s) { c ^= ch; for(int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; }
    return ~c;
}

inline const json & need(const json & j, const char * key) {
    if(!j.is_object() || !j.contains(key)) throw Bad(std::string("metadata lacks \"") + key + "\"");
    return j.at(key);
}
inline S dims(const json & j) {
    if(!j.is_array()) throw Bad("shape is not a list");
    S s; for(auto & x : j) { if(!x.is_number_integer() || (x.is_number_integer() && !x.is_number_unsigned() && x.get<long long>() < 0)) throw Bad("shape entry is not a non-negative integer"); s.push_back(x.get<std::size_t>()); }
    return s;
}

inline void checkFill(const json & f, const std::string & dtype) {
    const bool isfloat = dtype.find("float") == 0 || dtype.find("complex") == 0;
    if(f.is_string()) { if(!isfloat || (f != "NaN" && f != "Infinity" && f != "-Infinity")) throw Bad("bad fill_value " + f.dump()); return; }
    if(!f.is_number()) throw Bad("bad fill_value " + f.dump());
    if(!isfloat && f.is_number_float() && f.get<double>() != std::floor(f.get<double>())) throw Bad("fractional fill_value for an integer type");
}

inline Array parse(const std::string & dir) {
    Array a; json j;
    const bool v3 = std::filesystem::exists(dir + "/zarr.json"), v2 = std::filesystem::exists(dir + "/.zarray"), n5 = std::filesystem::exists(dir + "/attributes.json");
    if((int) v3 + v2 + n5 != 1) throw Bad("expected exactly one metadata document");
    try { j = json::parse(tree::slurp(dir + (v3 ? "/zarr.json" : v2 ? "/.zarray" : "/attributes.json"))); } catch(json::exception & e) { throw Bad(std::string("metadata is not JSON: ") + e.what()); }
    if(v2) {
        a.kind = 2;
        if(need(j, "zarr_format") != 2) throw Bad("zarr_format is not 2");
        if(need(j, "order") != "C") throw Bad("order is not C");
        if(!need(j, "filters").is_null()) throw Bad("filters not null");
        a.shape = dims(need(j, "shape")); a.chunk = dims(need(j, "chunks"));
        const std::string dt = need(j, "dtype");
        if(dt.size() < 3) throw Bad("dtype " + dt);
        const std::size_t n = std::stoul(dt.substr(2));
        static const std::map<char, std::string> base{{'i', "int"}, {'u', "uint"}, {'f', "float"}, {'c', "complex"}};
        if(!base.count(dt[1])) throw Bad("dtype " + dt);
        a.dtype = base.at(dt[1]) + std::to_string(8 * n);
        if((dt[0] == '|') != (n == 1)) throw Bad("dtype " + dt);
        a.big = dt[0] == '>'; if(dt[0] != '|' && dt[0] != '<' && dt[0] != '>') throw Bad("dtype " + dt);
        a.fill = need(j, "fill_value"); checkFill(a.fill, a.dtype);
        a.sep = j.value("dimension_separator", std::string("."));
        const json & c = need(j, "compressor");
        if(c.is_null()) a.codec.id = "raw";
        else {
            const std::string id = need(c, "id");
            if(id == "zlib" || id == "gzip") { a.codec.id = id; a.codec.level = need(c, "level"); if(a.codec.level < -1 || a.codec.level > 9) throw Bad("zlib level"); }
            else if(id == "bz2") { a.codec.id = "bzip2"; a.codec.level = need(c, "level"); }
            else if(id == "zstd") { a.codec.id = "zstd"; a.codec.level = need(c, "level"); }
            else if(id == "lz4") { a.codec.id = "lz4zarr"; a.codec.level = need(c, "acceleration"); }
            else if(id == "blosc") { a.codec.id = "blosc"; a.codec.cname = need(c, "cname"); a.codec.level = need(c, "clevel"); a.codec.shuffle = need(c, "shuffle"); a.codec.blocksize = need(c, "blocksize"); }
            else throw Bad("unknown numcodecs codec " + id);
        }
    } else if(v3) {
        a.kind = 3;
        static const std::set<std::string> known{"zarr_format", "node_type", "shape", "data_type", "chunk_grid", "chunk_key_encoding", "fill_value", "codecs", "attributes", "dimension_names", "storage_transformers"};
        for(auto it = j.begin(); it != j.end(); ++it) if(!known.count(it.key())) throw Bad("unknown zarr.json key " + it.key());
        if(need(j, "zarr_format") != 3) throw Bad("zarr_format is not 3");
        if(need(j, "node_type") != "array") throw Bad("node_type is not array");
        if(j.contains("attributes") && !j["attributes"].is_object()) throw Bad("attributes is not an object");
        a.shape = dims(need(j, "shape")); a.dtype = need(j, "data_type");
        if(need(need(j, "chunk_grid"), "name") != "regular") throw Bad("chunk_grid");
        S grid = dims(need(need(j["chunk_grid"], "configuration"), "chunk_shape"));
        a.keyenc = need(need(j, "chunk_key_encoding"), "name");
        if(a.keyenc != "default" && a.keyenc != "v2") throw Bad("chunk_key_encoding");
        a.sep = a.keyenc == "v2" ? "." : "/";
        if(j["chunk_key_encoding"].contains("configuration")) a.sep = j["chunk_key_encoding"]["configuration"].value("separator", a.sep);
        a.fill = need(j, "fill_value"); checkFill(a.fill, a.dtype);
        if(a.dtype.find("float") != 0 && !a.fill.is_number_integer()) throw Bad("fill_value of an integer type is not an integer");
        json codecs = need(j, "codecs");
        if(!codecs.is_array() || codecs.empty()) throw Bad("codecs");
        if(codecs[0].at("name") == "sharding_indexed") {
            if(codecs.size() != 1) throw Bad("codecs after sharding");
            a.shard = grid; const json & c = need(codecs[0], "configuration");
            a.chunk = dims(need(c, "chunk_shape"));
            const std::string loc = c.value("index_location", std::string("end"));
            if(loc != "start" && loc != "end") throw Bad("index_location"); a.indexStart = loc == "start";
            const json & ic = need(c, "index_codecs");
            if(!ic.is_array() || ic.empty() || ic[0].at("name") != "bytes" || need(need(ic[0], "configuration"), "endian") != "little") throw Bad("index_codecs");
            a.indexCrc = ic.size() > 1; if(ic.size() > 2 || (ic.size() == 2 && ic[1].at("name") != "crc32c")) throw Bad("index_codecs");
            json inner = need(c, "codecs"); codecs = inner;
        } else a.chunk = grid;
        if(!codecs.is_array() || codecs.empty() || codecs[0].at("name") != "bytes") throw Bad("no bytes codec");
        if(dtypeSize(a.dtype) > 1) { const auto e = need(need(codecs[0], "configuration"), "endian"); if(e != "little" && e != "big") throw Bad("endian"); a.big = e == "big"; }
        if(codecs.size() > 2) throw Bad("too many codecs");
        if(codecs.size() == 2) {
            const std::string n = codecs[1].at("name"); const json & c = need(codecs[1], "configuration");
            a.codec.id = n;
            if(n == "gzip") { a.codec.level = need(c, "level"); if(a.codec.level < 0 || a.codec.level > 9) throw Bad("gzip level"); }
            else if(n == "zstd") { a.codec.level = need(c, "level"); a.codec.checksum = need(c, "checksum"); }
            else if(n == "blosc") {
                a.codec.cname = need(c, "cname"); a.codec.level = need(c, "clevel"); const std::string sh = need(c, "shuffle");
                a.codec.shuffle = sh == "noshuffle" ? 0 : sh == "shuffle" ? 1 : sh == "bitshuffle" ? 2 : throw Bad("shuffle");
                if(a.codec.shuffle) { const int ts = need(c, "typesize"); if(ts != (int) dtypeSize(a.dtype)) throw Bad("typesize"); }
                a.codec.blocksize = need(c, "blocksize");
            } else throw Bad("unknown v3 codec " + n);
        }
    } else {
        a.kind = 5; a.big = true; a.sep = "/";
        a.shape = dims(need(j, "dimensions")); a.chunk = dims(need(j, "blockSize"));
        std::reverse(a.shape.begin(), a.shape.end()); std::reverse(a.chunk.begin(), a.chunk.end());
        a.dtype = need(j, "dataType");
        const json & c = need(j, "compression"); const std::string t = need(c, "type");
        if(t == "raw") a.codec.id = "raw";
        else if(t == "gzip") { a.codec.id = c.value("useZlib", false) ? "zlib" : "gzip"; a.codec.level = need(c, "level"); }
        else if(t == "bzip2") { a.codec.id = t; a.codec.level = need(c, "blockSize"); }
        else if(t == "xz") { a.codec.id = t; a.codec.level = need(c, "preset"); }
        else if(t == "lz4") { a.codec.id = "lz4n5"; a.codec.level = need(c, "blockSize"); }
        else if(t == "zstd") { a.codec.id = t; a.codec.level = need(c, "level"); }
        else if(t == "blosc") { a.codec.id = t; a.codec.cname = need(c, "cname"); a.codec.level = need(c, "clevel"); a.codec.shuffle = need(c, "shuffle"); a.codec.blocksize = need(c, "blocksize"); need(c, "nthreads"); }
        else throw Bad("unknown n5 compression " + t);
    }
    if(a.sep != "." && a.sep != "/") throw Bad("separator");
    if(a.chunk.size() != a.shape.size()) throw Bad("dimension of chunks");
    for(auto x : a.chunk) if(x == 0) throw Bad("zero chunk extent");
    if(!a.shard.empty()) for(std::size_t d = 0; d < a.shape.size(); ++d) if(a.shard[d] % a.chunk[d]) throw Bad("shard shape is no multiple of the chunk shape");
    a.esize = dtypeSize(a.dtype); a.ccount = a.dtype.find("complex") == 0 ? 2 : 1;
    return a;
}

// path of a grid cell (chunk or shard) relative to the array directory
inline std::string key(const Array & a, const S & id) {
    std::string s;
    if(a.kind == 5) { for(int d = (int) id.size() - 1; d >= 0; --d) s += (s.empty() ? "" : "/") + std::to_string(id[d]); return s; }
    if(a.kind == 3 && a.keyenc == "default") { s = "c"; for(auto x : id) s += a.sep + std::to_string(x); return s; }
    for(std::size_t d = 0; d < id.size(); ++d) s += (d ? a.sep : "") + std::to_string(id[d]);
    return s;
}

// bytes of one (inner) chunk -> elements in C order over `cs`, native little-endian
inline Bytes bytesOf(const Array & a, const Bytes & elems) { return a.big ? swapped(elems, a.esize / a.ccount) : elems; }

inline Bytes decodeChunk(const Array & a, const S & id, const Bytes & raw, S & cs, bool & varlen) {
    cs = a.chunk; varlen = false;
    if(a.kind != 5) return bytesOf(a, decompress(a.codec.id, raw, prod(cs) * a.esize));
    if(raw.size() < 4) throw Bad("n5 block too short");
    const unsigned char * p = (const unsigned char *) raw.data();
    const unsigned mode = p[0] << 8 | p[1], nd = p[2] << 8 | p[3];
    if(mode > 1) throw Bad("n5 block mode " + std::to_string(mode));
    if(nd != a.shape.size()) throw Bad("n5 block header has the wrong number of dimensions");
    std::size_t off = 4 + 4 * nd; if(raw.size() < off + (mode ? 4 : 0)) throw Bad("n5 block too short");
    auto be32 = [&](std::size_t o) { return (std::size_t) p[o] << 24 | p[o + 1] << 16 | p[o + 2] << 8 | p[o + 3]; };
    for(unsigned d = 0; d < nd; ++d) {
        cs[d] = be32(4 + 4 * (nd - 1 - d));
        const std::size_t clipped = std::min(a.chunk[d], a.shape[d] - id[d] * a.chunk[d]);
        if(cs[d] != clipped) throw Bad("n5 block header has extent " + std::to_string(cs[d]) + " instead of " + std::to_string(clipped));
    }
    std::size_t n = prod(cs);
    if(mode) { n = be32(off); off += 4; varlen = true; }
    return bytesOf(a, decompress(a.codec.id, raw.substr(off), n * a.esize));
}

inline Bytes encodeChunk(const Array & a, const S & cs, const Bytes & elems, long varlen = -1) {
    Bytes body = compress(a.codec, bytesOf(a, elems));
    if(a.kind != 5) return body;
    Bytes h;
    auto be = [&](std::size_t v, int n) { for(int i = n - 1; i >= 0; --i) h += (char)(v >> (8 * i)); };
    be(varlen >= 0, 2); be(cs.size(), 2);
    for(int d = (int) cs.size() - 1; d >= 0; --d) be(cs[d], 4);
    if(varlen >= 0) be(varlen, 4);
    return h + body;
}

inline uint64_t le64(const char * p) { uint64_t v = 0; for(int i = 7; i >= 0; --i) v = v << 8 | (unsigned char) p[i]; return v; }

// all stored inner chunks: id -> (elements, shape); checks that no other file exists
struct Cell { Bytes elems; S shape; bool varlen = false; };
// bad: where given, damaged chunk / shard files are recorded there (by grid position) and unknown files are ignored
inline std::map<S, Cell> readAll(const std::string & dir, const Array & a, std::map<S, std::string> * bad = nullptr) {
    std::map<S, Cell> res;
    tree::Snapshot snap = tree::snapshot(dir);
    std::set<std::string> expected{a.kind == 5 ? "attributes.json" : a.kind == 2 ? ".zarray" : "zarr.json", ".zattrs"};
    S grid = a.grid(), ng(a.shape.size());
    for(std::size_t d = 0; d < ng.size(); ++d) ng[d] = (a.shape[d] + grid[d] - 1) / grid[d];
    std::set<std::string> keys;
    S g(ng.size(), 0);
    if(prod(ng)) do {
        const std::string k = key(a, g);
        if(!keys.insert(k).second) throw Bad("two chunks share the key " + k);
        auto it = snap.find(k);
        if(it == snap.end()) continue;
        try {
        if(a.shard.empty()) {
            Cell c; c.elems = decodeChunk(a, g, it->second, c.shape, c.varlen); res[g] = c;
        } else {
            S per(g.size()); for(std::size_t d = 0; d < per.size(); ++d) per[d] = a.shard[d] / a.chunk[d];
            const std::size_t n = prod(per), isz = 16 * n + (a.indexCrc ? 4 : 0); const Bytes & sh = it->second;
            if(sh.size() < isz) throw Bad("shard shorter than its index");
            const std::size_t at = a.indexStart ? 0 : sh.size() - isz;
            const Bytes index = sh.substr(at, 16 * n);
            if(a.indexCrc) { uint32_t c; memcpy(&c, sh.data() + at + 16 * n, 4); if(c != crc32c(index)) throw Bad("shard index checksum"); }
            std::vector<std::pair<uint64_t, uint64_t>> used;
            S p(per.size(), 0); std::size_t slot = 0;
            do {
                const uint64_t o = le64(&index[16 * slot]), l = le64(&index[16 * slot + 8]); ++slot;
                if(o == UINT64_MAX && l == UINT64_MAX) continue;
                if(o > sh.size() || l > sh.size() - o) throw Bad("shard index entry out of range");
                used.push_back({o, l});
                S id(per.size()); bool inside = true;
                for(std::size_t d = 0; d < per.size(); ++d) { id[d] = g[d] * per[d] + p[d]; inside = inside && id[d] * a.chunk[d] < a.shape[d]; }
                if(!inside) throw Bad("shard holds a chunk outside of the array");
                Cell c; c.elems = decodeChunk(a, id, sh.substr(o, l), c.shape, c.varlen); res[id] = c;
            } while(step(p, per));
            std::sort(used.begin(), used.end());
            for(std::size_t i = 1; i < used.size(); ++i) if(used[i].first < used[i - 1].first + used[i - 1].second) throw Bad("shard entries overlap");
        }
        } catch(std::exception & e) { if(!bad) throw; (*bad)[g] = e.what(); }
    } while(step(g, ng));
    if(bad) return res;
    for(auto & kv : snap) {
        if(kv.first.back() == '/') { bool ok = false; for(auto & k : keys) ok = ok || k.compare(0, kv.first.size(), kv.first) == 0; if(!ok) throw Bad("unexpected directory " + kv.first); }
        else if(!keys.count(kv.first) && !expected.count(kv.first)) throw Bad("unexpected file " + kv.first);
    }
    return res;
}

// elements of the array, C order
inline Bytes assemble(const Array & a, const std::map<S, Cell> & cells, const Bytes & fillElem) {
    const std::size_t n = prod(a.shape); Bytes out; out.reserve(n * a.esize);
    for(std::size_t i = 0; i < n; ++i) out += fillElem;
    for(auto & kv : cells) {
        S p(a.shape.size(), 0); std::size_t i = 0;
        if(kv.second.varlen) continue;
        do {
            std::size_t l = 0; bool in = true;
            for(std::size_t d = 0; d < p.size(); ++d) { const std::size_t x = kv.first[d] * a.chunk[d] + p[d]; in = in && x < a.shape[d]; l = l * a.shape[d] + x; }
            if(in) memcpy(&out[l * a.esize], &kv.second.elems[i * a.esize], a.esize);
            ++i;
        } while(step(p, kv.second.shape));
    }
    return out;
}

// the part of a C-order array that lies in one chunk, padded with `pad`
inline Bytes extract(const Array & a, const S & id, const S & cs, const Bytes & arr, const Bytes & pad) {
    Bytes o; S p(cs.size(), 0);
    do {
        std::size_t l = 0; bool in = true;
        for(std::size_t d = 0; d < p.size(); ++d) { const std::size_t x = id[d] * a.chunk[d] + p[d]; in = in && x < a.shape[d]; l = l * a.shape[d] + x; }
        o += in ? arr.substr(l * a.esize, a.esize) : pad;
    } while(step(p, cs));
    return o;
}

// write the chunks of an array (metadata is written by the caller); `skip` chunks stay absent
inline void writeChunks(const std::string & dir, const Array & a, const Bytes & arr, const Bytes & pad, const std::set<S> & skip = {}, int blobOrder = 0, std::size_t gap = 0) {   // blobOrder: 0 slot order, 1 reversed, 2 rotated
    S nc(a.shape.size()), grid = a.grid(), ng(a.shape.size());
    for(std::size_t d = 0; d < nc.size(); ++d) { nc[d] = (a.shape[d] + a.chunk[d] - 1) / a.chunk[d]; ng[d] = (a.shape[d] + grid[d] - 1) / grid[d]; }
    auto put = [&](const S & g, const Bytes & b) { const std::string f = dir + "/" + key(a, g); std::filesystem::create_directories(std::filesystem::path(f).parent_path()); tree::spit(f, b); };
    if(a.shard.empty()) {
        S g(ng.size(), 0);
        do {
            if(skip.count(g)) continue;
            S cs = a.chunk; if(a.kind == 5) for(std::size_t d = 0; d < cs.size(); ++d) cs[d] = std::min(cs[d], a.shape[d] - g[d] * cs[d]);
            put(g, encodeChunk(a, cs, extract(a, g, cs, arr, pad)));
        } while(step(g, ng));
        return;
    }
    S g(ng.size(), 0);
    do {
        S per(g.size()); for(std::size_t d = 0; d < per.size(); ++d) per[d] = a.shard[d] / a.chunk[d];
        std::vector<Bytes> blobs; std::vector<bool> has; S p(per.size(), 0);
        do {
            S id(per.size()); bool in = true; for(std::size_t d = 0; d < per.size(); ++d) { id[d] = g[d] * per[d] + p[d]; in = in && id[d] < nc[d]; }
            has.push_back(in && !skip.count(id));
            blobs.push_back(has.back() ? encodeChunk(a, a.chunk, extract(a, id, a.chunk, arr, pad)) : Bytes());
        } while(step(p, per));
        const std::size_t n = blobs.size(), isz = 16 * n + (a.indexCrc ? 4 : 0);
        Bytes data, index(16 * n, '\xff'); std::vector<std::size_t> order; for(std::size_t i = 0; i < n; ++i) order.push_back(blobOrder == 1 ? n - 1 - i : blobOrder == 2 ? (i + 1) % n : i);
        for(auto i : order) if(has[i]) {
            data += Bytes(gap, 'x');
            uint64_t o = data.size() + (a.indexStart ? isz : 0), l = blobs[i].size();
            for(int k = 0; k < 8; ++k) { index[16 * i + k] = (char)(o >> 8 * k); index[16 * i + 8 + k] = (char)(l >> 8 * k); }
            data += blobs[i];
        }
        if(data.empty()) continue;
        Bytes idx = index; if(a.indexCrc) { uint32_t c = crc32c(index); idx += Bytes((char *) &c, 4); }
        put(g, a.indexStart ? idx + data : data + idx);
    } while(step(g, ng));
}

// a metadata document for the array, as an independent writer would produce it
inline json doc(const Array & a) {
    json j;
    const Codec & c = a.codec;
    if(a.kind == 5) {
        S s(a.shape.rbegin(), a.shape.rend()), k(a.chunk.rbegin(), a.chunk.rend());
        j["dimensions"] = s; j["blockSize"] = k; j["dataType"] = a.dtype;
        json o;
        if(c.id == "raw") o["type"] = "raw";
        else if(c.id == "gzip" || c.id == "zlib") { o["type"] = "gzip"; o["level"] = c.level; if(c.id == "zlib") o["useZlib"] = true; }
        else if(c.id == "bzip2") { o["type"] = "bzip2"; o["blockSize"] = c.level; }
        else if(c.id == "xz") { o["type"] = "xz"; o["preset"] = c.level; }
        else if(c.id == "zstd") { o["type"] = "zstd"; o["level"] = c.level; }
        else if(c.id == "blosc") { o["type"] = "blosc"; o["cname"] = c.cname; o["clevel"] = c.level; o["shuffle"] = c.shuffle; o["blocksize"] = c.blocksize; o["nthreads"] = 1; }
        else throw Bad("doc");
        j["compression"] = o;
    } else if(a.kind == 2) {
        static const std::map<std::string, std::string> base{{"int", "i"}, {"uint", "u"}, {"float", "f"}, {"complex", "c"}};
        std::string b = a.dtype.substr(0, a.dtype.find_first_of("0123456789"));
        j["zarr_format"] = 2; j["shape"] = a.shape; j["chunks"] = a.chunk; j["order"] = "C"; j["filters"] = nullptr; j["fill_value"] = a.fill;
        j["dtype"] = (a.esize == 1 ? "|" : a.big ? ">" : "<") + base.at(b) + std::to_string(a.esize);
        if(a.sep != ".") j["dimension_separator"] = a.sep;
        if(c.id == "raw") j["compressor"] = nullptr;
        else {
            json o; o["id"] = c.id == "bzip2" ? "bz2" : c.id == "lz4zarr" ? "lz4" : c.id;
            if(c.id == "blosc") { o["cname"] = c.cname; o["clevel"] = c.level; o["shuffle"] = c.shuffle; o["blocksize"] = c.blocksize; }
            else if(c.id == "lz4zarr") o["acceleration"] = 1;
            else o["level"] = c.level;
            j["compressor"] = o;
        }
    } else {
        j["zarr_format"] = 3; j["node_type"] = "array"; j["shape"] = a.shape; j["data_type"] = a.dtype; j["fill_value"] = a.fill; j["attributes"] = json::object();
        j["chunk_grid"] = {{"name", "regular"}, {"configuration", {{"chunk_shape", a.grid()}}}};
        j["chunk_key_encoding"] = {{"name", a.keyenc}, {"configuration", {{"separator", a.sep}}}};
        json codecs = json::array();
        json by; by["name"] = "bytes"; if(a.esize > 1) by["configuration"] = {{"endian", a.big ? "big" : "little"}};
        codecs.push_back(by);
        if(c.id == "gzip") codecs.push_back({{"name", "gzip"}, {"configuration", {{"level", c.level}}}});
        else if(c.id == "zstd") codecs.push_back({{"name", "zstd"}, {"configuration", {{"level", c.level}, {"checksum", c.checksum}}}});
        else if(c.id == "blosc") codecs.push_back({{"name", "blosc"}, {"configuration", {{"cname", c.cname}, {"clevel", c.level}, {"shuffle", c.shuffle == 0 ? "noshuffle" : c.shuffle == 1 ? "shuffle" : "bitshuffle"}, {"typesize", c.typesize}, {"blocksize", c.blocksize}}}});
        else if(c.id != "raw") throw Bad("doc");
        if(!a.shard.empty()) {
            json ic = json::array(); ic.push_back({{"name", "bytes"}, {"configuration", {{"endian", "little"}}}});
            if(a.indexCrc) { json crc; crc["name"] = "crc32c"; ic.push_back(crc); }
            json sh; sh["name"] = "sharding_indexed"; sh["configuration"] = {{"chunk_shape", a.chunk}, {"codecs", codecs}, {"index_codecs", ic}, {"index_location", a.indexStart ? "start" : "end"}};
            j["codecs"] = json::array(); j["codecs"].push_back(sh);
        } else j["codecs"] = codecs;
    }
    return j;
}
inline const char * docName(const Array & a) { return a.kind == 5 ? "attributes.json" : a.kind == 2 ? ".zarray" : "zarr.json"; }

}
