// C06: what a dataset is created with is what re-opening reports; foreign metadata documents are
// interpreted as specified or refused.
#include "mk.hpp"
#include "spec.hpp"
#include "z5/multiarray/array_access.hxx"
#include <complex>
#include <cfloat>
using namespace mk;
using spec::Bytes; using spec::json;
mc::Ctx ctx;

template<class F> static void dispatch(const std::string & d, F && f) {
    if(d == "int8") f(int8_t()); else if(d == "uint8") f(uint8_t()); else if(d == "int16") f(int16_t()); else if(d == "uint16") f(uint16_t());
    else if(d == "int32") f(int32_t()); else if(d == "uint32") f(uint32_t()); else if(d == "int64") f(int64_t()); else if(d == "uint64") f(uint64_t());
    else if(d == "float32") f(float()); else if(d == "float64") f(double()); else if(d == "complex64") f(std::complex<float>()); else if(d == "complex128") f(std::complex<double>());
    else if(d == "complex256") f(std::complex<long double>());
    else throw std::runtime_error("dtype " + d);
}
static std::string dtypeName(z5::types::Datatype d) {
    switch(d) {
        case z5::types::int8: return "int8"; case z5::types::int16: return "int16"; case z5::types::int32: return "int32"; case z5::types::int64: return "int64";
        case z5::types::uint8: return "uint8"; case z5::types::uint16: return "uint16"; case z5::types::uint32: return "uint32"; case z5::types::uint64: return "uint64";
        case z5::types::float32: return "float32"; case z5::types::float64: return "float64";
        case z5::types::complex64: return "complex64"; case z5::types::complex128: return "complex128"; case z5::types::complex256: return "complex256";
    }
    return "?";
}
static std::string hex(const Bytes & b) { std::string s; char t[3]; for(unsigned char c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }
// long double has padding bytes: compare the value bytes only
static Bytes valueBytes(const std::string & dt, const void * p, std::size_t n) {
    Bytes b((const char *) p, n * esize(dt));
    if(dt == "complex256") for(std::size_t i = 0; i < b.size(); ++i) if(i % 16 >= 10) b[i] = 0;
    return b;
}
static std::string optsOf(const z5::types::CompressionOptions & o) {
    std::string s; for(auto & kv : o) { s += kv.first + "="; if(std::holds_alternative<int>(kv.second)) s += std::to_string(std::get<int>(kv.second)); else if(std::holds_alternative<bool>(kv.second)) s += std::get<bool>(kv.second) ? "true" : "false"; else s += std::get<std::string>(kv.second); s += ";"; } return s;
}
struct Report { S shape, chunk, shard, cpd; std::string dtype, codec, fill, key; z5::types::CompressionOptions opts; bool zarr, sharded; std::size_t n, size;
    std::string text() const { return "shape " + mc::str(shape) + " chunk " + mc::str(chunk) + " shard " + mc::str(shard) + " grid " + mc::str(cpd) + " dtype " + dtype + " codec " + codec + "{" + optsOf(opts) + "} fill " + fill + " key " + key + " zarr " + std::to_string(zarr) + " sharded " + std::to_string(sharded) + " n " + std::to_string(n) + " size " + std::to_string(size); } };
static Report report(const z5::Dataset & ds) {
    Report r; r.shape = ds.shape(); r.chunk = ds.defaultChunkShape(); r.shard = ds.shardShape(); r.cpd = ds.chunksPerDimension(); r.dtype = dtypeName(ds.getDtype());
    ds.getCompressor(r.codec); if(r.codec == "bz2") r.codec = "bzip2"; ds.getCompressionOptions(r.opts); r.zarr = ds.isZarr(); r.sharded = ds.isSharded(); r.n = ds.numberOfChunks(); r.size = ds.size();
    long double b[2]; memset(b, 0, sizeof b); ds.getFillValue(b); r.fill = hex(valueBytes(r.dtype, b, 1));
    S id(r.shape.size()); for(std::size_t d = 0; d < id.size(); ++d) id[d] = r.cpd[d] ? r.cpd[d] - 1 : 0;
    if(r.zarr) r.opts.erase("nthreads");   // not part of the zarr metadata
    fs::path p; ds.chunkPath(id, p); r.key = p.string().substr(ds.path().string().size());
    return r;
}
static Bytes readAllZ5(const z5::Dataset & ds) {
    const std::string dt = dtypeName(ds.getDtype()); Bytes out;
    dispatch(dt, [&](auto t) { typedef decltype(t) T; const S & sh = ds.shape(); S st(sh.size()), off(sh.size(), 0); std::size_t x = 1; for(int d = (int) sh.size() - 1; d >= 0; --d) { st[d] = x; x *= sh[d]; }
        std::vector<T> v(x); memset((void *) v.data(), 0x77, x * sizeof(T)); z5::multiarray::readSubarray<T>(ds, z5::multiarray::ArrayView<T>(v.data(), sh, st), off.begin(), 1); out = valueBytes(dt, v.data(), x); });
    return out;
}
static Bytes fillBytes(const std::string & dt, double f) { Bytes b(esize(dt), '\0'); dispatch(dt, [&](auto t) { memset((void *) &t, 0, sizeof t); t = static_cast<decltype(t)>(f); b = valueBytes(dt, &t, 1); }); return b; }
static Bytes rep(const Bytes & e, std::size_t n) { Bytes b; for(std::size_t i = 0; i < n; ++i) b += e; return b; }

static void checkSame(const std::string & sig, const std::string & id, const std::string & what, const Report & a, const Report & b) {
    ctx.check(a.text() == b.text(), sig, [&] { return id + ": " + what + ": " + a.text() + " versus " + b.text(); });
}

enum Ex { OK, REFUSE, EITHER, LATE };
static void create(const Conf & c, Ex ex, const std::string & label = "") {
    const std::string id = "create " + (label.empty() ? "" : label + " ") + c.id() + (c.fill != 0 ? " " + hex(Bytes((const char *) &c.fill, 8)) : "");
    if(!ctx.want(id)) return;
    const std::string root = ctx.scratch + "/c06"; tree::wipe(root); createContainer(root, c);
    const std::string sig = (label.empty() ? "create:" : label + ":") + c.fmt.substr(0, 2) + ":" + c.codec + ":" + (c.fill != 0 ? "fill" : "nofill");
    const auto before = tree::snapshot(root);
    std::unique_ptr<z5::Dataset> ds; std::string err;
    try { ds = createIn(root, c); } catch(std::exception & e) { err = e.what(); }
    ++ctx.count["checks"];
    if(!ds) {
        if(ex == OK) ctx.violation(sig + ":refused", id + ": error: " + err);
        const auto after = tree::snapshot(root);
        if(!(after == before)) ctx.violation(sig + ":leftover", id + ": refused (" + err + ") but left files behind");
        ctx.outcome("refused " + label); ++ctx.count["refused"]; return;
    }
    if(ex == LATE) {          // out-of-range option values: refused at creation or at the first write
        std::vector<char> data(prod(c.chunk) * esize(c.dtype), 1);
        try { ds->writeChunk(S(c.shape.size(), 0), data.data()); } catch(std::exception &) { ctx.check(!ds->chunkExists(S(c.shape.size(), 0)), sig + ":late", [&] { return id + ": failed write left a chunk"; }); ++ctx.count["refused_on_write"]; return; }
        ds->removeChunk(S(c.shape.size(), 0));
    }
    if(ex == REFUSE) { ctx.violation(sig + ":accepted", id + ": accepted"); return; }
    try {
        const Report a = report(*ds);
        const auto doc1 = tree::snapshot(root);
        auto re = mk::open(root, "d", z5::FileMode::r); const Report b = report(*re);
        ctx.check(tree::snapshot(root) == doc1, sig + ":open-writes", [&] { return id + ": opening changed files"; });
        checkSame(sig + ":reopen", id, "created versus re-opened", a, b);
        // requested versus reported
        ctx.check(b.shape == c.shape && b.chunk == c.chunk && b.shard == (c.sharded() ? c.shard : S()) && b.zarr == c.zarr() && b.sharded == c.sharded(), sig + ":shape", [&] { return id + ": re-opened with " + b.text(); });
        ctx.check(b.dtype == c.dtype, sig + ":dtype", [&] { return id + ": re-opened with " + b.dtype; });
        ctx.check(z5::types::Compressors::stringToCompressor().count(b.codec) && z5::types::Compressors::stringToCompressor().at(b.codec) == z5::types::Compressors::stringToCompressor().at(c.codec), sig + ":codec", [&] { return id + ": re-opened with codec " + b.codec; });
        for(auto & kv : c.opts) if(kv.first != "nthreads" && !(kv.first == "useZlib" && (c.zformat() != 2 || c.fmt == "n5"))) ctx.check(b.opts.count(kv.first) && b.opts.at(kv.first) == kv.second, sig + ":opt:" + kv.first, [&] { return id + ": option " + kv.first + " re-opened as " + optsOf(b.opts); });
        ctx.check(b.fill == hex(fillBytes(c.dtype, c.fill)) || (c.fill != c.fill && c.dtype.find("float") == 0), sig + ":fillvalue", [&] { return id + ": fill value re-opened as " + b.fill; });
        const std::size_t n = prod(c.shape);
        if(n && n <= 10000) {
            const Bytes all = rep(fillBytes(c.dtype, c.fill), n);
            const Bytes r1 = readAllZ5(*ds), r2 = readAllZ5(*re);
            ctx.check(r1 == r2, sig + ":read", [&] { return id + ": empty dataset reads differently after re-opening"; });
            if(c.fill == c.fill) ctx.check(r1 == all, sig + ":read-fill", [&] { return id + ": empty dataset does not read as its fill value"; });
            // one chunk through the created handle, seen by the other, and by a third
            S cid(c.shape.size(), 0), csh; ds->getChunkShape(cid, csh, false);
            const std::size_t cn = c.zarr() ? prod(c.chunk) : prod(csh);
            std::vector<char> data(cn * esize(c.dtype)); for(std::size_t i = 0; i < data.size(); ++i) data[i] = (char)((i % esize(c.dtype)) % (c.dtype == "complex256" ? 16 : 99) >= 8 ? 0 : 1 + i % 37);
            ds->writeChunk(cid, data.data());
            auto third = mk::open(root); const Bytes r3 = readAllZ5(*ds), r4 = readAllZ5(*third), r5 = readAllZ5(*re);
            ctx.check(r3 == r4 && r3 == r5, sig + ":read-after", [&] { return id + ": handles disagree after a chunk was written"; });
            std::vector<char> back(data.size()); third->readChunk(cid, back.data());
            ctx.check(back == data, sig + ":chunk", [&] { return id + ": chunk reads back differently after re-opening"; });
            checkSame(sig + ":stable", id, "properties changed by writing", a, report(*third));
        }
        ctx.outcome("created " + c.fmt + c.codec);
    } catch(std::exception & e) { if(ex == EITHER) { ++ctx.count["unusable"]; ctx.outcome("unusable"); ctx.violation(sig + ":unusable", id + ": creation accepted, then error: " + e.what()); } else ctx.violation(sig + ":error", id + ": error: " + e.what()); }
}

// ------------------------------------------------------------------ foreign documents
struct Base { std::string name; spec::Array a; };
static std::string storeDir(const std::string & root, const spec::Array & a, const Bytes & arr, const std::set<S> & skip) {
    tree::wipe(root); const std::string dir = root + "/d"; std::filesystem::create_directories(dir);
    if(a.kind == 5) tree::spit(root + "/attributes.json", R"({"n5":"2.5.1"})"); else if(a.kind == 2) tree::spit(root + "/.zgroup", R"({"zarr_format":2})"); else tree::spit(root + "/zarr.json", R"({"zarr_format":3,"node_type":"group"})");
    spec::writeChunks(dir, a, arr, Bytes(a.esize, '\x33'), skip); return dir;
}
static void collect(const json & j, const std::string & at, std::vector<std::string> & out) {
    out.push_back(at);
    if(j.is_object()) for(auto it = j.begin(); it != j.end(); ++it) collect(it.value(), at + "/" + it.key(), out);
    else if(j.is_array()) for(std::size_t i = 0; i < j.size(); ++i) collect(j[i], at + "/" + std::to_string(i), out);
}
static bool small(const S & s) { std::size_t n = 1; for(auto x : s) { if(x > 4096 || n > 4096) return false; n *= x; } return n <= 4096; }
static json * at(json & j, const std::string & p) { return &j[json::json_pointer(p)]; }
static bool erase(json & j, const std::string & p) {
    if(p.empty()) return false;
    json & parent = j[json::json_pointer(p.substr(0, p.rfind('/')))]; const std::string last = p.substr(p.rfind('/') + 1);
    if(parent.is_array()) parent.erase(std::stoul(last)); else parent.erase(last);
    return true;
}
// parts of a document that do not influence how the stored data is read
static bool cosmetic(const std::string & p) {
    static const std::vector<std::string> ends{"/level", "/clevel", "/blocksize", "/nthreads", "/preset", "/checksum", "/typesize", "/shuffle", "/cname", "/acceleration", "/useZlib"};
    for(auto & e : ends) if(p.size() >= e.size() && p.compare(p.size() - e.size(), e.size(), e) == 0) return true;
    if(p.find("/attributes") == 0) return true;
    if(p == "/fill_value") return true;        // a fill value outside the element type has no defined meaning
    if(p == "/compression/blockSize") return true;
    return false;
}
// other accepted deviations that leave the meaning unambiguous
static bool lax(const std::string & p, const json & v) {
    const std::string conf = "/configuration";
    if(p == "/filters") return v.is_array() && v.empty() || v.is_object() && v.empty();
    if(p == "/chunk_key_encoding/configuration") return !v.is_object() || v.empty();
    if(p.find("/codecs/") == 0 && p.size() > conf.size() && p.compare(p.size() - conf.size(), conf.size(), conf) == 0) return v.is_object();
    return false;
}
static bool fillFits(const json & f, const std::string & dt) {
    if(!f.is_number()) return dt.find("float") == 0;
    if(dt.find("float") == 0) return dt == "float64" || std::abs(f.get<double>()) < 3e38;
    const double v = f.get<double>(); const int n = 8 * esize(dt);
    if(f.is_number_float()) { if(v != std::floor(v)) return false; return dt[0] == 'u' ? v >= 0 && v < std::ldexp(1.0, n) : v >= -std::ldexp(1.0, n - 1) && v < std::ldexp(1.0, n - 1); }
    if(dt[0] == 'u') return f.is_number_unsigned() && (n == 64 || f.get<uint64_t>() < (uint64_t(1) << n));
    if(f.is_number_unsigned()) return f.get<uint64_t>() < (uint64_t(1) << (n - 1));
    return n == 64 || f.get<int64_t>() >= -(int64_t(1) << (n - 1));
}
static void foreign(const std::string & id, const Base & b, const std::string & text, int expect /* 0 by reference parser, 1 must read as base, 2 must refuse */, bool tolerant) {
    if(!ctx.want(id)) return;
    const std::string root = ctx.scratch + "/c06f";
    Bytes arr; { spec::Array & a = const_cast<spec::Array &>(b.a); arr.assign(spec::prod(a.shape) * a.esize, '\0'); for(std::size_t i = 0; i < arr.size(); ++i) arr[i] = (char)(1 + (i * 7) % 100); }
    // chunk 0 stored as blank = absent, so the fill value is observable
    const Bytes fe0 = b.a.fill.is_number() ? fillBytes(b.a.dtype, b.a.fill.get<double>()) : fillBytes(b.a.dtype, 0);
    S zero(b.a.shape.size(), 0), p(zero); std::size_t i = 0;
    do { bool in = true; for(std::size_t d = 0; d < p.size(); ++d) in = in && p[d] < b.a.chunk[d]; if(in) memcpy(&arr[i * b.a.esize], fe0.data(), b.a.esize); ++i; } while(mc::next(p, b.a.shape));
    const std::string dir = storeDir(root, b.a, arr, {zero});
    tree::spit(dir + "/" + spec::docName(b.a), text);
    ++ctx.count["checks"];
    spec::Array m; bool valid = true; std::string why;
    try { m = spec::parse(dir); } catch(std::exception & e) { valid = false; why = e.what(); }
    const auto before = tree::snapshot(root);
    std::unique_ptr<z5::Dataset> ds; Report r; Bytes got; bool opened = false, read = false; std::string err;
    try { ds = mk::open(root); r = report(*ds); opened = true; if(small(r.shape) && small(r.chunk)) { got = readAllZ5(*ds); read = true; } else err = "(too large to read)"; } catch(std::exception & e) { err = e.what(); }
    ctx.check(tree::snapshot(root) == before, "foreign-writes:" + b.name, [&] { return id + ": opening and reading changed files"; });
    const std::string sig = "foreign:" + id;
    if(!read) {
        ++ctx.count["refused"];
        if(expect == 1) ctx.violation(sig, id + ": must be readable, error: " + err);
        if(!(opened && err == "(too large to read)")) return;
    } else ++ctx.count["accepted"];
    if(expect == 2) { ctx.violation(sig, id + ": must be refused, but opens as " + r.text()); return; }
    if(!valid && (why == "typesize" || id.find(" /data_type=") != std::string::npos && why.find("lacks") != std::string::npos)) return;      // a hint for the blosc shuffle, z5 passes its own
    if(!valid) {
        if(expect == 1 || tolerant) m = b.a;
        else { ctx.violation(sig, id + ": invalid document (" + why + ") opens as " + r.text()); return; }
    }
    // the meaning of the document
    if(r.shape != m.shape || r.chunk != m.chunk || r.shard != m.shard || r.dtype != m.dtype) { ctx.violation(sig, id + ": opens as " + r.text()); return; }
    const bool sameLayout = m.shape == b.a.shape && m.chunk == b.a.chunk && m.shard == b.a.shard && m.dtype == b.a.dtype && m.sep == b.a.sep && m.keyenc == b.a.keyenc && m.big == b.a.big && m.codec.id == b.a.codec.id && m.indexStart == b.a.indexStart && m.indexCrc == b.a.indexCrc;
    if(read && !m.fill.is_null() && (valid || id.find(" /fill_value=") == std::string::npos && id.find(" without /fill_value") == std::string::npos)) {
        // fill value as the document defines it
        double f = 0; bool known = true;
        if(m.kind == 5) f = 0; else if(m.fill.is_number()) f = m.fill.get<double>(); else if(m.fill == "NaN") known = false; else if(m.fill == "Infinity") f = INFINITY; else if(m.fill == "-Infinity") f = -INFINITY; else known = false;
        if(m.kind != 5 && !fillFits(m.fill, m.dtype)) known = false;
        if(known) {
            Bytes fe; 
            if(m.fill.is_number_integer() && m.dtype.find("int") != std::string::npos) { const uint64_t v = m.fill.is_number_unsigned() ? m.fill.get<uint64_t>() : (uint64_t) m.fill.get<int64_t>(); fe.assign((const char *) &v, esize(m.dtype)); }
            else fe = fillBytes(m.dtype, f);
            if(r.fill != hex(fe)) { ctx.violation("fill:" + id, id + ": fill value opens as " + r.fill + " instead of " + hex(fe)); return; }
            if(sameLayout) {
                Bytes want = arr; S q(zero); std::size_t k = 0;
                do { bool in = true; for(std::size_t d = 0; d < q.size(); ++d) in = in && q[d] < b.a.chunk[d]; if(in) memcpy(&want[k * b.a.esize], fe.data(), b.a.esize); ++k; } while(mc::next(q, b.a.shape));
                if(got != want) ctx.violation(sig + ":data", id + ": reads different values");
            }
        }
    }
    ctx.outcome("accepted " + b.name);
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool th = ctx.thorough;
    const std::vector<std::string> F{"n5", "z2.", "z2/", "z3/", "z3.", "v2.", "v2/", "sh/", "sh.", "sv.", "sv/"};
    const std::vector<std::string> DT{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"};
    const std::vector<std::string> CX{"complex64", "complex128", "complex256"};
    auto allowed = [](const std::string & f, const std::string & cd) { if(f == "n5") return true; if(f.substr(0, 2) == "z2") return cd != "xz"; return cd == "raw" || cd == "gzip" || cd == "zlib" || cd == "zstd" || cd == "blosc"; };
    struct G { S s, c, h; };
    std::vector<G> geo{{{5}, {2}, {4}}, {{3, 4}, {2, 3}, {4, 3}}, {{2, 3, 4}, {1, 2, 3}, {2, 2, 3}}, {{1, 1}, {1, 1}, {1, 1}}, {{3}, {7}, {14}}, {{2, 1, 2, 3}, {1, 1, 2, 2}, {1, 2, 2, 4}}, {{4294967296, 70000}, {65536, 1000}, {131072, 1000}}, {{4611686018427387904}, {1048576}, {2097152}}};
    if(th) { geo.push_back({{2, 2, 2, 2, 2, 2}, {1, 2, 1, 2, 1, 2}, {2, 2, 1, 2, 2, 4}}); geo.push_back({{100, 3}, {1, 1}, {3, 2}}); geo.push_back({{7, 9}, {7, 9}, {7, 9}}); geo.push_back({{12345678901, 3}, {100000, 2}, {100000, 4}}); }
    auto fills = [](const std::string & t) {
        std::vector<double> v{0, 1, 42};
        if(t == "float32") for(double x : {0.5, -1.5, -0.0, (double) FLT_MAX, (double) FLT_MIN, (double) 0.1f}) v.push_back(x);
        if(t == "float64") for(double x : {0.1, -0.0, DBL_MAX, DBL_MIN, 5e-324, 1e23, -123456789.123456789, 1.0 / 3}) v.push_back(x);
        if(t.find("float") == 0) for(double x : {(double) NAN, (double) INFINITY, (double) -INFINITY}) v.push_back(x);
        if(t[0] == 'i') { const int n = 8 * esize(t); v.push_back(-1); v.push_back(-std::ldexp(1.0, n - 1)); v.push_back(n == 64 ? std::ldexp(1.0, 62) : std::ldexp(1.0, n - 1) - 1); }
        if(t[0] == 'u') { const int n = 8 * esize(t); v.push_back(n == 64 ? std::ldexp(1.0, 63) : std::ldexp(1.0, n) - 1); v.push_back(std::ldexp(1.0, n - 1)); }
        return v;
    };
    // --- everything that is supported
    for(auto & f : F) for(std::size_t g = 0; g < geo.size(); ++g) for(auto & t : DT) for(const std::string & cd : {"raw", "gzip", "zlib", "bzip2", "xz", "lz4", "zstd", "blosc"}) {
        if(!allowed(f, cd)) continue;
        if(!th && t != "int16" && t != "float64" && g != 1) continue;
        if(!th && g != 1 && cd != "raw" && cd != "blosc") continue;
        Conf c; c.fmt = f; c.dtype = t; c.codec = cd; c.shape = geo[g].s; c.chunk = geo[g].c; c.shard = geo[g].h;
        for(double fv : fills(t)) {
            if(f == "n5" && !(fv == 0 && !std::signbit(fv))) continue;
            if(fv != 0 && g > 1 && !th) continue;
            if(fv != 0 && fv != 1 && cd != "raw" && !th) continue;
            c.fill = fv; create(c, OK);
        }
    }
    for(const std::string & f : {"n5", "z2.", "z2/"}) for(auto & t : CX) for(const std::string & cd : {"raw", "zlib", "blosc", "zstd", "bzip2"}) for(std::size_t g = 0; g < 4; ++g) for(double fv : {0.0, 2.5, -1.0}) {
        if(f == "n5") continue;
        Conf c; c.fmt = f; c.dtype = t; c.codec = cd; c.shape = geo[g].s; c.chunk = geo[g].c; c.fill = fv; create(c, OK);
    }
    // --- codec options
    for(auto & f : F) {
        if(!th && f != "n5" && f != "z2." && f != "z3/" && f != "sh/") continue;
        auto run = [&](const std::string & cd, const Opts & o) { if(!allowed(f, cd)) return; Conf c; c.fmt = f; c.dtype = "int32"; c.shape = {3, 4}; c.chunk = {2, 3}; c.shard = {4, 3}; c.codec = cd; c.opts = o; create(c, OK); };
        for(int l = 0; l < 10; ++l) { run("gzip", {{"level", l}}); run("zlib", {{"level", l}}); if(l) run("bzip2", {{"level", l}}); run("xz", {{"level", l}}); run("lz4", {{"level", l}}); }
        for(int l : {-5, -1, 1, 2, 3, 5, 9, 15, 19}) run("zstd", {{"level", l}});
        for(bool z : {true, false}) for(const char * cd : {"gzip", "zlib"}) for(int l : {1, 9}) run(cd, {{"level", l}, {"useZlib", z}});
        for(const char * n : {"blosclz", "lz4", "lz4hc", "zlib", "zstd"}) for(int l = 0; l < 10; l += th ? 1 : 3) for(int sh : {0, 1, 2}) for(int bs : {0, 32, 4096}) run("blosc", {{"codec", std::string(n)}, {"level", l}, {"shuffle", sh}, {"blocksize", bs}});
        run("blosc", {{"shuffle", 0}}); run("blosc", {{"level", 9}}); run("blosc", {{"codec", std::string("zstd")}}); run("blosc", {{"nthreads", 2}});
    }
    // --- unsupported or inconsistent
    auto conf = [&](const std::string & f) { Conf c; c.fmt = f; c.dtype = "int16"; c.shape = {3, 4}; c.chunk = {2, 3}; c.shard = {4, 3}; return c; };
    for(auto & f : F) {
        Conf c = conf(f);
        for(const char * t : {"", "int", "float16", "bool", "<i4", "int128", "complex32"}) { c = conf(f); c.dtype = t; if(std::string(t).find("complex") == 0) continue; create(c, REFUSE, "bad-dtype"); }
        for(const char * t : {"", "snappy", "GZIP", "bz2"}) { c = conf(f); c.codec = t; create(c, REFUSE, "bad-codec"); }
        for(const char * t : {"bzip2", "xz", "lz4"}) if(!allowed(f, t)) { c = conf(f); c.codec = t; create(c, REFUSE, "codec-format"); }
        for(S k : {S{2}, S{2, 3, 1}, S{}}) { c = conf(f); c.chunk = k; create(c, REFUSE, "chunk-dims"); }
        for(S k : {S{0, 3}, S{2, 0}, S{0, 0}}) { c = conf(f); c.chunk = k; create(c, REFUSE, "zero-chunk"); }
        { c = conf(f); c.shape = {}; c.chunk = {}; c.shard = {}; create(c, EITHER, "zero-dims"); }
        for(S s : {S{0, 4}, S{3, 0}}) { c = conf(f); c.shape = s; create(c, EITHER, "zero-shape"); }
        if(c.sharded()) for(S k : {S{3, 3}, S{4, 4}, S{2, 2}, S{1, 3}, S{4}, S{4, 3, 1}, S{0, 3}, S{0, 0}}) { c = conf(f); c.shard = k; create(c, REFUSE, "bad-shard"); }
        for(const char * k : {"level", "codec", "shuffle", "blocksize", "useZlib"}) for(const std::string & cd : {"gzip", "zlib", "bzip2", "xz", "lz4", "zstd", "blosc"}) {
            if(!allowed(f, cd)) continue;
            const bool has = cd == "blosc" ? std::string(k) != "useZlib" : std::string(k) == "level" || (std::string(k) == "useZlib" && f.substr(0, 2) == "z2" && (cd == "gzip" || cd == "zlib"));
            if(!has) continue;
            c = conf(f); c.codec = cd; if(std::string(k) == "codec") c.opts[k] = 3; else c.opts[k] = std::string("7"); create(c, REFUSE, "option-type");
        }
        { c = conf(f); c.codec = "blosc"; c.opts = {{"codec", std::string("nope")}}; create(c, LATE, "option-value"); }
        for(int l : {-1, 10, 1000}) { c = conf(f); c.codec = "blosc"; c.opts = {{"level", l}}; create(c, LATE, "option-range"); }
        for(int l : {-7, 3, 1000}) { c = conf(f); c.codec = "blosc"; c.opts = {{"shuffle", l}}; create(c, LATE, "option-range"); }
        for(const std::string & cd : {"gzip", "zlib", "bzip2", "xz", "lz4", "zstd"}) if(allowed(f, cd)) for(int l : {-1, 0, 10, 1000}) { c = conf(f); c.codec = cd; c.opts = {{"level", l}}; create(c, LATE, "option-range"); }
    }
    for(double fv : {1.0, -1.0, (double) NAN, 0.5, (double) INFINITY}) { Conf c = conf("n5"); c.dtype = "float32"; c.fill = fv; create(c, REFUSE, "n5-fill"); }
    for(const std::string & pre : {"z2", "z3", "v2", "sh", "sv"}) for(const std::string & sep : {"", "-", "..", "//", " ", "_", "x"}) { Conf c = conf(pre + sep); create(c, REFUSE, "separator"); }
    for(const std::string & t : DT) if(t.find("int") != std::string::npos) for(const std::string & f : {"z2.", "z3/", "sh/"}) for(double fv : {0.5, -1e30, 1e30, (double) NAN, (double) INFINITY}) { Conf c = conf(f); c.dtype = t; c.fill = fv; create(c, EITHER, "fill-range"); }
    for(int zf : {0, 1, 4}) for(const char * ke : {"default", "other"}) {
        const std::string id = "create zarr_format " + std::to_string(zf) + " " + ke; if(!ctx.want(id)) continue;
        Conf c = conf("z2."); const std::string root = ctx.scratch + "/c06"; tree::wipe(root); createContainer(root, c); const auto before = tree::snapshot(root);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a)); bool ok = true;
        try { z5::createDataset(file, "d", "int16", c.shape, c.chunk, "raw", Opts(), 0, ".", zf, ke, S()); } catch(std::exception &) { ok = false; }
        ctx.check(!ok, "zarr-format", [&] { return id + ": accepted"; }); if(!ok) ctx.check(tree::snapshot(root) == before, "zarr-format:leftover", [&] { return id + ": left files behind"; });
    }
    for(const char * ke : {"other", ""}) for(bool sharded : {false, true}) {
        const std::string id = std::string("create key encoding '") + ke + "'" + (sharded ? " sharded" : ""); if(!ctx.want(id)) continue;
        Conf c = conf("z3/"); const std::string root = ctx.scratch + "/c06"; tree::wipe(root); createContainer(root, c); const auto before = tree::snapshot(root);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a)); bool ok = true;
        try { z5::createDataset(file, "d", "int16", c.shape, c.chunk, "raw", Opts(), 0, "/", 3, ke, sharded ? c.shard : S()); } catch(std::exception &) { ok = false; }
        ctx.check(!ok, "key-encoding", [&] { return id + ": accepted"; }); if(!ok) ctx.check(tree::snapshot(root) == before, "key-encoding:leftover", [&] { return id + ": left files behind"; });
    }
    for(const std::string & f : {"n5", "z2.", "z2/"}) { const std::string id = "create sharded " + f; if(!ctx.want(id)) continue;
        Conf c = conf(f); const std::string root = ctx.scratch + "/c06"; tree::wipe(root); createContainer(root, c); const auto before = tree::snapshot(root);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a)); bool ok = true;
        try { z5::createDataset(file, "d", "int16", c.shape, c.chunk, "raw", Opts(), 0, ".", 2, "default", c.shard); } catch(std::exception &) { ok = false; }
        ctx.check(!ok, "shard-format", [&] { return id + ": accepted"; }); if(!ok) ctx.check(tree::snapshot(root) == before, "shard-format:leftover", [&] { return id + ": left files behind"; });
    }

    // --- foreign documents
    std::vector<Base> bases;
    auto base = [&](const std::string & n, int kind, const std::string & codec, const std::string & sep, const std::string & ke = "default", S shard = {}, const std::string & dt = "int16") {
        Base b; b.name = n; b.a.kind = kind; b.a.dtype = dt; b.a.esize = esize(dt); b.a.shape = {5, 4}; b.a.chunk = {2, 3}; b.a.shard = shard; b.a.sep = sep; b.a.keyenc = ke; b.a.big = kind == 5; b.a.codec.id = codec; b.a.codec.typesize = b.a.esize; b.a.fill = kind == 5 ? json(0) : json(6); bases.push_back(b);
    };
    for(const char * cd : {"raw", "gzip", "bzip2", "xz", "zstd", "blosc"}) base(std::string("n5-") + cd, 5, cd, "/");
    for(const char * cd : {"raw", "gzip", "zlib", "bzip2", "zstd", "blosc"}) { base(std::string("z2-") + cd, 2, cd, "."); if(th) base(std::string("z2s-") + cd, 2, cd, "/"); }
    for(const char * cd : {"raw", "gzip", "zstd", "blosc"}) { base(std::string("z3-") + cd, 3, cd, "/"); base(std::string("v2-") + cd, 3, cd, ".", "v2"); base(std::string("sh-") + cd, 3, cd, "/", "default", {4, 6}); if(th) base(std::string("z3d-") + cd, 3, cd, "."); }
    base("z2-f", 2, "raw", "/", "default", {}, "float32"); base("z3-f", 3, "raw", "/", "default", {}, "float32"); base("sh-f", 3, "zstd", "/", "default", {4, 6}, "float64"); base("z3-u8", 3, "raw", "/", "default", {}, "uint8");
    base("z2-u64", 2, "raw", ".", "default", {}, "uint64"); base("z3-i64", 3, "raw", "/", "default", {}, "int64");
    std::vector<json> R; for(const char * t : {"null", "true", "false", "0", "1", "3", "-1", "2.5", "1e300", "18446744073709551615", "9007199254740993", "\"\"", "\"x\"", "\".\"", "\"/\"", "\"NaN\"", "\"Infinity\"", "\"-Infinity\"", "\"big\"", "\"v2\"", "\"default\"", "\"raw\"", "\"gzip\"", "\"zstd\"", "\"int32\"", "\"<i4\"", "\">i2\"", "\"F\"", "\"start\"", "\"group\"", "[]", "{}", "[0]", "[3]", "[2,2]", "[4,0]", "[-1,3]", "[2.5,1]", "[2,3,1]", "[\"a\",\"b\"]", "[18446744073709551615,18446744073709551615]"}) R.push_back(json::parse(t));
    for(auto & b : bases) {
        json doc = spec::doc(b.a);
        foreign("doc " + b.name, b, doc.dump(), 1, false); foreign("doc pretty " + b.name, b, doc.dump(4) + "\n", 1, false);
        std::vector<std::string> ptrs; collect(doc, "", ptrs);
        for(auto & p : ptrs) {
            if(!p.empty()) { json m = doc; erase(m, p);
                static const std::set<std::string> opt{"/filters", "/order", "/zarr_format", "/fill_value", "/node_type", "/compressor", "/codecs/0/configuration/endian", "/codecs/0/configuration", "/codecs/0/configuration/codecs/0/configuration", "/codecs/0/configuration/codecs/0/configuration/endian", "/codecs/1/configuration", "/codecs/0/configuration/codecs/1/configuration"};
                foreign("doc " + b.name + " without " + p, b, m.dump(), 0, cosmetic(p) || opt.count(p)); }
            for(auto & v : R) { json m = doc; if(p.empty()) m = v; else *at(m, p) = v; if(m == doc) continue;
                foreign("doc " + b.name + " " + (p.empty() ? "/" : p) + "=" + v.dump(), b, m.dump(), 0, cosmetic(p) || lax(p, v)); }
        }
        // additions
        auto add = [&](const std::string & n, const std::function<void(json &)> & ed, int ex) { json m = doc; ed(m); foreign("doc " + b.name + " + " + n, b, m.dump(), ex, true); };
        if(b.a.kind == 5) { add("attributes", [](json & j) { j["resolution"] = {4, 4, 40}; j["n5"] = "2.0.0"; j["zarr_format"] = 2; j["dtype"] = "<f8"; j["shape"] = {1}; }, 1); add("unknown compression option", [](json & j) { j["compression"]["other"] = 3; }, 1); }
        if(b.a.kind == 2) {
            add("filter", [](json & j) { j["filters"] = json::array({json{{"id", "delta"}, {"dtype", "<i2"}}}); }, 2);
            add("unknown key", [](json & j) { j["other"] = 1; }, 1); add("empty filters", [](json & j) { j["filters"] = json::array(); }, 1);
            add("order F", [](json & j) { j["order"] = "F"; }, 2);
            add("unknown compressor", [](json & j) { j["compressor"] = {{"id", "lzma"}}; }, 2);
        }
        if(b.a.kind == 3) {
            auto cod = [&](json & j) -> json & { return b.a.shard.empty() ? j["codecs"] : j["codecs"][0]["configuration"]["codecs"]; };
            add("second compressor", [&](json & j) { cod(j).push_back({{"name", "zstd"}, {"configuration", {{"level", 1}, {"checksum", false}}}}); if(b.a.codec.id == "raw") cod(j).push_back({{"name", "gzip"}, {"configuration", {{"level", 1}}}}); }, 2);
            add("crc32c", [&](json & j) { cod(j).push_back({{"name", "crc32c"}}); }, 2);
            add("transpose", [&](json & j) { cod(j).insert(cod(j).begin(), json{{"name", "transpose"}, {"configuration", {{"order", {1, 0}}}}}); }, 2);
            add("no bytes codec", [&](json & j) { cod(j).erase(0); }, 2);
            add("bytes codec last", [&](json & j) { if(cod(j).size() > 1) std::swap(cod(j)[0], cod(j)[1]); else cod(j).push_back({{"name", "nope"}}); }, 2);
            add("two bytes codecs", [&](json & j) { cod(j).insert(cod(j).begin(), cod(j)[0]); }, 2);
            if(!b.a.shard.empty()) {
                add("gzip around the shards", [](json & j) { j["codecs"].push_back({{"name", "gzip"}, {"configuration", {{"level", 1}}}}); }, 2);
                add("transpose before the shards", [](json & j) { j["codecs"].insert(j["codecs"].begin(), json{{"name", "transpose"}, {"configuration", {{"order", {1, 0}}}}}); }, 2);
                add("big endian index", [](json & j) { j["codecs"][0]["configuration"]["index_codecs"][0]["configuration"]["endian"] = "big"; }, 2);
                add("gzip index", [](json & j) { j["codecs"][0]["configuration"]["index_codecs"].push_back({{"name", "gzip"}, {"configuration", {{"level", 1}}}}); }, 2);
                add("index without checksum", [](json & j) { j["codecs"][0]["configuration"]["index_codecs"].erase(1); }, 2);
                add("index at start", [](json & j) { j["codecs"][0]["configuration"]["index_location"] = "start"; }, 2);
                add("nested sharding", [](json & j) { json s = j["codecs"][0]; j["codecs"][0]["configuration"]["codecs"] = json::array({s}); }, 2);
            }
            add("irregular grid", [](json & j) { j["chunk_grid"]["name"] = "rectangular"; }, 2);
            add("storage transformer", [](json & j) { j["storage_transformers"] = json::array({json{{"name", "x"}}}); }, 2);
            add("no storage transformers", [](json & j) { j["storage_transformers"] = json::array(); }, 1);
            add("dimension names", [](json & j) { j["dimension_names"] = {"y", nullptr}; }, 1);
            add("key encoding", [](json & j) { j["chunk_key_encoding"]["name"] = "suffix"; }, 2);
            for(const char * f : {"\"0x7fc00000\"", "[1,2]", "true", "\"1\""}) add(std::string("fill ") + f, [&](json & j) { j["fill_value"] = json::parse(f); }, 2);
        }
    }
    ctx.sample("create sv/ uint64 blosc,codec=zstd (3,4)/(2,3)/(4,3): properties before and after re-opening, read of the empty array, chunk through both handles");
    ctx.sample("doc sh-gzip /codecs/0/configuration/index_location=\"start\": refused");
    tree::wipe(ctx.scratch + "/c06"); tree::wipe(ctx.scratch + "/c06f");
    return ctx.finish();
}
