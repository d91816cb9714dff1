// C05: what z5 stores is decoded by an independent reader, what an independent writer stores is
// read by z5; every format x element type x codec x geometry, plus the optional spec variants.
#include "mk.hpp"
#include "spec.hpp"
#include "z5/multiarray/array_access.hxx"
#include <complex>
using namespace mk;
using spec::Bytes; using spec::json;
mc::Ctx ctx;

template<class F> static void dispatch(const std::string & d, F && f) {
    if(d == "int8") f(int8_t()); else if(d == "uint8") f(uint8_t()); else if(d == "int16") f(int16_t()); else if(d == "uint16") f(uint16_t());
    else if(d == "int32") f(int32_t()); else if(d == "uint32") f(uint32_t()); else if(d == "int64") f(int64_t()); else if(d == "uint64") f(uint64_t());
    else if(d == "float32") f(float()); else if(d == "float64") f(double()); else if(d == "complex64") f(std::complex<float>()); else if(d == "complex128") f(std::complex<double>());
    else throw std::runtime_error("dtype");
}
static void strides(const S & sh, S & st) { st.resize(sh.size()); std::size_t x = 1; for(int d = (int) sh.size() - 1; d >= 0; --d) { st[d] = x; x *= sh[d]; } }
static void z5write(const z5::Dataset & ds, const std::string & dt, const S & shape, const Bytes & b, S off = S()) {
    dispatch(dt, [&](auto t) { typedef decltype(t) T; S st; strides(shape, st); off.resize(shape.size(), 0); std::vector<T> v(b.size() / sizeof(T)); memcpy((void *) v.data(), b.data(), b.size());
        z5::multiarray::writeSubarray<T>(ds, z5::multiarray::ConstArrayView<T>(v.data(), shape, st), off.begin(), 1); });
}
static Bytes z5read(const z5::Dataset & ds, const std::string & dt, const S & shape) {
    Bytes b(prod(shape) * esize(dt), '\x77');
    dispatch(dt, [&](auto t) { typedef decltype(t) T; S st; strides(shape, st); S off(shape.size(), 0); std::vector<T> v(prod(shape)); memset((void *) v.data(), 0x77, v.size() * sizeof(T));
        z5::multiarray::readSubarray<T>(ds, z5::multiarray::ArrayView<T>(v.data(), shape, st), off.begin(), 1); memcpy(&b[0], v.data(), b.size()); });
    return b;
}
static Bytes fillElem(const std::string & dt, double fill) {
    Bytes b(esize(dt), '\0');
    dispatch(dt, [&](auto t) { t = static_cast<decltype(t)>(fill); memcpy(&b[0], &t, sizeof(t)); });
    return b;
}
static double fillOf(const json & f) {
    if(f.is_string()) return f == "NaN" ? NAN : f == "Infinity" ? INFINITY : -INFINITY;
    return f.get<double>();
}
static Bytes content(const std::string & dt, std::size_t n) {      // every byte of every element distinct from its neighbours
    const std::size_t e = esize(dt); Bytes b(n * e, '\0');
    for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < e; ++j) b[i * e + j] = (char)(j + 1 == e || dt.find("complex") == 0 && j + 1 == e / 2 ? 0x10 + i % 0x60 : (i * 37 + j * 59 + 1) % 251);
    return b;
}
// the elements of a region set to the fill value
static void blank(Bytes & b, const S & shape, const S & lo, const S & hi, const Bytes & fe) {
    S p(shape.size(), 0); std::size_t i = 0;
    do { bool in = true; for(std::size_t d = 0; d < p.size(); ++d) in = in && p[d] >= lo[d] && p[d] < hi[d]; if(in) memcpy(&b[i * fe.size()], fe.data(), fe.size()); ++i; } while(mc::next(p, shape));
}

static void checkGroupDoc(const std::string & dir, const Conf & c, bool root) {
    auto bad = [&](const std::string & w) { ctx.check(false, "groupdoc:" + c.fmt, [&] { return c.id() + ": " + (root ? "container" : "group") + " metadata: " + w; }); };
    ++ctx.count["checks"];
    std::set<std::string> files; for(auto & e : std::filesystem::directory_iterator(dir)) if(!e.is_directory()) files.insert(e.path().filename().string());
    const std::string name = c.fmt == "n5" ? "attributes.json" : c.zformat() == 2 ? ".zgroup" : "zarr.json";
    if(c.fmt == "n5" && !root) { if(!files.empty()) bad("unexpected file " + *files.begin()); return; }
    if(files != std::set<std::string>{name}) { bad("expected exactly " + name); return; }
    json j; try { j = json::parse(tree::slurp(dir + "/" + name)); } catch(std::exception & e) { bad("not JSON"); return; }
    if(c.fmt == "n5") { if(!j.contains("n5") || !j["n5"].is_string() || j["n5"] != "2.0.0" || j.size() != 1) bad(j.dump()); }
    else if(c.zformat() == 2) { if(j != json{{"zarr_format", 2}}) bad(j.dump()); }
    else { j.erase("attributes"); if(j != json{{"zarr_format", 3}, {"node_type", "group"}}) bad(j.dump()); }
}

static int level(const Conf & c) { auto it = c.opts.find("level"); return it == c.opts.end() ? -99 : std::get<int>(it->second); }

static void writeCase(const Conf & c) {
    const std::string root = ctx.scratch + "/c05"; tree::wipe(root);
    const std::string sig = c.fmt + ":" + c.codec + ":" + c.dtype;
    auto bad = [&](const std::string & s, const std::string & w) { ctx.check(false, s + ":" + sig, [&] { return c.id() + ": " + w; }); };
    ++ctx.count["checks"];
    Bytes arr, fe = fillElem(c.dtype, c.fill);
    try {
        createContainer(root, c);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
        z5::createGroup(file, "g", c.zformat());
        auto ds = createIn(root, c, "g/d");
        arr = content(c.dtype, prod(c.shape));
        S lo(c.shape.size(), 0), n(c.shape.size()); std::size_t nch = 1;
        for(std::size_t d = 0; d < n.size(); ++d) { n[d] = (c.shape[d] + c.chunk[d] - 1) / c.chunk[d]; nch *= n[d]; }
        if(nch > 1) blank(arr, c.shape, lo, c.chunk, fe);
        z5write(*ds, c.dtype, c.shape, arr);
    } catch(std::exception & e) { bad("write", std::string("error: ") + e.what()); return; }
    checkGroupDoc(root, c, true); checkGroupDoc(root + "/g", c, false);
    spec::Array a;
    try {
        a = spec::parse(root + "/g/d");
        if(a.shape != c.shape || a.chunk != c.chunk || (c.sharded() ? a.shard != c.shard : !a.shard.empty())) bad("doc", "shapes in the metadata differ");
        if(a.dtype != c.dtype) bad("doc", "data type in the metadata is " + a.dtype);
        const double f = fillOf(a.fill); if(a.kind != 5 && !(f == c.fill || (f != f && c.fill != c.fill))) bad("doc", "fill_value in the metadata is " + a.fill.dump());
        if(a.kind != 5 && a.sep != c.delim() || a.kind == 3 && a.keyenc != c.keyenc()) bad("doc", "chunk key encoding in the metadata differs");
        const std::string want = c.codec == "lz4" ? (a.kind == 5 ? "lz4n5" : "lz4zarr") : c.codec == "zlib" && a.kind != 2 ? "gzip" : c.codec;
        if(c.codec != "gzip" && c.codec != "zlib" && a.codec.id != want) bad("doc", "codec in the metadata is " + a.codec.id);
        if(level(c) != -99 && a.codec.level != level(c)) bad("doc", "codec level in the metadata is " + std::to_string(a.codec.level));
        if(c.codec == "blosc" && c.opts.count("shuffle") && (a.codec.shuffle != std::get<int>(c.opts.at("shuffle")) || a.codec.cname != std::get<std::string>(c.opts.at("codec")) || a.codec.blocksize != std::get<int>(c.opts.at("blocksize")))) bad("doc", "blosc parameters in the metadata differ");
    } catch(std::exception & e) { bad("doc", std::string("independent reader refuses the metadata: ") + e.what()); return; }
    for(int pass = 0; pass < 2; ++pass) {
        try {
            auto cells = spec::readAll(root + "/g/d", a);
            const Bytes got = spec::assemble(a, cells, fe);
            if(got != arr) bad("data", "independent reader obtains different values");
            // every stored cell holds something, the blank chunk is not stored
            if(c.fill == c.fill) for(auto & kv : cells) { bool all = true; const Bytes in = spec::extract(a, kv.first, kv.second.shape, arr, fe); for(std::size_t i = 0; i < in.size(); i += a.esize) all = all && in.compare(i, a.esize, fe) == 0; if(all) bad("data", "all-fill chunk is stored"); }
            ctx.count["chunks_decoded"] += cells.size();
            break;
        } catch(std::exception & e) {
            if(pass == 0 && a.codec.id.substr(0, 3) == "lz4") { ctx.check(false, "lz4-container:" + c.fmt.substr(0, 2), [&] { return c.id() + ": " + e.what(); }); a.codec.id = "lz4block"; continue; }
            bad("data", std::string("independent reader: ") + e.what()); break;
        }
    }
}

enum Expect { MUST, MAYREFUSE };
static void readCase(const std::string & id, const spec::Array & a0, Expect ex, const std::function<void(json &)> & edit = nullptr, int layout = 0, const S * skipChunk = nullptr, double fillForAbsent = 0) {
    spec::Array a = a0;
    const std::string root = ctx.scratch + "/c05r"; tree::wipe(root);
    const std::string dir = root + "/d"; std::filesystem::create_directories(dir);
    json j = spec::doc(a); if(edit) edit(j);
    tree::spit(dir + "/" + spec::docName(a), j.dump(2));
    if(a.kind == 5) tree::spit(root + "/attributes.json", R"({"n5":"2.5.1"})");
    else if(a.kind == 2) tree::spit(root + "/.zgroup", R"({"zarr_format":2})");
    else tree::spit(root + "/zarr.json", R"({"zarr_format":3,"node_type":"group"})");
    Bytes arr = content(a.dtype, prod(a.shape)); const Bytes fe = fillElem(a.dtype, fillForAbsent);
    std::set<S> skip;
    if(skipChunk) { skip.insert(*skipChunk); S lo(a.shape.size()), hi(a.shape.size()); for(std::size_t d = 0; d < lo.size(); ++d) { lo[d] = (*skipChunk)[d] * a.chunk[d]; hi[d] = lo[d] + a.chunk[d]; } blank(arr, a.shape, lo, hi, fe); }
    Bytes pad(a.esize, '\x33');
    spec::writeChunks(dir, a, arr, pad, skip, layout % 3, layout >= 3 ? 5 : 0);
    ++ctx.count["checks"];
    const std::string sig = "foreign:" + id.substr(0, id.find(" (")) ;
    try {
        auto ds = mk::open(root);
        if(ds->shape() != a.shape || ds->defaultChunkShape() != a.chunk) { ctx.violation(sig, id + ": shapes read back as " + mc::str(ds->shape()) + " / " + mc::str(ds->defaultChunkShape())); return; }
        const Bytes got = z5read(*ds, a.dtype, a.shape);
        if(got != arr) { ctx.violation(sig, id + ": z5 reads different values"); return; }
        S n(a.shape.size()), p(a.shape.size(), 0); for(std::size_t d = 0; d < n.size(); ++d) n[d] = (a.shape[d] + a.chunk[d] - 1) / a.chunk[d];
        do {
            if(ds->chunkExists(p) == (skip.count(p) != 0)) ctx.violation(sig + ":exists", id + ": chunk " + mc::str(p) + (skip.count(p) ? " is reported present" : " is reported absent"));
        } while(mc::next(p, n));
        ctx.outcome("read " + id);
        // single chunks of the foreign array rewritten and removed by z5: nothing else changes
        if(a.codec.id.substr(0, 3) == "lz4" || edit) return;
        const tree::Snapshot before = tree::snapshot(root);
        S mid(n.size()), last(n.size()); for(std::size_t d = 0; d < n.size(); ++d) { mid[d] = n[d] / 2; last[d] = n[d] - 1; }
        std::set<S> done;
        for(const S & at : {S(n.size(), 0), mid, last}) for(int remove = 0; remove < (a.fill.is_null() && a.kind != 5 ? 1 : 2); ++remove) {
            if(!remove && !done.insert(at).second) break;
            if(!remove && done.size() > 1) tree::restore(root, before, tree::snapshot(root));
            S lo(n.size()), sz(n.size()), hi(n.size()); for(std::size_t d = 0; d < n.size(); ++d) { lo[d] = at[d] * a.chunk[d]; sz[d] = std::min(a.chunk[d], a.shape[d] - lo[d]); hi[d] = lo[d] + sz[d]; }
            Bytes want = arr;
            if(remove) { ds->removeChunk(at); blank(want, a.shape, lo, hi, fe); }
            else {
                Bytes part(prod(sz) * a.esize, '\x11'); z5write(*ds, a.dtype, sz, part, lo);
                blank(want, a.shape, lo, hi, Bytes(a.esize, '\x11'));
            }
            ++ctx.count["rewrites"]; ++ctx.count["checks"];
            const std::string what = id + ": after " + (remove ? "removing" : "rewriting") + " chunk " + mc::str(at);
            try {
                spec::Array a2 = a; a2.codec.checksum = false;
                auto cells = spec::readAll(dir, a2);
                if(spec::assemble(a2, cells, fe) != want) ctx.violation(sig + ":rewrite", what + " the independent reader obtains different values");
                if(remove && cells.count(at)) ctx.violation(sig + ":rewrite", what + " it is still stored");
            } catch(std::exception & e) { ctx.violation(sig + ":rewrite", what + ": independent reader: " + e.what()); }
            if(z5read(*ds, a.dtype, a.shape) != want) ctx.violation(sig + ":rewrite", what + " z5 reads different values");
        }
    } catch(std::exception & e) {
        ctx.outcome("refused " + id);
        ++ctx.count["refused"];
        if(ex == MUST) ctx.violation(sig, id + ": error: " + e.what());
    }
}

static const std::vector<std::string> DT{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"};
#ifdef STOCK      // second build: the stock zlib backend instead of libdeflate; only its codecs differ
static bool built(const std::string & codec) { return codec == "zlib" || codec == "gzip"; }
#else
static bool built(const std::string &) { return true; }
#endif
static bool allowed(const std::string & fmt, const std::string & codec) {
    if(!built(codec)) return false;
    if(fmt == "n5") return codec != "zlib";
    if(fmt.substr(0, 2) == "z2") return codec != "xz";
    return codec == "raw" || codec == "gzip" || codec == "zstd" || codec == "blosc" || codec == "zlib";
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool th = ctx.thorough;
    struct G { S shape, chunk, shard; };
    std::vector<G> geo{{{5}, {2}, {4}}, {{12}, {1}, {3}}, {{3, 4}, {2, 3}, {4, 3}}, {{11, 3}, {1, 1}, {2, 2}}, {{2, 3, 4}, {1, 2, 2}, {2, 2, 4}}, {{3, 2}, {5, 7}, {10, 7}}, {{1}, {1}, {1}}, {{2, 2, 3, 2}, {1, 2, 2, 1}, {2, 2, 2, 2}}};
    if(th) { geo.push_back({{2, 1, 3, 2, 3}, {1, 1, 2, 2, 2}, {2, 1, 4, 2, 2}}); geo.push_back({{101}, {1}, {10}}); geo.push_back({{4, 6}, {2, 3}, {4, 6}}); geo.push_back({{13, 12}, {1, 1}, {5, 4}}); geo.push_back({{3, 3, 3}, {2, 2, 2}, {6, 2, 4}}); }
    // --- z5 writes, independent reader
    for(const std::string & f : {"n5", "z2.", "z2/", "z3/", "z3.", "v2.", "v2/", "sh/", "sh.", "sv.", "sv/"}) for(std::size_t g = 0; g < geo.size(); ++g) for(const std::string & t : DT) for(const std::string & cd : {"raw", "gzip", "zlib", "bzip2", "xz", "lz4", "zstd", "blosc"}) {
        if(!allowed(f, cd)) continue;
        if(!th && g != 2 && t != "uint8" && t != "int16" && !(t == "float64" && cd == "raw")) continue;
        Conf c; c.fmt = f; c.dtype = t; c.codec = cd; c.shape = geo[g].shape; c.chunk = geo[g].chunk; c.shard = geo[g].shard;
        if(cd == "xz") c.opts["level"] = 0;
        std::vector<double> fills{0};
        if(f != "n5" && (g == 2 || th)) { fills.push_back(7); if(t.find("float") == 0) { fills.push_back(NAN); fills.push_back(-INFINITY); fills.push_back(1.25); } else if(t[0] == 'i') fills.push_back(-3); }
        for(double fv : fills) { c.fill = fv; if(ctx.want("write " + c.id())) writeCase(c); }
    }
    for(const std::string & f : {"z2.", "z2/"}) for(const std::string & t : {"complex64", "complex128"}) for(const std::string & cd : {"raw", "zlib", "blosc", "zstd", "bzip2"}) {
        Conf c; c.fmt = f; c.dtype = t; c.codec = cd; c.shape = {3, 4}; c.chunk = {2, 3}; if(built(cd) && ctx.want("write " + c.id())) writeCase(c);
    }
    // codec options in the metadata agree with the stored stream
    for(const std::string & f : {"n5", "z2.", "z3/", "sh/"}) {
        auto run = [&](const std::string & cd, const Opts & o) { Conf c; c.fmt = f; c.dtype = "int32"; c.shape = {3, 4}; c.chunk = {2, 3}; c.shard = {4, 3}; c.codec = cd; c.opts = o; if(allowed(f, cd) && ctx.want("write " + c.id())) writeCase(c); };
        for(int l = 0; l < 10; ++l) { run("gzip", {{"level", l}}); run("zlib", {{"level", l}}); if(l) run("bzip2", {{"level", l}}); if(l < 7) run("xz", {{"level", l}}); run("zstd", {{"level", l + 1}}); run("lz4", {{"level", l + 1}}); }
        for(bool z : {true, false}) for(const char * cd : {"gzip", "zlib"}) run(cd, {{"level", 4}, {"useZlib", z}});
        for(const char * n : {"blosclz", "lz4", "lz4hc", "zlib", "zstd"}) for(int l : {0, 1, 5, 9}) for(int sh : {0, 1, 2}) for(int bs : {0, 32}) run("blosc", {{"codec", std::string(n)}, {"level", l}, {"shuffle", sh}, {"blocksize", bs}, {"nthreads", 1}});
    }
    // --- independent writer, z5 reads
    for(const std::string & f : {"n5", "z2.", "z2/", "z3/", "z3.", "v2.", "v2/", "sh/", "sh.", "sv.", "sv/"}) for(std::size_t g = 0; g < geo.size(); ++g) for(const std::string & t : DT) for(const std::string & cd : {"raw", "gzip", "zlib", "bzip2", "xz", "zstd", "blosc", "lz4zarr"}) {
        if(!built(cd)) continue;
        if(f == "n5" ? cd == "lz4zarr" : f.substr(0, 2) == "z2" ? cd == "xz" : cd == "zlib" || cd == "bzip2" || cd == "xz" || cd == "lz4zarr") continue;
        if(!th && g != 2 && t != "uint8" && t != "int16") continue;
        if(!th && cd == "lz4zarr" && g != 2) continue;
        spec::Array a; a.kind = f == "n5" ? 5 : f.substr(0, 2) == "z2" ? 2 : 3;
        a.dtype = t; a.esize = esize(t); a.shape = geo[g].shape; a.chunk = geo[g].chunk; if(f[0] == 's') a.shard = geo[g].shard;
        a.sep = f == "n5" ? "/" : f.substr(2); a.keyenc = f.substr(0, 2) == "v2" || f.substr(0, 2) == "sv" ? "v2" : "default"; a.big = f == "n5";
        a.codec.id = cd; a.codec.level = cd == "xz" ? 0 : 5; a.codec.typesize = a.esize; a.codec.checksum = cd == "zstd" && t.size() % 2;
        const std::string id = "read " + f + " " + cd + " " + t + " (" + mc::str(a.shape) + "/" + mc::str(a.chunk) + ")";
        if(!ctx.want(id)) continue;
        S last(a.shape.size()); for(std::size_t d = 0; d < last.size(); ++d) last[d] = (a.shape[d] + a.chunk[d] - 1) / a.chunk[d] - 1;
        S first(a.shape.size(), 0);
        readCase(id, a, MUST);
        if(prod(last) || last != first) { readCase(id, a, MUST, nullptr, 0, &last); readCase(id, a, MUST, nullptr, f[0] == 's' ? 4 : 0, &first); }
        if(a.kind != 5) {
            a.fill = 5; readCase(id, a, MUST, nullptr, 0, &last, 5);
            if(t.find("float") == 0) { a.fill = "-Infinity"; readCase(id, a, MUST, nullptr, 0, &last, -INFINITY); }
        }
        a.fill = 0;
        if(f[0] == 's') for(int layout : {1, 2, 3, 4, 5}) if(th || layout > 2) readCase(id, a, MUST, nullptr, layout);
    }
    // blosc: every inner codec and shuffle, gzip/zlib every level
    for(const std::string & f : {"n5", "z2.", "z3/", "sh/"}) for(const char * n : {"blosclz", "lz4", "lz4hc", "zlib", "zstd"}) for(int l : {0, 1, 9}) for(int sh : {0, 1, 2}) {
        spec::Array a; a.kind = f == "n5" ? 5 : f == "z2." ? 2 : 3; a.dtype = "int32"; a.esize = 4; a.shape = {3, 4}; a.chunk = {2, 3}; if(f == "sh/") a.shard = {4, 3}; a.sep = f == "n5" ? "/" : f.substr(2); a.big = f == "n5";
        a.codec.id = "blosc"; a.codec.cname = n; a.codec.level = l; a.codec.shuffle = sh; a.codec.typesize = 4;
        const std::string id = "read " + f + " blosc " + n + " " + std::to_string(l) + " " + std::to_string(sh);
        if(built("blosc") && ctx.want(id)) readCase(id, a, MUST);
    }
    // optional / unsupported variants: read correctly or refused
    for(int v = 0; v < 60; ++v) {
        spec::Array a; a.dtype = "int32"; a.esize = 4; a.shape = {5, 4}; a.chunk = {2, 3}; a.kind = 3; a.sep = "/";
        Expect ex = MUST; std::function<void(json &)> ed; std::string name; S skip{1, 1}; S * sk = nullptr; double fill = 0;
        switch(v) {
            case 0: name = "v3 big endian"; a.big = true; ex = MAYREFUSE; break;
            case 1: name = "v3 sharded big endian"; a.big = true; a.shard = {4, 6}; ex = MAYREFUSE; break;
            case 2: name = "v3 shard index at start"; a.shard = {4, 6}; a.indexStart = true; ex = MAYREFUSE; break;
            case 3: name = "v3 shard index without checksum"; a.shard = {4, 6}; a.indexCrc = false; ex = MAYREFUSE; break;
            case 4: name = "v3 shard index at start without checksum"; a.shard = {4, 6}; a.indexStart = true; a.indexCrc = false; ex = MAYREFUSE; break;
            case 5: name = "v3 dimension_names"; ed = [](json & j) { j["dimension_names"] = {"x", nullptr}; }; break;
            case 6: name = "v3 empty storage_transformers"; ed = [](json & j) { j["storage_transformers"] = json::array(); }; break;
            case 7: name = "v3 key encoding without configuration"; ed = [](json & j) { j["chunk_key_encoding"].erase("configuration"); }; break;
            case 8: name = "v3 v2-keys without configuration"; a.keyenc = "v2"; a.sep = "."; ed = [](json & j) { j["chunk_key_encoding"].erase("configuration"); }; break;
            case 9: name = "v3 no attributes"; ed = [](json & j) { j.erase("attributes"); }; break;
            case 10: name = "v3 attributes"; ed = [](json & j) { j["attributes"] = {{"shape", {1}}, {"codecs", 1}}; }; break;
            case 11: name = "v3 index_location omitted"; a.shard = {4, 6}; ed = [](json & j) { j["codecs"][0]["configuration"].erase("index_location"); }; break;
            case 12: name = "v3 uint8 bytes codec without endian"; a.dtype = "uint8"; a.esize = 1; break;
            case 13: name = "v3 uint8 big endian"; a.dtype = "uint8"; a.esize = 1; ed = [](json & j) { j["codecs"][0]["configuration"] = {{"endian", "big"}}; }; ex = MAYREFUSE; break;
            case 14: name = "v3 blosc without typesize (noshuffle)"; a.codec.id = "blosc"; a.codec.shuffle = 0; a.codec.typesize = 1; ed = [](json & j) { j["codecs"][1]["configuration"].erase("typesize"); }; break;
            case 15: name = "v3 zstd without checksum key"; a.codec.id = "zstd"; ed = [](json & j) { j["codecs"][1]["configuration"].erase("checksum"); }; break;
            case 16: name = "v3 zstd checksum"; a.codec.id = "zstd"; a.codec.checksum = true; break;
            case 17: name = "v2 no dimension_separator"; a.kind = 2; a.sep = "."; break;
            case 18: name = "v2 empty filters"; a.kind = 2; a.sep = "."; ed = [](json & j) { j["filters"] = json::array(); }; break;
            case 19: name = "v2 big endian"; a.kind = 2; a.sep = "."; a.big = true; ex = MAYREFUSE; break;
            case 20: name = "v2 extra keys"; a.kind = 2; a.sep = "."; ed = [](json & j) { j["something"] = 1; }; break;
            case 21: name = "v2 blosc without blocksize"; a.kind = 2; a.sep = "/"; a.codec.id = "blosc"; ed = [](json & j) { j["compressor"].erase("blocksize"); }; break;
            case 22: name = "v2 integer fill"; a.kind = 2; a.sep = "."; a.fill = 9; sk = &skip; fill = 9; break;
            case 23: name = "v2 float fill for integer"; a.kind = 2; a.sep = "."; a.fill = 9.0; sk = &skip; fill = 9; break;
            case 24: name = "v2 null fill, all chunks stored"; a.kind = 2; a.sep = "."; a.dtype = "float32"; a.fill = nullptr; break;
            case 25: name = "n5 legacy gzip"; a.kind = 5; a.big = true; a.codec.id = "gzip"; ed = [](json & j) { j.erase("compression"); j["compressionType"] = "gzip"; }; break;
            case 26: name = "n5 legacy raw"; a.kind = 5; a.big = true; ed = [](json & j) { j.erase("compression"); j["compressionType"] = "raw"; }; break;
            case 27: name = "n5 gzip useZlib"; a.kind = 5; a.big = true; a.codec.id = "zlib"; break;
            case 28: name = "n5 gzip level -1"; a.kind = 5; a.big = true; a.codec.id = "gzip"; a.codec.level = -1; break;
            case 29: name = "n5 with attributes"; a.kind = 5; a.big = true; ed = [](json & j) { j["n5"] = "2.0.0"; j["resolution"] = {1, 2}; j["fillValue"] = 3; }; break;
            case 30: name = "n5 legacy bzip2"; a.kind = 5; a.big = true; a.codec.id = "bzip2"; ed = [](json & j) { j.erase("compression"); j["compressionType"] = "bzip2"; }; break;
            case 31: name = "n5 legacy xz"; a.kind = 5; a.big = true; a.codec.id = "xz"; ed = [](json & j) { j.erase("compression"); j["compressionType"] = "xz"; }; break;
            case 32: name = "v3 transpose codec"; ed = [](json & j) { j["codecs"].insert(j["codecs"].begin(), json{{"name", "transpose"}, {"configuration", {{"order", {0, 1}}}}}); }; ex = MAYREFUSE; break;
            case 33: name = "v2 F order, one column"; a.kind = 2; a.sep = "."; a.shape = {5, 1}; a.chunk = {2, 1}; ed = [](json & j) { j["order"] = "F"; }; ex = MAYREFUSE; break;
            case 34: name = "v3 shard with gzip inner codec and reversed blobs"; a.shard = {4, 6}; a.codec.id = "gzip"; break;
            case 35: name = "v3 sharded inner chunk = shard"; a.shard = {2, 3}; break;
            case 36: name = "n5 blosc without blocksize and nthreads"; a.kind = 5; a.big = true; a.codec.id = "blosc"; a.codec.typesize = 4; ed = [](json & j) { j["compression"].erase("blocksize"); j["compression"].erase("nthreads"); }; break;
            case 37: name = "n5 gzip without level"; a.kind = 5; a.big = true; a.codec.id = "gzip"; ed = [](json & j) { j["compression"].erase("level"); }; break;
            case 38: name = "n5 bzip2 without blockSize"; a.kind = 5; a.big = true; a.codec.id = "bzip2"; ed = [](json & j) { j["compression"].erase("blockSize"); }; break;
            case 39: name = "n5 xz without preset"; a.kind = 5; a.big = true; a.codec.id = "xz"; ed = [](json & j) { j["compression"].erase("preset"); }; break;
            case 40: name = "n5 zstd without level"; a.kind = 5; a.big = true; a.codec.id = "zstd"; ed = [](json & j) { j["compression"].erase("level"); }; break;
            case 41: name = "v2 zlib without level"; a.kind = 2; a.sep = "."; a.codec.id = "zlib"; ed = [](json & j) { j["compressor"].erase("level"); }; break;
            case 42: name = "v2 zstd without level"; a.kind = 2; a.sep = "."; a.codec.id = "zstd"; ed = [](json & j) { j["compressor"].erase("level"); }; break;
            case 43: name = "v2 bz2 without level"; a.kind = 2; a.sep = "."; a.codec.id = "bzip2"; ed = [](json & j) { j["compressor"].erase("level"); }; break;
            case 44: name = "v2 blosc with id only"; a.kind = 2; a.sep = "."; a.codec.id = "blosc"; ed = [](json & j) { j["compressor"] = {{"id", "blosc"}}; }; break;
            case 45: name = "v2 without filters key"; a.kind = 2; a.sep = "."; ed = [](json & j) { j.erase("filters"); }; break;
            case 46: name = "v2 zstd with checksum key"; a.kind = 2; a.sep = "."; a.codec.id = "zstd"; a.codec.checksum = true; ed = [](json & j) { j["compressor"]["checksum"] = true; }; break;
            case 47: name = "v2 blosc autoshuffle"; a.kind = 2; a.sep = "."; a.codec.id = "blosc"; a.codec.typesize = 4; ed = [](json & j) { j["compressor"]["shuffle"] = -1; }; break;
            default: continue;
        }
        if(a.kind == 5) a.sep = "/";
        if(!built(a.codec.id)) continue;
        if(!ctx.want("variant " + name)) continue;
        readCase(name, a, ex, ed, v == 34 ? 4 : 0, sk, fill);
    }
    ctx.sample("write n5 int16 gzip (3,4)/(2,3): attributes.json, 4 block files decoded by the independent reader, blank block absent");
    ctx.sample("read sh/ float64 blosc (11,3)/(1,1) shards (2,2): shards with reversed blobs and gaps");
    tree::wipe(ctx.scratch + "/c05"); tree::wipe(ctx.scratch + "/c05r");
    return ctx.finish();
}
