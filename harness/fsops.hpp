// the operations and the container used by the fault (C10) and crash (C11) harnesses
#pragma once
#include "mk.hpp"
#include "spec.hpp"
#include "fsx.hpp"
#include "z5/attributes.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/functions.hxx"
using namespace mk;
namespace zf = z5::filesystem::handle;
typedef std::map<std::string, std::string> Map;
typedef std::string B;
typedef int32_t T;

struct Env {
    std::string base, root;          // root: the container; base: the directory above
    Conf c;
    std::unique_ptr<zf::File> file; std::unique_ptr<zf::Group> g; std::unique_ptr<zf::Dataset> dh; std::unique_ptr<z5::Dataset> ds;
};

struct Op {
    std::string name;
    std::function<std::string(Env &)> run;
    std::vector<std::string> touch;         // keys of the logical state (prefixes) that it may change
    std::string creates;                    // node that has to be re-created after an interruption
    bool pre = true;                        // uses the dataset object opened beforehand
};

inline Conf confOf(const B & fmt) {
    Conf c; c.fmt = fmt; c.dtype = "int32"; c.codec = fmt == "n5" || fmt == "sh/" ? "gzip" : fmt == "z2/" ? "raw" : "blosc";
    if(fmt == "v2.") c.codec = "raw";
    c.shape = {4, 4}; c.chunk = {2, 2}; if(c.sharded()) c.shard = {4, 2};
    return c;
}

inline std::vector<T> ramp(std::size_t n, T from) { std::vector<T> v(n); for(std::size_t i = 0; i < n; ++i) v[i] = from + (T) i; return v; }
template<class A> inline B bytes(const A & v) { return B((const char *) v.data(), v.size() * sizeof(v[0])); }

// container: file and group attributes, datasets d (chunk (1,0) absent) and g/e, group g/h
inline void build(const B & root, const Conf & c) {
    createContainer(root, c);
    zf::File f(root, z5::FileMode(z5::FileMode::a));
    z5::writeAttributes(f, nlohmann::json{{"fa", 1}, {"fb", {1, 2}}});
    z5::createGroup(f, "g", c.zformat());
    zf::Group g(f, "g");
    z5::writeAttributes(g, nlohmann::json{{"ga", "x"}, {"gb", nullptr}});
    z5::createGroup(g, "h", c.zformat());
    auto d = createIn(root, c, "d");
    zf::Dataset dh(f, "d");
    z5::writeAttributes(dh, nlohmann::json{{"da", 1}, {"db", "two"}});
    int i = 1;
    for(S id : {S{0, 0}, S{0, 1}, S{1, 1}}) { auto v = ramp(4, 10 * i++); d->writeChunk(id, v.data()); }
    Conf e = c; e.shape = {4}; e.chunk = {2}; if(c.sharded()) e.shard = {4};
    auto ed = z5::createDataset(g, "e", e.dtype, e.shape, e.chunk, e.codec, e.opts, e.fill, e.delim(), e.zformat(), e.keyenc(), e.shard);
    auto v = ramp(2, 77); ed->writeChunk(S{0}, v.data());
}
inline void openAll(Env & e) {
    e.file.reset(new zf::File(e.root, z5::FileMode(z5::FileMode::a)));
    e.g.reset(new zf::Group(*e.file, "g"));
    e.ds = z5::openDataset(*e.file, "d");
    e.dh.reset(new zf::Dataset(*e.file, "d"));
}

// what an independent reader finds: nodes, metadata, attributes, chunks
inline Map logical(const B & base) {
    Map m;
    const tree::Snapshot s = tree::snapshot(base);
    std::vector<B> datasets;
    const auto inDataset = [&](const B & d) { for(auto & x : datasets) if(d.compare(0, x.size() + 1, x + "/") == 0) return true; return false; };
    for(auto & kv : s) {        // (a directory sorts before what it contains)
        if(kv.first.back() != '/') continue;
        const B dir = kv.first.substr(0, kv.first.size() - 1);
        if(inDataset(dir)) continue;
        const auto doc = [&](const char * n, nlohmann::json & j) {
            auto it = s.find(kv.first + n); if(it == s.end()) return false;
            try { j = nlohmann::json::parse(it->second); } catch(std::exception &) { m["broken:" + dir + ":" + n] = it->second; return false; }
            return true;
        };
        nlohmann::json z3, zarray, zgroup, zattrs, n5; nlohmann::json attrs = nlohmann::json::object(); bool ds = false; B meta = "dir";
        if(doc("zarr.json", z3)) { if(z3.contains("attributes")) attrs = z3["attributes"]; z3.erase("attributes"); ds = z3.value("node_type", "") == "array"; meta = z3.dump(); }
        if(doc(".zarray", zarray)) { ds = true; meta = zarray.dump(); }
        if(doc(".zgroup", zgroup)) meta = zgroup.dump();
        if(doc(".zattrs", zattrs)) attrs = zattrs;
        if(doc("attributes.json", n5)) {
            nlohmann::json mj = nlohmann::json::object();
            for(auto k : {"n5", "dimensions", "blockSize", "dataType", "compression", "compressionType"}) if(n5.contains(k)) { mj[k] = n5[k]; n5.erase(k); }
            ds = mj.contains("dimensions"); attrs = n5; if(!mj.empty()) meta = mj.dump();
        }
        m["node:" + dir] = meta;
        for(auto it = attrs.begin(); it != attrs.end(); ++it) m["attr:" + dir + ":" + it.key()] = it.value().dump();
        if(ds) {
            datasets.push_back(dir);
            try {
                auto a = spec::parse(base + "/" + dir); std::map<spec::S, B> bad;
                for(auto & c : spec::readAll(base + "/" + dir, a, &bad)) m["chunk:" + dir + ":" + mc::str(c.first)] = c.second.elems + (c.second.varlen ? "v" : "");
                for(auto & b : bad) m["chunk:" + dir + ":bad file " + mc::str(b.first)] = b.second;
            } catch(std::exception & e) { m["broken:" + dir + ":dataset"] = e.what(); }
        }
    }
    return m;
}

// what z5 itself finds
inline Map & z5view_(const B & root, const B & name, Map & m) {
    const auto put = [&](const B & k, const std::function<B()> & f) { try { m[k] = f(); } catch(std::exception & e) { m[k] = B("error: ") + e.what(); } };
    zf::File f(root, z5::FileMode(z5::FileMode::r));
    const auto keys = [&](auto & h, const B & at) { std::vector<B> k; try { h.keys(k); } catch(std::exception & e) { m["z5:keys:" + at] = B("error: ") + e.what(); } for(auto & x : k) m["z5:key:" + at + "/" + x] = "in " + std::to_string(h.in(x)) + " group " + std::to_string(z5::isSubGroup(h, x)); };
    const auto attrs = [&](auto & h, const B & at) { try { nlohmann::json j = nlohmann::json::object(); z5::readAttributes(h, j); for(auto it = j.begin(); it != j.end(); ++it) m["attr:" + at + ":" + it.key()] = it.value().dump(); } catch(std::exception & e) { m["z5:attrs:" + at] = B("error: ") + e.what(); } };
    put("z5:file", [&] { return std::to_string(f.isZarr()); });
    keys(f, name); attrs(f, name);
    zf::Group g(f, "g"); if(g.exists()) { keys(g, name + "/g"); attrs(g, name + "/g"); }
    for(B k : {"d", "g/e"}) {
        const B at = name + "/" + k;
        zf::Dataset h(f, k); if(!h.exists()) continue;
        attrs(h, at);
        put("node:" + at, [&] {
            auto ds = z5::openDataset(f, k); S n = ds->chunksPerDimension(), p(n.size(), 0); B sum;
            do put("chunk:" + at + ":" + mc::str(p), [&] {
                if(!ds->chunkExists(p)) return B("absent");
                std::vector<T> v(ds->defaultChunkSize()); std::size_t cs; if(ds->checkVarlenChunk(p, cs)) v.resize(std::max(cs, v.size()));
                ds->readChunk(p, v.data()); return bytes(v); });
            while(mc::next(p, n));
            return "shape " + mc::str(ds->shape()) + " chunk " + mc::str(ds->defaultChunkShape());
        });
    }
    return m;
}

inline Map z5view(const B & root, const B & name) {
    Map m;
    try { z5view_(root, name, m); } catch(std::exception & e) { m["z5:view"] = B("error: ") + e.what(); }
    return m;
}

inline B rd(const z5::Dataset & ds, const S & off, const S & sh) { std::vector<T> v(prod(sh), -7); auto w = z5::multiarray::makeView(v.data(), sh); z5::multiarray::readSubarray<T>(ds, w, off.begin()); return bytes(v); }
inline void wr(const z5::Dataset & ds, const S & off, const S & sh, const std::vector<T> & v) { auto w = z5::multiarray::makeView(v.data(), sh); z5::multiarray::writeSubarray<T>(ds, w, off.begin()); }
inline B keysOf(const std::vector<B> & k) { std::set<B> s(k.begin(), k.end()); B o; for(auto & x : s) o += x + " "; return o; }
template<class H> inline B attrsOf(const H & h) { nlohmann::json j = nlohmann::json::object(); z5::readAttributes(h, j); return j.dump(); }

inline std::vector<Op> operations(const Conf & c) {
    std::vector<Op> o;
    const bool n5 = !c.zarr();
    const auto R = [&](const B & n, std::function<B(Env &)> f, bool pre = true) { o.push_back({n, f, {}, "", pre}); };
    const auto W = [&](const B & n, std::function<void(Env &)> f, std::vector<B> t, const B & cr = "", bool pre = true) { o.push_back({n, [f](Env & e) { f(e); return B("done"); }, t, cr, pre}); };
    // reading
    R("readChunk", [](Env & e) { std::vector<T> v(4); e.ds->readChunk(S{0, 1}, v.data()); return bytes(v); });
    R("readChunk absent", [](Env & e) { std::vector<T> v(4); try { e.ds->readChunk(S{1, 0}, v.data()); } catch(std::runtime_error & x) { if(fsx::faulted()) throw; return B("refused"); } return B("read"); });
    R("readRawChunk", [](Env & e) { std::vector<char> v; e.ds->readRawChunk(S{0, 0}, v); return bytes(v); });
    R("readRawChunk absent", [](Env & e) { std::vector<char> v; e.ds->readRawChunk(S{1, 0}, v); return bytes(v); });
    R("chunkExists", [](Env & e) { return std::to_string(e.ds->chunkExists(S{1, 1})); });
    R("chunkExists absent", [](Env & e) { return std::to_string(e.ds->chunkExists(S{1, 0})); });
    R("checkVarlenChunk", [](Env & e) { std::size_t n; const bool v = e.ds->checkVarlenChunk(S{0, 1}, n); return std::to_string(v) + " " + std::to_string(n); });
    R("getChunkShape", [](Env & e) { S s; e.ds->getChunkShape(S{0, 1}, s, true); return mc::str(s) + std::to_string(e.ds->getChunkShape(S{0, 1}, 1u, true)); });
    R("readSubarray", [](Env & e) { return rd(*e.ds, {0, 0}, {4, 4}); });
    R("readSubarray part", [](Env & e) { return rd(*e.ds, {1, 1}, {2, 2}); });
    R("unique", [](Env & e) { std::set<T> u; z5::util::unique<T>(*e.ds, 1, u); B s; for(T x : u) s += std::to_string(x) + " "; return s; });
    R("uniqueWithCounts", [](Env & e) { std::map<T, std::size_t> u; z5::util::uniqueWithCounts<T>(*e.ds, 1, u); B s; for(auto & x : u) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s; });
    R("openDataset", [](Env & e) { auto d = z5::openDataset(*e.file, "d"); B cmp; d->getCompressor(cmp); return mc::str(d->shape()) + mc::str(d->defaultChunkShape()) + cmp + std::to_string(d->isSharded()); });
    R("openDataset and read", [](Env & e) { auto d = z5::openDataset(*e.g, "e"); return rd(*d, {0}, {4}); });
    R("file keys", [](Env & e) { std::vector<B> k; e.file->keys(k); return keysOf(k); });
    R("group keys", [](Env & e) { std::vector<B> k; e.g->keys(k); return keysOf(k); });
    R("in", [](Env & e) { return std::to_string(e.file->in("g")) + std::to_string(e.file->in("nothing")) + std::to_string(e.g->in("e")); });
    R("isSubGroup", [](Env & e) { return std::to_string(z5::isSubGroup(*e.file, "g")) + std::to_string(z5::isSubGroup(*e.file, "d")) + std::to_string(z5::isSubGroup(*e.file, "nothing")); });
    R("exists", [](Env & e) { return std::to_string(e.file->exists()) + std::to_string(e.g->exists()) + std::to_string(zf::Group(*e.file, "no").exists()) + std::to_string(e.dh->exists()); });
    R("isZarr", [](Env & e) { return std::to_string(e.file->isZarr()) + std::to_string(e.g->isZarr()) + std::to_string(zf::Dataset(*e.file, "d").isZarr()); });
    R("read metadata", [](Env & e) { nlohmann::json j; z5::filesystem::readMetadata(*e.file, j); nlohmann::json k; z5::filesystem::readMetadata(*e.g, k); return j.dump() + k.dump(); });
    R("read file attributes", [](Env & e) { return attrsOf(*e.file); });
    R("read group attributes", [](Env & e) { return attrsOf(*e.g); });
    R("read dataset attributes", [](Env & e) { return attrsOf(*e.dh); });
    R("read no attributes", [](Env & e) { return attrsOf(zf::Group(*e.g, "h")); });
    // chunks
    const B C = "chunk:c/d:";
    W("writeChunk new", [](Env & e) { auto v = ramp(4, 200); e.ds->writeChunk(S{1, 0}, v.data()); }, {C + "(1,0)"});
    W("writeChunk over", [](Env & e) { auto v = ramp(4, 200); e.ds->writeChunk(S{0, 1}, v.data()); }, {C + "(0,1)"});
    W("writeChunk fill", [](Env & e) { std::vector<T> v(4, 0); e.ds->writeChunk(S{1, 1}, v.data()); }, {C + "(1,1)"});
    W("writeChunk fill absent", [](Env & e) { std::vector<T> v(4, 0); e.ds->writeChunk(S{1, 0}, v.data()); }, {C + "(1,0)"});
    W("removeChunk", [](Env & e) { e.ds->removeChunk(S{0, 0}); }, {C + "(0,0)"});
    W("removeChunk absent", [](Env & e) { e.ds->removeChunk(S{1, 0}); }, {C + "(1,0)"});
    if(n5) W("writeChunk varlen", [](Env & e) { auto v = ramp(7, 300); e.ds->writeChunk(S{1, 0}, v.data(), true, 7); }, {C + "(1,0)"});
    // regions
    W("writeSubarray all", [](Env & e) { wr(*e.ds, {0, 0}, {4, 4}, ramp(16, 400)); }, {C});
    W("writeSubarray part", [](Env & e) { wr(*e.ds, {1, 1}, {1, 2}, ramp(2, 500)); }, {C + "(0,"});
    W("writeSubarray column", [](Env & e) { wr(*e.ds, {0, 3}, {4, 1}, ramp(4, 500)); }, {C + "(0,1)", C + "(1,1)"});
    W("writeSubarray fill", [](Env & e) { wr(*e.ds, {0, 0}, {4, 4}, std::vector<T>(16, 0)); }, {C});
    W("writeScalar", [](Env & e) { const S off{0, 1}, sh{4, 3}; z5::multiarray::writeScalar<T>(*e.ds, off.begin(), sh.begin(), T(9)); }, {C});
    W("writeScalar fill", [](Env & e) { const S off{0, 2}, sh{2, 2}; z5::multiarray::writeScalar<T>(*e.ds, off.begin(), sh.begin(), T(0)); }, {C + "(0,1)"});
    W("removeTrivialChunks", [](Env & e) { z5::util::removeTrivialChunks<T>(*e.ds, 1); }, {});
    // attributes
    W("set file attribute", [](Env & e) { z5::writeAttributes(*e.file, nlohmann::json{{"fa", {{"deep", {1, 2, 3}}}}}); }, {"attr:c:fa"});
    W("set group attribute", [](Env & e) { z5::writeAttributes(*e.g, nlohmann::json{{"gn", B(5000, 'y')}}); }, {"attr:c/g:gn"});
    W("set dataset attribute", [](Env & e) { z5::writeAttributes(*e.dh, nlohmann::json{{"da", 2}, {"dc", 3}}); }, {"attr:c/d:da", "attr:c/d:dc"});
    W("set first attribute", [](Env & e) { z5::writeAttributes(zf::Group(*e.g, "h"), nlohmann::json{{"x", 1}}); }, {"attr:c/g/h:x"});
    W("remove file attribute", [](Env & e) { z5::removeAttribute(*e.file, "fb"); }, {"attr:c:fb"});
    W("remove dataset attribute", [](Env & e) { z5::removeAttribute(*e.dh, "db"); }, {"attr:c/d:db"});
    W("remove group attribute", [](Env & e) { z5::removeAttribute(*e.g, "ga"); }, {"attr:c/g:ga"});
    // nodes
    const int zfmt = c.zformat();
    W("createFile", [c](Env & e) { zf::File f(e.base + "/c2", z5::FileMode(z5::FileMode::a)); z5::createFile(f, c.zarr(), c.zformat()); }, {"node:c2"}, "c2", false);
    W("createGroup", [zfmt](Env & e) { z5::createGroup(*e.file, "g2", zfmt); }, {"node:c/g2", "z5:key:c/g2"}, "c/g2");
    W("createGroup in group", [zfmt](Env & e) { z5::createGroup(*e.g, "h2", zfmt); }, {"node:c/g/h2", "z5:key:c/g/h2"}, "c/g/h2");
    W("createDataset", [c](Env & e) { createIn(e.root, c, "d2"); }, {"node:c/d2", "attr:c/d2", "z5:key:c/d2"}, "c/d2");
    W("createDataset in group", [c](Env & e) { z5::createDataset(*e.g, "e2", c.dtype, c.shape, c.chunk, c.codec, c.opts, 5., c.delim(), c.zformat(), c.keyenc(), c.sharded() ? c.shard : S()); }, {"node:c/g/e2", "z5:key:c/g/e2"}, "c/g/e2");
    if(n5) o.pop_back();        // (n5 stores no fill value other than 0)
    const auto gone = [](auto & h) { if(h.exists()) h.remove(); };
    W("remove group", [gone](Env & e) { gone(*e.g); }, {"node:c/g", "attr:c/g", "chunk:c/g", "z5:key:c/g", "z5:keys:c/g", "z5:attrs:c/g", "broken:c/g"});
    W("remove dataset", [gone](Env & e) { gone(*e.dh); }, {"node:c/d", "attr:c/d", "chunk:c/d", "z5:key:c/d", "z5:attrs:c/d", "broken:c/d"});
    W("removeDataset", [](Env & e) { if(e.dh->exists()) z5::util::removeDataset(*e.ds, 1); }, {"node:c/d", "attr:c/d", "chunk:c/d", "z5:key:c/d", "z5:attrs:c/d", "broken:c/d"});
    W("remove file", [gone](Env & e) { gone(*e.file); }, {""});
    return o;
}
inline bool touched(const Op & op, const B & key) { for(auto & t : op.touch) if(key.compare(0, t.size(), t) == 0) return true; return false; }
inline B differ(const Map & a, const Map & b, const Op * op = nullptr) {
    for(auto & kv : a) { if(op && touched(*op, kv.first)) continue; auto it = b.find(kv.first); if(it == b.end()) return kv.first + " is gone"; if(it->second != kv.second) return kv.first + " changed" + (it->second.compare(0, 6, "error:") ? B() : ": " + it->second); }
    for(auto & kv : b) { if(op && touched(*op, kv.first)) continue; if(!a.count(kv.first)) return kv.first + " appeared"; }
    return "";
}
