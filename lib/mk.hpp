// dataset construction shared by the harnesses (real z5 code)
#pragma once
#include "mc.hpp"
#include "tree.hpp"
#include "z5/factory.hxx"
#include "z5/filesystem/handle.hxx"

namespace mk {
typedef z5::types::ShapeType S;
typedef z5::types::CompressionOptions Opts;

struct Conf {
    std::string fmt = "n5";      // n5 | z2<sep> | z3<sep> | v2<sep> (v3 with v2 keys) | sh<sep> | sv<sep> (sharded, v2 keys)
    std::string dtype = "int32";
    S shape, chunk, shard;
    std::string codec = "raw"; Opts opts;
    double fill = 0;

    bool zarr() const { return fmt != "n5"; }
    int zformat() const { return fmt == "n5" || fmt[1] == '2' && fmt[0] == 'z' ? 2 : 3; }
    std::string delim() const { return fmt == "n5" ? "." : fmt.substr(2); }
    std::string keyenc() const { return fmt.substr(0, 2) == "v2" || fmt.substr(0, 2) == "sv" ? "v2" : "default"; }
    bool sharded() const { return fmt[0] == 's'; }
    std::string optstr() const {
        std::string s;
        for(auto & kv : opts) {
            s += "," + kv.first + "=";
            if(std::holds_alternative<int>(kv.second)) s += std::to_string(std::get<int>(kv.second));
            else if(std::holds_alternative<bool>(kv.second)) s += std::get<bool>(kv.second) ? "true" : "false";
            else s += std::get<std::string>(kv.second);
        }
        return s;
    }
    std::string id() const {
        return fmt + " " + dtype + " " + codec + optstr() + " " + mc::str(shape) + "/" + mc::str(chunk) + (sharded() ? "/" + mc::str(shard) : "") + (fill != 0 ? " fill " + std::to_string(fill) : "");
    }
};

inline void createContainer(const std::string & root, const Conf & c) {
    z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
    z5::createFile(file, c.zarr(), c.zformat());
}
inline std::unique_ptr<z5::Dataset> createIn(const std::string & root, const Conf & c, const std::string & key = "d") {
    z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
    if(c.dtype.find("complex") == 0) {
        Opts o = c.opts; const auto comp = z5::types::Compressors::stringToCompressor().at(c.codec);
        z5::types::defaultCompressionOptions(comp, o, c.zarr());
        const auto t = c.dtype == "complex64" ? z5::types::complex64 : c.dtype == "complex128" ? z5::types::complex128 : z5::types::complex256;
        return z5::createDataset(file, key, z5::DatasetMetadata(t, c.shape, c.chunk, c.zarr(), comp, o, c.fill, c.delim(), c.zformat(), c.keyenc(), c.sharded() ? c.shard : S()));
    }
    return z5::createDataset(file, key, c.dtype, c.shape, c.chunk, c.codec, c.opts, c.fill, c.delim(), c.zformat(), c.keyenc(), c.sharded() ? c.shard : S());
}
inline std::unique_ptr<z5::Dataset> create(const std::string & root, const Conf & c, const std::string & key = "d") {
    tree::wipe(root);
    createContainer(root, c);
    return createIn(root, c, key);
}
inline std::unique_ptr<z5::Dataset> open(const std::string & root, const std::string & key = "d", z5::FileMode::modes m = z5::FileMode::a) {
    z5::filesystem::handle::File file(root, z5::FileMode(m));
    return z5::openDataset(file, key);
}
inline std::size_t esize(const std::string & d) {
    if(d == "complex256") return 32; if(d == "complex128") return 16; if(d == "complex64") return 8;
    return std::stoul(d.substr(d.find_first_of("0123456789"))) / 8;
}
inline std::size_t prod(const S & s) { std::size_t n = 1; for(auto x : s) n *= x; return n; }
inline std::string errOf(const std::function<void()> & f) { try { f(); return ""; } catch(std::exception & e) { return std::string("error: ") + e.what(); } }
}
