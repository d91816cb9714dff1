// C02: block decomposition. Every shape/block/region of a bounded space, scaled and translated
// up to the signed 64-bit range, against a per-axis 128-bit reference; the reference itself is
// checked element by element on the small instances. Request validation on datasets.
#include "mc.hpp"
#include "z5/factory.hxx"
#include "z5/filesystem/handle.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/blocking.hxx"
#include "tree.hpp"
#include <algorithm>

typedef __int128 i128;
typedef z5::types::ShapeType S;
using z5::util::Blocking;
mc::Ctx ctx;

// reference for one axis
struct Ovl { i128 begin, end; };            // overlap in array coordinates
static Ovl overlap(i128 blk, i128 b, i128 N, i128 r0, i128 r1) {
    i128 lo = blk * b, hi = std::min((blk + 1) * b, N);
    return {std::max(lo, r0), std::min(hi, r1)};
}

static std::string desc(const S & shape, const S & block, const S & r0, const S & rs) {
    return "shape " + mc::str(shape) + " block " + mc::str(block) + " roi " + mc::str(r0) + "+" + mc::str(rs);
}

// check one roi on an nd blocking
static void checkRoi(const Blocking & bl, const S & shape, const S & block, const S & r0, const S & rs) {
    const unsigned nd = shape.size();
    ++ctx.count["rois"];
    std::vector<S> list;
    bl.getBlocksOverlappingRoi(r0, rs, list);
    // expected block ranges
    std::vector<i128> lo(nd), hi(nd);
    std::size_t n = 1;
    for(unsigned d = 0; d < nd; ++d) {
        lo[d] = (i128) r0[d] / block[d];
        hi[d] = ((i128) r0[d] + rs[d] - 1) / block[d];
        n *= (std::size_t)(hi[d] - lo[d] + 1);
    }
    std::set<S> seen(list.begin(), list.end());
    bool ok = list.size() == n && seen.size() == n;
    if(ok) for(auto & c : list) for(unsigned d = 0; d < nd; ++d)
        ok = ok && c.size() == nd && c[d] >= lo[d] && c[d] <= hi[d];
    if(!ctx.check(ok, "block-list", [&]{ return "blocks overlapping the region are wrong: " + desc(shape, block, r0, rs)
                  + " got " + std::to_string(list.size()) + " blocks, expected " + std::to_string(n); })) return;
    for(auto & c : list) {
        ++ctx.count["overlaps"];
        S br, sr, bb;
        bool complete = bl.getCoordinatesInRoi(c, r0, rs, br, sr, bb);
        bool full = true, good = br.size() == nd && sr.size() == nd && bb.size() == nd;
        for(unsigned d = 0; d < nd && good; ++d) {
            Ovl o = overlap(c[d], block[d], shape[d], r0[d], (i128) r0[d] + rs[d]);
            i128 b0 = (i128) c[d] * block[d], b1 = std::min(b0 + block[d], (i128) shape[d]);
            good = (i128) br[d] == o.begin - r0[d] && (i128) sr[d] == o.end - o.begin && (i128) bb[d] == o.begin - b0;
            full = full && o.begin == b0 && o.end == b1;
        }
        if(!ctx.check(good, "overlap-rect", [&]{ return "wrong overlap of block " + mc::str(c) + ": " + desc(shape, block, r0, rs)
                      + ": beginInRoi " + mc::str(br) + " shape " + mc::str(sr) + " beginInBlock " + mc::str(bb); })) return;
        if(!ctx.check(complete == full, "complete-flag", [&]{ return "complete flag of block " + mc::str(c) + " is "
                      + std::to_string(complete) + ": " + desc(shape, block, r0, rs); })) return;
        S b0, bs, b1;
        bl.getBlockBeginAndShape(c, b0, bs);
        S b0b;
        bl.getBlockBeginAndEnd(c, b0b, b1);
        bool g2 = true;
        for(unsigned d = 0; d < nd; ++d) {
            i128 e0 = (i128) c[d] * block[d], e1 = std::min(e0 + block[d], (i128) shape[d]);
            g2 = g2 && b0[d] == e0 && bs[d] == e1 - e0 && b0b[d] == e0 && b1[d] == e1;
        }
        if(!ctx.check(g2 && bl.checkBlockCoordinate(c), "block-bounds", [&]{ return "bounds of block " + mc::str(c) + ": " + desc(shape, block, r0, rs); })) return;
    }
}

// element-wise validation of the reference on small instances: every element of the region in
// exactly one listed block at the right position
static void checkElementwise(const Blocking & bl, const S & shape, const S & block, const S & r0, const S & rs) {
    const unsigned nd = shape.size();
    std::vector<S> list;
    bl.getBlocksOverlappingRoi(r0, rs, list);
    std::map<S, int> cover;
    for(auto & c : list) {
        S br, sr, bb;
        bl.getCoordinatesInRoi(c, r0, rs, br, sr, bb);
        S p(nd, 0);
        bool any = true; for(auto x : sr) any = any && x > 0 && x < 100;
        if(!ctx.check(any, "overlap-empty", [&]{ return "empty overlap of block " + mc::str(c) + ": " + desc(shape, block, r0, rs); })) return;
        do {
            S g(nd);
            bool same = true;
            for(unsigned d = 0; d < nd; ++d) {
                g[d] = r0[d] + br[d] + p[d];
                same = same && g[d] == c[d] * block[d] + bb[d] + p[d] && bb[d] + p[d] < block[d];
            }
            S back; bl.coordinateToBlockCoordinate(g, back);
            if(!ctx.check(same && back == c, "element-position", [&]{ return "element " + mc::str(g) + " in block " + mc::str(c) + ": " + desc(shape, block, r0, rs); })) return;
            ++cover[g];
        } while(mc::next(p, sr));
    }
    S p(nd, 0);
    std::size_t n = 0;
    do {
        S g(nd); for(unsigned d = 0; d < nd; ++d) g[d] = r0[d] + p[d];
        ++n;
        if(!ctx.check(cover.count(g) && cover[g] == 1, "element-coverage", [&]{ return "element " + mc::str(g) + " covered " + std::to_string(cover[g]) + " times: " + desc(shape, block, r0, rs); })) return;
    } while(mc::next(p, rs));
    ctx.check(cover.size() == n, "element-outside", [&]{ return "elements outside the region are covered: " + desc(shape, block, r0, rs); });
}

// all rois of a shape
template<class F> static void forRois(const S & lo, const S & hi, F && f) {
    const unsigned nd = lo.size();
    S ext(nd); for(unsigned d = 0; d < nd; ++d) ext[d] = hi[d] - lo[d];
    S b(nd, 0);
    do {
        S room(nd), s(nd, 0);
        for(unsigned d = 0; d < nd; ++d) room[d] = ext[d] - b[d];
        do {
            S r0(nd), rs(nd);
            for(unsigned d = 0; d < nd; ++d) { r0[d] = lo[d] + b[d]; rs[d] = s[d] + 1; }
            f(r0, rs);
        } while(mc::next(s, room));
    } while(mc::next(b, ext));
}

static void checkIds(const Blocking & bl, const S & shape, const S & block) {
    std::size_t n = 1;
    S bpd(shape.size());
    for(unsigned d = 0; d < shape.size(); ++d) { bpd[d] = (shape[d] - 1) / block[d] + 1; n *= bpd[d]; }
    ctx.check(bl.numberOfBlocks() == n && bl.blocksPerDimension() == bpd, "block-count", [&]{ return "number of blocks of " + mc::str(shape) + "/" + mc::str(block); });
    std::set<S> seen;
    for(std::size_t i = 0; i < n; ++i) {
        S c; bl.blockIdToBlockCoordinate(i, c);
        S b, e; bl.getBlockBeginAndEnd(i, b, e);
        S b2, s2; bl.getBlockBeginAndShape(i, b2, s2);
        bool g = true;
        for(unsigned d = 0; d < shape.size(); ++d)
            g = g && b[d] == c[d] * block[d] && e[d] == std::min(b[d] + block[d], shape[d]) && b2[d] == b[d] && s2[d] == e[d] - b[d];
        if(!ctx.check(bl.checkBlockCoordinate(c) && seen.insert(c).second && bl.blockCoordinatesToBlockId(c) == i && g,
                  "block-id", [&]{ return "block id " + std::to_string(i) + " -> " + mc::str(c) + " of " + mc::str(shape) + "/" + mc::str(block); })) return;
        ++ctx.count["ids"];
    }
    // coordinates outside
    for(unsigned d = 0; d < shape.size(); ++d) {
        S c(shape.size(), 0);
        for(std::size_t x : {bpd[d], bpd[d] + 1, (std::size_t) 1 << 32, (std::size_t) -1}) {
            if(x < bpd[d]) continue;
            c[d] = x;
            ctx.check(!bl.checkBlockCoordinate(c), "block-range", [&]{ return "block coordinate " + mc::str(c) + " accepted for " + mc::str(shape) + "/" + mc::str(block); });
        }
    }
    for(S c : {S(shape.size() + 1, 0), S(shape.size() - 1, 0)})
        ctx.check(!bl.checkBlockCoordinate(c), "block-range-dim", [&]{ return "block coordinate of wrong dimension accepted"; });
}

static void geometrySmall(const std::string & id, const S & maxShape, std::size_t maxBlock, bool elementwise) {
    const unsigned nd = maxShape.size();
    S s(nd, 0);
    do {
        S shape(nd); for(unsigned d = 0; d < nd; ++d) shape[d] = s[d] + 1;
        S bmax(nd, maxBlock), b(nd, 0);
        do {
            S block(nd); for(unsigned d = 0; d < nd; ++d) block[d] = b[d] + 1;
            // blocks one larger than the shape stand for all larger ones
            bool skip = false; for(unsigned d = 0; d < nd; ++d) skip = skip || block[d] > shape[d] + 1;
            if(skip) continue;
            if(!ctx.want(id + ":" + mc::str(shape) + "/" + mc::str(block))) continue;
            Blocking bl(shape, block);
            checkIds(bl, shape, block);
            forRois(S(nd, 0), shape, [&](const S & r0, const S & rs) {
                checkRoi(bl, shape, block, r0, rs);
                if(elementwise) checkElementwise(bl, shape, block, r0, rs);
            });
            ctx.sample(id + " shape " + mc::str(shape) + " block " + mc::str(block));
        } while(mc::next(b, bmax));
    } while(mc::next(s, maxShape));
}

// far-out windows: shape = base + n along axis `ax`, windows of the roi around the base
static void geometryFar() {
    std::vector<std::size_t> bases;
    for(int p : {31, 32, 33, 53, 62}) for(int k = -3; k <= 3; ++k) bases.push_back(((std::size_t) 1 << p) + k);
    bases.push_back(((std::size_t) 1 << 63) - 20);
    for(std::size_t base : bases) for(std::size_t b = 1; b <= 5; ++b) for(std::size_t n = 1; n <= 6; ++n) for(int nd = 1; nd <= 2; ++nd) for(int ax = 0; ax < nd; ++ax) {
        const std::string id = "far:" + std::to_string(base) + ":" + std::to_string(b) + ":" + std::to_string(n) + ":" + std::to_string(nd) + std::to_string(ax);
        if(!ctx.want(id)) continue;
        S shape(nd, 3), block(nd, 2), lo(nd, 0);
        shape[ax] = base + n; block[ax] = b; lo[ax] = base;
        Blocking bl(shape, block);
        forRois(lo, shape, [&](const S & r0, const S & rs) { checkRoi(bl, shape, block, r0, rs); });
        // ids around the last block; the product of the axes must fit (other axis has 2 blocks)
        if(base < ((std::size_t) 1 << 62)) {
            for(std::size_t k = 0; k < 6; ++k) {
                const std::size_t nb = bl.numberOfBlocks();
                if(k >= nb) break;
                S c; bl.blockIdToBlockCoordinate(nb - 1 - k, c);
                ctx.check(bl.checkBlockCoordinate(c) && bl.blockCoordinatesToBlockId(c) == nb - 1 - k, "block-id-far", [&]{ return "block id round trip far out " + mc::str(shape); });
            }
        }
        ctx.sample(id);
    }
}

// large blocks and regions: every quantity k*scale + delta
static void geometryLarge() {
    std::vector<std::size_t> scales;
    for(int p : {15, 30, 31, 32, 33, 40, 53, 59}) scales.push_back((std::size_t) 1 << p);
    scales.push_back(3000000000ull);
    const int deltas[] = {-1, 0, 1};
    for(std::size_t sc : scales) for(int kn = 1; kn <= 4; ++kn) for(int dn : deltas) for(int kb = 1; kb <= 3; ++kb) for(int db : deltas) {
        const std::size_t N = kn * sc + dn, b = kb * sc + db;
        const std::string id = "large:" + std::to_string(sc) + ":" + std::to_string(kn) + "," + std::to_string(dn) + ":" + std::to_string(kb) + "," + std::to_string(db);
        if(!ctx.want(id)) continue;
        std::vector<std::size_t> pts;
        for(int k = 0; k <= kn; ++k) for(int e : {-2, -1, 0, 1, 2}) {
            i128 x = (i128) k * sc + e;
            if(x >= 0 && x <= (i128) N) pts.push_back((std::size_t) x);
        }
        for(int k = 0; k <= kn; ++k) for(int e : deltas) {
            i128 x = (i128) k * b + e;
            if(x >= 0 && x <= (i128) N) pts.push_back((std::size_t) x);
        }
        pts.push_back(N);
        std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        Blocking b1(S{N}, S{b}), b2(S{4, N}, S{3, b}), b3(S{N, 2}, S{b, 2});
        for(auto r0 : pts) for(auto r1 : pts) if(r0 < r1) {
            checkRoi(b1, S{N}, S{b}, S{r0}, S{r1 - r0});
            checkRoi(b2, S{4, N}, S{3, b}, S{1, r0}, S{3, r1 - r0});
            checkRoi(b3, S{N, 2}, S{b, 2}, S{r0, 0}, S{r1 - r0, 1});
        }
        ctx.sample(id);
    }
}

// ---------------------------------------------------------------- request validation

struct FmtCase { const char * name; bool zarr; int fmt; std::vector<std::size_t> shard; };

static void requests() {
    const std::size_t M = (std::size_t) -1;
    const std::vector<FmtCase> fmts = {{"n5", false, 2, {}}, {"zarr2", true, 2, {}}, {"zarr3", true, 3, {}}, {"sharded", true, 3, {4}}};
    for(auto & f : fmts) for(int nd = 1; nd <= 2; ++nd) {
        const S shape = nd == 1 ? S{5} : S{5, 3}, chunk = nd == 1 ? S{2} : S{2, 2};
        S shard; if(!f.shard.empty()) shard = S(nd, f.shard[0]);
        std::unique_ptr<z5::Dataset> ds;
        tree::Snapshot before;
        std::string root;
        auto setup = [&]{
            root = ctx.scratch + "/req_" + f.name + std::to_string(nd);
            tree::wipe(root);
            z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
            z5::createFile(file, f.zarr, f.fmt);
            ds = z5::createDataset(file, "d", "int16", shape, chunk, "raw", z5::types::CompressionOptions(), 0,
                                   f.fmt == 3 ? "/" : ".", f.fmt, "default", shard);
            std::vector<int16_t> v(15); for(int i = 0; i < 15; ++i) v[i] = i + 1;
            z5::multiarray::ConstArrayView<int16_t> cv = z5::multiarray::makeView((const int16_t *) v.data(), shape);
            z5::multiarray::writeSubarray<int16_t>(*ds, cv, S(nd, 0).begin());
            before = tree::snapshot(root);
        };
        auto values = [&](std::size_t n) {
            std::vector<std::size_t> v = {0, 1, 2, n - 1, n, n + 1, n + 2, 7, (std::size_t) 1 << 31, ((std::size_t) 1 << 32) + 1, (std::size_t) 1 << 63, ((std::size_t) 1 << 63) + 1,
                                          M, M - 1, M - n, M - n + 1, M - n + 2};
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            return v;
        };
        auto one = [&](const S & off, const S & sh) {
            const std::string id = std::string("req:") + f.name + ":" + mc::str(off) + "+" + mc::str(sh);
            if(!ctx.want(id)) return;
            if(!ds) setup();
            bool valid = off.size() == nd && sh.size() == nd;
            for(int d = 0; d < nd && valid; ++d) valid = sh[d] > 0 && (i128) off[d] + sh[d] <= shape[d];
            std::vector<int16_t> buf(256, 77), wbuf(256, 99);
            bool ran = true;
            auto tryit = [&](const char * what, const std::function<void()> & fn) {
                bool threw = false;
                // running out of memory (address space is limited) is not a rejection
                try { fn(); } catch(const std::bad_alloc &) {} catch(const std::exception &) { threw = true; }
                ran = ctx.check(threw == !valid, std::string("request-") + what, [&]{ return std::string(what) + " of region " + mc::str(off) + "+" + mc::str(sh) + " of shape " + mc::str(shape)
                          + (threw ? " was rejected" : " was accepted") + " (" + f.name + ")"; });
                ++ctx.count[valid ? "requests_accepted" : "requests_rejected"];
            };
            tryit("check", [&]{ ds->checkRequestShape(off, sh); });
            if(!ran || sh.size() != off.size()) return;           // the view API ties both to the view's dimension
            tryit("read", [&]{ z5::multiarray::readSubarray<int16_t>(*ds, z5::multiarray::ArrayView<int16_t>(buf.data(), sh, z5::multiarray::cOrderStrides(sh)), off.begin(), 1); });
            if(valid) {
                z5::multiarray::ArrayView<int16_t> v(buf.data(), sh, z5::multiarray::cOrderStrides(sh));
                S p(nd, 0);
                do {
                    std::size_t lin = 0, o = 0;
                    for(int d = 0; d < nd; ++d) { lin = lin * shape[d] + off[d] + p[d]; o += p[d] * v.strides[d]; }
                    if(!ctx.check(buf[o] == (int16_t)(lin + 1), "request-value", [&]{ return "wrong value at " + mc::str(p) + " of region " + mc::str(off) + "+" + mc::str(sh); })) break;
                } while(mc::next(p, sh));
                return;
            }
            ctx.check(std::all_of(buf.begin(), buf.end(), [](int16_t x){ return x == 77; }), "request-buffer", [&]{ return "a rejected read modified the buffer, region " + mc::str(off) + "+" + mc::str(sh); });
            for(int th : {1, 2}) {
                tryit("write", [&]{ z5::multiarray::writeSubarray<int16_t>(*ds, z5::multiarray::ConstArrayView<int16_t>(wbuf.data(), sh, z5::multiarray::cOrderStrides(sh)), off.begin(), th); });
                if(off.size() == nd) tryit("scalar", [&]{ z5::multiarray::writeScalar<int16_t>(*ds, off.begin(), sh.begin(), (int16_t) 5, th); });
            }
            ctx.check(tree::snapshot(root) == before, "request-effect", [&]{ return "a rejected request changed the dataset, region " + mc::str(off) + "+" + mc::str(sh) + " (" + f.name + ")"; });
            if(tree::snapshot(root) != before) { ds.reset(); setup(); }
        };
        if(nd == 1) {
            for(auto o : values(5)) for(auto s : values(5)) one(S{o}, S{s});
            for(auto s : values(5)) { one(S{0, 0}, S{1, s}); one(S{0, 0, 0}, S{1, 1, s}); one(S{}, S{}); one(S{0}, S{1, 1}); one(S{0, 0}, S{1}); }
        } else {
            for(auto o : values(5)) for(auto s : values(5)) { one(S{o, 1}, S{s, 2}); }
            for(auto o : values(3)) for(auto s : values(3)) { one(S{1, o}, S{3, s}); one(S{1, o}, S{9, s}); }
            one(S{0}, S{1}); one(S{0, 0, 0}, S{1, 1, 1}); one(S{}, S{}); one(S{0, 0}, S{1}); one(S{0}, S{1, 1});
        }
    }
    // wrong element type is refused, every pair
    if(ctx.want("req:type")) {
        const std::string root = ctx.scratch + "/req_type";
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
        z5::createFile(file, true);
        auto ds = z5::createDataset(file, "d", "int16", S{4}, S{2});
        auto before = tree::snapshot(root);
        std::vector<double> d(4); std::vector<uint16_t> u(4);
        auto refuse = [&](const std::function<void()> & f) { try { f(); ctx.violation("request-type", "request of another element type accepted"); } catch(const std::exception &) {} };
        refuse([&]{ z5::multiarray::readSubarray<double>(*ds, z5::multiarray::makeView(d.data(), S{4}), S{0}.begin()); });
        refuse([&]{ z5::multiarray::readSubarray<uint16_t>(*ds, z5::multiarray::makeView(u.data(), S{4}), S{0}.begin()); });
        refuse([&]{ z5::multiarray::writeSubarray<uint16_t>(*ds, z5::multiarray::makeView((const uint16_t *) u.data(), S{4}), S{0}.begin()); });
        refuse([&]{ z5::multiarray::writeScalar<double>(*ds, S{0}.begin(), S{1}.begin(), 1.); });
        ctx.check(tree::snapshot(root) == before, "request-type-effect", []{ return "a refused request changed the dataset"; });
    }
}

// values far out in huge sparse datasets
static void sparse() {
    const std::vector<FmtCase> fmts = {{"n5", false, 2, {}}, {"zarr2", true, 2, {}}, {"zarr3", true, 3, {}}, {"sharded", true, 3, {10}}};
    std::vector<std::size_t> bases;
    for(int p : {31, 32, 33, 53, 62}) bases.push_back((std::size_t) 1 << p);
    for(auto & f : fmts) for(std::size_t base : bases) for(int ax = 0; ax < 2; ++ax) {
        const std::string id = std::string("sparse:") + f.name + ":" + std::to_string(base) + ":" + std::to_string(ax);
        if(!ctx.want(id)) continue;
        const std::string root = ctx.scratch + "/sparse";
        tree::wipe(root);
        z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
        z5::createFile(file, f.zarr, f.fmt);
        S shape{3, 3}, chunk{2, 2}, shard;
        shape[ax] = base + 13; chunk[ax] = 5;
        if(!f.shard.empty()) { shard = S{4, 4}; shard[ax] = 10; }
        auto ds = z5::createDataset(file, "d", "int64", shape, chunk, "raw", z5::types::CompressionOptions(), 0,
                                    f.fmt == 3 ? "/" : ".", f.fmt, "default", shard);
        // windows around the base: write each window with its own value, read window and neighbourhood
        std::map<std::pair<std::size_t, std::size_t>, int64_t> model;
        int64_t tag = 1;
        for(std::size_t o = base - 6; o < base + 13; o += 4) for(std::size_t n : {1, 3, 7}) {
            if(o + n > base + 13) continue;
            S off{1, 1}, sh{2, 2};
            off[ax] = o; sh[ax] = n;
            std::vector<int64_t> v(sh[0] * sh[1]);
            S p(2, 0);
            do { const int64_t x = tag++; v[p[0] * sh[1] + p[1]] = x; model[{off[0] + p[0], off[1] + p[1]}] = x; } while(mc::next(p, sh));
            z5::multiarray::writeSubarray<int64_t>(*ds, z5::multiarray::makeView((const int64_t *) v.data(), sh), off.begin(), 1 + (n == 7));
            ++ctx.count["sparse_writes"];
            // read everything near
            S ro{0, 0}, rs{3, 3};
            ro[ax] = base - 8; rs[ax] = 21;
            std::vector<int64_t> r(rs[0] * rs[1], -1);
            z5::multiarray::readSubarray<int64_t>(*ds, z5::multiarray::makeView(r.data(), rs), ro.begin());
            S q(2, 0);
            bool ok = true;
            do {
                auto it = model.find({ro[0] + q[0], ro[1] + q[1]});
                ok = ok && r[q[0] * rs[1] + q[1]] == (it == model.end() ? 0 : it->second);
            } while(mc::next(q, rs));
            if(!ctx.check(ok, "sparse-values", [&]{ return "wrong values far out: " + id + " after writing " + mc::str(off) + "+" + mc::str(sh); })) break;
        }
        // the start of the array is untouched
        S ro{0, 0}, rs{2, 2};
        std::vector<int64_t> r(4, -1);
        z5::multiarray::readSubarray<int64_t>(*ds, z5::multiarray::makeView(r.data(), rs), ro.begin());
        ctx.check(r == std::vector<int64_t>(4, 0), "sparse-alias", [&]{ return "a far-out write is visible at the start of the array: " + id; });
        ctx.sample(id);
    }
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool T = ctx.thorough;
    geometrySmall("1d", S{T ? 40ul : 20ul}, T ? 41 : 21, true);
    geometrySmall("2d", T ? S{9, 9} : S{7, 7}, T ? 10 : 8, true);
    geometrySmall("3d", T ? S{5, 5, 4} : S{4, 4, 4}, T ? 6 : 4, true);
    geometrySmall("4d", T ? S{3, 3, 3, 3} : S{3, 2, 3, 2}, T ? 3 : 3, true);
    geometrySmall("5d", T ? S{2, 2, 3, 2, 2} : S{2, 2, 2, 2, 2}, 2, true);
    geometryFar();
    geometryLarge();
    requests();
    sparse();
    return ctx.finish();
}
