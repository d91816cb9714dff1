// C03: strided views. Every shape x layout (axis order, padding, interleaving, direction, offset) of
// source and destination, with guard elements everywhere outside the view, against an
// element-by-element reference; then the same layouts through readSubarray / writeSubarray.
#include "mc.hpp"
#include "tree.hpp"
#include "z5/factory.hxx"
#include "z5/filesystem/handle.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/array_util.hxx"
#include "z5/multiarray/array_view.hxx"
#include <algorithm>

typedef z5::types::ShapeType S;
using namespace z5::multiarray;
mc::Ctx ctx;

struct Layout { std::vector<long> strides; long lo = 0, hi = 0; std::string name; };  // lo/hi: reach relative to data

// all layouts of a shape: axis permutations x padding of each axis step x reversed axes x broadcast axes
static std::vector<Layout> layouts(const S & shape, bool broadcast, bool thorough) {
    const int nd = shape.size();
    std::vector<Layout> res;
    std::vector<int> perm(nd);
    for(int i = 0; i < nd; ++i) perm[i] = i;
    if(nd == 0) { res.push_back(Layout{{}, 0, 0, "scalar"}); return res; }
    do {
        // bit 0: interleaved innermost axis; bit k + 1: a padding element after the k-th axis (in memory order)
        const int npads = 1 << nd;
        for(int pads = 0; pads < npads; ++pads) for(int rev = 0; rev < (1 << nd); ++rev) for(int bc = 0; bc < (broadcast ? 1 << nd : 1); ++bc) {
            if(!thorough && nd >= 3 && __builtin_popcount(rev) + __builtin_popcount(bc) > 1) continue;
            if(rev & bc) continue;
            Layout l; l.strides.resize(nd);
            long step = 1;
            for(int k = 0; k < nd; ++k) {
                const int ax = perm[k];
                if(k == 0 && (pads & 1)) step = 2;              // interleaved: every second element
                l.strides[ax] = step;
                step *= std::max<std::size_t>(shape[ax], 1);
                if(k + 1 < nd && (pads & (2 << k))) step += 1;       // padded rows
            }
            for(int ax = 0; ax < nd; ++ax) {
                if(bc & (1 << ax)) l.strides[ax] = 0;
                if(rev & (1 << ax)) l.strides[ax] = -l.strides[ax];
            }
            for(int ax = 0; ax < nd; ++ax) {
                const long r = l.strides[ax] * ((long) shape[ax] - 1);
                if(shape[ax]) { if(r < 0) l.lo += r; else l.hi += r; }
            }
            std::ostringstream o; o << "(";
            for(int ax = 0; ax < nd; ++ax) o << (ax ? "," : "") << l.strides[ax];
            o << ")"; l.name = o.str();
            res.push_back(l);
        }
    } while(std::next_permutation(perm.begin(), perm.end()));
    std::sort(res.begin(), res.end(), [](const Layout & a, const Layout & b) { return a.name < b.name; });
    res.erase(std::unique(res.begin(), res.end(), [](const Layout & a, const Layout & b) { return a.name == b.name; }), res.end());
    return res;
}

static S toS(const std::vector<long> & v) { S s; for(long x : v) s.push_back((std::size_t) x); return s; }

static const int G = 5;     // guard elements on either side

template<class T> struct Buf {
    std::vector<T> mem; long base;
    Buf(const Layout & l) : mem(l.hi - l.lo + 1 + 2 * G), base(G - l.lo) {}
    T * data() { return mem.data() + base; }
};

template<class T> static T val(long i) { return (T)(i * 7 + 3); }

template<class F> static void forIdx(const S & shape, F && f) {
    for(auto n : shape) if(n == 0) return;
    S p(shape.size(), 0);
    if(shape.empty()) { f(p); return; }
    do { f(p); } while(mc::next(p, shape));
}
static long off(const S & p, const Layout & l) { long o = 0; for(std::size_t d = 0; d < p.size(); ++d) o += (long) p[d] * l.strides[d]; return o; }

template<class T> static void pairCheck(const S & shape, const Layout & a, const Layout & b) {
    Buf<T> src(a), dst(b);
    for(std::size_t i = 0; i < src.mem.size(); ++i) src.mem[i] = val<T>(i);
    for(std::size_t i = 0; i < dst.mem.size(); ++i) dst.mem[i] = (T)(200 + i % 50);
    auto want = dst.mem; const auto src0 = src.mem;
    forIdx(shape, [&](const S & p) { want[dst.base + off(p, b)] = src.mem[src.base + off(p, a)]; });
    copyView(ConstArrayView<T>(src.data(), shape, toS(a.strides)), ArrayView<T>(dst.data(), shape, toS(b.strides)));
    ++ctx.count["copies"];
    ctx.check(dst.mem == want && src.mem == src0, "copy", [&]{ return "copyView of shape " + mc::str(shape) + " from strides " + a.name + " to " + b.name
              + " (" + std::to_string(sizeof(T)) + "-byte elements) transferred or touched the wrong elements"; });
}

template<class T> static void viewChecks(const S & shape, bool thorough) {
    auto dsts = layouts(shape, false, thorough), srcs = layouts(shape, true, thorough);
    for(auto & b : dsts) {
        // fill
        Buf<T> dst(b);
        for(std::size_t i = 0; i < dst.mem.size(); ++i) dst.mem[i] = (T)(200 + i % 50);
        auto want = dst.mem;
        forIdx(shape, [&](const S & p) { want[dst.base + off(p, b)] = (T) 91; });
        fillView(ArrayView<T>(dst.data(), shape, toS(b.strides)), (T) 91);
        ++ctx.count["fills"];
        ctx.check(dst.mem == want, "fill", [&]{ return "fillView of shape " + mc::str(shape) + " strides " + b.name + " touched the wrong elements"; });
        for(auto & a : srcs) pairCheck<T>(shape, a, b);
        // sub-views at every offset
        bool zero = false; for(auto n : shape) zero = zero || n == 0;
        if(zero || shape.empty()) continue;
        S o(shape.size(), 0);
        do {
            S room(shape.size()), s(shape.size(), 0);
            for(std::size_t d = 0; d < shape.size(); ++d) room[d] = shape[d] - o[d];
            do {
                S sh(shape.size()); for(std::size_t d = 0; d < shape.size(); ++d) sh[d] = s[d] + 1;
                auto v = subview(ArrayView<T>(dst.data(), shape, toS(b.strides)), o, sh);
                auto cv = subview(ConstArrayView<T>(dst.data(), shape, toS(b.strides)), o, sh);
                ++ctx.count["subviews"];
                ctx.check(v.shape == sh && cv.shape == sh && v.data == dst.data() + off(o, b) && cv.data == v.data && v.strides == toS(b.strides) && cv.strides == v.strides,
                          "subview", [&]{ return "subview " + mc::str(o) + "+" + mc::str(sh) + " of shape " + mc::str(shape) + " strides " + b.name + " is wrong"; });
            } while(mc::next(s, room));
        } while(mc::next(o, shape));
    }
}

// through the dataset API
static void throughDataset(const std::string & fmt, const S & shape, const S & chunk, const S & shard, bool thorough) {
    const int nd = shape.size();
    const bool zarr = fmt != "n5"; const int zf = fmt == "zarr2" || fmt == "n5" ? 2 : 3;
    const std::string id = "ds:" + fmt + ":" + mc::str(shape) + "/" + mc::str(chunk);
    S ro(nd, 0);
    do {
        S room(nd), rs(nd, 0);
        for(int d = 0; d < nd; ++d) room[d] = shape[d] - ro[d];
        do {
            S sh(nd); for(int d = 0; d < nd; ++d) sh[d] = rs[d] + 1;
            if(!ctx.want(id + ":" + mc::str(ro) + "+" + mc::str(sh))) continue;
            const std::string root = ctx.scratch + "/c03_" + fmt;
            tree::wipe(root);
            z5::filesystem::handle::File file(root, z5::FileMode(z5::FileMode::a));
            z5::createFile(file, zarr, zf);
            auto ds = z5::createDataset(file, "d", "int32", shape, chunk, "raw", z5::types::CompressionOptions(), 0, zf == 3 ? "/" : ".", zf, "default", shard);
            auto blank = tree::snapshot(root);
            std::size_t size = 1; for(auto n : shape) size *= n;
            std::vector<int32_t> full(size); for(std::size_t i = 0; i < size; ++i) full[i] = 1000 + i;
            auto lin = [&](const S & p) { std::size_t l = 0; for(int d = 0; d < nd; ++d) l = l * shape[d] + p[d]; return l; };
            writeSubarray<int32_t>(*ds, makeView((const int32_t *) full.data(), shape), S(nd, 0).begin());
            auto have = tree::snapshot(root);
            auto lays = layouts(sh, false, thorough), srcs = layouts(sh, true, thorough);
            // thin out: every layout, but 3d with at most one reversed axis (as above)
            for(int threads : {1, 2}) for(auto & l : lays) {
                if(threads == 2 && &l - &lays[0] > 3) break;
                Buf<int32_t> b(l);
                for(std::size_t i = 0; i < b.mem.size(); ++i) b.mem[i] = -(int) i - 1;
                auto want = b.mem;
                forIdx(sh, [&](const S & p) { S g(nd); for(int d = 0; d < nd; ++d) g[d] = ro[d] + p[d]; want[b.base + off(p, l)] = full[lin(g)]; });
                readSubarray<int32_t>(*ds, ArrayView<int32_t>(b.data(), sh, toS(l.strides)), ro.begin(), threads);
                ++ctx.count["reads"];
                ctx.check(b.mem == want, "read", [&]{ return "reading " + mc::str(ro) + "+" + mc::str(sh) + " of " + id + " into strides " + l.name + " touched or missed elements"; });
            }
            // fill-value path: nothing stored
            tree::restore(root, blank, have);
            for(auto & l : lays) {
                Buf<int32_t> b(l);
                for(std::size_t i = 0; i < b.mem.size(); ++i) b.mem[i] = -(int) i - 1;
                auto want = b.mem;
                forIdx(sh, [&](const S & p) { want[b.base + off(p, l)] = 0; });
                readSubarray<int32_t>(*ds, ArrayView<int32_t>(b.data(), sh, toS(l.strides)), ro.begin(), 1);
                ++ctx.count["reads"];
                ctx.check(b.mem == want, "read-fill", [&]{ return "reading the empty region " + mc::str(ro) + "+" + mc::str(sh) + " of " + id + " into strides " + l.name + " touched or missed elements"; });
            }
            // writes from every layout
            for(auto & l : srcs) {
                tree::restore(root, have, tree::snapshot(root));
                Buf<int32_t> b(l);
                for(std::size_t i = 0; i < b.mem.size(); ++i) b.mem[i] = 5000 + i;
                const auto b0 = b.mem;
                auto want = full;
                forIdx(sh, [&](const S & p) { S g(nd); for(int d = 0; d < nd; ++d) g[d] = ro[d] + p[d]; want[lin(g)] = b.mem[b.base + off(p, l)]; });
                writeSubarray<int32_t>(*ds, ConstArrayView<int32_t>(b.data(), sh, toS(l.strides)), ro.begin(), 1);
                std::vector<int32_t> got(size, -1);
                readSubarray<int32_t>(*ds, makeView(got.data(), shape), S(nd, 0).begin(), 1);
                ++ctx.count["writes"];
                ctx.check(got == want && b.mem == b0, "write", [&]{ return "writing " + mc::str(ro) + "+" + mc::str(sh) + " of " + id + " from strides " + l.name + " stored wrong elements"; });
            }
            ctx.sample(ctx.current);
        } while(mc::next(rs, room));
    } while(mc::next(ro, shape));
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    const bool T = ctx.thorough;
    std::vector<S> hi = {S{7}, S{5, 5}, S{4, 4, 4}};
    if(T) hi = {S{12}, S{7, 7}, S{4, 4, 5}, S{3, 3, 3, 3}};
    else hi.push_back(S{3, 3, 2, 2});
    if(ctx.want("view:0d")) { viewChecks<int32_t>(S{}, T); viewChecks<uint8_t>(S{}, T); viewChecks<double>(S{}, T); }
    // longer runs
    for(std::size_t n = 8; n <= (T ? 200 : 70); n += n < 40 ? 1 : 7) for(S s : {S{n}, S{3, n}, S{n, 2}, S{2, 2, n}}) {
        if(!ctx.want("view:" + mc::str(s)) || (s.size() > 1 && n > 80)) continue;
        auto d = layouts(s, false, false), c = layouts(s, true, false);
        for(auto & b : d) for(auto & a : c) { pairCheck<int32_t>(s, a, b); if(n < 20) { pairCheck<uint8_t>(s, a, b); pairCheck<double>(s, a, b); } }
    }
    for(auto & h : hi) {
        S s(h.size(), 0);                   // extents start at 0: empty views must be no-ops
        do {
            if(!ctx.want("view:" + mc::str(s))) continue;
            viewChecks<int32_t>(s, T || s.size() < 3);
            if(s.size() < 4) { viewChecks<uint8_t>(s, T || s.size() < 3); viewChecks<double>(s, T); }
            ctx.sample(ctx.current);
        } while(mc::next(s, h));
    }
    for(std::string f : {"n5", "zarr2", "zarr3", "sharded"}) {
        auto sh = [&](S s) { return f == "sharded" ? s : S{}; };
        throughDataset(f, S{5}, S{2}, sh(S{4}), true);
        throughDataset(f, S{3, 4}, S{2, 3}, sh(S{4, 3}), true);
        throughDataset(f, S{3, 2, 3}, S{2, 2, 2}, sh(S{2, 2, 4}), T);
        if(T) throughDataset(f, S{5, 5}, S{2, 3}, sh(S{4, 6}), true);
    }
    return ctx.finish();
}
