// C10: every file system call of every operation fails in turn (every error code, short transfers, premature end), alone,
// persistently from there on, and (thorough) in pairs: the operation raises an error or has its complete effect, and the
// fault-free repetition on the same objects succeeds.
#include "fsops.hpp"
#include <errno.h>
mc::Ctx ctx;

static const char * ename(int a) { return a == fsx::SHORT ? "short" : a == fsx::END ? "end" : a == EIO ? "EIO" : a == EACCES ? "EACCES" : a == ENOSPC ? "ENOSPC" : a == EMFILE ? "EMFILE" : a == EINTR ? "EINTR" : a == EBUSY ? "EBUSY" : a == ELOOP ? "ELOOP" : a == ENOMEM ? "ENOMEM" : a == EDQUOT ? "EDQUOT" : a == EROFS ? "EROFS" : "?"; }
static std::vector<int> answers(int kind) {
    const bool th = ctx.thorough;
    switch(kind) {
        case fsx::PATH: return th ? std::vector<int>{EIO, EACCES, ELOOP, ENOMEM} : std::vector<int>{EIO, EACCES};
        case fsx::OPEN: return {EIO, EACCES, EMFILE};
        case fsx::READ: return {EIO, EINTR, fsx::SHORT, fsx::END};
        case fsx::WRITE: return {EIO, ENOSPC, EINTR, fsx::SHORT};
        case fsx::CLOSEW: return {EIO, ENOSPC};
        case fsx::MKDIR: return th ? std::vector<int>{EIO, ENOSPC, EACCES, EROFS, EDQUOT} : std::vector<int>{EIO, ENOSPC, EACCES};
        case fsx::REMOVE: return {EIO, EACCES, EBUSY};
        case fsx::RENAME: return {EIO, ENOSPC, EACCES};
        case fsx::OPENDIR: return {EIO, EACCES, EMFILE};
        case fsx::READDIR: return {EIO};
        default: return {EIO};
    }
}

struct Run { B result; bool threw = false; };
static Run attempt(const Op & op, Env & e) {
    Run r;
    try { r.result = op.run(e); } catch(std::exception & x) { r.threw = true; r.result = x.what(); }
    ++ctx.count["transitions"];
    return r;
}

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    std::vector<B> fmts = {"n5", "z2.", "z2/", "z3/", "sh/"}; if(ctx.thorough) { fmts.push_back("v2."); fmts.push_back("sv."); }
    for(auto & fmt : fmts) {
        const Conf c = confOf(fmt);
        const B base = ctx.scratch + "/z5vb";
        tree::wipe(base); std::filesystem::create_directories(base);
        Env e; e.base = base; e.root = base + "/c"; e.c = c;
        build(e.root, c);
        const tree::Snapshot init = tree::snapshot(base);
        const Map initial = logical(base);
        for(auto & op : operations(c)) {
            const B id = fmt + " " + op.name;
            if(!ctx.want(id)) continue;
            const auto reset = [&] { tree::restore(base, init, tree::snapshot(base)); openAll(e); };
            // undisturbed
            reset();
            fsx::begin(base); Run r0 = attempt(op, e); fsx::end();
            if(r0.threw) { ctx.violation("plain:" + id, id + ": fails without any fault: " + r0.result); continue; }
            const std::vector<fsx::Call> trace = fsx::trace;
            const Map want = logical(base);
            ctx.check(differ(initial, want, &op).empty(), "scope:" + id, [&] { return id + ": changes something else: " + differ(initial, want, &op); });
            ctx.gauge["calls"] = std::max<long long>(ctx.gauge["calls"], trace.size());
            if(ctx.samples.size() < 4) { B s = id + ":"; for(auto & t : trace) s += B(" ") + t.fn; ctx.sample(s); }
            const auto one = [&](const B & what, const B & sig, const std::function<void()> & arm, bool cleanable = true) {
                reset();
                ++ctx.count["states"];
                fsx::begin(base); arm(); Run r = attempt(op, e); const bool hit = fsx::faulted(); fsx::end();
                if(!hit) { ++ctx.count["not_reached"]; }
                const Map now = logical(base);
                if(!r.threw) {
                    ++ctx.count["completed"];
                    ctx.check(r.result == r0.result, "result:" + sig, [&] { return id + ": " + what + ": returns normally with a different result"; });
                    ctx.check(differ(want, now).empty(), "effect:" + sig, [&] { return id + ": " + what + ": returns normally, but " + differ(want, now) + " compared with the complete effect"; });
                } else {
                    ++ctx.count["reported"]; ctx.outcome(op.name + ": " + r.result.substr(0, 60));
                    // what it was not asked to change is intact, and no half-done state within one unit
                    ctx.check(differ(initial, now, &op).empty(), "damage:" + sig, [&] { return id + ": " + what + ": reports an error, but " + differ(initial, now, &op); });
                }
                // the same objects, without faults (a creation that is complete is not repeated; where even the removal of
                // what it began failed, that is removed by hand)
                if(!op.creates.empty() && !r.threw) return;
                if(!op.creates.empty() && !cleanable) tree::wipe(base + "/" + op.creates);
                Run r2 = attempt(op, e);
                ctx.check(!r2.threw, "retry:" + sig, [&] { return id + ": " + what + " (" + (r.threw ? "reported: " + r.result : B("completed")) + "): the fault-free repetition fails: " + r2.result; });
                if(!r2.threw) {
                    ctx.check(r2.result == r0.result, "retry-result:" + sig, [&] { return id + ": " + what + ": the fault-free repetition returns a different result"; });
                    const Map after = logical(base);
                    ctx.check(differ(want, after).empty(), "retry-effect:" + sig, [&] { return id + ": " + what + ": after the fault-free repetition " + differ(want, after); });
                }
            };
            for(std::size_t i = 0; i < trace.size(); ++i) {
                for(int a : answers(trace[i].kind)) {
                    const B at = "call " + std::to_string(i) + " " + trace[i].fn + "(" + trace[i].path + ") = " + ename(a);
                    one(at, id + ":" + trace[i].fn + ":" + ename(a), [&] { fsx::fault(i, a); });
                    if(ctx.thorough) for(std::size_t j = i + 1; j < trace.size() + 3; ++j)
                        for(int b : {EIO, (int) fsx::SHORT}) one(at + " and call " + std::to_string(j) + " = " + ename(b), id + ":pair:" + trace[i].fn + ":" + ename(a), [&] { fsx::fault(i, a); fsx::fault(j, b == fsx::SHORT && (j >= trace.size() || trace[j].kind != fsx::READ && trace[j].kind != fsx::WRITE) ? EACCES : b); }, false);
                }
                // the disk stays full / the directory unwritable / the descriptors exhausted / everything fails from here on
                const int WRITES = 1 << fsx::WRITE | 1 << fsx::MKDIR | 1 << fsx::CLOSEW | 1 << fsx::TRUNC, MODS = WRITES | 1 << fsx::REMOVE | 1 << fsx::RENAME;
                one("from call " + std::to_string(i) + " on the disk is full", id + ":full", [&] { fsx::failFrom(i, WRITES, ENOSPC); });
                one("from call " + std::to_string(i) + " on nothing can be modified", id + ":readonly", [&] { fsx::failFrom(i, MODS | 1 << fsx::OPEN, EACCES); }, false);
                one("from call " + std::to_string(i) + " on everything fails", id + ":all", [&] { fsx::failFrom(i, ~0, EIO); }, false);
                one("from call " + std::to_string(i) + " on reads are short", id + ":short", [&] { fsx::failFrom(i, 1 << fsx::READ, fsx::SHORT); });
                one("from call " + std::to_string(i) + " on writes are short", id + ":shortw", [&] { fsx::failFrom(i, 1 << fsx::WRITE, fsx::SHORT); });
            }
        }
        e = Env(); tree::wipe(base);
    }
    return ctx.finish();
}
