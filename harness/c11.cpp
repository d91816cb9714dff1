// C11: the process dies after every prefix of the modifying system calls of every operation, the next write arriving only
// in part: what the operation was not asked to change is as before (for an independent reader and for z5), and running it
// again brings the container to the state of an uninterrupted run. Thorough: the second run dies as well.
#include "fsops.hpp"
#include <errno.h>
mc::Ctx ctx;

int main(int argc, char ** argv) {
    ctx.init(argc, argv);
    std::vector<B> fmts = {"n5", "z2.", "z2/", "z3/", "sh/"}; if(ctx.thorough) { fmts.push_back("v2."); fmts.push_back("sv."); }
    for(auto & fmt : fmts) {
        const Conf c = confOf(fmt);
        const B base = ctx.scratch + "/z5vb";
        tree::wipe(base); std::filesystem::create_directories(base);
        Env e; e.base = base; e.root = base + "/c"; e.c = c;
        build(e.root, c);
        const tree::Snapshot init = tree::snapshot(base);
        const Map initial = logical(base), view0 = z5view(e.root, "c");
        {
            // the two readers agree on the undamaged container
            Map a; for(auto & kv : initial) if(kv.first.compare(0, 5, "attr:") == 0) a[kv.first] = kv.second;
            for(auto & kv : a) { auto it = view0.find(kv.first); if(kv.first.find("c/g/h") == B::npos && kv.first.find("g/e") == B::npos && (it == view0.end() || it->second != kv.second)) { ctx.setCurrent("views"); ctx.violation("views:" + fmt, fmt + ": " + kv.first + " differs between the readers"); } }
        }
        for(auto & op : operations(c)) {
            if(op.touch.empty() && op.name != "removeTrivialChunks") continue;
            const B id = fmt + " " + op.name;
            if(!ctx.want(id)) continue;
            const auto reset = [&](const tree::Snapshot & s) { tree::restore(base, s, tree::snapshot(base)); };
            reset(init); openAll(e);
            fsx::begin(base); B err = errOf([&] { op.run(e); }); fsx::end();
            if(!err.empty()) { ctx.violation("plain:" + id, id + ": " + err); continue; }
            std::vector<fsx::Call> muts; for(auto & t : fsx::trace) if(t.mut) muts.push_back(t);
            const Map want = logical(base);
            if(ctx.samples.size() < 5) { B s = id + ":"; for(auto & t : muts) s += B(" ") + t.fn + "(" + t.path.substr(0, t.path.find(".json.")) + (t.size ? "," + std::to_string(t.size) : B()) + ")"; ctx.sample(s); }
            ctx.gauge["modifying_calls"] = std::max<long long>(ctx.gauge["modifying_calls"], muts.size());
            // the container after dying at one point (in a new process the objects are gone)
            const auto judge = [&](const B & what, const B & sig, int depth) {
                ++ctx.count["states"];
                const Map now = logical(base);
                const B d1 = differ(initial, now, &op);
                ctx.check(d1.empty(), "damage:" + sig, [&] { return id + ": " + what + ": " + d1; });
                if(op.name != "remove file") {
                    const Map v = z5view(e.root, "c"); const B d2 = differ(view0, v, &op);
                    ctx.check(d2.empty(), "view:" + sig, [&] { return id + ": " + what + ": re-opened with z5: " + d2; });
                }
                // what it was changing is old, new or absent as a unit: never a broken document or chunk
                for(auto & kv : now) if(kv.first.find(":bad file") != B::npos || kv.first.compare(0, 7, "broken:") == 0)
                    if(op.name.compare(0, 6, "remove") != 0 || op.name.find("ttribute") != B::npos) ctx.check(false, "torn:" + sig, [&] { return id + ": " + what + ": leaves " + kv.first + ": " + kv.second.substr(0, 100); });
            };
            const auto again = [&](const B & what, const B & sig) {
                if(op.name == "remove file" && !std::filesystem::exists(e.root)) { ++ctx.count["complete"]; return; }
                if(!op.creates.empty() && std::filesystem::exists(base + "/" + op.creates)) {
                    // complete or refused; an incomplete node is removed (by hand, as a user would have to) and created again
                    if(differ(want, logical(base)).empty()) { ++ctx.count["complete"]; return; }
                    tree::wipe(base + "/" + op.creates);
                }
                // datasets that were being removed cannot be opened any more: removal by handle
                B r = errOf([&] {
                    if(op.name == "removeDataset" || op.name.compare(0, 6, "remove") == 0 && op.name.find("ttribute") == B::npos && op.name.find("hunk") == B::npos) {
                        e.file.reset(new zf::File(e.root, z5::FileMode(z5::FileMode::a))); e.g.reset(new zf::Group(*e.file, "g")); e.dh.reset(new zf::Dataset(*e.file, "d"));
                        if(op.name == "removeDataset") { try { e.ds = z5::openDataset(*e.file, "d"); } catch(std::exception &) { e.ds.reset(); } if(e.ds) op.run(e); else if(e.dh->exists()) e.dh->remove(); }
                        else op.run(e);
                    } else { openAll(e); op.run(e); }
                });
                ++ctx.count["transitions"];
                ctx.check(r.empty(), "again:" + sig, [&] { return id + ": " + what + ": running it again fails: " + r; });
                if(r.empty()) {
                    const Map after = logical(base);
                    ctx.check(differ(want, after).empty(), "again-effect:" + sig, [&] { return id + ": " + what + ": after running it again " + differ(want, after); });
                    if(op.name != "remove file") { const Map v = z5view(e.root, "c"); const B d2 = differ(view0, v, &op); ctx.check(d2.empty(), "again-view:" + sig, [&] { return id + ": " + what + ": after running it again and re-opening with z5: " + d2; }); }
                }
            };
            const auto tornLengths = [&](std::size_t n) {
                std::set<long> t{0, 1, (long) n / 2, (long) n - 1, (long) n}; t.insert(-1);
                if(ctx.thorough) for(std::size_t i = 0; i < n; i += n > 200 ? 37 : 1) t.insert(i);
                for(auto it = t.begin(); it != t.end();) if(*it < -1 || *it > (long) n) it = t.erase(it); else ++it;
                return t;
            };
            for(std::size_t k = 0; k <= muts.size(); ++k) {
                const bool w = k < muts.size() && muts[k].kind == fsx::WRITE;
                for(long torn : w ? tornLengths(muts[k].size) : std::set<long>{-1}) {
                    const B what = "dies after " + std::to_string(k) + " of " + std::to_string(muts.size()) + " modifying calls" + (k < muts.size() ? B(" (next: ") + muts[k].fn + (torn >= 0 ? ", " + std::to_string(torn) + " bytes of it written" : B()) + ")" : B());
                    const B sig = id + ":" + (k < muts.size() ? muts[k].fn : "end");
                    reset(init); openAll(e);
                    fsx::begin(base); fsx::dieAfter(k, torn); try { op.run(e); } catch(std::exception &) {} fsx::end();
                    ++ctx.count["transitions"]; ++ctx.count["crash_points"];
                    judge(what, sig, 0);
                    const tree::Snapshot crashed = tree::snapshot(base);
                    again(what, sig);
                    // dying in the second run
                    if((ctx.thorough || torn == -1) && op.creates.empty() && op.name.compare(0, 6, "remove") != 0) for(std::size_t q = 0; q < muts.size() + 2; ++q) {
                        reset(crashed); try { openAll(e); } catch(std::exception &) { break; }
                        fsx::begin(base); fsx::dieAfter(q, -1); try { op.run(e); } catch(std::exception &) {} fsx::end();
                        ++ctx.count["crash_points"];
                        judge(what + ", the second run after " + std::to_string(q), sig, 1);
                        again(what + ", the second run after " + std::to_string(q), sig);
                    }
                }
            }
        }
        e = Env(); tree::wipe(base);
    }
    return ctx.finish();
}
