// C08: every schedule of the thread pool and the parallel loops.
#include "mcrt.hpp"
#include "z5/util/threadpool.hxx"
#include <list>
#include <sstream>

using namespace z5::util;
typedef std::string Str;

// plain memory on purpose: an access that is not ordered by synchronisation is reported as a race
static int cnt[32], busyTid[32], flag[8];
static std::vector<int> pairs;

static Str join(const std::vector<int> & v) { Str s; for(int x : v) s += std::to_string(x) + ","; return s; }

struct Thrower { int item; };
static void body(int tid, int item, int nT, unsigned throwMask) {
    if(tid < 0 || tid >= std::max(1, nT)) throw std::logic_error("thread id " + std::to_string(tid) + " out of range");
    if(busyTid[tid]++) throw std::logic_error("thread id " + std::to_string(tid) + " used by two tasks at a time");
    ++cnt[item];
    --busyTid[tid];
    if(throwMask >> item & 1) throw Thrower{item};
}

static Str none() { return ""; }

static void foreachCase(std::vector<mcrt::Scenario> & out, int nT, int n, unsigned throwMask, int flavour) {
    static const char * names[] = {"count", "pool", "vector", "input iterator", "list", "pool twice"};
    mcrt::Scenario s;
    s.name = Str("parallel_foreach/") + names[flavour] + "|" + std::to_string(nT) + " threads " + std::to_string(n) + " items throwing " + std::to_string(throwMask);
    s.setup = []{ memset(cnt, 0, sizeof cnt); memset(busyTid, 0, sizeof busyTid); };
    s.run = [=]() -> Str {
        auto f = [&](const int tid, const int item) { body(tid, item, nT, throwMask); };
        Str caught = "none";
        try {
            if(flavour == 0) parallel_foreach(nT, n, f);
            else if(flavour == 1) { ThreadPool p(nT); parallel_foreach(p, n, f); }
            else if(flavour == 2) { std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(i); parallel_foreach(nT, v.begin(), v.end(), f); }
            else if(flavour == 3) { Str t; for(int i = 0; i < n; ++i) t += std::to_string(i) + " "; std::istringstream is(t); parallel_foreach(nT, std::istream_iterator<int>(is), std::istream_iterator<int>(), f); }
            else if(flavour == 4) { std::list<int> v; for(int i = 0; i < n; ++i) v.push_back(i); parallel_foreach(nT, v.begin(), v.end(), f); }
            else { ThreadPool p(nT); parallel_foreach(p, n, f); parallel_foreach(p, n, f); }
        }
        catch(const Thrower & t) { caught = "item " + std::to_string(t.item); }
        catch(const std::exception & e) { caught = Str("unexpected: ") + e.what(); }
        Str o = caught + "|";
        // every task must have stopped using cnt by now: these plain accesses would race otherwise
        for(int i = 0; i < n; ++i) { o += std::to_string(cnt[i]) + ","; cnt[i] = -1; }
        for(int t = 0; t < 8; ++t) { if(busyTid[t]) o += " busy"; busyTid[t] = -1; }
        return o;
    };
    s.verify = [=](const Str & o) -> Str {
        const Str caught = o.substr(0, o.find('|'));
        if(o.find("busy") != Str::npos) return "a task was still running at return: " + o;
        std::stringstream ss(o.substr(o.find('|') + 1)); Str x; int i = 0;
        const int want = flavour == 5 ? 2 : 1;
        unsigned ran = 0;
        while(std::getline(ss, x, ',')) { const int c = atoi(x.c_str()); if(c > want || c < 0 || (!throwMask && c != want)) return "item " + std::to_string(i) + " processed " + x + " times: " + o; if(c) ran |= 1u << i; ++i; }
        if(i != n) return "items lost: " + o;
        if(!(ran & throwMask)) { if(caught != "none") return "an exception nobody threw: " + o; if(throwMask) return "a failing item was never processed: " + o; return ""; }
        if(caught.compare(0, 5, "item ") != 0) return "the exception of a failing item was not reported: " + o;
        if(!((ran & throwMask) >> atoi(caught.c_str() + 5) & 1)) return "wrong exception: " + o;
        return "";
    };
    out.push_back(s);
}

static void add(std::vector<mcrt::Scenario> & v, const Str & name, std::function<Str()> run, std::function<Str(const Str &)> verify) {
    v.push_back({name, []{ memset(cnt, 0, sizeof cnt); memset(busyTid, 0, sizeof busyTid); memset(flag, 0, sizeof flag); }, run, verify});
}
static std::function<Str(const Str &)> is(const Str & w) { return [w](const Str & o) { return o == w ? "" : "got '" + o + "', expected '" + w + "'"; }; }
template<class F> static Str caught(F && f) { try { f(); return "ok"; } catch(const std::future_error &) { return "future_error"; } catch(const std::exception & e) { return e.what(); } }

int main(int argc, char ** argv) {
    mc::Ctx ctx; ctx.init(argc, argv);
    std::vector<mcrt::Scenario> v;
    for(int nT : {0, 1, 2, 3}) for(int n : {0, 1, 2, 3, 4, 8}) for(unsigned m : {0u, 1u, 2u, 3u, 0x8u, 0x82u}) {
        if(m >> n || (nT == 3 && n > 4)) continue;
        const bool q = !ctx.thorough;
        if(q && ((nT == 3 && (n > 3 || m > 1)) || (n == 8 && m == 1) || (n == 4 && m == 3))) continue;
        foreachCase(v, nT, n, m, 0);
        if(n == 2 || n == 3) for(int fl : {1, 2, 3, 4}) if(!q || (nT < 3 && (m == 0 || m == 1 || nT < 2) && (n == 3 || fl > 2))) foreachCase(v, nT, n, m, fl);
        if(n == 2 && m == 0) foreachCase(v, nT, n, m, 5);
    }
    for(int nT : {0, 1, 2, 3}) {
        const Str T = "|" + std::to_string(nT) + " workers";
        add(v, "create and destroy" + T, [=]() -> Str { ThreadPool p(nT); return std::to_string(p.nThreads()); }, is(std::to_string(nT)));
        for(int n : {0, 1, 2, 3}) {
            const Str N = T + " " + std::to_string(n) + " tasks";
            if(nT == 3 && n == 3) continue;
            add(v, "enqueue, wait" + N, [=]() -> Str {
                ThreadPool p(nT);
                for(int i = 0; i < n; ++i) p.enqueue([i](int) { ++cnt[i]; });
                p.waitFinished();
                std::vector<int> c(cnt, cnt + n); for(int i = 0; i < n; ++i) cnt[i] = 9;      // nothing may still run
                return join(c);
            }, is(join(std::vector<int>(n, 1))));
            add(v, "futures" + N, [=]() -> Str {
                ThreadPool p(nT);
                std::vector<std::future<int>> f;
                for(int i = 0; i < n; ++i) f.push_back(p.enqueueReturning([i](int) { if(i == 1) throw std::runtime_error("task 1"); return 10 + i; }));
                Str o; for(auto & x : f) { try { o += std::to_string(x.get()) + ","; } catch(std::exception & e) { o += Str(e.what()) + ","; } }
                return o;
            }, is(n == 0 ? "" : n == 1 ? "10," : n == 2 ? "10,task 1," : "10,task 1,12,"));
            add(v, "destroy with queued tasks" + N, [=]() -> Str {
                std::vector<std::future<void>> f;
                { ThreadPool p(nT); for(int i = 0; i < n; ++i) f.push_back(p.enqueue([i](int) { ++cnt[i]; })); }
                Str o; for(int i = 0; i < n; ++i) { o += caught([&]{ f[i].get(); }) + std::to_string(cnt[i]) + ","; cnt[i] = 9; }
                return o;
            }, [=](const Str & o) -> Str {
                std::stringstream ss(o); Str x; int i = 0;
                while(std::getline(ss, x, ',')) { ++i; if(x != "ok1" && !(nT > 0 && x == "future_error0")) return "task outcome " + x + " in " + o; }
                return i == n ? "" : "tasks lost: " + o;
            });
        }
        if(nT == 0) continue;
        for(int n : {1, 2}) add(v, "two enqueuing threads" + T + " " + std::to_string(n) + " tasks each", [=]() -> Str {
            ThreadPool p(nT); Str o[2];
            auto g = [&](int k) { std::vector<std::future<int>> f; for(int i = 0; i < n; ++i) f.push_back(p.enqueueReturning([=](int tid) { ++cnt[k * n + i]; return k * n + i; })); for(auto & x : f) o[k] += std::to_string(x.get()) + ","; };
            std::thread t([&]{ g(1); }); g(0); t.join();
            return o[0] + o[1];
        }, is(n == 1 ? "0,1," : "0,1,2,3,"));
        for(int n : {0, 1, 2}) add(v, "two waiting threads" + T + " " + std::to_string(n) + " tasks", [=]() -> Str {
            ThreadPool p(nT);
            for(int i = 0; i < n; ++i) p.enqueue([i](int) { ++cnt[i]; });
            int a = 0;
            std::thread t([&]{ p.waitFinished(); for(int i = 0; i < n; ++i) a += cnt[i]; });
            p.waitFinished();
            int b = 0; for(int i = 0; i < n; ++i) b += cnt[i];
            t.join();
            return std::to_string(a) + " " + std::to_string(b);
        }, is(std::to_string(n) + " " + std::to_string(n)));
        add(v, "wait twice" + T, [=]() -> Str {
            ThreadPool p(nT);
            p.enqueue([](int) { ++cnt[0]; }); p.waitFinished(); const int a = cnt[0]++;
            p.enqueue([](int) { ++cnt[0]; }); p.waitFinished(); const int b = cnt[0]++;
            return std::to_string(a) + " " + std::to_string(b);
        }, is("1 3"));
        add(v, "task enqueues task, wait" + T, [=]() -> Str {
            ThreadPool p(nT);
            p.enqueue([&](int) { ++cnt[0]; p.enqueue([](int) { ++cnt[1]; }); });
            p.waitFinished();
            const Str o = std::to_string(cnt[0]) + std::to_string(cnt[1]); cnt[0] = cnt[1] = 9;
            return o;
        }, is("11"));
        add(v, "failing task, wait" + T, [=]() -> Str {
            ThreadPool p(nT);
            auto f = p.enqueue([](int) { ++cnt[0]; throw std::runtime_error("boom"); });
            p.waitFinished();
            const int c = cnt[0]++;
            return caught([&]{ f.get(); }) + std::to_string(c);
        }, is("boom1"));
        add(v, "wait while another thread enqueues" + T, [=]() -> Str {
            ThreadPool p(nT);
            std::thread t([&]{ p.enqueue([](int) { ++cnt[0]; }); });
            p.waitFinished();
            t.join();
            p.waitFinished();
            const int c = cnt[0]++;
            return std::to_string(c);
        }, is("1"));
        add(v, "loop and enqueue share a pool" + T, [=]() -> Str {
            ThreadPool p(nT);
            auto f = p.enqueue([](int) { ++cnt[5]; });
            parallel_foreach(p, 2, [&](int, int i) { ++cnt[i]; });
            f.get();
            return std::to_string(cnt[0]) + std::to_string(cnt[1]) + std::to_string(cnt[5]);
        }, is("111"));
        add(v, "exception leaves the pool usable" + T, [=]() -> Str {
            ThreadPool p(nT);
            const Str a = caught([&]{ parallel_foreach(p, 2, [&](int, int i) { ++cnt[i]; if(i == 1) throw std::runtime_error("one"); }); });
            const Str b = caught([&]{ parallel_foreach(p, 2, [&](int, int i) { ++cnt[i]; }); });
            return a + b + std::to_string(cnt[0]) + std::to_string(cnt[1]);
        }, is("oneok22"));
    }
    for(auto & s : v) {
        mcrt::Limits l;
        // quick: two preemptions for up to two workers, fewer for more threads; thorough: one more each
        const bool three = s.name.find("|3 ") != std::string::npos, two = s.name.find("|2 ") != std::string::npos;
        const bool big = s.name.find(" 8 items") != std::string::npos || s.name.find(" 4 items") != std::string::npos || s.name.find(" 3 items") != std::string::npos;
        l.bound = three ? 0 : two && big ? 1 : 2;
        if(ctx.thorough) ++l.bound;
        l.seconds = ctx.thorough ? 25 : 5;
        mcrt::explore(ctx, s, l);
    }
    return ctx.finish();
}
