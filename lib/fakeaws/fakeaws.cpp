// control of the object store from python (ctypes)
#include "fakeaws.hpp"
#include <cstdlib>
#define API extern "C" __attribute__((visibility("default")))
using Aws::S3::FakeStore;

static void put32(std::string & o, const std::uint32_t v) {o.append(reinterpret_cast<const char *>(&v), 4);}
static std::string keep;

// [length key length value]*
API const char * fs3_dump(const char * bucket, std::size_t * size) {
    auto & s = FakeStore::get(); std::lock_guard<std::mutex> l(s.m);
    keep.clear();
    for(auto & kv : s.buckets[bucket]) {
        put32(keep, kv.first.size()); keep += kv.first;
        put32(keep, kv.second.size()); keep += kv.second;
    }
    *size = keep.size();
    return keep.data();
}
API void fs3_load(const char * bucket, const char * p, std::size_t size) {
    auto & s = FakeStore::get(); std::lock_guard<std::mutex> l(s.m);
    auto & b = s.buckets[bucket];
    b.clear();
    const char * e = p + size;
    auto next = [&]() {std::uint32_t n; std::memcpy(&n, p, 4); p += 4; std::string r(p, n); p += n; return r;};
    while(p < e) {auto k = next(); b[k] = next();}
}
API void fs3_drop(const char * bucket) {auto & s = FakeStore::get(); std::lock_guard<std::mutex> l(s.m); s.buckets.erase(bucket);}
API void fs3_config(int pageSize) {FakeStore::get().pageSize = pageSize;}
API void fs3_fault(long at, int kind) {
    auto & s = FakeStore::get(); std::lock_guard<std::mutex> l(s.m);
    s.requests = 0; s.faultAt = at; s.fault = kind; s.hit = false; s.log.clear();
}
API long fs3_requests() {return FakeStore::get().requests;}
API int fs3_hit() {return FakeStore::get().hit;}
API const char * fs3_log() {auto & s = FakeStore::get(); std::lock_guard<std::mutex> l(s.m); keep = s.log; return keep.c_str();}
