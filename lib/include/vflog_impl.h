// included by exactly one translation unit of each extension module
#ifndef VFLOG_IMPL_H
#define VFLOG_IMPL_H
#include "vflog.h"
#include <malloc.h>
#include <dlfcn.h>
#define VF_EXPORT extern "C" __attribute__((visibility("default")))
namespace vf { State &S() { static State *s = new State; return *s; } }
VF_EXPORT const char *vf_take_log() {
    static std::string out;
    std::lock_guard<std::mutex> g(vf::S().mtx);
    out.clear(); out.swap(vf::S().log); return out.c_str();
}
VF_EXPORT void vf_push(const char *v) { std::lock_guard<std::mutex> g(vf::S().mtx); vf::S().queue.push_back(v); }
VF_EXPORT long vf_queue_len() { std::lock_guard<std::mutex> g(vf::S().mtx); return (long) vf::S().queue.size(); }
VF_EXPORT void vf_queue_clear() { std::lock_guard<std::mutex> g(vf::S().mtx); vf::S().queue.clear(); }
VF_EXPORT long vf_live(const char *tag) {
    std::lock_guard<std::mutex> g(vf::S().mtx);
    std::map<std::string,long>::iterator i = vf::S().live.find(tag); return i == vf::S().live.end() ? 0 : i->second; }
VF_EXPORT long vf_made(const char *tag) {
    std::lock_guard<std::mutex> g(vf::S().mtx);
    std::map<std::string,long>::iterator i = vf::S().made.find(tag); return i == vf::S().made.end() ? 0 : i->second; }
VF_EXPORT long vf_live_total() {
    std::lock_guard<std::mutex> g(vf::S().mtx);
    long n = 0; for (std::map<std::string,long>::iterator i = vf::S().live.begin(); i != vf::S().live.end(); ++i) n += i->second; return n; }
VF_EXPORT long vf_bad() { std::lock_guard<std::mutex> g(vf::S().mtx); return vf::S().bad; }
VF_EXPORT const char *vf_badmsg() {
    static std::string out;
    std::lock_guard<std::mutex> g(vf::S().mtx);
    out.clear(); out.swap(vf::S().badmsg); return out.c_str(); }
VF_EXPORT long vf_events() { std::lock_guard<std::mutex> g(vf::S().mtx); return vf::S().events; }
VF_EXPORT long vf_heap() { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }
#endif
