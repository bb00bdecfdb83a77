// C++-side observation log.  Everything the oracle learns about what really arrived in C++ (and
// everything C++ hands back) goes through here; it is reached with ctypes, never through pybindgen.
#ifndef VFLOG_H
#define VFLOG_H
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdint.h>
#include <mutex>

namespace vf {

struct State {
    std::mutex mtx;
    std::string log;
    std::deque<std::string> queue;      // values C++ is to hand out (out params, return values)
    std::deque<std::string> cstrs;      // storage that backs returned const char* / std::string&
    std::map<std::string, long> live;   // live instances per class tag
    std::map<std::string, long> made;
    std::set<const void*> alive;        // addresses of live tracked instances
    long bad;                           // lifetime errors (double destruction, use after destruction)
    std::string badmsg;
    long events;
    State() : bad(0), events(0) {}
};
State &S();

inline std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string o; o.reserve(s.size()*2);
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; o += d[c>>4]; o += d[c&15]; }
    return o;
}
inline std::string unhex(const std::string &s) {
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) {
        char b[3] = { s[i], s[i+1], 0 };
        o += (char) strtol(b, 0, 16);
    }
    return o;
}
inline void ev(const std::string &line) {
    std::lock_guard<std::mutex> g(S().mtx);
    S().events++;
    S().log += line; S().log += '\n';
}

// ---- encoding of values
#define VF_SIGNED(T)   inline std::string enc(T v) { char b[40]; snprintf(b, sizeof b, "I%lld", (long long) v); return b; }
#define VF_UNSIGNED(T) inline std::string enc(T v) { char b[40]; snprintf(b, sizeof b, "I%llu", (unsigned long long) v); return b; }
VF_SIGNED(signed char) VF_SIGNED(short) VF_SIGNED(int) VF_SIGNED(long) VF_SIGNED(long long)
VF_UNSIGNED(unsigned char) VF_UNSIGNED(unsigned short) VF_UNSIGNED(unsigned int) VF_UNSIGNED(unsigned long) VF_UNSIGNED(unsigned long long)
inline std::string enc(char v) { char b[16]; snprintf(b, sizeof b, "c%d", (int) (unsigned char) v); return b; }
inline std::string enc(bool v) { unsigned char raw; memcpy(&raw, &v, 1); char b[16]; snprintf(b, sizeof b, "B%d", (int) raw); return b; }
inline std::string enc(float v) { uint32_t u; memcpy(&u, &v, 4); char b[24]; snprintf(b, sizeof b, "F%08x", u); return b; }
inline std::string enc(double v) { uint64_t u; memcpy(&u, &v, 8); char b[32]; snprintf(b, sizeof b, "D%016llx", (unsigned long long) u); return b; }
inline std::string enc(const std::string &v) { return "S" + hex(v); }
inline std::string enc(const char *v) { return v ? "S" + hex(v) : std::string("N"); }

template <class T> struct Dec;
#define VF_DEC_S(T) template <> struct Dec<T> { static T get(const std::string &s) { return (T) strtoll(s.c_str()+1, 0, 10); } };
#define VF_DEC_U(T) template <> struct Dec<T> { static T get(const std::string &s) { return (T) strtoull(s.c_str()+1, 0, 10); } };
VF_DEC_S(signed char) VF_DEC_S(short) VF_DEC_S(int) VF_DEC_S(long) VF_DEC_S(long long)
VF_DEC_U(unsigned char) VF_DEC_U(unsigned short) VF_DEC_U(unsigned int) VF_DEC_U(unsigned long) VF_DEC_U(unsigned long long)
template <> struct Dec<char> { static char get(const std::string &s) { return (char) atoi(s.c_str()+1); } };
template <> struct Dec<bool> { static bool get(const std::string &s) { return s == "B1"; } };
template <> struct Dec<float> { static float get(const std::string &s) { uint32_t u = (uint32_t) strtoul(s.c_str()+1, 0, 16); float f; memcpy(&f, &u, 4); return f; } };
template <> struct Dec<double> { static double get(const std::string &s) { uint64_t u = strtoull(s.c_str()+1, 0, 16); double f; memcpy(&f, &u, 8); return f; } };
template <> struct Dec<std::string> { static std::string get(const std::string &s) { return unhex(s.substr(1)); } };

inline std::string pop() {
    std::lock_guard<std::mutex> g(S().mtx);
    if (S().queue.empty()) { S().log += "QUEUE-EMPTY\n"; return "I0"; }
    std::string v = S().queue.front(); S().queue.pop_front(); return v;
}
template <class T> inline T take() { return Dec<T>::get(pop()); }
template <> inline const char *take<const char *>() {
    std::string v = pop();
    if (v == "N") return NULL;
    S().cstrs.push_back(unhex(v.substr(1)));
    if (S().cstrs.size() > 64) S().cstrs.pop_front();
    return S().cstrs.back().c_str();
}
template <> inline char *take<char *>() { return const_cast<char *>(take<const char *>()); }
inline const std::string &take_ref() {
    S().cstrs.push_back(take<std::string>());
    if (S().cstrs.size() > 64) S().cstrs.pop_front();
    return S().cstrs.back();
}
// a value that was never written to: what an uninitialised "out" argument may hold is not looked at
template <class T> inline void in(const char *name, const T &v) { ev(std::string("in ") + name + " " + enc(v)); }
inline void in(const char *name, const char *v) { ev(std::string("in ") + name + " " + enc(v)); }
inline void in(const char *name, char *v) { ev(std::string("in ") + name + " " + enc((const char *) v)); }
template <class T> inline void in_arr(const char *name, const T *v, int n) {
    std::string s = std::string("in ") + name + " A";
    for (int i = 0; i < n; i++) { if (i) s += ","; s += enc(v[i]); }
    ev(s);
}
inline void call(const char *name) { ev(std::string("call ") + name); }

// ---- life cycle of instances
inline void born(const char *tag, const void *p) {
    std::lock_guard<std::mutex> g(S().mtx);
    S().live[tag]++; S().made[tag]++; S().events++;
    if (!S().alive.insert(p).second) { S().bad++; S().badmsg += std::string("constructed twice: ") + tag + "\n"; }
}
inline void died(const char *tag, const void *p) {
    std::lock_guard<std::mutex> g(S().mtx);
    S().live[tag]--; S().events++;
    if (!S().alive.erase(p)) { S().bad++; S().badmsg += std::string("destroyed twice: ") + tag + "\n"; }
}
inline bool is_alive(const void *p) {
    std::lock_guard<std::mutex> g(S().mtx);
    return S().alive.count(p) != 0;
}
inline void touch(const char *tag, const void *p) {   // called by instrumented methods on "this"
    std::lock_guard<std::mutex> g(S().mtx);
    S().events++;
    if (!S().alive.count(p)) { S().bad++; S().badmsg += std::string("used while not alive: ") + tag + "\n"; }
}
struct Track {
    const char *tag;
    Track(const char *t) : tag(t) { born(tag, this); }
    Track(const Track &o) : tag(o.tag) { born(tag, this); }
    Track &operator=(const Track &) { return *this; }
    ~Track() { died(tag, this); }
    void use() const { touch(tag, this); }
};
}

#endif
