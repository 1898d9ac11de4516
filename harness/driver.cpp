// Command interpreter over Partio's public C++ API.
//
//   driver SCRIPT OUT
//
// Reads one command per line from SCRIPT, performs it, and appends one JSON value per
// line to OUT: what the call let its caller observe.  It contains no expectation at all;
// the TLA+ specification judges the observations.
#include <Partio.h>
#include <PartioIterator.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <thread>
#include <atomic>
#include "io/ZIP.h"
#include "files.h"
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define HAS_ASAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  define HAS_ASAN 1
#endif
#ifdef HAS_ASAN
#  include <sanitizer/asan_interface.h>
#endif

using namespace Partio;
typedef std::vector<std::string> Tok;

struct Set { ParticlesInfo* i = nullptr; ParticlesData* d = nullptr; ParticlesDataMutable* m = nullptr; };
static thread_local std::map<std::string, Set> sets;
static thread_local std::map<std::string, ParticleAttribute> ka;   // particle attribute handles
static thread_local std::map<std::string, FixedAttribute> kf;      // fixed attribute handles

static std::string unesc(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%') {
            if (i + 2 < s.size()) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        } else r += s[i];
    }
    return r;
}
static std::string esc(const std::string& s)
{
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (isalnum(c) || c == '_' || c == '.' || c == '-' || c == '/') r += char(c);
        else { snprintf(b, 8, "%%%02x", c); r += b; }
    }
    return r.empty() ? "%" : r;
}
static std::string q(const std::string& s) { return "\"" + esc(s) + "\""; }
static unsigned bitsOf(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static float ofBits(unsigned u) { float f; memcpy(&f, &u, 4); return f; }
static std::string fhex(float f) { char b[16]; snprintf(b, 16, "\"%08x\"", bitsOf(f)); return b; }

// value component token: i<decimal> or f<hex bits>
static void putTok(const std::string& t, void* dst)
{
    if (t[0] == 'i') { int v = (int)strtol(t.c_str() + 1, nullptr, 10); memcpy(dst, &v, 4); }
    else { unsigned v = (unsigned)strtoul(t.c_str() + 1, nullptr, 16); memcpy(dst, &v, 4); }
}
static std::string comp(const void* p, char T)
{
    if (T == 'i') { int v; memcpy(&v, p, 4); return std::to_string(v); }
    float f; memcpy(&f, p, 4); return fhex(f);
}
static std::string vec(const void* p, char T, int c)
{
    std::string r = "[";
    for (int k = 0; k < c; k++) { if (k) r += ","; r += comp((const char*)p + 4 * k, T); }
    return r + "]";
}
static char letter(int type) { return (type == INT || type == INDEXEDSTR) ? 'i' : 'f'; }

struct Need : std::runtime_error { using std::runtime_error::runtime_error; };
static Set& S(const std::string& h)
{
    auto it = sets.find(h);
    if (it == sets.end() || !it->second.i) throw Need("no set " + h);
    return it->second;
}
static ParticlesData& D(const std::string& h) { Set& s = S(h); if (!s.d) throw Need("not data " + h); return *s.d; }
static ParticlesDataMutable& M(const std::string& h) { Set& s = S(h); if (!s.m) throw Need("not mutable " + h); return *s.m; }
static ParticleAttribute& A(const std::string& k) { auto it = ka.find(k); if (it == ka.end()) throw Need("no handle " + k); return it->second; }
static FixedAttribute& F(const std::string& k) { auto it = kf.find(k); if (it == kf.end()) throw Need("no handle " + k); return it->second; }
static int I(const std::string& s) { return (int)strtol(s.c_str(), nullptr, 10); }

template <class ATTR> static std::string info(bool ok, const ATTR& a)
{
    std::ostringstream o;
    if (!ok) return "{\"ok\":false,\"t\":0,\"c\":0,\"n\":\"%\"}";
    o << "{\"ok\":true,\"t\":" << int(a.type) << ",\"c\":" << a.count << ",\"n\":" << q(a.name) << "}";
    return o.str();
}
template <class ATTR> static std::string added(const ATTR& a)
{
    return info(a.type != NONE && a.attributeIndex >= 0, a);
}
static std::string strlist(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += q(v[i]); }
    return r + "]";
}

// FNV-1a over bytes, as hex string: an opaque identity for a column
struct Hash {
    unsigned long long h = 1469598103934665603ULL;
    void add(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } }
    std::string str() const { char b[32]; snprintf(b, 32, "\"%016llx\"", h); return b; }
};

static std::string schemaA(const ParticlesInfo& p, const ParticlesData* d)
{
    std::ostringstream o; o << "[";
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; p.attributeInfo(i, a);
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count
          << ",\"s\":" << ((d && a.type == INDEXEDSTR) ? strlist(d->indexedStrs(a)) : "[]") << "}";
    }
    o << "]"; return o.str();
}
static std::string schemaF(const ParticlesInfo& p, const ParticlesData* d)
{
    std::ostringstream o; o << "[";
    for (int i = 0; i < p.numFixedAttributes(); i++) {
        FixedAttribute a; p.fixedAttributeInfo(i, a);
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count
          << ",\"s\":" << ((d && a.type == INDEXEDSTR) ? strlist(d->fixedIndexedStrs(a)) : "[]")
          << ",\"v\":" << (d ? vec(d->fixedData<void>(a), letter(a.type), a.count) : "[]") << "}";
    }
    o << "]"; return o.str();
}
// full literal content
static std::string dump(const ParticlesData& p)
{
    std::ostringstream o;
    o << "{\"n\":" << p.numParticles() << ",\"a\":" << schemaA(p, &p) << ",\"f\":" << schemaF(p, &p) << ",\"d\":[";
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; p.attributeInfo(i, a);
        if (i) o << ",";
        o << "[";
        for (int k = 0; k < p.numParticles(); k++) {
            if (k) o << ",";
            const void* v = p.data<void>(a, k);
            if (v) o << vec(v, letter(a.type), a.count); else o << "[]";
        }
        o << "]";
    }
    o << "]}"; return o.str();
}
// dump with floats scaled to ints (round to nearest), for geometric properties
static std::string dumps(const ParticlesData& p, double sc)
{
    std::ostringstream o;
    o << "{\"n\":" << p.numParticles() << ",\"a\":" << schemaA(p, &p) << ",\"d\":[";
        for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; p.attributeInfo(i, a); o << (i ? ",[" : "[");
            for (int k = 0; k < p.numParticles(); k++) { o << (k ? ",[" : "["); for (int c = 0; c < a.count; c++) { if (c) o << ",";
                if (letter(a.type) == 'i') o << p.data<int>(a, k)[c]; else { double v = p.data<float>(a, k)[c]; v = std::floor(v * sc + .5); if (!(std::fabs(v) < 2e9)) v = -1999999999; o << (long)v; } } o << "]"; }
            o << "]"; }
        o << "]}"; return o.str(); 
}
static std::string g6(float f) { char b[64]; snprintf(b, 64, "%g", (double)f); return b; }
// per column, several opaque digests:
//   x  exact bits             g  every float as its 6 significant digit decimal
//   z  0-componentwise first  n  numeric value (ints and tokens as doubles, floats as doubles)
//   s  strings denoted by tokens
static std::string columns(const ParticlesData& p)
{
    std::ostringstream o;
    o << "{\"n\":" << p.numParticles() << ",\"a\":[";
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; p.attributeInfo(i, a);
        Hash x, g, nu, s, first;
        const std::vector<std::string>* tab = a.type == INDEXEDSTR ? &p.indexedStrs(a) : nullptr;
        for (int k = 0; k < p.numParticles(); k++) {
            const char* v = (const char*)p.data<void>(a, k);
            x.add(v, 4 * a.count);
            for (int c = 0; c < a.count; c++) {
                double dv;
                if (letter(a.type) == 'i') { int t; memcpy(&t, v + 4 * c, 4); dv = t; std::string w = std::to_string(t); g.add(w.c_str(), w.size() + 1);
                    if (tab) { std::string u = (t >= 0 && t < (int)tab->size()) ? (*tab)[t] : "<" + w + ">"; s.add(u.c_str(), u.size() + 1); } }
                else { float f; memcpy(&f, v + 4 * c, 4); dv = f; std::string w = g6(f); g.add(w.c_str(), w.size() + 1); }
                nu.add(&dv, 8);
                if (c == 0) first.add(&dv, 8);
            }
        }
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count
          << ",\"s\":" << (tab ? strlist(*tab) : "[]")
          << ",\"x\":" << x.str() << ",\"g\":" << g.str() << ",\"u\":" << nu.str() << ",\"z\":" << s.str() << ",\"h\":" << first.str() << "}";
    }
    o << "],\"f\":[";
    for (int i = 0; i < p.numFixedAttributes(); i++) {
        FixedAttribute a; p.fixedAttributeInfo(i, a);
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count
          << ",\"s\":" << (a.type == INDEXEDSTR ? strlist(p.fixedIndexedStrs(a)) : "[]")
          << ",\"v\":" << vec(p.fixedData<void>(a), letter(a.type), a.count) << "}";
    }
    o << "]}"; return o.str();
}
static std::string headers(const ParticlesInfo& p)
{
    std::ostringstream o;
    o << "{\"n\":" << p.numParticles() << ",\"a\":[";
    for (int i = 0; i < p.numAttributes(); i++) {
        ParticleAttribute a; bool ok = p.attributeInfo(i, a); ParticleAttribute b; bool ok2 = p.attributeInfo(a.name.c_str(), b);
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count << ",\"k\":" << ((ok && ok2 && b.name == a.name && b.type == a.type && b.count == a.count) ? "true" : "false") << "}";
    }
    o << "],\"f\":[";
    for (int i = 0; i < p.numFixedAttributes(); i++) {
        FixedAttribute a; bool ok = p.fixedAttributeInfo(i, a); FixedAttribute b; bool ok2 = p.fixedAttributeInfo(a.name.c_str(), b);
        if (i) o << ",";
        o << "{\"n\":" << q(a.name) << ",\"t\":" << int(a.type) << ",\"c\":" << a.count << ",\"k\":" << ((ok && ok2 && b.name == a.name && b.type == a.type && b.count == a.count) ? "true" : "false") << "}";
    }
    o << "]}"; return o.str();
}
static thread_local std::map<std::string, ZipFileWriter*> zw; static thread_local std::map<std::string, std::ostream*> zo;
static thread_local std::map<std::string, ZipFileReader*> zr; static thread_local std::map<std::string, std::istream*> zs;
static std::string hexOf(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static void releaseAll()
{
    for (auto& x : zo) delete x.second;
    for (auto& x : zw) delete x.second;
    for (auto& x : zs) delete x.second;
    for (auto& x : zr) delete x.second;
    zo.clear(); zw.clear(); zs.clear(); zr.clear();
    for (auto& s : sets) if (s.second.i) s.second.i->release();
    sets.clear(); ka.clear(); kf.clear();
}
static std::map<std::string, std::string> rename(const Tok& t, size_t at)
{
    std::map<std::string, std::string> r; int n = I(t.at(at));
    for (int i = 0; i < n; i++) r[unesc(t.at(at + 1 + 2 * i))] = unesc(t.at(at + 2 + 2 * i));
    return r;
}
static thread_local std::map<std::string, const void*> marks;   // remembered raw addresses, or numbers of watched ones
#if defined(HAS_ASAN) || defined(__SANITIZE_THREAD__)
static const void* watch(const void* p) { return p; }
static void unwatch() {}
static bool freed(const void* p)
{
#ifdef HAS_ASAN
    return __asan_address_is_poisoned(p);
#else
    return false;
#endif
}
#else
// without the address sanitizer addresses are used again: what is watched is told by operator delete
static const void* watched[4096]; static size_t nwatched;
static const void* watch(const void* p) { if (nwatched == 4096) throw Need("watch"); watched[nwatched++] = p; return (const void*)nwatched; }
static void unwatch() { nwatched = 0; }
static bool freed(const void* m) { return !watched[(size_t)m - 1]; }
static void gone(void* p) { if (p) for (size_t k = 0; k < nwatched; k++) if (watched[k] == p) watched[k] = nullptr; free(p); }
void operator delete(void* p) noexcept { gone(p); }
void operator delete(void* p, size_t) noexcept { gone(p); }
#endif

template <class IT> static std::string iterate(IT it, IT end, std::vector<ParticleAccessor>& acc, const Tok& Ts, const std::vector<int>& cs, const std::vector<long>& obs, bool postfix = false)
{
    for (auto& a : acc) it.addAccessor(a);
    long steps = 0, first = -1; bool consecutive = true; size_t prev = 0;
    std::map<long, std::string> seen;
    for (; it != end; postfix ? (void)it++ : (void)++it) {
        if (steps == 0) first = (long)it.index; else if (it.index != prev + 1) consecutive = false;
        prev = it.index;
        if (std::find(obs.begin(), obs.end(), (long)it.index) != obs.end()) {
            std::string v = "[";
            for (size_t k = 0; k < acc.size(); k++) { if (k) v += ","; v += vec(acc[k].template raw<char>(it), Ts[k][0], cs[k]); }
            seen[(long)it.index] = v + "]";
        }
        if (++steps > 3000000) break;
    }
    std::ostringstream o;
    o << "{\"steps\":" << steps << ",\"first\":" << first << ",\"cons\":" << (consecutive ? "true" : "false") << ",\"vals\":[";
    for (size_t i = 0; i < obs.size(); i++) { if (i) o << ","; auto f = seen.find(obs[i]); o << (f == seen.end() ? "[]" : f->second); }
    o << "]}";
    return o.str();
}

static std::string yes(bool b) { return b ? "true" : "false"; }
static std::string statOf(const std::string& p)
{
    hf::Stat s = hf::stat_(p);
    return "\"ex\":" + yes(s.ex) + ",\"gz\":" + yes(s.gz) + ",\"valid\":" + yes(s.valid) + ",\"dig\":\"" + s.dig + "\"";
}
static std::string base; static thread_local int runs;   // every program runs in a fresh directory below base
static thread_local std::string prefix;      // put before every path (when several threads run)
static std::string P(const std::string& s) { return prefix + unesc(s); }
static void freshDir()
{
    std::string d = base + "/r";
    if (runs++) std::filesystem::remove_all(d);
    std::filesystem::create_directories(d);
    if (chdir(d.c_str())) throw std::runtime_error("chdir");
}

static thread_local unsigned rngState;
static unsigned rng() { rngState = rngState * 1664525u + 1013904223u; return rngState >> 4; }

#ifdef HAS_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
// what the process holds once every object has been given back: bytes of memory, open files
static std::string held()
{
    releaseAll(); marks.clear(); unwatch(); freshDir();
    long files = 0; { std::error_code e; for (auto it = std::filesystem::directory_iterator("/proc/self/fd", e); it != std::filesystem::directory_iterator(); ++it) files++; }
    long bytes = 0;
#ifdef HAS_ASAN
    bytes = (long)__sanitizer_get_current_allocated_bytes();
#endif
    return "[" + std::to_string(bytes) + "," + std::to_string(files) + "]";
}

static std::string run(const Tok& t)
{
    const std::string& op = t[0];
    std::ostringstream o;
    if (op == "reset") { releaseAll(); marks.clear(); unwatch(); freshDir(); return "0"; }
    if (op == "mem") return held();
    if (op == "new") { Set s; s.m = t.at(2) == "inter" ? createInterleave() : create(); s.d = s.m; s.i = s.m; sets[t[1]] = s; return "0"; }
    if (op == "rel") { S(t.at(1)).i->release(); sets.erase(t[1]); return "0"; }
    if (op == "addA") { ParticleAttribute a = M(t.at(1)).addAttribute(unesc(t.at(3)).c_str(), (ParticleAttributeType)I(t.at(4)), I(t.at(5))); if (a.type != NONE && a.attributeIndex >= 0) ka[t[2]] = a; return added(a); }
    if (op == "addF") { FixedAttribute a = M(t.at(1)).addFixedAttribute(unesc(t.at(3)).c_str(), (ParticleAttributeType)I(t.at(4)), I(t.at(5))); if (a.type != NONE && a.attributeIndex >= 0) kf[t[2]] = a; return added(a); }
    if (op == "nameA") { ParticleAttribute a; bool ok = S(t.at(1)).i->attributeInfo(unesc(t.at(3)).c_str(), a); if (ok) ka[t[2]] = a; return info(ok, a); }
    if (op == "idxA") { ParticleAttribute a; bool ok = S(t.at(1)).i->attributeInfo(I(t.at(3)), a); if (ok) ka[t[2]] = a; return info(ok, a); }
    if (op == "nameF") { FixedAttribute a; bool ok = S(t.at(1)).i->fixedAttributeInfo(unesc(t.at(3)).c_str(), a); if (ok) kf[t[2]] = a; return info(ok, a); }
    if (op == "idxF") { FixedAttribute a; bool ok = S(t.at(1)).i->fixedAttributeInfo(I(t.at(3)), a); if (ok) kf[t[2]] = a; return info(ok, a); }
    if (op == "cnt") { ParticlesInfo* p = S(t.at(1)).i; o << "[" << p->numParticles() << "," << p->numAttributes() << "," << p->numFixedAttributes() << "]"; return o.str(); }
    if (op == "addP") { ParticleIndex i = M(t.at(1)).addParticle(); return std::to_string((long)i); }
    if (op == "addPs") {
        ParticlesDataMutable& m = M(t.at(1));
        ParticlesDataMutable::iterator it = m.addParticles(I(t.at(2)));
        std::vector<ParticleAccessor> none;
        return iterate(it, m.end(), none, Tok(), std::vector<int>(), std::vector<long>());
    }
    if (op == "set") {   // set H K i v...
        ParticleAttribute& a = A(t.at(2)); std::vector<char> buf(4 * (t.size() - 4) + 1);
        for (size_t k = 4; k < t.size(); k++) putTok(t[k], &buf[4 * (k - 4)]);
        ParticleIndex i = strtoull(t.at(3).c_str(), nullptr, 10);
        if (letter(a.type) == 'i') M(t.at(1)).set<int>(a, i, (const int*)&buf[0]); else M(t.at(1)).set<float>(a, i, (const float*)&buf[0]);
        return "0";
    }
    if (op == "setc") {  // setc H K i j v
        void* p = M(t.at(1)).dataWrite<void>(A(t.at(2)), strtoull(t.at(3).c_str(), nullptr, 10));
        if (p) putTok(t.at(5), (char*)p + 4 * I(t.at(4)));
        return p ? "true" : "false";
    }
    if (op == "get") {   // get H K i T c
        const void* p = D(t.at(1)).data<void>(A(t.at(2)), strtoull(t.at(3).c_str(), nullptr, 10));
        return p ? "{\"ok\":true,\"v\":" + vec(p, t.at(4)[0], I(t.at(5))) + "}" : "{\"ok\":false,\"v\":[]}";
    }
    if (op == "setF") { FixedAttribute& a = F(t.at(2)); std::vector<char> buf(4 * (t.size() - 3) + 1);
        for (size_t k = 3; k < t.size(); k++) putTok(t[k], &buf[4 * (k - 3)]);
        if (letter(a.type) == 'i') M(t.at(1)).setFixed<int>(a, (const int*)&buf[0]); else M(t.at(1)).setFixed<float>(a, (const float*)&buf[0]);
        return "0"; }
    if (op == "getF") return vec(D(t.at(1)).fixedData<void>(F(t.at(2))), t.at(3)[0], I(t.at(4)));
    if (op == "reg") return std::to_string(M(t.at(1)).registerIndexedStr(A(t.at(2)), unesc(t.at(3)).c_str()));
    if (op == "regF") return std::to_string(M(t.at(1)).registerFixedIndexedStr(F(t.at(2)), unesc(t.at(3)).c_str()));
    if (op == "lku") return std::to_string(D(t.at(1)).lookupIndexedStr(A(t.at(2)), unesc(t.at(3)).c_str()));
    if (op == "lkuF") return std::to_string(D(t.at(1)).lookupFixedIndexedStr(F(t.at(2)), unesc(t.at(3)).c_str()));
    if (op == "ren") { M(t.at(1)).setIndexedStr(A(t.at(2)), I(t.at(3)), unesc(t.at(4)).c_str()); return "0"; }
    if (op == "renF") { M(t.at(1)).setFixedIndexedStr(F(t.at(2)), I(t.at(3)), unesc(t.at(4)).c_str()); return "0"; }
    if (op == "strs") return strlist(D(t.at(1)).indexedStrs(A(t.at(2))));
    if (op == "strsF") return strlist(D(t.at(1)).fixedIndexedStrs(F(t.at(2))));
    if (op == "iter") {  // iter H c|m start nK {K T c} nObs idx...
        size_t at = 4; int nk = I(t.at(at++)); std::vector<ParticleAccessor> acc; Tok Ts; std::vector<int> cs; std::vector<long> obs;
        for (int k = 0; k < nk; k++) { acc.push_back(ParticleAccessor(A(t.at(at)))); Ts.push_back(t.at(at + 1)); cs.push_back(I(t.at(at + 2))); at += 3; }
        int no = I(t.at(at++)); for (int k = 0; k < no; k++) obs.push_back(I(t.at(at++)));
        int start = I(t.at(3));
        bool post = t.at(2) == "C" || t.at(2) == "M";
        if (t.at(2) == "c" || t.at(2) == "C") { const ParticlesData& d = D(t.at(1)); return iterate(start < 0 ? d.begin() : d.setupConstIterator(start), d.end(), acc, Ts, cs, obs, post); }
        ParticlesDataMutable& m = M(t.at(1)); return iterate(start < 0 ? m.begin() : m.setupIterator(start), m.end(), acc, Ts, cs, obs, post);
    }
    if (op == "iterw") { // iterw H K c start nW {idx v*c}
        ParticlesDataMutable& m = M(t.at(1)); ParticleAccessor acc(A(t.at(2))); int c = I(t.at(3)), start = I(t.at(4)), nw = I(t.at(5)); size_t at = 6;
        std::map<long, Tok> w; for (int k = 0; k < nw; k++) { long idx = I(t.at(at++)); Tok v; for (int j = 0; j < c; j++) v.push_back(t.at(at++)); w[idx] = v; }
        ParticlesDataMutable::iterator it = start < 0 ? m.begin() : m.setupIterator(start), end = m.end(); it.addAccessor(acc);
        long steps = 0;
        for (; it != end; ++it) { auto f = w.find((long)it.index); if (f != w.end()) for (int j = 0; j < c; j++) putTok(f->second[j], acc.raw<char>(it) + 4 * j); if (++steps > 3000000) break; }
        return std::to_string(steps);
    }
    if (op == "mul") {   // mul H K T c sorted n idx...
        int c = I(t.at(4)), n = I(t.at(6)); std::vector<ParticleIndex> idx; for (int k = 0; k < n; k++) idx.push_back(strtoull(t.at(7 + k).c_str(), nullptr, 10));
        std::unique_ptr<char[]> buf(new char[size_t(4) * c * n + 1]); bool sorted = t.at(5) == "1";
        idx.push_back(0);
        ParticleAttribute& a = A(t.at(2));
        if (a.type == INT) D(t.at(1)).data<int>(a, n, &idx[0], sorted, (int*)buf.get());
        else if (a.type == FLOAT) D(t.at(1)).data<float>(a, n, &idx[0], sorted, (float*)buf.get());
        else D(t.at(1)).data<void>(a, n, &idx[0], sorted, (void*)buf.get());
        o << "["; for (int k = 0; k < n; k++) { if (k) o << ","; o << vec(buf.get() + 4 * c * k, t.at(3)[0], c); } o << "]"; return o.str();
    }
    if (op == "asf") {   // asf H K T c sorted n idx...  (T: source type; integral floats are printed as integers for T=i)
        int c = I(t.at(4)), n = I(t.at(6)); std::vector<ParticleIndex> idx; for (int k = 0; k < n; k++) idx.push_back(strtoull(t.at(7 + k).c_str(), nullptr, 10));
        idx.push_back(0);
        std::unique_ptr<float[]> buf(new float[size_t(c) * n + 1]); D(t.at(1)).dataAsFloat(A(t.at(2)), n, &idx[0], t.at(5) == "1", buf.get());
        o << "["; for (int k = 0; k < n; k++) { if (k) o << ","; o << "[";
            for (int j = 0; j < c; j++) { if (j) o << ","; float f = buf[c * k + j]; if (t.at(3) == "f") o << fhex(f); else if (f == std::floor(f) && std::fabs(f) < 2147483648.0f) o << (long)f; else o << -999999999; } o << "]"; }
        o << "]"; return o.str();
    }
    if (op == "clone") { auto mp = rename(t, 4); Set s; s.m = clone(D(t.at(1)), t.at(3) == "1", I(t.at(4)) || t.size() > 5 ? &mp : nullptr); s.d = s.m; s.i = s.m; if (s.m) sets[t[2]] = s; return s.m ? "true" : "false"; }
    if (op == "schema") { auto mp = rename(t, 3); Set s; s.m = cloneSchema(D(t.at(1)), I(t.at(3)) ? &mp : nullptr); s.d = s.m; s.i = s.m; if (s.m) sets[t[2]] = s; return s.m ? "true" : "false"; }
    if (op == "merge") { // merge B D nids id0 id1
        int n = I(t.at(3));
        if (n == 0) merge(M(t.at(1)), D(t.at(2))); else if (n == 1) merge(M(t.at(1)), D(t.at(2)), unesc(t.at(4))); else merge(M(t.at(1)), D(t.at(2)), unesc(t.at(4)), unesc(t.at(5)));
        return "0"; }
    if (op == "sort") { M(t.at(1)).sort(); return "0"; }
    if (op == "box") {   // box H scale x0 y0 z0 x1 y1 z1 npre pre...
        float sc = (float)I(t.at(2)), a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = I(t.at(3 + k)) / sc; b[k] = I(t.at(6 + k)) / sc; }
        std::vector<ParticleIndex> r; int np = I(t.at(9)); for (int k = 0; k < np; k++) r.push_back(I(t.at(10 + k)));
        D(t.at(1)).findPoints(a, b, r);
        o << "["; for (size_t k = 0; k < r.size(); k++) o << (k ? "," : "") << (long)r[k]; o << "]"; return o.str();
    }
    if (op == "near") {  // near H scale x y z N R : all ints in units of 1/scale, squared distances in units of 1/scale^2
        float sc = (float)I(t.at(2)), c[3]; for (int k = 0; k < 3; k++) c[k] = I(t.at(3 + k)) / sc;
        int N = I(t.at(6)); float R = I(t.at(7)) / sc; const ParticlesData& d = D(t.at(1));
        auto unit = [&](float f) { double v = (double)f * sc * sc; return (v == std::floor(v) && std::fabs(v) < 2e9) ? (long)v : -1L; };
        std::vector<ParticleIndex> r; std::vector<float> ds; r.push_back(12345); ds.push_back(-7);
        float rr = d.findNPoints(c, N, R, r, ds);
        std::unique_ptr<ParticleIndex[]> pr(new ParticleIndex[N + 1]); std::unique_ptr<float[]> pd(new float[N + 1]); float fin = -1;
        int cnt = d.findNPoints(c, N, R, pr.get(), pd.get(), &fin);
        o << "{\"p\":["; for (size_t k = 0; k < r.size(); k++) o << (k ? "," : "") << (long)r[k];
        o << "],\"d\":["; for (size_t k = 0; k < ds.size(); k++) o << (k ? "," : "") << unit(ds[k]);
        o << "],\"rok\":" << (rr == R ? "true" : "false") << ",\"cnt\":" << cnt << ",\"q\":["; for (int k = 0; k < cnt && k < N; k++) o << (k ? "," : "") << (long)pr[k];
        o << "],\"e\":["; for (int k = 0; k < cnt && k < N; k++) o << (k ? "," : "") << unit(pd[k]);
        o << "],\"fin\":" << unit(fin) << "}"; return o.str();
    }
    if (op == "cluster") { // cluster H H2 nn radius inside conn density (decimal) -> whole result
        Set s; s.m = computeClustering(&M(t.at(1)), I(t.at(3)), atof(t.at(4).c_str()), atof(t.at(5).c_str()), I(t.at(6)), atof(t.at(7).c_str()));
        s.d = s.m; s.i = s.m; if (!s.m) return "{\"ok\":false}";
        sets[t[2]] = s; return "{\"ok\":true,\"x\":" + dump(*s.d) + ",\"s\":" + dumps(*s.d, 64) + "}"; }
    if (op == "dump") return dump(D(t.at(1)));
    if (op == "dumps") return dumps(D(t.at(1)), atof(t.at(2).c_str()));
    if (op == "cols") return columns(D(t.at(1)));
    if (op == "hdrs") return headers(*S(t.at(1)).i);
    if (op == "fill") {  // fill H seed mode : fully writes every cell with pseudo-random content of the given class
        ParticlesDataMutable& m = M(t.at(1)); rngState = (unsigned)I(t.at(2)); const std::string& mode = t.at(3);
        for (int i = 0; i < m.numAttributes(); i++) { ParticleAttribute a; m.attributeInfo(i, a); int ns = a.type == INDEXEDSTR ? (int)m.indexedStrs(a).size() : 0;
            for (int k = 0; k < m.numParticles(); k++) for (int c = 0; c < a.count; c++) {
                char* p = (char*)m.dataWrite<void>(a, k) + 4 * c; unsigned r = rng(), r2 = rng();
                if (a.type == INDEXEDSTR) { int v = ns ? (int)(r % ns) : 0; memcpy(p, &v, 4); }
                else if (a.type == INT) { int v = (r % 4 == 0) ? (int)(r2 * 16u + r) : (int)(r2 % 2001) - 1000; if (mode == "small") v = (int)(r2 % 2001) - 1000; if (mode == "noise") v = (int)(r * 2654435761u ^ r2 >> 7 ^ r2 << 25); memcpy(p, &v, 4); }
                else { float f;
                    switch (r % 8) {
                        case 0: f = (float)((int)(r2 % 4001) - 2000) / 4; break;
                        case 1: f = (float)((int)(r2 % 2000001) - 1000000) / 977.f; break;
                        case 2: f = 0.f; break;
                        case 3: { // wide exponent range, finite normal
                            unsigned e = 1 + r2 % 253; unsigned u = (r & 0x80000000u) | (e << 23) | ((r * 2654435761u) & 0x7fffff); u ^= (r2 & 1) << 31; f = ofBits(u); break; }
                        case 4: f = mode == "any" ? ofBits((r2 % 5 == 0) ? 0x7f800000u : (r2 % 5 == 1) ? 0xff800000u : (r2 % 5 == 2) ? 0x80000000u : (r2 % 5 == 3) ? (r2 & 0x7fffff) : 0x7f7fffffu) : -1.5f; break;
                        default: f = (float)((int)(r2 % 20001) - 10000) / 10000.f; }
                    if (mode == "small") f = (float)((int)(r2 % 4001) - 2000) / 4;
                    if (mode == "noise") { unsigned u = r * 2654435761u ^ r2 >> 9 ^ r2 << 23; if ((u & 0x7f800000u) == 0x7f800000u) u &= ~0x00800000u; f = ofBits(u); }
                    memcpy(p, &f, 4); } } }
        return "0"; }
    if (op == "touch") { // touch H: reads every cell (memory checks)
        const ParticlesData& p = D(t.at(1)); long n = 0; unsigned acc = 0;
        for (int i = 0; i < p.numAttributes(); i++) { ParticleAttribute a; p.attributeInfo(i, a); for (int k = 0; k < p.numParticles(); k++) { const unsigned char* v = (const unsigned char*)p.data<void>(a, k); if (v) for (int c = 0; c < 4 * a.count; c++) { acc += v[c]; n++; } } }
        for (int i = 0; i < p.numFixedAttributes(); i++) { FixedAttribute a; p.fixedAttributeInfo(i, a); const unsigned char* v = (const unsigned char*)p.fixedData<void>(a); if (v) for (int c = 0; c < 4 * a.count; c++) { acc += v[c]; n++; } }
        volatile unsigned sink = acc; (void)sink; return std::to_string(n >= 0); }
    if (op == "write") { // write H path force verbose
        std::ostringstream es; std::string p = P(t.at(2)); write(p.c_str(), D(t.at(1)), t.at(3) == "1", t.at(4) == "1", es);
        return "{\"msg\":" + yes(!es.str().empty()) + "," + statOf(p) + "}"; }
    if (op == "fstat") return "{" + statOf(P(t.at(1))) + "}";
    if (op == "read") {  // read path H verbose d|c
        std::ostringstream es; Set s; s.m = read(P(t.at(1)).c_str(), t.at(3) == "1", es); s.d = s.m; s.i = s.m; if (s.m) sets[t[2]] = s;
        return "{\"ok\":" + yes(s.m) + ",\"msg\":" + yes(!es.str().empty()) + (s.m ? ",\"x\":" + (t.at(4) == "d" ? dump(*s.m) : columns(*s.m)) : "") + "}"; }
    if (op == "hdr") {
        std::ostringstream es; Set s; s.i = readHeaders(P(t.at(1)).c_str(), t.at(3) == "1", es); if (s.i) sets[t[2]] = s;
        return "{\"ok\":" + yes(s.i) + ",\"msg\":" + yes(!es.str().empty()) + (s.i ? ",\"x\":" + headers(*s.i) : "") + "}"; }
    if (op == "cached") { // cached path H sort verbose d|c: also the handles that hold the same object
        std::ostringstream es; Set s; s.d = readCached(P(t.at(1)).c_str(), t.at(3) == "1", t.at(4) == "1", es); s.i = s.d; std::string same;
        if (s.d) { for (auto& x : sets) if (x.second.i == s.i) same += (same.empty() ? "" : ",") + q(x.first); sets[t[2]] = s; }
        return "{\"ok\":" + yes(s.d) + ",\"msg\":" + yes(!es.str().empty()) + ",\"same\":[" + same + "]" + (s.d ? ",\"x\":" + (t.at(5) == "d" ? dump(*s.d) : columns(*s.d)) : "") + "}"; }
    if (op == "put") { hf::spit(P(t.at(1)), t.at(2) == "-" ? "" : hf::unhex(t.at(2))); return "0"; }
    if (op == "cut") {   // cut path path2 num den off: the first size*num/den+off bytes
        std::string b; hf::slurp(P(t.at(1)), b); long len = std::max(0L, std::min((long)b.size(), (long)b.size() * I(t.at(3)) / I(t.at(4)) + I(t.at(5))));
        hf::spit(P(t.at(2)), b.substr(0, len)); return "{\"len\":" + std::to_string(len) + ",\"of\":" + std::to_string(b.size()) + "}"; }
    if (op == "gzcut") {   // gzcut path path2 num den off level: as cut, but compressed, and broken after those bytes
        std::string b, c; hf::slurp(P(t.at(1)), b); if (b.size() > 1 && (unsigned char)b[0] == 0x1f && (unsigned char)b[1] == 0x8b) { hf::gunzip(b, c); b = c; }
        long len = std::max(0L, std::min((long)b.size(), (long)b.size() * I(t.at(3)) / I(t.at(4)) + I(t.at(5))));
        hf::spit(P(t.at(2)), hf::broken(b.substr(0, len), I(t.at(6)))); return "{\"len\":" + std::to_string(len) + ",\"of\":" + std::to_string(b.size()) + "}"; }
    if (op == "cp") { std::string b; hf::slurp(P(t.at(1)), b); hf::spit(P(t.at(2)), b); return "0"; }
    if (op == "gz") { // gz path path2 level flags: level 10 is the gzip program
        std::string b, c, from = P(t.at(1)), to = P(t.at(2)); hf::slurp(from, b); 
        if (b.size() > 1 && (unsigned char)b[0] == 0x1f && (unsigned char)b[1] == 0x8b) { hf::gunzip(b, c); b = c; }
        if (I(t.at(3)) == 10) { std::string tmp = prefix + "tmp_gz_in"; hf::spit(tmp, b); if (system(("gzip -c -9 < '" + tmp + "' > '" + to + "'").c_str())) throw Need("gzip"); remove(tmp.c_str()); }
        else hf::spit(to, hf::gzip(b, I(t.at(3)), I(t.at(4))));
        return "0"; }
    if (op == "zopenw") { ZipFileWriter* w = nullptr; try { w = new ZipFileWriter(P(t.at(1))); } catch (std::runtime_error&) {} if (w) zw[t.at(2)] = w; return "{\"ok\":" + yes(w) + "}"; }
    if (op == "zadd") { zo[t.at(1)] = zw.at(t[1])->Add_File(unesc(t.at(2))); return "0"; }
    if (op == "zput") { // zput W hex w|p|f : write, put each, write and flush
        std::string b = t.at(2) == "-" ? "" : hf::unhex(t.at(2)); std::ostream& f = *zo.at(t.at(1)); if (t.at(3) == "p") for (char ch : b) f.put(ch); else f.write(b.data(), b.size()); if (t.at(3) == "f") f.flush(); return yes(f.good()); }
    if (op == "zend") { delete zo.at(t.at(1)); zo.erase(t[1]); return "0"; }
    if (op == "zclosew") { delete zw.at(t.at(1)); zw.erase(t[1]); return "0"; }
    if (op == "zopenr") { ZipFileReader* w = nullptr; try { w = new ZipFileReader(P(t.at(1))); } catch (std::runtime_error&) {} if (w) zr[t.at(2)] = w; return "{\"ok\":" + yes(w) + "}"; }
    if (op == "zlist") { std::vector<std::string> v{"old"}; zr.at(t.at(1))->Get_File_List(v); return strlist(v); }
    if (op == "zget") { std::istream* f = zr.at(t.at(1))->Get_File(unesc(t.at(2))); if (f) zs[t.at(3)] = f; return "{\"ok\":" + yes(f) + "}"; }
    if (op == "zread") { // zread S k r|g|l: k bytes (all if negative) by read, get, or through the buffer
        std::istream& f = *zs.at(t.at(1)); int k = I(t.at(2)); std::string b;
        if (t.at(3) == "g") { int ch; while ((k < 0 || (int)b.size() < k) && (ch = f.get()) != EOF) b += (char)ch; }
        else if (k < 0) { char buf[701]; while (f.read(buf, sizeof buf), f.gcount() > 0) b.append(buf, f.gcount()); }
        else if (k > 0) { std::vector<char> buf(k); f.read(buf.data(), k); b.assign(buf.data(), f.gcount()); }
        return "{\"c\":\"" + hexOf(b) + "\",\"eof\":" + yes(!f) + "}"; }
    if (op == "zdone") { delete zs.at(t.at(1)); zs.erase(t[1]); return "0"; }
    if (op == "zcloser") { delete zr.at(t.at(1)); zr.erase(t[1]); return "0"; }
    if (op == "zstd") { std::string b; hf::slurp(P(t.at(1)), b); return "{\"bytes\":\"" + hexOf(b) + "\"}"; }
    if (op == "mkdir") { mkdir(P(t.at(1)).c_str(), 0755); return "0"; }
    if (op == "unlink") { std::string p = P(t.at(1)); if (hf::isdir(p)) rmdir(p.c_str()); else remove(p.c_str()); return "0"; }
    if (op == "raw") { std::string b, c; hf::slurp(P(t.at(1)), b); if (b.size() > 1 && (unsigned char)b[0] == 0x1f && (unsigned char)b[1] == 0x8b) { hf::gunzip(b, c); b = c; } return hf::bgeo(b, esc); }
    if (op == "rib") { std::string b, c; hf::slurp(P(t.at(1)), b); if (b.size() > 1 && (unsigned char)b[0] == 0x1f && (unsigned char)b[1] == 0x8b) { hf::gunzip(b, c); b = c; } return hf::rib(b, esc); }
    if (op == "replace") { // replace path hex: appears or changes at once
        static std::atomic<int> n; std::string tmp = prefix + "tmp_rep" + std::to_string(n++); hf::spit(tmp, t.at(2) == "-" ? "" : hf::unhex(t.at(2))); std::filesystem::rename(tmp, P(t.at(1))); return "0"; }
    if (op == "ptr") { // the object a handle holds, as an opaque number
        return "\"" + std::to_string((unsigned long)(const void*)S(t.at(1)).i) + "\""; }
    if (op == "mark") { marks[t.at(2)] = watch(dynamic_cast<const void*>(S(t.at(1)).i)); return "0"; }
    if (op == "freed") { return freed(marks.at(t.at(1))) ? "true" : "false"; }
    if (op == "print") { // digest of the text printed
        std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf()); print(&D(t.at(1))); std::cout.rdbuf(old); Hash h; std::string s = cap.str(); h.add(s.data(), s.size()); return h.str(); }
    if (op == "tname") { // TypeName / TypeSize
        o << "[" << q(TypeName((ParticleAttributeType)I(t.at(1)))) << "," << TypeSize((ParticleAttributeType)I(t.at(1))) << "]"; return o.str(); }
    throw Need("unknown command " + op);
}

static std::string perform(const std::string& line)
{
    Tok t; std::string w; std::istringstream ss(line); while (ss >> w) t.push_back(w);
    try { return run(t); }
    catch (const Need& e) { return std::string("{\"need\":\"") + esc(e.what()) + "\"}"; }
    catch (const std::exception& e) { return std::string("{\"exception\":\"") + esc(e.what()) + "\"}"; }
}
static std::vector<std::string> slurpLines(const char* f)
{
    std::ifstream in(f); std::vector<std::string> r; std::string line; while (std::getline(in, line)) if (!line.empty()) r.push_back(line);
    return r;
}
// driver -t SCRIPT OUT own|shared: SCRIPT holds the commands of the main thread, then of each thread, separated by
// lines "thread" and followed by what the main thread does at the end after a line "after"; the threads see the sets and handles the main thread left.  Each result is preceded by the numbers
// drawn from a common counter before and after the command.  OUT.k belongs to thread k (0: the main thread).
static int threads(char** argv)
{
    std::vector<std::vector<std::string>> prog(1); std::vector<std::string> after; bool last = false; std::string out = argv[3]; bool own = std::string(argv[4]) == "own";
    for (auto& l : slurpLines(argv[2])) { if (l == "thread") prog.emplace_back(); else if (l == "after") last = true; else if (last) after.push_back(l); else prog.back().push_back(l); }
    base = std::filesystem::absolute(out + ".d").string(); std::filesystem::create_directories(base);
    std::atomic<long> ticket{1}; std::atomic<int> ready{0}; int n = (int)prog.size() - 1;
    std::vector<FILE*> files; for (int k = 0; k <= n; k++) files.push_back(fopen((out + "." + std::to_string(k)).c_str(), "w"));
    auto go = [&](int k) {
        for (auto& l : prog[k]) {
            long a = ticket++; std::string r = perform(l); long b = ticket++;
            fprintf(files[k], "%ld %ld %s\n", a, b, r.c_str()); fflush(files[k]);
        }
    };
    alarm(150); prefix = base + "/"; go(0);
    auto s0 = sets; auto a0 = ka; auto f0 = kf; std::vector<std::thread> th;
    for (int k = 1; k <= n; k++) {
        if (own) std::filesystem::create_directories(base + "/t" + std::to_string(k));
        th.emplace_back([&, k] {
            sets = s0; ka = a0; kf = f0; prefix = own ? base + "/t" + std::to_string(k) + "/" : base + "/";
            ready++; while (ready < n) ;
            go(k);
            for (auto& s : sets) if (!s0.count(s.first) && s.second.i) s.second.i->release();
            fprintf(files[k], "\"end\"\n"); fclose(files[k]); sets.clear();
        });
    }
    for (auto& x : th) x.join();
    prog[0] = after; go(0);
    releaseAll();
    std::filesystem::remove_all(base); fprintf(files[0], "\"end\"\n"); fclose(files[0]);
    return 0;
}

// what calls leave behind on the stack differs from one operation to the next, if asked for
__attribute__((noinline)) static void dirty(unsigned char c)
{
    volatile unsigned char b[100000];
    for (size_t i = 0; i < sizeof(b); i++) b[i] = c;
}
int main(int argc, char** argv)
{
    const char* d = getenv("DRIVER_DIRTY"); unsigned int left = d ? atoi(d) : 0;
    if (argc == 5 && std::string(argv[1]) == "-t") return threads(argv);
    if (argc != 3) return 2;
    FILE* out; std::ifstream in(argv[1]); out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    base = std::filesystem::absolute(std::string(argv[2]) + ".d").string();
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        alarm(25);
        if (left) dirty((left = left * 1103515245 + 12345) >> 16);
        std::string r = perform(line);
        fputs(r.c_str(), out); fputc('\n', out); fflush(out);
    }
    releaseAll();
    if (runs && !chdir(base.c_str())) std::filesystem::remove_all(base);
    fputs("\"end\"\n", out); fclose(out);
    return 0;
}
