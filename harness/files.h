// File helpers of the driver: independent inspection and construction of files.
// None of this uses Partio.
#pragma once
#include <zlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <cstring>
#include <cmath>

namespace hf {
typedef std::string S;
inline bool slurp(const S& p, S& o) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::ostringstream s; s << f.rdbuf(); o = s.str(); return true; }
inline void spit(const S& p, const S& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); }
inline bool isdir(const S& p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }
inline bool exists(const S& p) { struct stat st; return !stat(p.c_str(), &st); }
// strict: one gzip member, nothing after it
inline bool gunzip(const S& in, S& o)
{
    z_stream z; memset(&z, 0, sizeof z); if (inflateInit2(&z, 16 + 15) != Z_OK) return false;
    z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); int rc = Z_OK; std::vector<char> b(65536); o.clear();
    while (rc == Z_OK) { z.next_out = (Bytef*)&b[0]; z.avail_out = b.size(); rc = inflate(&z, Z_NO_FLUSH); o.append(&b[0], b.size() - z.avail_out); if (rc == Z_BUF_ERROR) break; if (rc == Z_OK && z.avail_in == 0 && z.avail_out) break; }
    bool ok = rc == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
}
inline S hash(const S& s) { unsigned long long h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } char b[32]; snprintf(b, 32, "%016llx", h); return b; }
struct Stat { bool ex = false, gz = false, valid = false; S dig = "none"; size_t len = 0; };
inline Stat stat_(const S& p)
{
    Stat r; S b; r.ex = exists(p) && !isdir(p); if (!r.ex || !slurp(p, b)) return r;
    r.gz = b.size() >= 2 && (unsigned char)b[0] == 0x1f && (unsigned char)b[1] == 0x8b; S c = b; if (r.gz) r.valid = gunzip(b, c); r.dig = hash(c); r.len = c.size(); return r;
}
inline void le32(S& o, unsigned v) { for (int k = 0; k < 4; k++) o += char(v >> (8 * k)); }
// a gzip file of the given bytes: flags 1 FTEXT 2 FHCRC 4 FEXTRA 8 FNAME 16 FCOMMENT, 32: many flushed blocks
// 64: runs of empty blocks between them, so that whole stretches of input yield nothing
inline S gzip(const S& in, int level, int flags)
{
    S o; int f = flags & 31; o += char(0x1f); o += char(0x8b); o += char(8); o += char(f); le32(o, 0x5f3759df); o += char(level == 9 ? 2 : 0); o += char(3);
    if (f & 4) { S x = "AB"; x += char(5); x += char(0); x += "hello"; o += char(x.size()); o += char(0); o += x; }
    if (f & 8) { o += "some name.ext"; o += char(0); }
    if (f & 16) { o += "a comment, of several words"; o += char(0); }
    if (f & 2) { unsigned c = crc32(crc32(0, 0, 0), (const Bytef*)o.data(), o.size()); o += char(c); o += char(c >> 8); }
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    std::vector<char> b(65536); size_t at = 0; int rc, runs = 0;
    do { size_t n = (flags & 96) ? std::min<size_t>((flags & 32) ? 37 : in.size() / 4 + 1, in.size() - at) : in.size() - at; z.next_in = (Bytef*)in.data() + at; z.avail_in = n; at += n;
        int fl = at == in.size() ? Z_FINISH : Z_FULL_FLUSH;
        do { z.next_out = (Bytef*)&b[0]; z.avail_out = b.size(); rc = deflate(&z, fl); o.append(&b[0], b.size() - z.avail_out); } while (z.avail_out == 0);
        if ((flags & 64) && fl != Z_FINISH && runs++ < 4) for (int k = 0; k < 110 * (runs + 1); k++) { o.append(3, char(0)); o.append(2, char(0xff)); }
    } while (rc != Z_STREAM_END);
    deflateEnd(&z); le32(o, crc32(crc32(0, 0, 0), (const Bytef*)in.data(), in.size())); le32(o, in.size()); return o;
}
// a gzip file whose data stops making sense after the given bytes
inline S broken(const S& in, int level)
{
    S o("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10); z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    std::vector<char> b(65536); z.next_in = (Bytef*)in.data(); z.avail_in = in.size();
    do { z.next_out = (Bytef*)&b[0]; z.avail_out = b.size(); deflate(&z, Z_FULL_FLUSH); o.append(&b[0], b.size() - z.avail_out); } while (z.avail_out == 0);
    deflateEnd(&z); return o + char(7) + "and something else";
}
inline S unhex(const S& h) { S r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }

// ------------------------------------------------ independent BGEO version 5 reader
struct Rd { const S& b; size_t at = 0; bool ok = true; 
    unsigned u(int n) { unsigned v = 0; if (at + n > b.size()) { ok = false; at = b.size(); return 0; } for (int k = 0; k < n; k++) v = (v << 8) | (unsigned char)b[at++]; return v; }
    S str(size_t n) { if (at + n > b.size()) { ok = false; return ""; } S r = b.substr(at, n); at += n; return r; } };
struct At { S n; int t; int c; std::vector<S> s; };
inline std::vector<At> attrs(Rd& r, int n)
{
    std::vector<At> v;
    for (int i = 0; i < n && r.ok; i++) {
        At a; a.n = r.str(r.u(2)); a.c = r.u(2); unsigned h = r.u(4);
        if (h == 4) { a.t = 4; unsigned m = r.u(4); for (unsigned k = 0; k < m && r.ok; k++) a.s.push_back(r.str(r.u(2))); }
        else { a.t = h == 0 ? 2 : h == 1 ? 3 : h == 5 ? 1 : 0; if (!a.t) r.ok = false; for (int k = 0; k < a.c; k++) r.u(4); }
        v.push_back(a);
    }
    return v;
}
template <class ESC> S one(unsigned u, int t, ESC) { char b[16]; if (t == 3 || t == 4) return std::to_string((int)u); snprintf(b, 16, "\"%08x\"", u); return b; }
template <class ESC> S bgeo(const S& b, ESC esc)
{
    Rd r{b}; S bad = "{\"ok\":false}";
    if (r.str(4) != "Bgeo" || r.str(1) != "V" || r.u(4) != 5) return bad;
    unsigned np = r.u(4), npr = r.u(4), pg = r.u(4), prg = r.u(4), na = r.u(4), nv = r.u(4), npa = r.u(4), nf = r.u(4);
    if (!r.ok || npr || pg || prg || nv || npa) return bad;
    std::vector<At> as = attrs(r, na); as.insert(as.begin(), At{"position", 1, 3, {}});
    std::vector<std::vector<S>> d(as.size());
    for (unsigned k = 0; k < np && r.ok; k++) for (size_t i = 0; i < as.size(); i++) {
        S v = "["; for (int c = 0; c < as[i].c; c++) { if (c) v += ","; v += one(r.u(4), as[i].t, esc); } v += "]"; d[i].push_back(v);
        if (i == 0 && r.u(4) != 0x3f800000) return bad; }
    std::vector<At> fs = attrs(r, nf); std::vector<S> fv;
    for (auto& f : fs) { S v = "["; for (int c = 0; c < f.c; c++) { if (c) v += ","; v += one(r.u(4), f.t, esc); } fv.push_back(v + "]"); }
    if (r.u(1) != 0 || r.u(1) != 0xff || !r.ok || r.at != b.size()) return bad;
    auto strs = [&](const At& a) { S v = "["; for (size_t k = 0; k < a.s.size(); k++) v += (k ? ",\"" : "\"") + esc(a.s[k]) + "\""; return v + "]"; };
    S o = "{\"ok\":true,\"x\":{\"n\":" + std::to_string(np) + ",\"a\":[";
    for (size_t i = 0; i < as.size(); i++) o += S(i ? "," : "") + "{\"n\":\"" + esc(as[i].n) + "\",\"t\":" + std::to_string(as[i].t) + ",\"c\":" + std::to_string(as[i].c) + ",\"s\":" + strs(as[i]) + "}";
    o += "],\"f\":[";
    for (size_t i = 0; i < fs.size(); i++) o += S(i ? "," : "") + "{\"n\":\"" + esc(fs[i].n) + "\",\"t\":" + std::to_string(fs[i].t) + ",\"c\":" + std::to_string(fs[i].c) + ",\"s\":" + strs(fs[i]) + ",\"v\":" + fv[i] + "}";
    o += "],\"d\":[";
    for (size_t i = 0; i < as.size(); i++) { o += i ? ",[" : "["; for (size_t k = 0; k < d[i].size(); k++) { if (k) o += ","; o += d[i][k]; } o += "]"; }
    return o + "]}}";
}
// ------------------------------------------------ RIB: parameter lists of the Points calls
template <class ESC> S rib(const S& b, ESC esc)
{
    size_t at = 0, n = b.size(); S bad = "{\"ok\":false,\"p\":[]}";
    // tokens: words, "strings", [ and ]
    std::vector<S> tk;
    while (at < n) {
        char c = b[at];
        if (isspace((unsigned char)c)) { at++; continue; }
        if (c == '"') { size_t e = b.find('"', at + 1); if (e == S::npos) return bad; tk.push_back("\"" + b.substr(at + 1, e - at - 1)); at = e + 1; continue; }
        if (c == '[' || c == ']') { tk.push_back(S(1, c)); at++; continue; }
        size_t e = at; while (e < n && !isspace((unsigned char)b[e]) && b[e] != '[' && b[e] != ']' && b[e] != '"') e++; tk.push_back(b.substr(at, e - at)); at = e;
    }
    S o = "{\"ok\":true,\"p\":["; bool firstp = true; size_t i = 0; if (tk.size() < 2 || tk[0] != "version") return bad;
    int depth = 0;
    while (i < tk.size()) {
        if (tk[i] == "AttributeBegin" || tk[i] == "ResourceBegin" || tk[i] == "MotionBegin") depth++;
        if (tk[i] == "AttributeEnd" || tk[i] == "ResourceEnd" || tk[i] == "MotionEnd") depth--;
        if (tk[i] != "Points") { i++; continue; }
        i++; o += firstp ? "[" : ",["; firstp = false; bool f = true;
        while (i + 1 < tk.size() && tk[i][0] == '"' && tk[i + 1] == "[") {
            S nm = tk[i].substr(1); i += 2; S v = "[", w = "["; bool g = true;
            while (i < tk.size() && tk[i] != "]") { char* e; double x = strtod(tk[i].c_str(), &e); float fl = (float)x; unsigned u; memcpy(&u, &fl, 4); char h[16]; snprintf(h, 16, "\"%08x\"", *e ? 0x7fffffffu : u);
                v += S(g ? "" : ",") + h; w += S(g ? "" : ",") + ((x == std::floor(x) && std::fabs(x) < 2147483649.0 && x < 2147483648.0 && x >= -2147483648.0) ? std::to_string((long)x) : S("999999999")); g = false; i++; }
            if (i >= tk.size()) return bad;
            i++; o += S(f ? "" : ",") + "{\"n\":\"" + esc(nm) + "\",\"v\":" + v + "],\"w\":" + w + "]}"; f = false;
        }
        o += "]";
    }
    if (depth) return bad;
    return o + "]}";
}
}
