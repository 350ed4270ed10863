// JSON documents: model, generator, independent reader, and a reader built on raw yajl events
#ifndef GEN_JSON_HPP
#define GEN_JSON_HPP
#include "gen_pvd.hpp"
#include <pv/json.h>
#include <yajl_parse.h>
#include <math.h>
namespace gj {
using namespace gp; using namespace epics::pvData;
struct J { enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null; bool b = false; int64_t i = 0; double d = 0; std::string s; /* string, or digits of a number too large for i */ std::vector<std::pair<std::string, J>> kids; };
inline J jk(J::K k) { J j; j.k = k; return j; }
inline J jI(int64_t v) { J j = jk(J::Int); j.i = v; return j; }
inline J jD(double v) { J j = jk(J::Dbl); j.d = v; return j; }
inline J jS(const std::string& v) { J j = jk(J::Str); j.s = v; return j; }
inline J jB(bool v) { J j = jk(J::Bool); j.b = v; return j; }
inline std::string show(const J& j) { std::ostringstream o; switch(j.k) { case J::Null: return "null"; case J::Bool: return j.b ? "true" : "false"; case J::Int: if(!j.s.empty()) return j.s; o << j.i; return o.str(); case J::Dbl: o.precision(17); o << "d" << j.d; return o.str(); case J::Str: return pbt::quote(j.s);
    default: o << (j.k == J::Arr ? "[" : "{"); for(size_t n = 0; n < j.kids.size(); n++) { if(n) o << ","; if(j.k == J::Obj) o << pbt::quote(j.kids[n].first) << ":"; o << show(j.kids[n].second); } o << (j.k == J::Arr ? "]" : "}"); return o.str(); } }
inline bool sameD(double a, double b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
inline bool eqJ(const J& a, const J& b) {
    if(a.k == J::Int && b.k == J::Dbl && a.s.empty()) return (double)a.i == b.d && (int64_t)b.d == a.i; if(a.k == J::Dbl && b.k == J::Int) return eqJ(b, a);  // 5 and 5.0 are one number
    if(a.k != b.k) return false; switch(a.k) { case J::Null: return true; case J::Bool: return a.b == b.b; case J::Int: return a.s == b.s && a.i == b.i; case J::Dbl: return sameD(a.d, b.d); case J::Str: return a.s == b.s; default: if(a.kids.size() != b.kids.size()) return false; for(size_t n = 0; n < a.kids.size(); n++) { if(a.k == J::Obj && a.kids[n].first != b.kids[n].first) return false; if(!eqJ(a.kids[n].second, b.kids[n].second)) return false; } return true; } }

inline void utf8(std::string& o, uint32_t c) { if(c < 0x80) o += (char)c; else if(c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
// ---- independent reader (JSON, or with json5 also unquoted keys, NaN and Infinity and the extra escapes)
struct Bad : std::runtime_error { Bad(const std::string& m) : std::runtime_error(m) {} };
struct Reader { const std::string t; size_t p = 0; bool j5; Reader(const std::string& t_, bool j) : t(t_), j5(j) {}
    void bad(const char* m) { std::ostringstream o; o << m << " at " << p << " in " << pbt::quote(t); throw Bad(o.str()); }
    void ws() { while(p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    int hex(int n) { int v = 0; for(int i = 0; i < n; i++) { if(p >= t.size() || !isxdigit((unsigned char)t[p])) bad("hex digit"); char c = t[p++]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
    std::string str() { std::string o; if(p >= t.size() || t[p] != '"') bad("no string"); p++; for(;;) { if(p >= t.size()) bad("unterminated"); unsigned char c = t[p++]; if(c == '"') return o; if(c < 0x20) bad("raw control character"); if(c != '\\') { o += (char)c; continue; } if(p >= t.size()) bad("escape"); c = t[p++]; switch(c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { uint32_t v = hex(4); if(v >= 0xd800 && v < 0xdc00) { if(t.compare(p, 2, "\\u")) bad("lone surrogate"); p += 2; uint32_t w = hex(4); if(w < 0xdc00 || w > 0xdfff) bad("bad surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } utf8(o, v); break; }
        default: if(!j5) bad("escape"); if(c == 'v') o += '\v'; else if(c == '0') o += '\0'; else if(c == '\'') o += '\''; else if(c == 'x') { int v = hex(2); utf8(o, v); } else bad("escape"); } } }
    J val() { ws(); if(p >= t.size()) bad("no value"); char c = t[p]; J r;
        if(c == '{') { r.k = J::Obj; p++; ws(); if(p < t.size() && t[p] == '}') { p++; return r; } for(;;) { ws(); std::string k; if(j5 && p < t.size() && t[p] != '"') { while(p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_' || t[p] == '$')) k += t[p++]; if(k.empty() || isdigit((unsigned char)k[0])) bad("key"); } else k = str(); ws(); if(p >= t.size() || t[p] != ':') bad("no colon"); p++; J v = val(); r.kids.push_back(std::make_pair(k, v)); ws(); if(p < t.size() && t[p] == ',') { p++; continue; } if(p < t.size() && t[p] == '}') { p++; return r; } bad("no comma"); } }
        if(c == '[') { r.k = J::Arr; p++; ws(); if(p < t.size() && t[p] == ']') { p++; return r; } for(;;) { J v = val(); r.kids.push_back(std::make_pair(std::string(), v)); ws(); if(p < t.size() && t[p] == ',') { p++; continue; } if(p < t.size() && t[p] == ']') { p++; return r; } bad("no comma"); } }
        if(c == '"') return jS(str());
        static const struct { const char* s; J::K k; double d; int b; bool five; } lit[] = {{"null", J::Null, 0, 0, false}, {"true", J::Bool, 0, 1, false}, {"false", J::Bool, 0, 0, false}, {"NaN", J::Dbl, NAN, 0, true}, {"+NaN", J::Dbl, NAN, 0, true}, {"-NaN", J::Dbl, NAN, 0, true}, {"Infinity", J::Dbl, INFINITY, 0, true}, {"+Infinity", J::Dbl, INFINITY, 0, true}, {"-Infinity", J::Dbl, -INFINITY, 0, true}};
        for(auto& l : lit) if((j5 || !l.five) && t.compare(p, strlen(l.s), l.s) == 0) { p += strlen(l.s); r.k = l.k; r.d = l.d; r.b = l.b; return r; }
        size_t q = p; if(p < t.size() && t[p] == '-') p++; size_t d = p; while(p < t.size() && isdigit((unsigned char)t[p])) p++; if(p == d) bad("no number"); if(t[d] == '0' && p > d + 1) bad("leading zero"); bool fl = false; if(p < t.size() && t[p] == '.') { fl = true; p++; size_t e = p; while(p < t.size() && isdigit((unsigned char)t[p])) p++; if(p == e) bad("no fraction"); } if(p < t.size() && (t[p] | 32) == 'e') { fl = true; p++; if(p < t.size() && (t[p] == '+' || t[p] == '-')) p++; size_t e = p; while(p < t.size() && isdigit((unsigned char)t[p])) p++; if(p == e) bad("no exponent"); }
        std::string n(t, q, p - q); if(fl) return jD(strtod(n.c_str(), 0)); errno = 0; r = jI(strtoll(n.c_str(), 0, 10)); if(errno) { r.i = 0; r.s = n; } return r; }
    J all() { J j = val(); ws(); if(p != t.size()) bad("trailing text"); return j; } };

// ---- reader built on yajl's events, given the text in one piece.  false: yajl refuses it
struct Ev { J root; std::vector<J*> st; std::vector<std::string> keys; bool have = false; size_t depth = 0, maxDepth = 0;
    J* put(const J& j) { if(st.empty()) { root = j; have = true; return &root; } J* p = st.back(); p->kids.push_back(std::make_pair(p->k == J::Obj ? keys.back() : std::string(), j)); return &p->kids.back().second; } };
inline bool yajlRead(const std::string& text, J& out, size_t* depth = 0) {
    Ev e; yajl_callbacks cb = { [](void* x) { ((Ev*)x)->put(jk(J::Null)); return 1; }, [](void* x, int b) { ((Ev*)x)->put(jB(b)); return 1; }, [](void* x, long long i) { ((Ev*)x)->put(jI(i)); return 1; }, [](void* x, double d) { ((Ev*)x)->put(jD(d)); return 1; }, 0, [](void* x, const unsigned char* s, size_t n) { ((Ev*)x)->put(jS(std::string((const char*)s, n))); return 1; },
        [](void* x) { Ev* e = (Ev*)x; J* p = e->put(jk(J::Obj)); e->st.push_back(p); e->keys.push_back(""); e->maxDepth = std::max(e->maxDepth, e->st.size()); return 1; }, [](void* x, const unsigned char* s, size_t n) { ((Ev*)x)->keys.back() = std::string((const char*)s, n); return 1; }, [](void* x) { Ev* e = (Ev*)x; e->st.pop_back(); e->keys.pop_back(); return 1; },
        [](void* x) { Ev* e = (Ev*)x; J* p = e->put(jk(J::Arr)); e->st.push_back(p); e->keys.push_back(""); e->maxDepth = std::max(e->maxDepth, e->st.size()); return 1; }, [](void* x) { Ev* e = (Ev*)x; e->st.pop_back(); e->keys.pop_back(); return 1; } };
    yajl_handle h = yajl_alloc(&cb, 0, &e); yajl_config(h, yajl_allow_comments, 1); errno = 0; bool ok = yajl_parse(h, (const unsigned char*)text.data(), text.size()) == yajl_status_ok && yajl_complete_parse(h) == yajl_status_ok; yajl_free(h); if(depth) *depth = e.maxDepth; if(ok && !e.have) ok = false; if(ok) out = e.root; return ok; }

// ---- generators
inline std::string genText(Ctx& c, size_t maxLen = 12) { std::string s; size_t n = c.chance(1, 20) ? c.u(200) : c.u((uint32_t)maxLen + 1); for(size_t i = 0; i < n; i++) switch(c.weighted({10, 3, 2, 2, 2, 1, 1})) { case 0: s += (char)('a' + c.u(26)); break; case 1: s += "\"\\/'{}[]:,#"[c.u(11)]; break; case 2: s += (char)c.u(32); break; case 3: utf8(s, 0x80 + c.u(0x700)); break; case 4: { uint32_t v = 0x800 + c.u(0xf000); if(v >= 0xd800 && v < 0xe000) v = 0x2028 + c.u(2); utf8(s, v); break; } case 5: utf8(s, 0x10000 + c.u(0x100000)); break; default: s += "0123456789 \x7f"[c.u(12)]; } return s; }
struct Render { Ctx& c; std::string o; bool plain; int left; Render(Ctx& c_, bool p) : c(c_), plain(p), left(40) {}
    void sp() { if(plain || left <= 0) return; while(c.chance(1, 4) && left-- > 0) switch(c.weighted({6, 4, 2, 1, 1, 1})) { case 0: o += ' '; break; case 1: o += '\n'; break; case 2: o += '\t'; break; case 3: o += "/* c\n \"} */"; break; case 4: o += "// ] comment\n"; break; default: o += "\r\n"; } }
    void str(const std::string& s) { o += '"'; for(size_t i = 0; i < s.size();) { unsigned char ch = s[i]; char b[16]; size_t n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4; bool u = !plain && c.chance(1, 8); if(n == 1 && !u) { const char* e = strchr("\"\"\\\\\bb\ff\nn\rr\tt", ch); static const char from[] = "\"\\\b\f\n\r\t", to[] = "\"\\bfnrt"; (void)e; const char* f = ch ? strchr(from, ch) : 0; if(f && (ch != '/' )) { o += '\\'; o += to[f - from]; } else if(ch < 0x20) { sprintf(b, "\\u%04x", ch); o += b; } else if(ch == '/' && !plain && c.coin()) o += "\\/"; else o += (char)ch; } else if(!u) o.append(s, i, n); else { uint32_t v = n == 1 ? ch : ch & (0x7f >> n); for(size_t k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); if(v < 0x10000) { sprintf(b, c.coin() ? "\\u%04X" : "\\u%04x", v); o += b; } else { v -= 0x10000; sprintf(b, "\\u%04x\\u%04x", 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)); o += b; } } i += n; } o += '"'; }
    void val(const J& j) { char b[64]; switch(j.k) { case J::Null: o += "null"; break; case J::Bool: o += j.b ? "true" : "false"; break; case J::Int: if(!j.s.empty()) o += j.s; else { sprintf(b, "%lld", (long long)j.i); o += b; } break; case J::Dbl: { sprintf(b, "%.17g", j.d); if(isnan(j.d)) strcpy(b, "NaN"); else if(isinf(j.d)) strcpy(b, j.d < 0 ? "-Infinity" : "Infinity"); else if(!strpbrk(b, ".e")) strcat(b, c.coin() ? ".0" : "e0"); o += b; break; } case J::Str: str(j.s); break;
        default: o += j.k == J::Arr ? '[' : '{'; for(size_t n = 0; n < j.kids.size(); n++) { if(n) { o += ','; } sp(); if(j.k == J::Obj) { str(j.kids[n].first); sp(); o += ':'; sp(); } val(j.kids[n].second); sp(); } sp(); o += j.k == J::Arr ? ']' : '}'; } }
    std::string all(const J& j) { sp(); val(j); sp(); return o; } };
inline std::string render(Ctx& c, const J& j, bool plain = false) { Render r(c, plain); return r.all(j); }
inline double genDouble(Ctx& c) { switch(c.u(5)) { case 0: return (double)(int)c.u(100) - 50; case 1: return ((double)c.u(1000000) - 500000) / 1024; case 2: return ldexp(1.0 + c.u(1000) / 1000.0, (int)c.u(2000) - 1000); case 3: return c.pick(std::vector<double>{0.0, -0.0, 1e22, 1e308, 5e-300, 0.1, 123456789012345680.0, 4294967296.0, -2147483649.0}); default: return -1.5 * c.u(100000); } }
inline int64_t genInt(Ctx& c) { switch(c.u(4)) { case 0: return c.u(10); case 1: return (int64_t)c.u(2000) - 1000; case 2: { static const int64_t e[] = {127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, 1LL << 53, (1LL << 53) + 1}; return e[c.u(20)]; } default: return (int64_t)c.bits(); } }
inline J genTok(Ctx& c, int null = 1) { switch(c.weighted({4, 3, 3, 2, (uint32_t)null})) { case 0: return jI(genInt(c)); case 1: return jD(genDouble(c)); case 2: if(c.chance(1, 2)) { static const char* t[] = {"12", "true", "false", "1.5", "0x1f", "-3", "", "NaN", "abc", "300", "1e3"}; return jS(t[c.u(11)]); } return jS(genText(c)); case 3: return jB(c.coin()); default: return jk(J::Null); } }
} // namespace gj
using namespace gj;
#endif
