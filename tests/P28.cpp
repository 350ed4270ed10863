// P28: statuses and exceptions carry their severity, message and origin
#include "gen_pvd.hpp"
#include <pv/status.h>
#include <pv/epicsException.h>
#include <execinfo.h>
#include <dlfcn.h>
using namespace gp;
using namespace epics::pvData; using std::string; using std::vector;
static bool noSymbols; // backtrace_symbols() finds no memory
extern "C" char** backtrace_symbols(void* const* stack, int n) {
    if(noSymbols) return 0;
    char** r = (char**)malloc(n * (sizeof(char*) + 64)); char* p = (char*)(r + n); for(int i = 0; i < n; i++, p += 64) { r[i] = p; snprintf(p, 64, "frame %d [%p]", i, stack[i]); } return r;
}
namespace {
typedef Status S;
struct MS { int type; string msg, dump; MS(int t = 0, const string& m = "", const string& d = "") : type(t), msg(m), dump(d) {} };
const char* NAMES[] = {"OK", "WARNING", "ERROR", "FATAL"};
string text(const MS& m) { string s = string("Status [type=") + NAMES[m.type]; if(!m.msg.empty()) s += ", message=" + m.msg; if(!m.dump.empty()) s += ", stackDump=\n" + m.dump; return s + "]"; }
void same(const S& s, const MS& m, const char* key, int i) {
    CHECK_EQ((int)s.getType(), m.type, key, "type of status " << i); CHECK_EQ(pbt::quote(s.getMessage()), pbt::quote(m.msg), key, "message of status " << i); CHECK_EQ(pbt::quote(s.getStackDump()), pbt::quote(m.dump), key, "stack of status " << i);
    CHECK_EQ(s.isOK(), m.type == 0, key, "isOK of status " << i); CHECK_EQ(s.isSuccess(), m.type <= 1, key, "isSuccess of status " << i); CHECK_EQ(s ? true : false, m.type <= 1, key, "status " << i << " as condition");
    std::ostringstream a, b, t; s.dump(a); b << s; t << s.getType(); CHECK_EQ(pbt::quote(a.str()), pbt::quote(text(m)), key, "dump of " << i); CHECK_EQ(pbt::quote(b.str()), pbt::quote(text(m)), key, "<< of " << i); CHECK_EQ(t.str(), string(NAMES[m.type]), key, "type name of " << i);
}
string words(Ctx& c) { return c.chance(1, 3) ? string() : genStr(c, 40, true, true); }
PBT_TEST(statuses, 60000, 600000) {
    const int N = 4; S s[N]; MS m[N]; int steps = 1 + c.u(20), did = 0;
    for(int k = 0; k < steps; k++) {
        int a = c.u(N), b = c.u(N); int op = c.weighted({2, 2, 2, 3, 3, 3, 3, 2, 2}); c.desc << op << ":" << a << b << " ";
        switch(op) {
        case 0: { int t = 1 + c.u(3); string x = words(c), y = words(c); s[a] = S((S::StatusType)t, x, y); m[a] = MS(t, x, y); break; }
        case 1: { int t = 1 + c.u(3); string x = words(c); s[a] = S((S::StatusType)t, x); m[a] = MS(t, x); break; }
        case 2: { string x = words(c); switch(c.u(3)) { case 0: s[a] = S::warn(x); m[a] = MS(1, x); break; case 1: s[a] = S::error(x); m[a] = MS(2, x); break; default: s[a] = S::fatal(x); m[a] = MS(3, x); } break; }
        case 3: { s[a].maximize(s[b]); if(m[a].type < m[b].type) m[a] = m[b]; break; }
        case 4: { S& r = s[a] |= s[b]; CHECK(&r == &s[a], "chain", "|= gives another object"); if(m[a].type < m[b].type) m[a] = m[b]; break; }
        case 5: { bool big = c.coin(); Out out(genCap(c), big); s[a].serialize(&out.buf, &out); In in(out.finish(), genCap(c), big, false, &c); s[b].deserialize(&in.buf, &in); CHECK_EQ(in.left(), (size_t)0, "left", "bytes left"); m[b] = m[a].type ? m[a] : MS(); break; }
        case 6: { // made by somebody else, perhaps cut short
            bool big = c.coin(); int t = c.oneOf({0, 1, 2, 3, 0, 0, 255, 4, 127, 128, 254}); string x = words(c), y = words(c); Enc e(big); e.u8(t); if(t != 255) { e.str(x); e.str(y); } size_t cut = c.chance(1, 3) ? c.u(e.b.size()) : e.b.size(); bool whole = cut == e.b.size(); e.b.resize(cut); c.desc << "(" << t << (whole ? "" : " cut") << ") ";
            In in(e.b, genCap(c), big, false, &c);
            if(whole && (t < 4 || t == 255)) { s[a].deserialize(&in.buf, &in); CHECK_EQ(in.left(), (size_t)0, "left", "bytes left"); m[a] = t == 255 ? MS() : MS(t, x, y); }
            else MUST_THROW(s[a].deserialize(&in.buf, &in), "accepts", "type code " << t << " of " << cut << " bytes");
            break; }
        case 7: { if(c.coin()) s[a] = s[b]; else { S t(s[b]); s[a] = t; } m[a] = m[b]; break; }
        default: { string x = words(c); if(c.coin()) MUST_THROW(S(S::STATUSTYPE_OK, x), "ok-with-text", ""); else MUST_THROW(S(S::STATUSTYPE_OK, x, "d"), "ok-with-text", ""); s[a] = c.coin() ? S() : S::Ok; m[a] = MS(); }
        }
        did++; for(int i = 0; i < N; i++) same(s[i], m[i], "status", i);
    }
    CHECK(S::Ok.isOK() && S::Ok.getMessage().empty() && S::Ok.getStackDump().empty(), "ok", "Status::Ok changed"); c.nontrivial(did > 4);
}

// ---- exceptions
struct Two : public std::runtime_error { int n; Two(const string& s, int k) : std::runtime_error(s), n(k) {} virtual ~Two() throw() {} };
struct Derived : public BaseException { explicit Derived(const string& s) : BaseException("D:" + s) {} virtual ~Derived() throw() {} };
struct NoText : public std::exception { const char* what() const throw() { return "no text"; } };
enum Kind { RUNTIME, LOGIC, INVALID, RANGE, DOMAIN_, BASE, DERIVED, TWO, BADALLOC, NOTEXT, NKINDS };
struct Where { string file; int line; };
__attribute__((noinline)) void raise(int kind, int form, const string& msg, Where& w, int depth) {
    if(depth > 0) { raise(kind, form, msg, w, depth - 1); __asm__ volatile("" ::: "memory"); return; }
    w.file = __FILE__;
#define FORMS(T) { if(form == 0) { w.line = __LINE__; THROW_EXCEPTION2(T, msg); } else if(form == 1) { w.line = __LINE__; THROW_EXCEPTION(T(msg)); } else { w.line = 0; throw T(msg); } }
    switch(kind) {
    case RUNTIME: FORMS(std::runtime_error)
    case LOGIC: FORMS(std::logic_error)
    case INVALID: FORMS(std::invalid_argument)
    case RANGE: FORMS(std::out_of_range)
    case DOMAIN_: FORMS(std::domain_error)
    case BASE: if(form == 0) { w.line = __LINE__; THROW_BASE_EXCEPTION(msg); } FORMS(BaseException)
    case DERIVED: FORMS(Derived)
    case TWO: if(form < 2) { w.line = __LINE__; THROW_EXCEPTION(Two(msg, 42)); } else { w.line = 0; throw Two(msg, 42); }
    case BADALLOC: if(form == 0) { w.line = __LINE__; THROW_EXCEPTION1(std::bad_alloc); } else if(form == 1) { w.line = __LINE__; THROW_EXCEPTION(std::bad_alloc()); } else { w.line = 0; throw std::bad_alloc(); }
    default: if(form == 0) { w.line = __LINE__; THROW_EXCEPTION1(NoText); } else if(form == 1) { w.line = __LINE__; THROW_EXCEPTION(NoText()); } else { w.line = 0; throw NoText(); }
    }
}
string printed(std::exception& e) { char* p = 0; size_t n = 0; FILE* f = tmpfile(); if(!f) return "?"; PRINT_EXCEPTION2(e, f); fflush(f); n = ftell(f); rewind(f); string s(n, 0); if(n) n = fread(&s[0], 1, n, f); fclose(f); (void)p; return s; }
vector<string> lines(const string& s) { vector<string> r; std::istringstream in(s); string l; while(std::getline(in, l)) r.push_back(l); return r; }
string first(const Where& w) { return "On line " + std::to_string(w.line) + " of " + w.file; }
// what an exception which came from w says
void says(std::exception& e, int kind, const string& msg, const Where& w, int depth, bool print, bool symbols, const char* key) {
    string shown = SHOW_EXCEPTION(e); CHECK_EQ(epics::pvData::detail::showException(e), shown, "show", "by the function"); 
    if(!w.line) { CHECK_EQ(pbt::quote(shown), pbt::quote(""), key, "origin of an exception without"); if(print) CHECK_EQ(pbt::quote(printed(e)), pbt::quote(""), key, "printed origin of an exception without"); }
    else {
        vector<string> l = lines(shown); CHECK(!l.empty() && l[0] == first(w), key, "shows " << pbt::quote(shown) << " instead of " << first(w));
        if(symbols) { CHECK(l.size() >= 2 && l.size() <= 21, key, l.size() << " lines in " << shown); if(depth > 20) CHECK_EQ(l.size(), (size_t)21, key, "lines in " << shown); for(size_t i = 1; i < l.size(); i++) CHECK_EQ(l[i].compare(0, 8 + std::to_string(i - 1).size(), "frame " + std::to_string(i - 1) + " ["), 0, key, "line " << i << " of " << shown); }
        else CHECK_EQ(l.size(), (size_t)1, key, "lines in " << shown);
        if(print) { vector<string> p = lines(printed(e)); CHECK(!p.empty() && p[0] == first(w), key, "prints " << (p.empty() ? string() : p[0])); if(symbols) CHECK_EQ(p.size(), l.size() + 2, key, "printed lines"); }
    }
    string want = kind == DERIVED ? "D:" + msg : msg;
    switch(kind) { case BADALLOC: want = std::bad_alloc().what(); break; case NOTEXT: want = "no text"; break; case BASE: case DERIVED: want += "\n"; if(w.line) want += shown + "\n"; break; default: break; }
    CHECK_EQ(pbt::quote(e.what()), pbt::quote(want), key, "what()"); CHECK_EQ(pbt::quote(e.what()), pbt::quote(want), key, "what() again");
    bool right = true; switch(kind) { case RUNTIME: right = dynamic_cast<std::runtime_error*>(&e); break; case LOGIC: case BASE: right = dynamic_cast<std::logic_error*>(&e); break; case INVALID: right = dynamic_cast<std::invalid_argument*>(&e); break; case RANGE: right = dynamic_cast<std::out_of_range*>(&e); break; case DOMAIN_: right = dynamic_cast<std::domain_error*>(&e); break; case DERIVED: right = dynamic_cast<Derived*>(&e); break; case TWO: right = dynamic_cast<Two*>(&e) && dynamic_cast<Two*>(&e)->n == 42; break; case BADALLOC: right = dynamic_cast<std::bad_alloc*>(&e); break; default: right = dynamic_cast<NoText*>(&e); }
    CHECK(right, key, "not of the type thrown");
}
string plain(Ctx& c) { string s = words(c); for(auto& ch : s) if(!ch) ch = '0'; return s; }
PBT_TEST(exceptions, 30000, 300000) {
    int kind = c.u(NKINDS), form = c.weighted({3, 3, 1}), depth = c.chance(1, 2) ? c.u(6) : c.u(40); string msg = plain(c); bool print = c.chance(1, 4), nosym = c.chance(1, 8); noSymbols = nosym && !print; bool symbols = !noSymbols;
    int how = c.u(6); c.desc << "kind " << kind << " form " << form << " depth " << depth << " message " << pbt::quote(msg) << (nosym ? " no symbols" : "") << " how " << how; c.nontrivial(form < 2);
    Where w; bool caught = false; struct Off { ~Off() { noSymbols = false; } } off;
    try { raise(kind, form, msg, w, depth); }
    catch(std::exception& e) {
        caught = true;
        if(how != 1) says(e, kind, msg, w, depth, print, symbols, "thrown");
        if(how == 2) { try { throw; } catch(std::exception& f) { says(f, kind, msg, w, depth, false, symbols, "rethrown"); } }
        // thrown anew: as if it came from there
        if(how >= 3) { Where w2; bool again = false; w2.file = __FILE__;
            try { switch(kind) { case RUNTIME: { std::runtime_error& x = dynamic_cast<std::runtime_error&>(e); w2.line = __LINE__; THROW_EXCEPTION(x); } case INVALID: { std::invalid_argument& x = dynamic_cast<std::invalid_argument&>(e); w2.line = __LINE__; THROW_EXCEPTION(x); } case BASE: { BaseException& x = dynamic_cast<BaseException&>(e); w2.line = __LINE__; THROW_EXCEPTION(x); } case DERIVED: { Derived& x = dynamic_cast<Derived&>(e); w2.line = __LINE__; THROW_EXCEPTION(x); } case TWO: { Two& x = dynamic_cast<Two&>(e); w2.line = __LINE__; THROW_EXCEPTION(x); } default: again = true; } }
            catch(std::exception& f) { again = true; says(f, kind, msg, w2, 0, print, symbols, "thrown-anew"); says(e, kind, msg, w, depth, false, symbols, "original"); }
            CHECK(again, "thrown-anew", "nothing thrown"); }
        // copies
        if(how == 1 && kind == BASE) { BaseException cp(dynamic_cast<BaseException&>(e)); Where none; none.line = 0; says(cp, kind, msg, none, 0, false, symbols, "copy"); BaseException as("other"); if(c.coin()) as.what(); as = dynamic_cast<BaseException&>(e); says(as, kind, msg, none, 0, false, symbols, "assigned"); as = BaseException("new"); says(as, kind, "new", none, 0, false, symbols, "assigned"); says(e, kind, msg, w, depth, print, symbols, "thrown"); }
    }
    CHECK(caught, "thrown", "nothing thrown");
}
// when memory runs out the text may be cut, but is there, and is whole again afterwards
PBT_TEST(no_memory, 6000, 60000) {
    int kind = c.coin() ? BASE : DERIVED, form = c.u(3), depth = c.u(10); long nth = 1 + c.u(12); string msg = plain(c); c.desc << "kind " << kind << " form " << form << " allocation " << nth << " message " << pbt::quote(msg); Where w; bool failed = false;
    try { raise(kind, form, msg, w, depth); }
    catch(std::exception& e) {
        pbt::failAlloc(nth); const char* t = e.what(); failed = pbt::allocFailed(); pbt::failAlloc(0);
        CHECK(t && *t, "what", "no text"); string got = t;
        string want = (kind == DERIVED ? "D:" : "") + msg; if(failed) CHECK(got.compare(0, 20, "BaseException::what ") == 0 || got.compare(0, want.size(), want) == 0, "what", pbt::quote(got));
        if(!failed || got.compare(0, 20, "BaseException::what ") == 0) says(e, kind, msg, w, depth, false, true, "afterwards");
    }
    c.nontrivial(failed);
}
}
