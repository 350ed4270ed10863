// P29: threads working on their own objects do not disturb each other, whatever they share underneath
#include "machine.hpp"
#include <pv/debugPtr.h>
#include <random>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
namespace {
struct Start { VP v[NS]; };
// prototypes are made once and copied for each machine: their types and array data are shared
struct Proto { PVFieldPtr v[NS]; TP t[NS]; VP m[NS]; };
Start genStart(Ctx& c) { Start s; TypeOpts to; to.depth = 3; to.nodes = 8; to.wide = false; ValOpts vo; vo.big = false; vo.maxLen = 6; for(size_t i = 0; i < NS; i++) if(c.coin()) { TP t = c.chance(2, 3) ? genStruct(c, to) : genType(c, to); s.v[i] = genValue(c, t, vo); c.desc << "slot " << i << " " << show(s.v[i]) << "; "; } return s; }
void prepare(const Start& s, Proto& p) { for(size_t i = 0; i < NS; i++) if(s.v[i]) { p.v[i] = make(s.v[i]); p.t[i] = s.v[i]->t; p.m[i] = s.v[i]; } }
void give(const Proto& p, Machine& m) { m.ownElements = true; for(size_t i = 0; i < NS; i++) if(p.v[i]) { PVFieldPtr f = getPVDataCreate()->createPVField(p.v[i]->getField()); f->copyUnchecked(*p.v[i]); m.h[i].v = f; m.h[i].t = p.t[i]; m.h[i].expect = p.m[i]; m.h[i].fam = m.nextFam++; } }
const int NF = 13;
// the parts of the library which set themselves up when first asked for
string firstUse(int k) { std::ostringstream o; switch(k) { case 0: for(auto& s : *AlarmSeverityFunc::getSeverityNames()) o << s; break; case 1: for(auto& s : *AlarmStatusFunc::getStatusNames()) o << s; break; case 2: o << getConvert()->toString(getPVDataCreate()->createPVScalar<PVInt>()); break; case 3: o << *getStandardPVField()->scalar(pvInt, "alarm"); break; case 4: o << getStandardField()->alarm()->getID() << *getStandardField()->timeStamp(); break; case 5: o << getFieldCreate()->createScalar(pvInt)->getID(); break; case 6: { BitSet b; b.set(3); o << b; break; } case 7: o << *createRequest("a.b,c"); break; case 8: { epics::RefSnapshot r; r.update(); break; } case 9: o << (epics::readRefCounter("PVField") > 1000000); break; case 10: { std::istringstream in("{\"a\":[1,2],\"b\":{\"c\":\"x\"}}"); o << *parseJSON(in); } break; case 11: o << *getFieldCreate()->createVariantUnionArray(); break; default: { static size_t cell[64]; static std::atomic<int> n; int i = n++ % 64; string name = "c" + std::to_string(i); epics::registerRefCounter(name.c_str(), &cell[i]); epics::unregisterRefCounter(name.c_str(), &cell[i]); } } return o.str(); }
struct Run { vector<Step> prog; string alone, log, bad; };
void runAll(vector<Run>& r, const Start& st, bool alone, const vector<int>& first = vector<int>()) {
    size_t n = r.size(); Proto p; prepare(st, p);
    vector<vector<string> > said(n, vector<string>(NF));
    if(alone) for(auto& x : r) { Machine m(true); give(p, m); std::ostringstream o; m.log = &o; m.run(x.prog); x.alone = o.str(); if(!m.badKey.empty()) x.bad = m.badKey + ": " + m.bad; }
    vector<std::unique_ptr<Machine> > ms; for(size_t i = 0; i < n; i++) { ms.emplace_back(new Machine(true)); give(p, *ms[i]); }
    std::atomic<int> ready{0}; std::atomic<bool> go{false}; vector<std::thread> t;
    for(size_t i = 0; i < n; i++) t.emplace_back([&, i] { std::ostringstream o; ms[i]->log = &o; ready++; while(!go) std::this_thread::yield(); try { for(size_t j = 0; j < first.size(); j++) { int k = first[(j + (first.size() % 3 == 1 ? i : 0)) % first.size()]; said[i][k] = firstUse(k); } ms[i]->run(r[i].prog); } catch(std::exception& e) { r[i].bad = string("thread ended with ") + e.what(); } catch(pbt::AssertHit& e) { r[i].bad = "assertion"; } r[i].log = o.str(); if(!ms[i]->badKey.empty()) r[i].bad = ms[i]->badKey + ": " + ms[i]->bad; ms[i].reset(); });
    while(ready < (int)n) std::this_thread::yield(); go = true; for(auto& x : t) x.join();
    for(size_t i = 1; i < n; i++) if(said[i] != said[0]) r[i].bad = "threads differ at first use";
    for(size_t i = 0; i < NS; i++) if(p.v[i]) { string d = diff(load(*p.v[i]), p.m[i]); if(!d.empty()) r[0].bad = "prototype " + std::to_string(i) + ": " + d; }
}
PBT_RACY(programs, 8000, 100000) {
    Start st = genStart(c); vector<Run> r(2 + c.u(3)); size_t steps = 0; bool same = c.coin(); for(size_t i = 0; i < r.size(); i++) { if(i && same) r[i].prog = r[0].prog; else { c.desc << " THREAD " << i << ": "; r[i].prog = program(c); } steps += r[i].prog.size(); }
    runAll(r, st, true);
    for(size_t i = 0; i < r.size(); i++) { if(!r[i].bad.empty()) FAIL("value", "thread " + std::to_string(i) + ": " + r[i].bad); if(r[i].log != r[i].alone) FAIL("differs", "thread " + std::to_string(i) + " got\n" + r[i].log + "\nalone it got\n" + r[i].alone); }
    c.nontrivial(steps > 2 * r.size()); if(same) c.label("same program");
}
// the same from the first use of the library in a process on: a process which has not used it yet starts the processes
struct First { vector<Run> r; vector<int> first; };
void genFirst(Ctx& c, First& f) { f.r.resize(2 + c.u(3)); for(size_t i = 0; i < f.r.size(); i++) { if(i) f.r[i].prog = f.r[0].prog; else f.r[i].prog = program(c); } for(int i = 0; i < NF; i++) f.first.push_back(i); for(int i = NF - 1; i > 0; i--) std::swap(f.first[i], f.first[c.u(i + 1)]); f.first.resize(1 + c.u(NF)); c.desc << f.r.size() << " threads, first"; for(int k : f.first) c.desc << " " << k; }
int toFresh = -1;
void readAll(int fd, void* p, size_t n) { for(char* b = (char*)p; n;) { ssize_t k = read(fd, b, n); if(k <= 0) _exit(0); b += k; n -= k; } }
void writeAll(int fd, const void* p, size_t n) { for(const char* b = (const char*)p; n;) { ssize_t k = write(fd, b, n); if(k <= 0) _exit(0); b += k; n -= k; } }
void fresh() {
    int sv[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return; fflush(0); pid_t pid = fork(); if(pid) { close(sv[1]); toFresh = sv[0]; return; }
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(sv[0]); int fd = sv[1];
    for(;;) {
        uint64_t n; readAll(fd, &n, sizeof n); vector<uint64_t> rec(n); readAll(fd, rec.data(), n * sizeof(uint64_t));
        string msg; int pfd[2]; if(pipe(pfd)) _exit(0);
        pid_t p = fork();
        if(p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(pfd[1], 2); try { Ctx c; c.src.rec = rec; c.src.replay = true; First f; genFirst(c, f); runAll(f.r, Start(), false, f.first); for(size_t i = 0; i < f.r.size(); i++) { if(!f.r[i].bad.empty()) msg = f.r[i].bad; if(f.r[i].log != f.r[0].log) msg = "threads differ: " + f.r[0].log + "\n" + f.r[i].log; } } catch(std::exception& e) { msg = e.what(); } if(msg.size() > 4000) msg.resize(4000); writeAll(pfd[1], msg.data(), msg.size()); _exit(msg.empty() ? 0 : 3); }
        close(pfd[1]); char b[4096]; ssize_t k; while((k = read(pfd[0], b, sizeof b)) > 0) msg.append(b, k); close(pfd[0]); int st = 0; waitpid(p, &st, 0);
        uint64_t out[2] = { (uint64_t)st, msg.size() }; writeAll(fd, out, sizeof out); writeAll(fd, msg.data(), msg.size());
    }
}
struct AtStart { AtStart() { pbt::workerStart = fresh; } } atStart;
PBT_RACY(first_use, 600, 6000) {
    First f; genFirst(c, f); c.nontrivial(true); uint64_t n = c.src.replay ? c.src.pos : c.src.rec.size(); if(n > c.src.rec.size()) n = c.src.rec.size();
    writeAll(toFresh, &n, sizeof n); writeAll(toFresh, c.src.rec.data(), n * sizeof(uint64_t));
    uint64_t in[2]; readAll(toFresh, in, sizeof in); string msg(in[1], 0); readAll(toFresh, &msg[0], in[1]);
    int st = (int)in[0]; if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) FAIL("first_use", "status " + std::to_string(st) + " " + msg);
}
// counters come and go while others look at them
PBT_RACY(counters, 2000, 20000) {
    int nt = 2 + c.u(3), rounds = 5 + c.u(40); unsigned seed = c.u(1000000); c.desc << nt << " threads, " << rounds << " rounds, seed " << seed; c.nontrivial(true);
    std::atomic<bool> go{false}; std::atomic<int> bad{0}; vector<std::thread> t; static size_t fixed = 42; epics::registerRefCounter("fixed", &fixed);
    for(int i = 0; i < nt; i++) t.emplace_back([&, i] { std::mt19937 r(seed + i); vector<std::unique_ptr<size_t> > mine(4); auto name = [&](int k) { return "t" + std::to_string(i) + "c" + std::to_string(k); }; while(!go) std::this_thread::yield();
        for(int k = 0; k < rounds; k++) { int j = r() % 4; switch(r() % 5) { case 0: if(!mine[j]) { mine[j].reset(new size_t(j + 1)); epics::registerRefCounter(name(j).c_str(), mine[j].get()); } break; case 1: if(mine[j]) { epics::unregisterRefCounter(name(j).c_str(), mine[j].get()); mine[j].reset(); } break; case 2: if(epics::readRefCounter(name(j).c_str()) != (mine[j] ? j + 1u : 0u)) bad++; break; case 3: if(epics::readRefCounter("fixed") != 42) bad++; break; default: { epics::RefSnapshot s; s.update(); if(s["fixed"].current != 42 || s[name(j)].current != (mine[j] ? j + 1u : 0u)) bad++; } } }
        for(int j = 0; j < 4; j++) if(mine[j]) epics::unregisterRefCounter(name(j).c_str(), mine[j].get()); });
    go = true; for(auto& x : t) x.join(); CHECK_EQ(bad.load(), 0, "counters", "");
}
// debugging pointers are themselves to be used from any thread
PBT_RACY(debug_pointers, 2000, 20000) {
    namespace dbg = epics::debug; int nt = 2 + c.u(3), rounds = 10 + c.u(60); unsigned seed = c.u(1000000); c.desc << nt << " threads, " << rounds << " rounds, seed " << seed; c.nontrivial(true);
    struct Obj { int x = 7; }; dbg::shared_ptr<Obj> main(new Obj); dbg::weak_ptr<Obj> weak(main); std::atomic<bool> go{false}; std::atomic<int> bad{0}; vector<std::thread> t;
    for(int i = 0; i < nt; i++) t.emplace_back([&, i] { std::mt19937 r(seed + i); vector<dbg::shared_ptr<Obj> > mine(4); while(!go) std::this_thread::yield(); for(int k = 0; k < rounds; k++) { auto& x = mine[r() % 4]; auto& y = mine[r() % 4]; switch(r() % 7) { case 0: x = main; break; case 1: x = y; break; case 2: x.reset(); break; case 3: x.swap(y); break; case 4: x = weak.lock(); break; case 5: x.reset(new Obj); break; default: { std::ostringstream o; main.show_refs(o); dbg::ptr_base::ref_set_t s; main.spy_refs(s); if(!s.count(&main)) bad++; } } if(x && x->x != 7) bad++; } });
    go = true; for(auto& x : t) x.join(); CHECK_EQ(bad.load(), 0, "debug_pointers", ""); CHECK_EQ(main.use_count(), 1, "debug_pointers", "use_count");
}
}
