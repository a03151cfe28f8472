// Failing-input search on the real code: random inputs, an independent oracle, and (where a
// property speaks of a state inside the search) calls of the real functions at states the
// real search reached.  It never decides that a property holds; it only looks for an input
// that shows on the real code what a failed obligation says.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <list>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <time.h>
#include <errno.h>
#include <stdarg.h>
#include "Global.h"
#include "Formula.h"
using namespace std;
typedef unsigned long long u64;
#define NOI __attribute__((no_instrument_function))
int solver_main(int, char **);

struct Rng { u64 s; Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
  int in(int a, int b) { return a + (int)((next() >> 20) % (u64)(b - a + 1)); }
  bool p(int pc) { return in(0, 99) < pc; } };

// ---------------------------------------------------------------- virtual clock
static bool vclock = false; static double vnow = 1000, vstep = 0;
static vector<double> vlog;
extern "C" NOI int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!vclock) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  vnow += vstep; vlog.push_back(vnow);
  tv->tv_sec = (long)vnow; tv->tv_usec = (long)((vnow - (long)vnow) * 1e6 + 0.5); return 0; }
static bool vtime = false; static time_t vtimeval = 0;
extern "C" NOI time_t time(time_t *t) noexcept { time_t r; if (vtime) r = vtimeval; else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); r = ts.tv_sec; } if (t) *t = r; return r; }

// ---------------------------------------------------------------- problems
struct Lit { int v; bool eq; int d; bool operator==(const Lit &o) const { return v == o.v && eq == o.eq && d == o.d; } };
struct Prob { vector<int> dom; vector<vector<Lit>> cl; string text; int n() const { return (int)dom.size() - 1; } };
static bool lt(const Lit &l, const vector<int> &m) { return (m[l.v] == l.d) == l.eq; }
static bool ct(const vector<Lit> &c, const vector<int> &m) { for (auto &l : c) if (lt(l, m)) return true; return false; }
static double prod(const Prob &p) { double r = 1; for (int v = 1; v <= p.n(); v++) r *= p.dom[v]; return r; }
static bool nextm(const Prob &p, vector<int> &m) { for (int v = 1; v <= p.n(); v++) { if (++m[v] < p.dom[v]) return true; m[v] = 0; } return false; }
static bool okm(const Prob &p, const vector<int> &m) { for (auto &c : p.cl) if (!ct(c, m)) return false; return true; }
// independent backtracking search over sets of values; 1 sat, 0 unsat, -1 gave up
struct Csp { const Prob &p; long nodes = 0, lim; vector<vector<char>> A; vector<int> cnt; vector<int> sol;
  Csp(const Prob &q, long l) : p(q), lim(l) { A.resize(p.n() + 1); cnt.assign(p.n() + 1, 0); for (int v = 1; v <= p.n(); v++) { A[v].assign(p.dom[v], 1); cnt[v] = p.dom[v]; } }
  int st(const Lit &l) { bool can = A[l.v][l.d]; if (l.eq) { if (!can) return 0; return cnt[l.v] == 1 ? 1 : 2; } if (!can) return 1; return cnt[l.v] == 1 ? 0 : 2; }
  bool prop(vector<pair<int,int>> &tr) { bool ch = true; while (ch) { ch = false; for (auto &c : p.cl) { int u = 0; const Lit *ul = 0; bool s = false; for (auto &l : c) { int x = st(l); if (x == 1) { s = true; break; } if (x == 2) { if (ul && *ul == l) continue; u++; ul = &l; } } if (s) continue; if (u == 0) return false; if (u == 1) { ch = true; if (!mk(*ul, tr)) return false; } } } return true; }
  bool mk(const Lit &l, vector<pair<int,int>> &tr) { if (l.eq) { for (int d = 0; d < p.dom[l.v]; d++) if (d != l.d && A[l.v][d]) { A[l.v][d] = 0; cnt[l.v]--; tr.push_back({l.v, d}); } } else if (A[l.v][l.d]) { A[l.v][l.d] = 0; cnt[l.v]--; tr.push_back({l.v, l.d}); } return cnt[l.v] > 0; }
  int go() { if (++nodes > lim) return -1; vector<pair<int,int>> tr; int r = 0; 
    if (prop(tr)) { int b = 0; for (int v = 1; v <= p.n(); v++) if (cnt[v] > 1 && (!b || cnt[v] < cnt[b])) b = v;
      if (!b) { sol.assign(p.n() + 1, 0); for (int v = 1; v <= p.n(); v++) for (int d = 0; d < p.dom[v]; d++) if (A[v][d]) sol[v] = d; r = 1; }
      else { vector<int> ds; for (int d = 0; d < p.dom[b]; d++) if (A[b][d]) ds.push_back(d);
        for (int d : ds) { vector<pair<int,int>> t2; mk(Lit{b, true, d}, t2); int q = go(); for (auto &x : t2) { A[x.first][x.second] = 1; cnt[x.first]++; } if (q) { r = q; break; } } } }
    for (auto &x : tr) { A[x.first][x.second] = 1; cnt[x.first]++; } return r; } };
static int oracle(const Prob &p) {
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] < 1) return 0;
  if (prod(p) <= 3000) { vector<int> m(p.n() + 1, 0); do if (okm(p, m)) return 1; while (nextm(p, m)); return 0; }
  Csp c(p, 20000); return c.go(); }

static string lits(const Lit &l) { char b[64]; sprintf(b, l.eq ? "%d=%d" : "%d!=%d", l.v, l.d); return b; }
enum { NOEMPTY = 1, PLAIN = 2, NODUP = 4, SMALL = 8, DOM64 = 16, NOTAUT = 32, WIDE = 64 };
static Prob gen(Rng &r, int fl = 0) {
  Prob p; int reg = r.in(0, 13); int n, dmin, dmax, m, kmin, kmax, peq;
  peq = r.p(30) ? 15 : r.p(50) ? 50 : 80;
  kmin = 1; dmin = 1; int dup = 3, taut = 2;
  if (reg <= 3) { n = r.in(1, 4); dmax = r.in(1, 4); kmax = r.in(1, 4); m = r.in(1, 16); }
  else if (reg <= 7) { n = r.in(3, 7); dmin = 2; dmax = r.in(2, 4); kmin = 2; kmax = r.in(2, 4); m = n * r.in(2, 9); }
  else if (reg == 8) { n = r.in(3, 6); dmin = dmax = r.in(2, 3); kmin = kmax = 2; m = n * r.in(2, 6); }
  else if (reg == 9) { n = r.in(2, 3); dmin = 2; dmax = r.in(8, 15); kmin = 1; kmax = 6; m = r.in(5, 60); }
  else if (reg == 10) { n = r.in(8, 14); dmin = 2; dmax = 3; kmin = 2; kmax = 3; m = n * r.in(3, 7); }
  else if (reg == 11) { n = r.in(1, 5); dmax = 3; kmax = 7; m = r.in(1, 30); dup = 25; taut = 15; }
  else if (reg == 12) { n = 0; m = 0; dmax = 0; kmax = 0; }
  else { n = r.in(2, 12); dmin = 2; dmax = 3; kmin = 1; kmax = 3; m = r.in(1, n * 3); }
  if (fl & SMALL) { if (n > 6) n = 6; if (dmax > 4) dmax = 4; }
  if ((fl & WIDE) && reg <= 3 && r.p(15)) { n = r.in(1, 2); dmax = r.in(5, 20); kmax = r.in(1, 4); }
  if (r.p(1) && !(fl & SMALL)) { n = r.in(100, 130); m = r.in(20, 300); dmin = 2; dmax = 4; kmin = 2; kmax = 3; reg = 13; }
  if (dmin > dmax) dmin = dmax;
  p.dom.push_back(0);
  if (reg == 12) { // pigeons, possibly with one clause less or more
    int holes = r.in(2, 4); n = holes + r.in(0, 1); if (fl & SMALL) { holes = 3; n = 3 + r.in(0, 1); }
    for (int i = 0; i < n; i++) p.dom.push_back(holes);
    for (int a = 1; a <= n; a++) for (int b = a + 1; b <= n; b++) for (int h = 0; h < holes; h++) if (!r.p(3)) p.cl.push_back({Lit{a, false, h}, Lit{b, false, h}});
    if (r.p(40)) { int x = r.in(0, 3); while (x--) p.cl.push_back({Lit{r.in(1, n), r.p(50), r.in(0, holes - 1)}}); }
    for (size_t i = p.cl.size(); i > 1; i--) swap(p.cl[i - 1], p.cl[r.in(0, i - 1)]);
  } else if (r.p(3) && !(fl & SMALL)) { // wide domains, most values excluded one by one
    n = r.in(1, 4); int top = (fl & DOM64) ? 64 : 160; vector<vector<int>> left(n + 1);
    for (int v = 1; v <= n; v++) { int d = r.p(60) ? r.in(10, top) : r.in(2, 5); p.dom.push_back(d); vector<int> q; for (int i = 0; i < d; i++) q.push_back(i);
      int keep = r.in(1, 4); bool hi = r.p(40); for (int i = d - 1; i > 0 && !hi; i--) swap(q[i], q[r.in(0, i)]);
      for (int i = 0; i < d - keep; i++) p.cl.push_back({Lit{v, false, q[i]}});
      for (int i = d - keep > 0 ? d - keep : 0; i < d; i++) left[v].push_back(q[i]); }
    for (size_t i = p.cl.size(); i > 1 && r.p(99); i--) if (r.p(50)) swap(p.cl[i - 1], p.cl[r.in(0, i - 1)]);
    m = r.in(0, 12); for (int i = 0; i < m; i++) { vector<Lit> c; int k = r.in(2, 3); for (int j = 0; j < k; j++) { int v = r.in(1, n); if (left[v].empty()) continue; Lit l{v, r.p(60), left[v][r.in(0, left[v].size() - 1)]}; bool bad = false; for (auto &q : c) if (q.v == l.v) bad = true; if (!bad) c.push_back(l); } if (!c.empty()) p.cl.push_back(c); }
    if (p.cl.empty()) p.cl.push_back({Lit{1, true, 0}});
  } else {
    for (int i = 0; i < n; i++) p.dom.push_back(r.in(dmin, dmax));
    for (int i = 0; i < m; i++) { vector<Lit> c; int k = r.in(kmin, kmax);
      if (!(fl & NOEMPTY) && r.p(1) && r.p(20)) k = 0;
      for (int j = 0; j < k; j++) { Lit l; int tries = 0;
        do { l.v = r.in(1, n); l.d = r.in(0, p.dom[l.v] - 1); l.eq = r.p(peq); tries++; 
          bool bad = false; for (auto &q : c) { if (q == l && !r.p(dup)) bad = true; if (q.v == l.v && !(q == l) && (!q.eq || !l.eq) && (q.d == l.d || (!q.eq && !l.eq)) && (!r.p(taut) || (fl & NOTAUT))) bad = true; }
          if (!bad) break; if (tries > 20) { if (fl & (NODUP | NOTAUT)) l.v = 0; break; } } while (1);
        if (!l.v) continue;
        if (!c.empty() && r.p(dup) && !(fl & NODUP)) l = c[r.in(0, c.size() - 1)];
        c.push_back(l); }
      if (c.empty() && k) continue;
      p.cl.push_back(c); } 
    if (p.cl.empty()) p.cl.push_back({Lit{1, true, 0}}); }
  // text
  ostringstream o; bool noise = !(fl & PLAIN) && r.p(30);
  if (noise && r.p(50)) o << "c some comment p cnf 1 1\n";
  o << "p cnf " << p.n() << " " << p.cl.size() << "\n";
  for (int v = 1; v <= p.n(); v++) { o << "d " << v << " " << p.dom[v] << "\n"; if (noise && r.p(5)) o << "c 1=0 0\n"; }
  if (noise && r.p(10)) o << "\n";
  for (size_t i = 0; i < p.cl.size(); i++) { auto &c = p.cl[i];
    if (noise && r.p(5)) o << "c 1=0 0\n";
    if (noise && r.p(5)) o << (r.p(50) ? "" : " \t ") << "\n";
    if (noise && r.p(10)) o << (r.p(50) ? " " : "\t");
    bool lng = noise && r.p(1);
    for (auto &l : c) { o << lits(l); if (lng) { int x = r.in(500, 4000); while (x--) o << ' '; } if (noise && r.p(10)) o << (r.p(50) ? "\t" : "  "); else o << " "; }
    o << "0"; if (noise && r.p(5)) o << " "; if (!(noise && i + 1 == p.cl.size() && r.p(30))) o << "\n"; }
  p.text = o.str(); return p; }

// ---------------------------------------------------------------- environment of a run
static char dirn[256]; static string inF, outF; static int outfd = -1; static FILE *rep = 0;
static string seedtxt;
static void put(const string &f, const string &s) { FILE *h = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), h); fclose(h); }
static string get(const string &f) { ifstream i(f); stringstream s; s << i.rdbuf(); return s.str(); }
static void capture() { cout.flush(); fflush(stdout); if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
static string captured() { cout.flush(); fflush(stdout); off_t n = lseek(1, 0, SEEK_CUR); if (n > 4000000) n = 4000000; string s(n, 0); if (n) { ssize_t k = pread(1, &s[0], n, 0); s.resize(k > 0 ? k : 0); } return s; }
typedef vector<string> Args;
static string cmdl(const Args &a) { string s = "Solver"; for (size_t i = 1; i < a.size(); i++) s += " " + a[i]; return s; }
struct Argv { vector<char *> v; vector<string> keep; Argv(const Args &a) : keep(a) { for (auto &s : keep) v.push_back(&s[0]); v.push_back(0); } };

struct Fail { string msg; };
[[noreturn]] static void fail(const string &m) { throw Fail{m}; }
static string S(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// the verdict lines of the program (the terminal bell before them is dropped)
static bool said(const string &o, const char *w) { stringstream i(o); string l; while (getline(i, l)) { string t; for (char c : l) if (c != '\a') t += c; if (t == w) return true; } return false; }
#ifndef BITVEC
enum Mode { NC, WL, CH };
static Args solverArgs(Rng &r, Mode m, bool *lazy = 0) {
  Args a = {"Solver", m == CH ? "-solvech" : "-solvenc"}; vector<Args> o; o.push_back({"-file", inF});
  int h; if (lazy) *lazy = false;
  if (m == CH) { h = r.in(0, 2); if (h == 0) { o.push_back({"-lazy"}); if (lazy) *lazy = true; } }
  else { if (m == WL) o.push_back({"-wl"}); h = r.in(0, 3);
    if (h == 0) o.push_back({"-vsids"}); else if (h == 1) o.push_back({"-vsids_pos"}); else if (h == 2) { o.push_back({"-lazy"}); if (lazy) *lazy = true; }
    int q = r.in(0, 5); if (q) { char b[8]; sprintf(b, "%d", q == 5 ? r.in(5, 20) : q); o.push_back({r.p(50) ? "-restarts" : "-restart", b}); } }
  if (r.p(4)) o.push_back({"-verbose"});
  for (size_t i = o.size(); i > 1; i--) swap(o[i - 1], o[r.in(0, i - 1)]);
  for (auto &x : o) for (auto &y : x) a.push_back(y);
  return a; }
static CommandLine *parse(const Args &a) { Argv v(a); Argv *keep = new Argv(a); CommandLine *c = new CommandLine; ParseCommandLine(c, (int)a.size(), &keep->v[0]); return c; }
static Formula *mkF(CommandLine *c) { Formula *f = new Formula(c); f->BuildFormula(c); f->TIME_S = f->TIME_E = GetTime(); return f; }
static int search(Formula *f, CommandLine *c, Mode m) { if (m == CH) return f->ChronoBacktrack(0); if (c->WATCH) return f->WatchedLiterals(c->RESTARTS); return f->NonChronoBacktrack(c->RESTARTS); }
static void freeF(Formula *) {}
static string ctx(const Args &a, const Prob &p) { return "command: " + cmdl(a) + "\nproblem:\n" + p.text + "\n"; }

// the values a variable can take according to the assignment held
static string held(Formula *f, const Prob &p, vector<vector<int>> &al) {
  al.assign(p.n() + 1, {});
  for (int v = 1; v <= p.n(); v++) { vector<int> one, open; for (int d = 0; d < p.dom[v]; d++) { int a = f->VARLIST[v]->ATOMASSIGN[d]; if (a == 1) one.push_back(d); if (a != -1) open.push_back(d); }
    if (one.size() > 1) return S("variable %d has two values", v); 
    al[v] = one.size() ? one : open; if (al[v].empty()) return S("variable %d has no value left", v); }
  return ""; }
static string checkSatState(Formula *f, const Prob &p) {
  vector<vector<int>> al; string e = held(f, p, al); if (e.size()) return e;
  for (size_t i = 0; i < p.cl.size(); i++) { // every completion satisfies the clause: no completion falsifies all its literals
    map<int, set<int>> ok; for (auto &l : p.cl[i]) { if (!ok.count(l.v)) ok[l.v] = set<int>(al[l.v].begin(), al[l.v].end()); if (l.eq) ok[l.v].erase(l.d); else { bool h = ok[l.v].count(l.d); ok[l.v].clear(); if (h) ok[l.v].insert(l.d); } }
    bool fals = true; for (auto &x : ok) if (x.second.empty()) fals = false;
    if (fals) return S("clause %d is not satisfied by the assignment held", (int)i + 1); }
  return ""; }

// ---------------------------------------------------------------- hooks inside the search
#ifdef HOOKS
static void *hookFn[8]; static int nHook = 0; static long hookAt = -1, hookCount = 0; static Formula *curF = 0; static bool inHook = false;
static function<void(void *)> *hookDo = 0; static jmp_buf hookJmp; static void *hookWhich; 
extern "C" NOI void __cyg_profile_func_enter(void *fn, void *) {
  if (hookAt < 0 || inHook) return; int i; for (i = 0; i < nHook; i++) if (hookFn[i] == fn) break; if (i == nHook) return;
  if (hookCount++ != hookAt) return; inHook = true; hookWhich = fn; longjmp(hookJmp, 1); }
extern "C" NOI void __cyg_profile_func_exit(void *, void *) {}
// runs the search; at the k-th call of one of the functions leaves it (true) with the state as at the call
static bool until(Formula *f, CommandLine *c, Mode m, vector<void *> fns, long k, int &res) {
  nHook = 0; for (void *x : fns) hookFn[nHook++] = x; hookAt = k; hookCount = 0; inHook = false;
  if (setjmp(hookJmp)) { inHook = false; hookAt = -1; return true; }
  res = search(f, c, m); hookAt = -1; return false; }
#pragma GCC diagnostic ignored "-Wpmf-conversions"
#define ADDR(fn) ((void *)(&Formula::fn))
#endif

static void solveProp(Rng &r, Mode m, bool unsat, bool sat) {
  Prob p = gen(r); put(inF, p.text); Args a = solverArgs(r, m); string cx = ctx(a, p);
  capture();
  if (r.p(25)) { // the printed verdict of the whole program
    Argv v(a); solver_main((int)a.size(), &v.v[0]); string o = captured();
    bool pu = said(o, "UNSAT"), ps = said(o, "SAT");
    if (pu && unsat && oracle(p) == 1) fail(cx + "printed UNSAT, but an assignment satisfies every clause");
    if (ps && sat && oracle(p) == 0) fail(cx + "printed SAT, but no assignment satisfies every clause");
    return; }
  CommandLine *c = parse(a); Formula *f = mkF(c); int res = search(f, c, m);
  if (res == 2 && unsat && oracle(p) == 1) fail(cx + "result UNSAT, but an assignment satisfies every clause");
  if (res == 0 && sat) { string e = checkSatState(f, p); if (e.size()) fail(cx + "result SAT, but " + e); }
  freeF(f); }

static void c06(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = r.p(50) ? NC : WL; Args a = solverArgs(r, m); capture();
  if (r.p(20)) { Argv v(a); solver_main((int)a.size(), &v.v[0]); string o = captured(); 
    bool ps = said(o, "SAT"), cor = o.find("model is CORRECT") != string::npos, inc = o.find("model is INCORRECT") != string::npos;
    if (ps && cor == inc) fail(ctx(a, p) + "after SAT not exactly one verdict on the model is printed:\n" + o);
    CommandLine *c = parse(a); capture(); Formula *f = mkF(c); int res = search(f, c, m);
    if (res == 0) { string e = checkSatState(f, p); if (e.empty() != cor) { bool lit = true; for (auto &cl : f->CLAUSELIST) { bool s = false; for (auto &l : cl->ATOM_LIST) if (f->VARLIST[l.VAR]->ATOMASSIGN[l.VAL] == (l.EQUAL ? 1 : -1)) s = true; if (!s) lit = false; } if (lit != cor) fail(ctx(a, p) + "printed verdict on the model differs from the assignment held:\n" + o); } }
    return; }
  CommandLine *c = parse(a); Formula *f = mkF(c);
  // an assignment of our own, total or partial
  int mode = r.in(0, 3); vector<int> best;
  if (mode >= 2) { Csp s(p, 3000); if (s.go() == 1) best = s.sol; }
  string as;
  for (int v = 1; v <= p.n(); v++) { int d = best.size() ? best[v] : r.in(0, p.dom[v] - 1); if (mode == 3 && r.p(10)) d = r.in(0, p.dom[v] - 1);
    if (mode == 1 && r.p(30)) { for (int x = 0; x < p.dom[v]; x++) f->VARLIST[v]->ATOMASSIGN[x] = r.p(40) ? -1 : 0; as += S("%d:partial ", v); continue; }
    f->VARLIST[v]->VAL = d; for (int x = 0; x < p.dom[v]; x++) f->VARLIST[v]->ATOMASSIGN[x] = x == d ? 1 : -1; as += S("%d=%d ", v, d); }
  bool all = true; for (auto &cl : f->CLAUSELIST) { bool s = false; for (auto &l : cl->ATOM_LIST) if (f->VARLIST[l.VAR]->ATOMASSIGN[l.VAL] == (l.EQUAL ? 1 : -1)) s = true; if (!s) all = false; }
  if (f->verifyModel() != all) fail(ctx(a, p) + "assignment " + as + "\nverifyModel() returns " + (all ? "false" : "true") + S(", but %s clause has a true literal", all ? "every" : "not every")); }

static void c07(Rng &r) {
  Prob p = gen(r, SMALL); if (prod(p) > 5000) return; put(inF, p.text); Mode m = r.p(50) ? NC : WL; Args a = solverArgs(r, m); capture();
  CommandLine *c = parse(a); Formula *f = mkF(c); size_t n0 = f->CLAUSELIST.size(); search(f, c, m);
  if (f->CLAUSELIST.size() == n0) return;
  vector<int> mm(p.n() + 1, 0); do { if (!okm(p, mm)) continue;
    for (size_t i = n0; i < f->CLAUSELIST.size(); i++) { bool s = false; string t; for (auto &l : f->CLAUSELIST[i]->ATOM_LIST) { if ((mm[l.VAR] == l.VAL) == l.EQUAL) s = true; t += S(l.EQUAL ? "%d=%d " : "%d!=%d ", l.VAR, l.VAL); }
      if (!s) { string mt; for (int v = 1; v <= p.n(); v++) mt += S("%d=%d ", v, mm[v]); fail(ctx(a, p) + "learned clause " + t + "is violated by the solution " + mt); } }
  } while (nextm(p, mm)); }

static bool watchOk(Formula *f, string &e, int skip) {
  map<pair<pair<int,bool>,int>, multiset<int>> rec;
  for (size_t v = 1; v < f->VARLIST.size(); v++) for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) for (int s = 0; s < 2; s++) {
    VARRECORD *q = s ? f->VARLIST[v]->ATOMWATCHPOS[d] : f->VARLIST[v]->ATOMWATCHNEG[d]; VARRECORD *pr = 0; int guard = 0;
    for (; q; pr = q, q = q->next) { if (++guard > 100000) { e = "watch list is cyclic"; return false; } if (q->prev != pr) { e = "watch list links are inconsistent"; return false; } rec[{{(int)v, (bool)s}, d}].insert(q->c_num); } }
  size_t total = 0; for (auto &x : rec) total += x.second.size(); size_t want = 0;
  for (size_t i = 0; i < f->CLAUSELIST.size(); i++) { Clause *c = f->CLAUSELIST[i]; int k = c->ATOM_LIST.size() > 1 ? 2 : (int)c->ATOM_LIST.size(); want += k;
    for (int w = 0; w < k; w++) { Literal l = c->WATCHED[w]; bool in = false; for (auto &q : c->ATOM_LIST) if (q == l) in = true; if (!in) { e = S("watched literal of clause %d is not in the clause", (int)i); return false; }
      if (!rec[{{l.VAR, l.EQUAL}, l.VAL}].count(i)) { e = S("clause %d is not in the list of its watched literal", (int)i); return false; } }
    if (k == 2 && c->WATCHED[0] == c->WATCHED[1]) { e = S("clause %d watches one literal twice", (int)i); return false; }
    if ((int)i == skip) continue;
    if (k == 2) for (int w = 0; w < 2; w++) if (f->sat(c->WATCHED[w]) == 0 && f->sat(c->WATCHED[1 - w]) != 1) { e = S("clause %d has a false watched literal and the other one is not true", (int)i); return false; } }
  if (total != want) { e = "watch lists hold records of literals that are not watched"; return false; }
  return true; }

#ifdef HOOKS
static void c08(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); Args a = solverArgs(r, m); capture();
  CommandLine *c = parse(a); Formula *f = mkF(c); int res = -1; 
  static long k; k = r.p(50) ? r.in(0, 3) : r.in(0, 30);
  if (!until(f, c, m, {ADDR(undoTheory), ADDR(watchedUndoTheory)}, k, res)) return;
  bool w = hookWhich == ADDR(watchedUndoTheory);
  int top = -1; for (size_t v = 1; v < f->VARLIST.size(); v++) for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) top = max(top, f->VARLIST[v]->ATOMLEVEL[d]);
  int L = r.p(60) ? f->LEVEL : r.in(m == CH ? -1 : 0, max(0, top)); if (m == CH && r.p(50)) L = top - 1;
  if (m != CH) { int cl = (int)f->CLAUSELIST.size() - 1; (void)cl; if (L > f->LEVEL) L = f->LEVEL; }
  struct A { int as, lv, id; }; vector<vector<A>> old(f->VARLIST.size());
  for (size_t v = 1; v < f->VARLIST.size(); v++) for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) old[v].push_back({f->VARLIST[v]->ATOMASSIGN[d], f->VARLIST[v]->ATOMLEVEL[d], f->VARLIST[v]->CLAUSEID[d]});
  vector<Literal> ds = f->DECSTACK, keep; for (auto &l : ds) if (f->VARLIST[l.VAR]->ATOMLEVEL[l.VAL] <= L) keep.push_back(l);
  string cx = ctx(a, p) + S("%s(%d) called in place of call number %ld of an undo in this run: ", w ? "watchedUndoTheory" : "undoTheory", L, k + 1);
  if (w) f->watchedUndoTheory(L); else f->undoTheory(L);
  for (size_t v = 1; v < f->VARLIST.size(); v++) { int val = -1; for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) { A &o = old[v][d]; A e = o.lv > L ? A{0, -10, -10} : o;
      if (f->VARLIST[v]->ATOMASSIGN[d] != e.as) fail(cx + S("assignment of %d=%d is %d, made at level %d", (int)v, d, f->VARLIST[v]->ATOMASSIGN[d], o.lv));
      if (e.as != 0 && (f->VARLIST[v]->ATOMLEVEL[d] != e.lv || f->VARLIST[v]->CLAUSEID[d] != e.id)) fail(cx + S("level or reason of %d=%d changed", (int)v, d));
      if (e.as == 0 && f->VARLIST[v]->ATOMLEVEL[d] > L) fail(cx + S("level of %d=%d is %d", (int)v, d, f->VARLIST[v]->ATOMLEVEL[d]));
      if (e.as == 1) val = d; }
    if (f->VARLIST[v]->VAL != val) fail(cx + S("value of variable %d is %d instead of %d", (int)v, f->VARLIST[v]->VAL, val)); }
  if (f->DECSTACK.size() != keep.size()) fail(cx + "the trail does not hold exactly the literals of the levels kept");
  for (size_t i = 0; i < keep.size(); i++) if (!(f->DECSTACK[i] == keep[i])) fail(cx + "the trail does not hold the literals of the levels kept in order");
  if (w) { string e; if (!watchOk(f, e, (int)f->CLAUSELIST.size() - 1)) fail(cx + e); }
  else for (size_t i = 0; i < f->CLAUSELIST.size(); i++) { Clause *q = f->CLAUSELIST[i]; int un = 0, lv = -1; for (auto &l : q->ATOM_LIST) { int as = f->VARLIST[l.VAR]->ATOMASSIGN[l.VAL]; if (as == 0) un++; else if (as == (l.EQUAL ? 1 : -1)) { int x = f->VARLIST[l.VAR]->ATOMLEVEL[l.VAL]; if (lv == -1 || x < lv) lv = x; } }
    if (q->LEVEL != lv) fail(cx + S("clause %d is marked satisfied at level %d, but is at %d", (int)i, q->LEVEL, lv));
    if (lv == -1 && q->NumUnAss != un) fail(cx + S("clause %d counts %d open literals, but has %d", (int)i, q->NumUnAss, un)); } }

static void c18(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); bool lazy; Args a = solverArgs(r, m, &lazy); capture();
  CommandLine *c = parse(a); Formula *f = mkF(c); int res = -1; long k = r.p(50) ? r.in(0, 5) : r.in(0, 40);
  if (!until(f, c, m, {ADDR(chooseLiteral), ADDR(chooseLiteralVSIDS), ADDR(chooseLiteralVSIDS_allPos), ADDR(lazyChooseLiteral), ADDR(lazyWatchedChooseLiteral)}, k, res)) return;
  Literal l; const char *n; bool lz = false, lw = false; string note;
  // literal counts and scores only rank literals and grow with the input: try large ones, too
  if (r.p(20)) { int sh = r.p(50) ? -r.in(0, 200000) : r.in(0, 200000); double sc = r.p(50) ? 0 : r.p(50) ? 1e-300 : 1e9; note = S(" with all positive occurrence counts shifted by %d and all scores multiplied by %g", sh, sc);
    for (size_t v = 1; v < f->VARLIST.size(); v++) for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) { f->VARLIST[v]->ATOMCNTPOS[d] += sh; f->VARLIST[v]->VSIDS_SCORE[d] *= sc; f->VARLIST[v]->VSIDS_SCORE_NEG[d] *= sc; } }
  if (hookWhich == ADDR(chooseLiteral)) { l = f->chooseLiteral(); n = "chooseLiteral"; }
  else if (hookWhich == ADDR(chooseLiteralVSIDS)) { l = f->chooseLiteralVSIDS(); n = "chooseLiteralVSIDS"; }
  else if (hookWhich == ADDR(chooseLiteralVSIDS_allPos)) { l = f->chooseLiteralVSIDS_allPos(); n = "chooseLiteralVSIDS_allPos"; }
  else if (hookWhich == ADDR(lazyChooseLiteral)) { l = f->lazyChooseLiteral(); n = "lazyChooseLiteral"; lz = true; }
  else { l = f->lazyWatchedChooseLiteral(); n = "lazyWatchedChooseLiteral"; lw = true; }
  string cx = ctx(a, p) + S("call number %ld of a decision heuristic, %s: returns literal %d%s%d%s: ", k + 1, n, l.VAR, l.EQUAL ? "=" : "!=", l.VAL, note.c_str());
  if (l.VAR != -1) { if (l.VAR < 1 || l.VAR >= (int)f->VARLIST.size() || l.VAL < 0 || l.VAL >= f->VARLIST[l.VAR]->DOMAINSIZE) fail(cx + "no such variable or value");
    if (f->VARLIST[l.VAR]->ATOMASSIGN[l.VAL] != 0) fail(cx + "already assigned"); }
  else if (lz) { for (auto q : f->CLAUSELIST) { bool s = false, o = false; for (auto &x : q->ATOM_LIST) { int v = f->sat(x); if (v == 1) s = true; if (v == 2) o = true; } if (!s && o) fail(cx + "a clause that is not satisfied has an open literal"); } }
  else if (lw) { for (auto q : f->CLAUSELIST) if (q->ATOM_LIST.size() && f->sat(q->WATCHED[0]) == 2) fail(cx + "a first watched literal is open"); }
  else for (size_t v = 1; v < f->VARLIST.size(); v++) { bool any = false; for (int d = 0; d < f->VARLIST[v]->DOMAINSIZE; d++) if (f->VARLIST[v]->ATOMASSIGN[d] == 0) any = true; if (any) fail(cx + S("variable %d has an open value", (int)v)); } }
#endif

static void c09(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); Args a = solverArgs(r, m); capture(); string cx = ctx(a, p);
  CommandLine *c = parse(a); Formula *f = new Formula(c); f->BuildFormula(c);
  if ((int)f->VARLIST.size() != p.n() + 1) fail(cx + S("%d variables read", (int)f->VARLIST.size() - 1));
  for (int v = 1; v <= p.n(); v++) { if (f->VARLIST[v]->VAR != v || f->VARLIST[v]->DOMAINSIZE != p.dom[v] || f->VARLIST[v]->VAL != -1) fail(cx + S("variable %d is read wrongly", v)); for (int d = 0; d < p.dom[v]; d++) if (f->VARLIST[v]->ATOMASSIGN[d] != 0) fail(cx + S("variable %d is assigned after reading", v)); }
  vector<vector<Lit>> want; bool empty = false; for (auto &q : p.cl) { vector<Lit> u; for (auto &l : q) if (find(u.begin(), u.end(), l) == u.end()) u.push_back(l); want.push_back(u); if (u.empty()) empty = true; }
  for (int v = 1; v <= p.n(); v++) if (p.dom[v] == 1) want.push_back({Lit{v, true, 0}});
  if (f->CLAUSELIST.size() != want.size()) fail(cx + S("%d clauses read instead of %d", (int)f->CLAUSELIST.size(), (int)want.size()));
  multiset<int> ul(f->UNITLIST.begin(), f->UNITLIST.end());
  for (size_t i = 0; i < want.size(); i++) { Clause *q = f->CLAUSELIST[i]; if (q->ATOM_LIST.size() != want[i].size() || q->NumUnAss != (int)want[i].size() || q->LEVEL != -1) fail(cx + S("clause %d is read wrongly", (int)i + 1));
    for (size_t j = 0; j < want[i].size(); j++) { Literal &l = q->ATOM_LIST[j]; Lit &e = want[i][j]; if (l.VAR != e.v || l.VAL != e.d || l.EQUAL != e.eq) fail(cx + S("literal %d of clause %d is read wrongly", (int)j + 1, (int)i + 1));
      if (!f->WATCH) { vector<int> &rec = e.eq ? f->VARLIST[e.v]->ATOMRECPOS[e.d] : f->VARLIST[e.v]->ATOMRECNEG[e.d]; if (count(rec.begin(), rec.end(), (int)i) != 1) fail(cx + S("clause %d occurs %d times in the occurrence list of its literal", (int)i + 1, (int)count(rec.begin(), rec.end(), (int)i))); } }
    if ((want[i].size() == 1) != (ul.count(i) > 0)) fail(cx + S("clause %d is %s the unit list", (int)i + 1, ul.count(i) ? "in" : "not in")); }
  if (f->CONFLICT != empty) fail(cx + "conflict flag after reading differs from the presence of an empty clause");
  if (f->WATCH) { string e; if (!watchOk(f, e, -1)) fail(cx + e); }
  else { size_t tot = 0, w = 0; for (auto &q : want) w += q.size(); for (int v = 1; v <= p.n(); v++) for (int d = 0; d < p.dom[v]; d++) tot += f->VARLIST[v]->ATOMRECPOS[d].size() + f->VARLIST[v]->ATOMRECNEG[d].size(); if (tot != w) fail(cx + "occurrence lists hold clauses that do not contain the literal"); } }

// small Boolean solver for the encoders' output
struct Cnf { int nv; vector<vector<int>> c; };
static int bsat(const Cnf &f, vector<int> as, long &lim) { if (--lim < 0) return -1; bool ch = true; while (ch) { ch = false; for (auto &c : f.c) { int u = 0, ul = 0; bool s = false; for (int l : c) { int a = as[abs(l)]; if (a == (l > 0 ? 1 : -1)) { s = true; break; } if (!a && l != ul) { u++; ul = l; } } if (s) continue; if (!u) return 0; if (u == 1) { as[abs(ul)] = ul > 0 ? 1 : -1; ch = true; } } }
  for (int v = 1; v <= f.nv; v++) if (!as[v]) { as[v] = 1; int r = bsat(f, as, lim); if (r) return r; as[v] = -1; return bsat(f, as, lim); } return 1; }
static vector<string> lines(const string &s) { vector<string> o; stringstream i(s); string l; while (getline(i, l)) o.push_back(l); return o; }

static string restyle(Rng &r, const string &t) { if (!r.p(20)) return t; size_t x = t.find("p cnf"); if (x == string::npos || (x > 0 && t[x - 1] != '\n')) return t; string s = t; s.replace(x, 5, r.p(50) ? "p fd" : "p dcnf"); return s; }

static void c10(Rng &r) {
  Prob p = gen(r, SMALL | NOEMPTY | WIDE); if (prod(p) > 5000 || p.n() > 6) return; p.text = restyle(r, p.text); put(inF, p.text); unlink(outF.c_str()); Args a = {"Solver", "-linenc", "-file", inF, "-model", outF}; capture(); { Argv v(a); solver_main((int)a.size(), &v.v[0]); }
  string o = get(outF), cx = ctx(a, p) + "output:\n" + o + "\n"; Cnf f; f.nv = -1; int nc = -1; vector<string> ls = lines(o); 
  for (size_t i = 0; i < ls.size(); i++) { if (ls[i].empty() || ls[i][0] == 'c') continue; if (ls[i][0] == 'p') { if (f.nv >= 0 || sscanf(ls[i].c_str(), "p cnf %d %d", &f.nv, &nc) != 2) fail(cx + "header cannot be read"); continue; }
    if (f.nv < 0) fail(cx + "clause before header"); stringstream s(ls[i]); vector<int> c; string w; bool z = false; while (s >> w) { char *e; long x = strtol(w.c_str(), &e, 10); if (*e || z) fail(cx + "line cannot be read: " + ls[i]); if (x == 0) { z = true; continue; } if (labs(x) > f.nv) fail(cx + "literal beyond the number of variables in the header: " + ls[i]); c.push_back((int)x); } if (!z) fail(cx + "line without final 0: " + ls[i]); f.c.push_back(c); }
  if (f.nv < 0) fail(cx + "no header"); if ((int)f.c.size() != nc) fail(cx + S("header states %d clauses, file has %d", nc, (int)f.c.size()));
  vector<int> ix(p.n() + 2, 1); for (int v = 1; v <= p.n(); v++) ix[v + 1] = ix[v] + (p.dom[v] <= 2 ? 1 : 2 * p.dom[v] - 1);
  if (f.nv != ix[p.n() + 1] - 1) fail(cx + S("header states %d variables, encoding has %d", f.nv, ix[p.n() + 1] - 1));
  long lim = 100000;
  auto fix = [&](vector<int> &as, int v, int d, bool yes) { if (p.dom[v] <= 2) as[ix[v]] = ((d == 1) == yes) ? 1 : -1; else as[ix[v] + d] = yes ? 1 : -1; };
  vector<int> m(p.n() + 1, 0); do { vector<int> as(f.nv + 1, 0); for (int v = 1; v <= p.n(); v++) if (p.dom[v] <= 2) fix(as, v, m[v], true); else for (int d = 0; d < p.dom[v]; d++) fix(as, v, d, d == m[v]);
    int s = bsat(f, as, lim); if (s < 0) return; if (s != (int)okm(p, m)) { string mt; for (int v = 1; v <= p.n(); v++) mt += S("%d=%d ", v, m[v]); fail(cx + "assignment " + mt + (s ? "satisfies the encoding but not the problem" : "satisfies the problem but not the encoding")); } } while (nextm(p, m));
  for (int v = 1; v <= p.n(); v++) { if (p.dom[v] == 1) { vector<int> as(f.nv + 1, 0); as[ix[v]] = 1; if (bsat(f, as, lim) == 1) fail(cx + S("variable %d takes a value it does not have", v)); }
    if (p.dom[v] > 2) { vector<int> as(f.nv + 1, 0); for (int d = 0; d < p.dom[v]; d++) fix(as, v, d, false); if (bsat(f, as, lim) == 1) fail(cx + S("variable %d takes no value", v));
      for (int d = 0; d < p.dom[v]; d++) for (int e = d + 1; e < p.dom[v]; e++) { vector<int> b(f.nv + 1, 0); fix(b, v, d, true); fix(b, v, e, true); if (bsat(f, b, lim) == 1) fail(cx + S("variable %d takes two values", v)); } } } }

static void c11(Rng &r) {
  Prob p = gen(r, SMALL | NOEMPTY | WIDE); if (prod(p) > 5000 || p.n() > 6) return; p.text = restyle(r, p.text); put(inF, p.text); unlink(outF.c_str()); Args a = {"Solver", "-quadenc", "-file", inF, "-model", outF}; capture(); { Argv v(a); solver_main((int)a.size(), &v.v[0]); }
  string o = get(outF), cx = ctx(a, p) + "output:\n" + o + "\n"; int nv = -1, nc = -1; vector<string> ls = lines(o); map<pair<int,int>, int> id; int k = 0; for (int v = 1; v <= p.n(); v++) for (int d = 0; d < p.dom[v]; d++) id[{v, d}] = ++k;
  Cnf f; f.nv = k; set<int> used;
  for (auto &l : ls) { if (l.empty() || l[0] == 'c') continue; if (l[0] == 'p') { if (nv >= 0 || sscanf(l.c_str(), "p cnf %d %d", &nv, &nc) != 2) fail(cx + "header cannot be read"); continue; }
    stringstream s(l); string w; vector<int> c; while (s >> w) { if (w == "0") continue; int v, d, n; bool neg = w[0] == '-'; if (sscanf(w.c_str() + neg, "%d=%d%n", &v, &d, &n) != 2 || n != (int)w.size() - neg || !id.count({v, d})) fail(cx + "cannot read " + w); int x = id[{v, d}]; used.insert(x); c.push_back(neg ? -x : x); } f.c.push_back(c); }
  if (nv < 0) fail(cx + "no header"); if (nv != k) fail(cx + S("header states %d variables, encoding has %d", nv, k)); if (nc != (int)f.c.size()) fail(cx + S("header states %d clauses, file has %d", nc, (int)f.c.size()));
  long lim = 100000;
  vector<int> m(p.n() + 1, 0); do { vector<int> as(k + 1, 0); for (auto &x : id) as[x.second] = m[x.first.first] == x.first.second ? 1 : -1; int s = bsat(f, as, lim); if (s < 0) return; if (s != (int)okm(p, m)) { string mt; for (int v = 1; v <= p.n(); v++) mt += S("%d=%d ", v, m[v]); fail(cx + "assignment " + mt + (s ? "satisfies the encoding but not the problem" : "satisfies the problem but not the encoding")); } } while (nextm(p, m));
  // the encoding itself must exclude no value and two values, whatever the clauses: look for the clauses
  for (int v = 1; v <= p.n(); v++) { vector<int> alo; for (int d = 0; d < p.dom[v]; d++) alo.push_back(id[{v, d}]); bool found = false; for (auto &c : f.c) { vector<int> q = c; sort(q.begin(), q.end()); q.erase(unique(q.begin(), q.end()), q.end()); if (q == alo) found = true; }
    if (!found) { vector<int> as(k + 1, 0); for (int x : alo) as[x] = -1; if (bsat(f, as, lim) == 1) fail(cx + S("variable %d takes no value", v)); }
    for (int d = 0; d < p.dom[v]; d++) for (int e = d + 1; e < p.dom[v]; e++) { vector<int> as(k + 1, 0); as[id[{v, d}]] = 1; as[id[{v, e}]] = 1; if (bsat(f, as, lim) == 1) fail(cx + S("variable %d takes two values", v)); } } }

static void c12(Rng &r) {
  int n = r.p(5) ? r.in(20, 120) : r.in(1, 7), m = r.in(0, 12); vector<vector<int>> cl; ostringstream o; bool noise = r.p(40); vector<string> com;
  if (noise && r.p(50)) o << "c hello 1 2 0\n"; o << "p cnf " << n << " " << m << "\n"; if (noise && r.p(20)) o << "\n";
  for (int i = 0; i < m; i++) { int k = r.in(r.p(3) ? 0 : 1, 5); vector<int> c; if (noise && r.p(10)) o << "c 3 4 0\n"; if (noise && r.p(10)) o << " \n"; if (noise && r.p(10)) o << "\t"; bool lng = noise && r.p(1);
    for (int j = 0; j < k; j++) { int v = r.in(1, n); if (r.p(50)) v = -v; c.push_back(v); o << v << (noise && r.p(10) ? "\t" : " "); if (lng) { int x = r.in(500, 3500); while (x--) o << ' '; } } o << "0"; if (noise && r.p(10)) o << " "; if (!(i == m - 1 && noise && r.p(30))) o << "\n"; cl.push_back(c); }
  put(inF, o.str()); unlink(outF.c_str()); Args a = {"Solver", "-b2f", "-file", inF, "-model", outF}; capture(); { Argv v(a); solver_main((int)a.size(), &v.v[0]); }
  string out = get(outF), cx = "command: " + cmdl(a) + "\ninput:\n" + o.str() + "\noutput:\n" + out + "\n"; vector<string> ls = lines(out); int nv = -1, nc = -1; map<int,int> dom; vector<vector<pair<int,int>>> got;
  for (auto &l : ls) { if (l.empty() || l[0] == 'c') continue; if (l[0] == 'p') { if (nv >= 0 || sscanf(l.c_str(), "p cnf %d %d", &nv, &nc) != 2) fail(cx + "header cannot be read"); continue; }
    if (l[0] == 'd') { int v, d; if (sscanf(l.c_str(), "d %d %d", &v, &d) != 2 || dom.count(v)) fail(cx + "domain line cannot be read: " + l); dom[v] = d; if (got.size()) fail(cx + "domain line after a clause"); continue; }
    stringstream s(l); string w; vector<pair<int,int>> c; bool z = false; while (s >> w) { if (z) fail(cx + "text after the final 0: " + l); if (w == "0") { z = true; continue; } int v, d, k; if (sscanf(w.c_str(), "%d=%d%n", &v, &d, &k) != 2 || k != (int)w.size()) fail(cx + "cannot read " + w); c.push_back({v, d}); } if (!z) fail(cx + "line without final 0: " + l); got.push_back(c); }
  if (nv != n || nc != m) fail(cx + "header differs from the input"); for (int v = 1; v <= n; v++) if (!dom.count(v) || dom[v] != 2) fail(cx + S("variable %d is not declared with two values", v)); if ((int)dom.size() != n) fail(cx + "a variable is declared that does not exist");
  if (got.size() != cl.size()) fail(cx + "number of clauses differs"); for (size_t i = 0; i < cl.size(); i++) { if (got[i].size() != cl[i].size()) fail(cx + S("clause %d differs", (int)i + 1)); for (size_t j = 0; j < cl[i].size(); j++) if (got[i][j].first != abs(cl[i][j]) || got[i][j].second != (cl[i][j] > 0)) fail(cx + S("clause %d differs", (int)i + 1)); } }

static void c13(Rng &r, bool boolean) {
  int n = r.in(1, 12), k = r.in(1, min(n, 6)), m = r.in(1, 40), D = r.in(1, 6), dr = r.in(0, 1), sat = r.in(0, 2); if (r.p(5)) { n = r.in(20, 60); m = r.in(1, 200); D = r.in(1, 20); }
  if (boolean && k > n) k = n; 
  auto N = [](int x) { return to_string(x); };
  vector<Args> o = {{"-var", N(n)}, {"-clause", N(m)}, {"-file", outF}}; if (!(k == 3 && r.p(50))) o.push_back({"-clausesize", N(k)}); if (sat < 2) o.push_back({"-sat", N(sat)}); if (!boolean) { o.push_back({"-bool", "1"}); o.push_back({"-domain", N(D)}); if (dr || r.p(50)) o.push_back({"-drand", N(dr)}); } else if (r.p(50)) o.push_back({"-bool", "0"});
  for (size_t i = o.size(); i > 1; i--) swap(o[i - 1], o[r.in(0, i - 1)]);
  Args a = {"Solver", "-genben"}; for (auto &x : o) for (auto &y : x) a.push_back(y);
  vtime = true; vtimeval = (time_t)(r.next() & 0x7fffffff); unlink(outF.c_str()); capture(); { Argv v(a); solver_main((int)a.size(), &v.v[0]); } vtime = false;
  string out = get(outF), cx = "command: " + cmdl(a) + S("\nclock (time()) at start: %ld\noutput:\n", (long)vtimeval) + out + "\n"; Prob p; p.dom.assign(n + 1, boolean ? 2 : 0); int nv = -1, nc = -1;
  for (auto &l : lines(out)) { if (l.empty() || l[0] == 'c') continue; if (l[0] == 'p') { if (nv >= 0 || sscanf(l.c_str(), "p cnf %d %d", &nv, &nc) != 2) fail(cx + "header cannot be read"); continue; }
    if (l[0] == 'd') { int v, d; if (boolean || sscanf(l.c_str(), "d %d %d", &v, &d) != 2 || v < 1 || v > n || p.dom[v]) fail(cx + "domain line cannot be read: " + l); p.dom[v] = d; if (d < 1 || d > D || (!dr && d != D)) fail(cx + "domain size out of range: " + l); if (p.cl.size()) fail(cx + "domain line after a clause"); continue; }
    stringstream s(l); string w; vector<Lit> c; bool z = false; while (s >> w) { if (z) fail(cx + "text after 0: " + l); if (w == "0") { z = true; continue; } if (boolean) { char *e; long x = strtol(w.c_str(), &e, 10); if (*e || x == 0 || labs(x) > n) fail(cx + "cannot read " + w); c.push_back(Lit{(int)labs(x), true, x > 0}); } else { int v, d, q; if (sscanf(w.c_str(), "%d=%d%n", &v, &d, &q) != 2 || q != (int)w.size() || v < 1 || v > n || d < 0 || d >= p.dom[v]) fail(cx + "literal over no existing variable or value: " + w); c.push_back(Lit{v, true, d}); } }
    for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++) if (c[i].v == c[j].v && (!boolean || c[i].d == c[j].d)) fail(cx + (boolean ? "literal twice in a clause: " : "variable twice in a clause: ") + l);
    if (!z) fail(cx + "line without 0: " + l); if ((int)c.size() != k) fail(cx + "wrong number of literals: " + l); p.cl.push_back(c); }
  if (nv != n || nc != m) fail(cx + "header differs from the request"); if ((int)p.cl.size() != m) fail(cx + S("%d clauses written", (int)p.cl.size())); for (int v = 1; v <= n; v++) if (!p.dom[v]) fail(cx + S("variable %d has no domain line", v));
  if (sat != 0 && oracle(p) == 0) fail(cx + "the problem is unsatisfiable"); }

static void c15(Rng &r) {
  int cmd = r.in(0, 5); const char *cn[] = {"-genben", "-b2f", "-linenc", "-quadenc", "-solvech", "-solvenc"}; CommandLine e; memset(&e, 0, sizeof e);
  e.NUM_VAR = e.NUM_CLAUSE = -1; e.CLAUSE_SIZE = 3; e.SAT_UNSAT = true; e.DOMAIN_SIZE = 10; e.DRAND = false; e.BOOL_FINITE = false; e.FILE = 0; e.MODEL_FILE = 0; e.TIME = 3600000; e.RESTARTS = 0; e.MODEL = true; e.WATCH = false; e.heuristic = Heuristic::BK; e.LOG = false;
  string file, model; bool hs = false; auto N = [](int x) { return to_string(x); }; vector<Args> o; int x;
  auto num = [&](const char *n, int &dst) { if (r.p(40)) { x = r.p(20) ? r.in(0, 100000) : r.in(0, 50); dst = x; o.push_back({n, N(x)}); } };
  auto flag = [&](const char *n, bool &dst) { if (r.p(40)) { x = r.in(0, 1); dst = x; o.push_back({n, N(x)}); } };
  auto str = [&](const char *n, string &dst) { if (r.p(60)) { dst = r.p(20) ? S("-var%d", r.in(0, 9)) : S("f%d.txt", r.in(0, 99)); o.push_back({n, dst}); } };
  str("-file", file);
  if (cmd == 0) { num("-var", e.NUM_VAR); num("-clause", e.NUM_CLAUSE); num("-clausesize", e.CLAUSE_SIZE); flag("-sat", e.SAT_UNSAT); num("-domain", e.DOMAIN_SIZE); flag("-drand", e.DRAND); flag("-bool", e.BOOL_FINITE); }
  else if (cmd <= 3) str("-model", model);
  else { num("-var", e.NUM_VAR); num("-clause", e.NUM_CLAUSE); num("-clausesize", e.CLAUSE_SIZE); num("-time", e.TIME); if (r.p(20)) { e.LOG = true; o.push_back({"-verbose"}); }
    if (cmd == 4) { if (r.p(40)) { e.heuristic = Heuristic::lazy; o.push_back({"-lazy"}); } str("-model", model); }
    else { if (r.p(40)) { e.WATCH = true; o.push_back({"-wl"}); } int h = r.in(0, 5); if (h == 0) { e.heuristic = Heuristic::VSIDS; o.push_back({"-vsids"}); hs = true; } else if (h == 1) { e.heuristic = Heuristic::VSIDS_pos; o.push_back({"-vsids_pos"}); hs = true; } else if (h == 2) { e.heuristic = Heuristic::lazy; o.push_back({"-lazy"}); hs = true; }
      if (e.WATCH && !hs) e.heuristic = Heuristic::VSIDS; if (r.p(50)) { e.RESTARTS = r.in(0, 300); o.push_back({r.p(50) ? "-restarts" : "-restart", N(e.RESTARTS)}); } if (r.p(20)) o.push_back({"-model"}); } }
  for (size_t i = o.size(); i > 1; i--) swap(o[i - 1], o[r.in(0, i - 1)]);
  Args a = {"Solver", cn[cmd]}; for (auto &y : o) for (auto &z : y) a.push_back(z);
  CommandLine *c = new CommandLine; memset(c, 0x5a, sizeof *c); Argv v(a); capture(); ParseCommandLine(c, (int)a.size(), &v.v[0]); string cx = "command: " + cmdl(a) + "\n";
#define CK(F) if (c->F != e.F) fail(cx + "setting " #F " is " + to_string((long)c->F) + " instead of " + to_string((long)e.F));
  CK(NUM_VAR) CK(NUM_CLAUSE) CK(CLAUSE_SIZE) CK(SAT_UNSAT) CK(DOMAIN_SIZE) CK(DRAND) CK(BOOL_FINITE) CK(TIME) CK(RESTARTS) CK(MODEL) CK(WATCH) CK(heuristic) CK(LOG)
  if ((c->FILE ? string(c->FILE) : "") != file) fail(cx + "setting FILE is wrong"); if ((c->MODEL_FILE ? string(c->MODEL_FILE) : "") != model) fail(cx + "setting MODEL_FILE is wrong"); delete c; }

static void c16(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); Args a = solverArgs(r, m); int lim = r.p(40) ? r.in(0, 2) : r.in(0, 40); if (!r.p(20)) { a.push_back("-time"); a.push_back(to_string(lim)); } else lim = 3600000;
  vclock = true; vnow = 1000 + r.in(0, 1000) * 0.5; double steps[] = {0, 0.03125, 0.125, 0.5, 1, 1.5, 4}; vstep = steps[r.in(0, 6)]; vlog.clear(); capture(); string cx = ctx(a, p) + S("clock starts at %.2f and advances %.5f s per reading", vnow, vstep) + "\n";
  if (r.p(50)) { Argv v(a); solver_main((int)a.size(), &v.v[0]); string o = captured(); vclock = false;
    bool pt = said(o, "TIMEOUT"), pu = said(o, "UNSAT"), ps = said(o, "SAT");
    if (pt + pu + ps != 1) fail(cx + "not exactly one verdict is printed:\n" + o.substr(0, 3000));
    double el = vlog.empty() ? 0 : vlog.back() - vlog[0]; if (pt && !(el > lim)) fail(cx + S("TIMEOUT printed after %.3f s with limit %d", el, lim));
    // the verdict printed is the one returned
    CommandLine *c = parse(a); vclock = true; vnow = vlog.empty() ? 1000 : vlog[0] - vstep; vlog.clear(); capture(); Formula *f = new Formula(c); f->BuildFormula(c); f->TIME_S = GetTime(); f->TIME_E = GetTime(); int res = search(f, c, m); vclock = false;
    if ((res == 0) != ps || (res == 1) != pt || (res == 2) != pu) fail(cx + S("search returns %d, printed:\n", res) + o.substr(0, 3000));
    return; }
  CommandLine *c = parse(a); Formula *f = new Formula(c); f->BuildFormula(c); f->TIME_S = GetTime(); double t0 = vlog.back(); f->TIME_E = GetTime(); int res = search(f, c, m); vclock = false; double el = vlog.back() - t0;
  if (res == 1 && !(el > lim)) fail(cx + S("TIMEOUT after %.3f s with limit %d", el, lim)); }

static void c20(Rng &r) {
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); bool lazy; Args a = solverArgs(r, m, &lazy); capture(); string cx = ctx(a, p);
  CommandLine *c = parse(a); c->LOG = false; Formula *f = mkF(c); int res = search(f, c, m); if (res != 0) return; capture(); f->PrintModel(); string o = captured(); 
  auto scan = [&](const string &txt, const char *who) { vector<int> val(p.n() + 1, -1); for (auto &l : lines(txt)) { if (l.empty()) continue; int v, d, n; if (sscanf(l.c_str(), "%d=%d%n", &v, &d, &n) != 2 || n != (int)l.size()) { if (who[0] == 'P') fail(cx + "model printed:\n" + txt + "cannot read " + l); break; } 
      if (v < 1 || v > p.n() || d < 0 || d >= p.dom[v]) fail(cx + who + " printed:\n" + txt + "no such variable or value: " + l); if (val[v] != -1) fail(cx + who + " printed:\n" + txt + S("variable %d is named twice", v)); val[v] = d; if (f->VARLIST[v]->ATOMASSIGN[d] != 1) fail(cx + who + " printed:\n" + txt + S("variable %d does not have value %d", v, d)); }
    if (!lazy) for (int v = 1; v <= p.n(); v++) if (val[v] == -1) fail(cx + who + " printed:\n" + txt + S("variable %d is not named", v)); };
  scan(o, "PrintModel()");
  if (r.p(30)) { bool vb = false; for (auto &x : a) if (x == "-verbose") vb = true; if (vb) return; capture(); Argv v(a); solver_main((int)a.size(), &v.v[0]); string t = captured(); size_t q = t.find("The model: \n"); if (!said(t, "SAT")) return; if (q == string::npos) fail(cx + "no model printed after SAT"); scan(t.substr(q + 12), "main program"); } }

static void c19(Rng &r) { // meant for a build with address checking: any report is a failure
  Prob p = gen(r); put(inF, p.text); Mode m = (Mode)r.in(0, 2); Args a = solverArgs(r, m); capture(); put(seedtxt, ctx(a, p));
  Argv v(a); solver_main((int)a.size(), &v.v[0]); }

#else
// ---------------------------------------------------------------- the bit-vector variant (sources in bitvec/)
static bool wideDom(const Prob &p) { for (int v = 1; v <= p.n(); v++) if (p.dom[v] > 64 || p.dom[v] < 1) return true; return false; }
static void c17(Rng &r) {
  Prob p = gen(r, DOM64); if (wideDom(p)) return; put(inF, p.text);
  Args a = {"Solver", "-solvenc"}; vector<Args> o; o.push_back({"-file", inF}); if (r.p(50)) o.push_back({"-vsids"});
  int q = r.in(0, 5); if (q) o.push_back({r.p(50) ? "-restarts" : "-restart", to_string(q == 5 ? r.in(5, 20) : q)});
  if (r.p(4)) o.push_back({"-verbose"}); if (r.p(10)) o.push_back({"-wl"});
  for (size_t i = o.size(); i > 1; i--) swap(o[i - 1], o[r.in(0, i - 1)]);
  for (auto &x : o) for (auto &y : x) a.push_back(y);
  string cx = "command: " + cmdl(a) + " (program built from bitvec/)\nproblem:\n" + p.text + "\n"; capture();
  Argv *keep = new Argv(a); CommandLine *c = new CommandLine; ParseCommandLine(c, (int)a.size(), &keep->v[0]);
  Formula *f = new Formula(c); f->BuildFormula(c); f->TIME_S = f->TIME_E = GetTime(); int res = f->WatchedLiterals(c->RESTARTS);
  if (res != 0 && res != 1 && res != 2) fail(cx + S("the search returns %d", res));
  if (res == 2 && oracle(p) == 1) fail(cx + "UNSAT is reported, but the problem has a satisfying assignment");
  if (res == 0) {
    vector<vector<int>> al(p.n() + 1);
    for (int v = 1; v <= p.n(); v++) { for (int d = 0; d < 64; d++) if (f->VARLIST[v]->CURRENT_DOMAIN.test(d)) { if (d >= p.dom[v]) fail(cx + S("SAT is reported with value %d for variable %d, which it does not have", d, v)); al[v].push_back(d); } if (al[v].empty()) fail(cx + S("SAT is reported, but variable %d has no value left", v)); }
    for (size_t i = 0; i < p.cl.size(); i++) { map<int, set<int>> ok; for (auto &l : p.cl[i]) { if (!ok.count(l.v)) ok[l.v] = set<int>(al[l.v].begin(), al[l.v].end()); if (l.eq) ok[l.v].erase(l.d); else { bool h = ok[l.v].count(l.d); ok[l.v].clear(); if (h) ok[l.v].insert(l.d); } }
      bool fals = true; for (auto &x : ok) if (x.second.empty()) fals = false;
      if (fals) fail(cx + S("SAT is reported, but values of the domains left falsify clause %d", (int)i + 1)); } }
  if (r.p(20)) { capture(); Argv v(a); solver_main((int)a.size(), &v.v[0]); string t = captured(); bool ps = false, pu = false, pt = false; { stringstream i(t.substr(t.rfind('\a') == string::npos ? 0 : t.rfind('\a'))); string l; while (getline(i, l)) { string u; for (char ch : l) if (ch != '\a') u += ch; if (u == "SAT") ps = true; if (u == "UNSAT") pu = true; if (u == "TIMEOUT") pt = true; } }
    if (ps + pu + pt != 1) fail(cx + "not exactly one verdict is printed:\n" + t.substr(0, 3000));
    if ((res == 0) != ps || (res == 2) != pu) fail(cx + S("the search returns %d, printed:\n", res) + t.substr(0, 3000));
    if (said(t, "UNSAT") && oracle(p) == 1) fail(cx + "UNSAT is printed, but the problem has a satisfying assignment"); } }
#endif

static bool run1(const string &prop, u64 seed) {
  Rng r(seed * 1000003ULL + 17);
  vclock = false; vtime = false;
#ifdef BITVEC
  if (prop == "C17") c17(r); else return false;
#else
  if (prop == "C01") solveProp(r, NC, true, false); else if (prop == "C02") solveProp(r, NC, false, true); else if (prop == "C03") solveProp(r, WL, true, false); else if (prop == "C04") solveProp(r, WL, false, true); else if (prop == "C05") solveProp(r, CH, true, true);
  else if (prop == "C06") c06(r); else if (prop == "C07") c07(r); else if (prop == "C09") c09(r); else if (prop == "C10") c10(r); else if (prop == "C11") c11(r); else if (prop == "C12") c12(r); else if (prop == "C13") c13(r, false); else if (prop == "C14") c13(r, true); else if (prop == "C15") c15(r); else if (prop == "C16") c16(r); else if (prop == "C20") c20(r); else if (prop == "C19") c19(r);
#ifdef HOOKS
  else if (prop == "C08") c08(r); else if (prop == "C18") c18(r);
#endif
  else return false;
#endif
  return true; }

int main(int argc, char **argv) {
  string prop = argv[1]; u64 s0 = strtoull(argv[2], 0, 10), stride = strtoull(argv[3], 0, 10); double secs = atof(argv[4]); string out = argv[5]; string base = argv[6]; bool crashes = argc > 7 && !strcmp(argv[7], "crash"); u64 maxn = argc > 8 ? strtoull(argv[8], 0, 10) : ~0ULL;
  snprintf(dirn, sizeof dirn, "%s/w%llu", base.c_str(), s0); mkdir(base.c_str(), 0755); mkdir(dirn, 0755); inF = string(dirn) + "/in.txt"; outF = string(dirn) + "/out.txt"; seedtxt = string(dirn) + "/case.txt"; string errF = string(dirn) + "/err.txt";
  struct Sh { volatile u64 seed, done; }; Sh *sh = (Sh *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); auto el = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9; };
  u64 cur = s0; u64 total = 0, hangs = 0, dead = 0; bool confirm = false; int rc = 0;
  int real1 = dup(1);
  while (el() < secs && total < maxn) { sh->done = 0; sh->seed = cur; pid_t pid = fork();
    if (!pid) { FILE *o = freopen((string(dirn) + "/stdout.txt").c_str(), "w+", stdout); (void)o; if (!freopen(errF.c_str(), "w", stderr)) {} if (!freopen("/dev/null", "r", stdin)) {}
      // many cases in one process, then a fresh one
      for (int i = 0; i < (confirm ? 1 : 300); i++) { sh->seed = cur; struct itimerval it = {{0, 0}, {4, 0}}; setitimer(ITIMER_REAL, &it, 0);
        try { if (!run1(prop, cur)) _exit(9); } catch (Fail &f) { put(out, "property " + prop + "\nseed " + to_string(cur) + " (the inputs below are complete; the seed only reruns the generator)\n" + f.msg + "\n"); _exit(3); }
        sh->done++; cur += stride; if (el() > secs) break; } _exit(0); }
    int st; waitpid(pid, &st, 0); total += sh->done;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { cur = s0 + stride * (total + hangs + dead); confirm = false; continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { rc = 1; break; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { rc = 9; break; }
    cur = sh->seed;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { hangs++; cur += stride; confirm = false; if (hangs > 60) break; continue; }
    if (crashes) { if (confirm) { put(out, "property " + prop + "\nseed " + to_string(cur) + "\nthe program stops with " + (WIFSIGNALED(st) ? S("signal %d", WTERMSIG(st)) : S("exit status %d", WEXITSTATUS(st))) + "\n" + (prop == "C19" ? get(seedtxt) : "input file:\n" + get(inF)) + "\n" + get(errF).substr(0, 6000) + "\n"); rc = 1; break; } confirm = true; continue; }
    dead++; cur += stride; }
  dprintf(real1, "%llu cases, %llu over the time per case, %llu stopped, %.1fs\n", total, hangs, dead, el());
  return rc; }
