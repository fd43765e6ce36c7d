// common part of all harnesses; SYMBOLIC: real_t = se::sym, otherwise real_t = double (replay build)
#pragma once
#include "pre.hpp"
#include "fiber.hpp"
#include <libmpdata++/blitz.hpp>
#include <libmpdata++/formulae/arakawa_c.hpp>
#include <libmpdata++/formulae/domain_decomposition.hpp>
#if defined(SYMBOLIC)
typedef se::sym num;
// reductions are declared with a fixed floating type in the library: replaced by the symbolic scalar
#define double se::sym
#include <libmpdata++/concurr/detail/distmem.hpp>
#include <libmpdata++/concurr/detail/sharedmem.hpp>
#undef double
#else
typedef double num;
#include <libmpdata++/concurr/detail/distmem.hpp>
#include <libmpdata++/concurr/detail/sharedmem.hpp>
#endif
#include <libmpdata++/opts.hpp>
#include <libmpdata++/concurr/detail/concurr_common.hpp>

#define SE_STR_(x) #x
#define SE_STR(x) SE_STR_(x)
#if defined(SE_TRAP)
#include <execinfo.h>
namespace se { void engine::trapped(const ev &e) { fprintf(stderr, "TRAP thread %u epoch %u kind %d value %u\n", e.thread, e.epoch, int(e.wr), e.val); void *b[60]; int k = backtrace(b, 60); backtrace_symbols_fd(b, k, 2); } }
#endif
namespace H
{
  using namespace libmpdataxx;
  // ---- inputs / outputs -------------------------------------------------------------------------
  inline std::map<std::string, double> &given() { static std::map<std::string, double> m; return m; }
  inline std::map<std::string, num> &inputs() { static std::map<std::string, num> m; return m; }
  inline std::vector<std::pair<std::string, num>> &outputs() { static std::vector<std::pair<std::string, num>> v; return v; }
  inline std::vector<std::string> &notes() { static std::vector<std::string> v; return v; }
  inline std::map<std::string, std::string> &args() { static std::map<std::string, std::string> m; return m; }
  inline std::string arg(const std::string &k, const std::string &d = "") { auto it = args().find(k); return it == args().end() ? d : it->second; }
  inline int argi(const std::string &k, int d) { auto it = args().find(k); return it == args().end() ? d : atoi(it->second.c_str()); }
  inline double hash01(const std::string &s) // deterministic witness value in (0,1)
  {
    uint64_t h = 1469598103934665603ull ^ uint64_t(argi("seed", 1)) * 0x9e3779b97f4a7c15ull;
    for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; }
    h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
    return double((h >> 12) & 0xffffffff) / 4294967296.0;
  }
  // an input that may take any value; lo/hi only guide the witness value
  inline num in(const std::string &name, double lo = 0.5, double hi = 1.5)
  {
    auto it = inputs().find(name);
    if (it != inputs().end()) return it->second;
    auto g = given().find(name);
    double w = g != given().end() ? g->second : lo + (hi - lo) * hash01(name);
#if defined(SYMBOLIC)
    num r = se::sym::raw(se::E().var(name, w));
#else
    num r = w;
#endif
    inputs().emplace(name, r);
    return r;
  }
  inline void out(const std::string &name, const num &v) { outputs().push_back({name, v}); }
  inline void note(const std::string &s) { notes().push_back(s); }
  template <class... T> std::string nm(const std::string &b, T... ix)
  {
    std::ostringstream o; o << b; const char *sep = "["; (void)sep;
    ((o << sep << ix, sep = ","), ...); if (sizeof...(ix)) o << "]"; return o.str();
  }
  inline void dump(const std::string &fn)
  {
    std::ofstream f(fn);
    f << std::setprecision(17);
#if defined(SYMBOLIC)
    auto &e = se::E();
    f << "nodes " << e.nodes.size() << "\n";
    for (auto &n : e.nodes)
    {
      if (n.op == se::CONST) { char b[64]; snprintf(b, 64, "%a", n.val); f << "c " << b << "\n"; }
      else if (n.op == se::VAR) f << "v " << e.varnames[n.a] << " " << n.val << "\n";
      else f << "o " << se::opname(n.op) << " " << n.a << " " << n.b << " " << n.c << "\n";
    }
    for (auto &p : e.path) f << "path " << p.first << " " << p.second << "\n";
    for (auto &p : e.concretised) f << "conc " << p << "\n";
    for (auto &p : outputs()) f << "out " << p.first << " " << p.second.id << "\n";
    for (size_t i = 0; i < e.events.size(); ++i) { auto &v = e.events[i]; f << "ev " << v.thread << " " << v.epoch << " " << v.addr << " " << v.val << " " << int(v.wr) << " " << e.evcnt[i] << "\n"; }
#else
    for (auto &p : inputs()) f << "in " << p.first << " " << p.second << "\n";
    for (auto &p : outputs()) f << "val " << p.first << " " << p.second << "\n";
#endif
    for (auto &s : notes()) f << "note " << s << "\n";
    f << "end\n";
  }
  // ---- workers ----------------------------------------------------------------------------------
  inline int &n_workers() { static int n = 1; return n; }
#if defined(SYMBOLIC)
  inline void sw(int t, long ep, char *stk, size_t sz)
  {
    auto &e = se::E();
    if (t < 0) e.end_epoch();
    e.rec = t >= 0 && e.rec_any;
    e.cur_thread = t < 0 ? 0 : t; e.cur_epoch = ep;
    e.stacks.clear();
    if (stk) e.stacks.push_back({(uintptr_t)stk, (uintptr_t)stk + sz});
  }
#endif
  template <class solver_t,
    bcond::bcond_e bcxl, bcond::bcond_e bcxr, bcond::bcond_e bcyl = bcond::null, bcond::bcond_e bcyr = bcond::null,
    bcond::bcond_e bczl = bcond::null, bcond::bcond_e bczr = bcond::null>
  struct workers : concurr::detail::concurr_common<solver_t, bcxl, bcxr, bcyl, bcyr, bczl, bczr>
  {
    using parent_t = concurr::detail::concurr_common<solver_t, bcxl, bcxr, bcyl, bcyr, bczl, bczr>;
    struct mem_t : parent_t::mem_t
    {
      void barrier() { fib::barrier(); }
      mem_t(const std::array<int, solver_t::n_dims> &gs) : parent_t::mem_t(gs, n_workers()) {}
    };
    void solve(typename parent_t::advance_arg_t nt)
    {
      std::string err = fib::run(this->algos.size(), [&](int i) { this->algos[i].solve(nt); });
      if (!err.empty()) throw std::runtime_error(err);
    }
    workers(const typename solver_t::rt_params_t &p) : parent_t(p, new mem_t(p.grid_size), n_workers()) {}
  };
  // ---- element access independent of the number of dimensions
  template <int ND, class A> num &AT(A &&a, int i, int j, int k)
  {
    if constexpr (ND == 1) return a(i); else if constexpr (ND == 2) return a(i, j); else return a(i, j, k);
  }
  // ---- configurations compiled into this program
  inline std::map<std::string, std::function<int()>> &reg() { static std::map<std::string, std::function<int()>> m; return m; }
}
#if !defined(SYMBOLIC)
// replay of dependence on uninitialised storage: fresh heap memory is filled with a chosen byte
#include <new>
#include <cstring>
namespace H { inline int &poison() { static int p = -1; return p; } }
static void *h_alloc(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (H::poison() >= 0) std::memset(p, H::poison(), n); return p; }
void *operator new(size_t n) { return h_alloc(n); }
void *operator new[](size_t n) { return h_alloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
#endif
int main(int argc, char **argv)
{
  // arguments: key=value ...; out=FILE; given=FILE (name value per line); force=0101...
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto p = a.find('='); if (p != std::string::npos) H::args()[a.substr(0, p)] = a.substr(p + 1); }
  if (H::args().count("given")) { std::ifstream f(H::args()["given"]); std::string n; double v; while (f >> n >> v) H::given()[n] = v; }
  H::n_workers() = H::argi("workers", 1);
#if !defined(SYMBOLIC)
  H::poison() = H::argi("poison", -1);
#endif
  fib::sched::get().reverse = H::argi("reverse", 0);
  for (char c : H::arg("order")) fib::sched::get().perm.push_back(c - '0');
#if defined(SYMBOLIC)
  fib::on_switch = H::sw;
#if defined(SE_TRAP)
  se::E().trap = strtoull(H::arg("trap", "0").c_str(), 0, 10); se::E().trapep = H::argi("trapep", -1);
#endif
  if (H::argi("record", 0)) { se::E().rec_any = true; }
  if (H::args().count("pre"))
  { // thread:epoch:address:n
    auto &e = se::E(); unsigned long long a;
    if (sscanf(H::args()["pre"].c_str(), "%d:%ld:%llu:%ld", &e.pre_t, &e.pre_e, &a, &e.pre_n) == 4) e.pre_a = a;
    fib::sched::get().first_in = {e.pre_e, e.pre_t}; e.preempt = fib::preempt;
  }
  if (H::args().count("havoc"))
  {
    std::ifstream f(H::args()["havoc"]); uint32_t t, ep; unsigned long long a;
    se::E().havoc = true; while (f >> t >> ep >> a) se::E().racy.insert({t, ep, a});
  }
  for (char c : H::arg("force")) se::E().forced.push_back(c - '0');
#endif
  int rc = 0;
#if defined(SYMBOLIC)
  se::tracking() = se::E().rec_any;
#endif
  try { rc = H::reg().at(H::arg("cfg"))(); }
  catch (std::exception &e) { H::note(std::string("exception: ") + e.what()); }
#if defined(SYMBOLIC)
  se::tracking() = false;
#endif
  std::string o = H::arg("out");
  if (!o.empty()) H::dump(o);
  fflush(stdout);
  _exit(rc);
}
