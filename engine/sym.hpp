// Symbolic scalar: instantiating the library's templates with this type makes an ordinary run of the
// real code a symbolic execution of it.  Every arithmetic operation appends a node to a hash-consed
// expression DAG; every decision taken on a symbolic value is recorded as a path constraint; every
// access to a scalar that lives outside the worker stacks is recorded as a memory event.
// Each node also carries the value it takes under a concrete witness input (concolic execution).
#pragma once
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <limits>
#include <type_traits>
#include <iosfwd>
#include <ostream>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <tuple>
#include <mutex>

namespace se
{
  inline thread_local bool in_alloc = false; // inside of the engine: allocations are not the program's
  struct inside { bool o; inside() : o(in_alloc) { in_alloc = true; } ~inside() { in_alloc = o; } };
  enum op_t : uint8_t {
    CONST, VAR, ADD, SUB, MUL, DIV, NEG, MIN, MAX, ABS, SQRT, POW, EXP, LOG, SIN, COS, TAN, ATAN, FLOOR, CEIL,
    ITE, LT, LE, GT, GE, EQ, NE, AND, OR, NOT, TRUE_, FALSE_, ATAN2, ACOS, ASIN, N_OPS
  };
  inline const char *opname(op_t o)
  {
    static const char *n[] = {"const","var","+","-","*","/","neg","min","max","abs","sqrt","pow","exp","log","sin","cos","tan","atan","floor","ceil",
      "ite","<","<=",">",">=","=","!=","and","or","not","true","false","atan2","acos","asin"};
    return n[o];
  }
  struct node { op_t op; uint32_t a, b, c; double val; };
  struct key { op_t op; uint32_t a, b, c; uint64_t bits;
    bool operator==(const key &o) const { return op==o.op && a==o.a && b==o.b && c==o.c && bits==o.bits; } };
  struct keyh { size_t operator()(const key &k) const {
    uint64_t h = k.op; 
    for (uint64_t x : {uint64_t(k.a), uint64_t(k.b), uint64_t(k.c), k.bits}) { h ^= x + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; }
    return h; } };

  struct engine
  {
    std::vector<node> nodes;
    std::unordered_map<key, uint32_t, keyh> tbl;
    std::vector<std::string> varnames;
    // decisions
    std::vector<std::pair<uint32_t,bool>> path;   // (condition node, taken)
    std::vector<int> forced;                       // forced decisions (prefix)
    std::vector<uint32_t> concretised;             // nodes whose witness value was used as a plain number
    // memory events
    bool rec = false, allow_branch = true;
    struct ev { uint32_t thread, epoch; uint64_t addr; uint32_t val; uint8_t wr; };
    std::vector<ev> events;
    struct evh { size_t operator()(const ev &e) const { return (e.addr * 0x9e3779b97f4a7c15ull) ^ (size_t(e.val) * 0xff51afd7ed558ccdull) ^ (size_t(e.epoch) << 9) ^ (e.thread << 1) ^ e.wr; } };
    struct eve { bool operator()(const ev &a, const ev &b) const { return a.thread == b.thread && a.epoch == b.epoch && a.addr == b.addr && a.val == b.val && a.wr == b.wr; } };
    std::unordered_map<ev, size_t, evh, eve> evset; std::vector<long> evcnt;
    uint32_t cur_thread = 0, cur_epoch = 0;
    struct range { uintptr_t lo, hi; };
    std::vector<range> stacks;
    size_t junk_ctr = 0;
    bool witness_junk_nan = false;

    uint32_t mk(op_t op, uint32_t a, uint32_t b, uint32_t c, double val, uint64_t bits = 0)
    {
      key k{op, a, b, c, bits};
      auto it = tbl.find(k);
      if (it != tbl.end()) return it->second;
      inside g; uint32_t id = nodes.size();
      nodes.push_back({op, a, b, c, val});
      tbl.emplace(k, id);
      return id;
    }
    uint32_t cst(double v) { uint64_t b; __builtin_memcpy(&b, &v, 8); return mk(CONST, 0, 0, 0, v, b); }
    uint32_t var(const std::string &name, double witness)
    {
      inside g; uint32_t id = nodes.size();
      nodes.push_back({VAR, uint32_t(varnames.size()), 0, 0, witness});
      varnames.push_back(name);
      return id;
    }
    engine() { nodes.reserve(1 << 16); cst(0); } // node 0: the constant 0
    static engine &get() { static engine *e = new engine(); return *e; }
    bool on_stack(uintptr_t p) const
    {
      for (auto &r : stacks) if (p >= r.lo && p < r.hi) return true;
      return false;
    }
    // Addresses are logical (number of the allocation, offset), the same in every run.
    std::map<uintptr_t, std::pair<size_t, uint64_t>> allocs; uint64_t alloc_ctr[16] = {};
    void alloc(void *p, size_t n) { if (rec_any) { std::lock_guard<std::mutex> g(am); allocs[(uintptr_t)p] = {n, (uint64_t(cur_thread) << 20) + ++alloc_ctr[cur_thread % 16]}; } }
    void dealloc(void *p) { if (rec_any) { std::lock_guard<std::mutex> g(am); agen += allocs.erase((uintptr_t)p); } }
    bool rec_any = false; std::mutex am; uint64_t agen = 1, hit = 0, hit_gen = 0; uintptr_t hit_lo = 0, hit_hi = 0;
    uint64_t logical(uintptr_t q)
    {
      if (hit && q >= hit_lo && q < hit_hi && hit_gen == agen) return (hit << 28) | (q - hit_lo);
      auto it = allocs.upper_bound(q);
      if (it != allocs.begin())
      {
        --it;
        if (q < it->first + it->second.first)
        {
          hit = it->second.second; hit_lo = it->first; hit_hi = it->first + it->second.first; hit_gen = agen;
          return (hit << 28) | (q - hit_lo);
        }
      }
      return (uint64_t(1) << 60) | (q - (uintptr_t)&opname); // static storage
    }
    // kind: 0 read of a value this worker has not written in this epoch, 2 read after an own write, 1 write that changes the value, 3 write of the value already there
    std::unordered_set<uint64_t> own; uint64_t own_key = ~0ull;
    // replay of an interleaving: preempt thread pre_t in epoch pre_e after its pre_n-th access to pre_a
    int pre_t = -1; long pre_e = -1; uint64_t pre_a = 0; long pre_n = 0, pre_c = 0; void (*preempt)() = nullptr;
    // havoc mode: (thread, epoch, address) of racing reads, which return arbitrary values; so do addresses left with order-dependent values
    bool havoc = false; std::set<std::tuple<uint32_t, uint32_t, uint64_t>> racy; size_t race_ctr = 0;
    std::map<uint64_t, std::pair<void*, std::map<uint32_t, uint32_t>>> epw; // address -> last value per thread, this epoch
    uint32_t race(double v) { return var("race!" + std::to_string(race_ctr++), v); }
    uint32_t record(const void *p, uint32_t val, bool wr, bool changed = false)
    {
      uintptr_t q = (uintptr_t)p;
      if (on_stack(q)) return val;
      inside g_;
      if (own_key != uint64_t(cur_epoch) * 64 + cur_thread) { own.clear(); own_key = uint64_t(cur_epoch) * 64 + cur_thread; }
      uint64_t la = logical(q);
      ev e{cur_thread, cur_epoch, la, val, uint8_t(wr ? (changed ? 1 : 3) : own.count(la) ? 2 : 0)};
      if (wr) own.insert(la);
      auto it = evset.find(e);
      if (it == evset.end()) { evset.emplace(e, evcnt.size()); events.push_back(e); evcnt.push_back(1); } else evcnt[it->second]++;
#if defined(SE_TRAP)
      if (trap == la && trapep == long(cur_epoch)) trapped(e);
#endif
      if (havoc && wr) { auto &x = epw[la]; x.first = const_cast<void*>(p); x.second[cur_thread] = val; }
      if (int(cur_thread) == pre_t && long(cur_epoch) == pre_e && la == pre_a && ++pre_c == pre_n) { preempt_pending = true; }
      if (havoc && !wr && racy.count({cur_thread, cur_epoch, la})) return race(nodes[val].val);
      return val;
    }
#if defined(SE_TRAP)
    uint64_t trap = 0; long trapep = -1; static void trapped(const ev &e);
#endif
    bool preempt_pending = false;
    inline void end_epoch();
    bool decide(uint32_t cond)
    {
      const node &n = nodes[cond];
      if (n.op == TRUE_) return true;
      if (n.op == FALSE_) return false;
      if (n.op >= LT && n.op <= NE && nodes[n.a].op == CONST && nodes[n.b].op == CONST) return n.val != 0;
      size_t k = path.size();
      bool r = k < forced.size() ? forced[k] != 0 : n.val != 0;
      path.push_back({cond, r});
      return r;
    }
  };
  inline engine &E() { return engine::get(); }

  struct junk_tag {};

  class symb
  {
    public:
    uint32_t id;
    symb() : id(E().mk(FALSE_,0,0,0,0)) {}
    symb(bool b) : id(E().mk(b ? TRUE_ : FALSE_, 0, 0, 0, b)) {}
    static symb raw(uint32_t i) { symb s; s.id = i; return s; }
    explicit operator bool() const { return E().decide(id); }
    double val() const { return E().nodes[id].val; }
  };
  inline symb operator!(const symb &a) { return symb::raw(E().mk(NOT, a.id, 0, 0, !a.val())); }
  inline symb operator&&(const symb &a, const symb &b) { auto &n = E().nodes; if (n[a.id].op == FALSE_ || n[b.id].op == TRUE_) return a; if (n[b.id].op == FALSE_ || n[a.id].op == TRUE_) return b; return symb::raw(E().mk(AND, a.id, b.id, 0, a.val() && b.val())); }
  inline symb operator||(const symb &a, const symb &b) { auto &n = E().nodes; if (n[a.id].op == TRUE_ || n[b.id].op == FALSE_) return a; if (n[b.id].op == TRUE_ || n[a.id].op == FALSE_) return b; return symb::raw(E().mk(OR, a.id, b.id, 0, a.val() || b.val())); }

  inline symb operator&&(const symb &a, bool b) { return a && symb(b); }
  inline symb operator&&(bool a, const symb &b) { return symb(a) && b; }
  inline symb operator||(const symb &a, bool b) { return a || symb(b); }
  inline symb operator||(bool a, const symb &b) { return symb(a) || b; }

  class sym
  {
    public:
    uint32_t id;
    // trivial: value-initialisation gives id 0 (the constant 0), default-initialisation leaves the storage as it was.
    // Heap storage is filled with 0xff, automatic storage with 0xaa (-ftrivial-auto-var-init): such a value is an arbitrary one.
    sym() = default;
    static bool uninit(uint32_t i) { return i >= 0xaaaaaaaau; }
    void fix() const
    {
      if (uninit(id)) { engine &e = E(); const_cast<sym*>(this)->id = e.var("junk!" + std::to_string(e.junk_ctr++), std::nan("")); }
    }
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    sym(T v) : id(E().cst(double(v))) {}
    // value of this object, as read by the running worker
    uint32_t rd() const
    {
      fix(); engine &e = E();
      if (!e.rec) return id;
      uint32_t r = e.record(this, id, false);
      if (e.preempt_pending) { e.preempt_pending = false; e.preempt(); }
      return r;
    }
    void wr(uint32_t v)
    {
      engine &e = E();
      if (e.rec) e.record(this, v, true, id != v);
      id = v;
      if (e.preempt_pending) { e.preempt_pending = false; e.preempt(); }
    }
    sym(const sym &o) : id(o.rd()) {}
    sym &operator=(const sym &o) { wr(o.rd()); return *this; }
    static sym raw(uint32_t i) { sym s(0); s.id = i; return s; }
    double val() const { fix(); return E().nodes[id].val; }
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    explicit operator T() const
    {
      fix();
      if (E().nodes[id].op != CONST) E().concretised.push_back(id);
      return T(val());
    }
    sym operator-() const { uint32_t x = rd(); return raw(E().mk(NEG, x, 0, 0, -E().nodes[x].val)); }
    sym operator+() const { return *this; }
    inline sym &operator+=(const sym &o);
    inline sym &operator-=(const sym &o);
    inline sym &operator*=(const sym &o);
    inline sym &operator/=(const sym &o);
  };

  #define SE_BIN(OPSYM, OP, EXPR) \
    inline sym OPSYM(const sym &a, const sym &b) { uint32_t ia = a.rd(), ib = b.rd(); double x = E().nodes[ia].val, y = E().nodes[ib].val; (void)x; (void)y; return sym::raw(E().mk(OP, ia, ib, 0, EXPR)); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline sym OPSYM(const sym &a, T b) { return OPSYM(a, sym(b)); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline sym OPSYM(T a, const sym &b) { return OPSYM(sym(a), b); }
  #define SE_REL(OPSYM, OP, EXPR) \
    inline symb OPSYM(const sym &a, const sym &b) { uint32_t ia = a.rd(), ib = b.rd(); double x = E().nodes[ia].val, y = E().nodes[ib].val; return symb::raw(E().mk(OP, ia, ib, 0, EXPR)); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline symb OPSYM(const sym &a, T b) { return OPSYM(a, sym(b)); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline symb OPSYM(T a, const sym &b) { return OPSYM(sym(a), b); }
  SE_BIN(operator+, ADD, x+y)
  SE_BIN(operator-, SUB, x-y)
  SE_BIN(operator*, MUL, x*y)
  SE_BIN(operator/, DIV, x/y)
  SE_BIN(s_min, MIN, (x<y?x:y))
  SE_BIN(s_max, MAX, (x>y?x:y))
  inline sym s_pow(const sym &a, const sym &b)
  {
    uint32_t ia = a.rd(), ib = b.rd(); double x = E().nodes[ia].val, y = E().nodes[ib].val;
    if (E().nodes[ib].op == CONST && y == 2) return sym::raw(E().mk(MUL, ia, ia, 0, x * x));
    return sym::raw(E().mk(POW, ia, ib, 0, std::pow(x, y)));
  }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline sym s_pow(const sym &a, T b) { return s_pow(a, sym(b)); }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline sym s_pow(T a, const sym &b) { return s_pow(sym(a), b); }
  SE_BIN(s_atan2, ATAN2, std::atan2(x,y))
  SE_REL(operator<, LT, x<y)
  SE_REL(operator<=, LE, x<=y)
  SE_REL(operator>, GT, x>y)
  SE_REL(operator>=, GE, x>=y)
  SE_REL(operator==, EQ, x==y)
  SE_REL(operator!=, NE, x!=y)
  inline sym &sym::operator+=(const sym &o) { return *this = *this + o; }
  inline sym &sym::operator-=(const sym &o) { return *this = *this - o; }
  inline sym &sym::operator*=(const sym &o) { return *this = *this * o; }
  inline sym &sym::operator/=(const sym &o) { return *this = *this / o; }
  #define SE_UN(F, OP, EXPR) inline sym F(const sym &a) { uint32_t ia = a.rd(); double x = E().nodes[ia].val; return sym::raw(E().mk(OP, ia, 0, 0, EXPR)); }
  SE_UN(s_abs, ABS, std::fabs(x))
  SE_UN(s_fabs, ABS, std::fabs(x))
  SE_UN(s_sqrt, SQRT, std::sqrt(x))
  SE_UN(s_exp, EXP, std::exp(x))
  SE_UN(s_log, LOG, std::log(x))
  SE_UN(s_sin, SIN, std::sin(x))
  SE_UN(s_cos, COS, std::cos(x))
  SE_UN(s_tan, TAN, std::tan(x))
  SE_UN(s_atan, ATAN, std::atan(x))
  SE_UN(s_acos, ACOS, std::acos(x))
  SE_UN(s_asin, ASIN, std::asin(x))
  SE_UN(s_floor, FLOOR, std::floor(x))
  SE_UN(s_ceil, CEIL, std::ceil(x))
  inline sym ite(const symb &c, const sym &a, const sym &b)
  {
    engine &e = E();
    uint32_t ia = a.rd(), ib = b.rd();
    if (e.nodes[c.id].op == TRUE_) return sym::raw(ia);
    if (e.nodes[c.id].op == FALSE_) return sym::raw(ib);
    return sym::raw(e.mk(ITE, c.id, ia, ib, c.val() != 0 ? e.nodes[ia].val : e.nodes[ib].val));
  }
  inline std::ostream &operator<<(std::ostream &o, const sym &s) { return o << s.val(); }

  // named special constants (machine parameters of the modelled format)
  inline sym special(const char *name, double v)
  {
    static std::unordered_map<std::string, uint32_t> m;
    auto it = m.find(name);
    if (it == m.end()) it = m.emplace(name, E().var(name, v)).first;
    return sym::raw(it->second);
  }
  // reference-returning selection (std::min / std::max)
  inline const sym &keep(const sym &s) { static std::deque<sym> d; d.push_back(s); return d.back(); }

  template <class T> inline T bz_select(bool c, const T &a, const T &b) { return c ? a : b; }
  template <class R, class A, class B> inline R bz_select3(bool c, const A &a, const B &b) { return c ? R(a) : R(b); }
  template <class R, class A, class B> inline R bz_select3(const symb &c, const A &a, const B &b) { return ite(c, R(a), R(b)); }
}

namespace std
{
  template <> struct numeric_limits<se::sym>
  {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = false,
      has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false;
    static constexpr int digits = 53, digits10 = 15, radix = 2, max_exponent = 1024, min_exponent = -1021, max_exponent10 = 308, min_exponent10 = -307;
    static se::sym epsilon() { return se::special("fp!epsilon", std::numeric_limits<double>::epsilon()); }
    static se::sym min() { return se::special("fp!tiny", std::numeric_limits<double>::min()); }
    static se::sym max() { return se::special("fp!huge", std::numeric_limits<double>::max()); }
    static se::sym lowest() { return -max(); }
    static se::sym quiet_NaN() { return se::special("fp!nan", std::nan("")); }
    static se::sym signaling_NaN() { return quiet_NaN(); }
  };
  inline se::sym abs(const se::sym &a) { return se::s_abs(a); }
  inline se::sym fabs(const se::sym &a) { return se::s_abs(a); }
  inline se::sym sqrt(const se::sym &a) { return se::s_sqrt(a); }
  inline se::sym exp(const se::sym &a) { return se::s_exp(a); }
  inline se::sym log(const se::sym &a) { return se::s_log(a); }
  inline se::sym sin(const se::sym &a) { return se::s_sin(a); }
  inline se::sym cos(const se::sym &a) { return se::s_cos(a); }
  inline se::sym tan(const se::sym &a) { return se::s_tan(a); }
  inline se::sym atan(const se::sym &a) { return se::s_atan(a); }
  inline se::sym acos(const se::sym &a) { return se::s_acos(a); }
  inline se::sym asin(const se::sym &a) { return se::s_asin(a); }
  inline se::sym floor(const se::sym &a) { return se::s_floor(a); }
  inline se::sym ceil(const se::sym &a) { return se::s_ceil(a); }
  inline bool isfinite(const se::sym &) { return true; }
  inline bool isnan(const se::sym &) { return false; }
  inline se::sym pow(const se::sym &a, const se::sym &b) { return se::s_pow(a, b); }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline se::sym pow(const se::sym &a, T b) { return se::s_pow(a, b); }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline se::sym pow(T a, const se::sym &b) { return se::s_pow(a, b); }
  inline se::sym atan2(const se::sym &a, const se::sym &b) { return se::s_atan2(a, b); }
  template <> inline const se::sym &min<se::sym>(const se::sym &a, const se::sym &b) { return se::keep(se::s_min(a, b)); }
  template <> inline const se::sym &max<se::sym>(const se::sym &a, const se::sym &b) { return se::keep(se::s_max(a, b)); }
#define SE_CT(T) \
  template <> struct common_type<se::sym, T> { using type = se::sym; }; \
  template <> struct common_type<T, se::sym> { using type = se::sym; };
  SE_CT(int) SE_CT(long) SE_CT(double) SE_CT(float) SE_CT(long long) SE_CT(unsigned) SE_CT(unsigned long) SE_CT(bool)
#undef SE_CT
}
namespace se
{
  using std::abs; using std::fabs; using std::sqrt; using std::exp; using std::log; using std::sin; using std::cos; using std::tan; using std::atan;
  using std::acos; using std::asin; using std::floor; using std::ceil; using std::pow; using std::atan2;
  inline sym min(const sym &a, const sym &b) { return s_min(a, b); }
  inline sym max(const sym &a, const sym &b) { return s_max(a, b); }
  // scalar selection formula: where<int>(c, a, b) on a symbolic condition
  template <class ix_t, class A, class B> inline sym where(const symb &c, const A &a, const B &b) { return ite(c, sym(a), sym(b)); }
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> inline T &operator+=(T &a, const sym &b) { return a += T(b); }
}

// heap storage starts out as "uninitialised" (see class sym)
#include <new>
#include <cstring>
namespace se
{
  inline bool &tracking() { static bool t = false; return t; }
  inline void *raw_alloc(size_t n)
  {
    void *p = n < 64 ? std::malloc(n ? n : 1) : std::aligned_alloc(64, (n + 63) & ~size_t(63)); if (!p) throw std::bad_alloc(); std::memset(p, 0xff, n);
    if (tracking() && !in_alloc) { in_alloc = true; E().alloc(p, n); in_alloc = false; }
    return p;
  }
  inline void raw_free(void *p) { if (tracking() && p && !in_alloc) { in_alloc = true; E().dealloc(p); in_alloc = false; } std::free(p); }
  // at a barrier: addresses whose content depends on the order of the workers become arbitrary
  inline void engine::end_epoch()
  {
    if (!havoc) return;
    for (auto &x : epw)
    {
      uint32_t first = x.second.second.begin()->second; bool same = true;
      for (auto &y : x.second.second) same &= y.second == first;
      if (!same) { sym *s = (sym*)x.second.first; s->id = race(nodes[first].val); }
    }
    epw.clear();
  }
}
void *operator new(size_t n) { return se::raw_alloc(n); }
void *operator new[](size_t n) { return se::raw_alloc(n); }
void operator delete(void *p) noexcept { se::raw_free(p); }
void operator delete[](void *p) noexcept { se::raw_free(p); }
void operator delete(void *p, size_t) noexcept { se::raw_free(p); }
void operator delete[](void *p, size_t) noexcept { se::raw_free(p); }
