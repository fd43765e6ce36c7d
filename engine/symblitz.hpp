// glue between the symbolic scalar and Blitz++ (expression functors whose result type is fixed to bool or
// which are written with ?:)
#pragma once
#if defined(SYMBOLIC)
namespace blitz
{
#define SE_BZ_REL1(NAME, A, B, RET, EXPR, PRE) \
  template <PRE> struct NAME<A, B> { typedef RET T_numtype; static inline T_numtype apply(A a, B b) { return EXPR; } \
    template<typename X1, typename X2> static inline void prettyPrint(std::string &, prettyPrintFormat &, const X1 &, const X2 &) {} };
#define SE_BZ_REL(NAME, EXPR, RET, TY) \
  SE_BZ_REL1(NAME, TY, TY, RET, EXPR, ) \
  SE_BZ_REL1(NAME, TY, T2, RET, EXPR, class T2) \
  SE_BZ_REL1(NAME, T1, TY, RET, EXPR, class T1)
  SE_BZ_REL(Less, a < b, se::symb, se::sym)
  SE_BZ_REL(LessOrEqual, a <= b, se::symb, se::sym)
  SE_BZ_REL(Greater, a > b, se::symb, se::sym)
  SE_BZ_REL(GreaterOrEqual, a >= b, se::symb, se::sym)
  SE_BZ_REL(Equal, a == b, se::symb, se::sym)
  SE_BZ_REL(NotEqual, a != b, se::symb, se::sym)
  SE_BZ_REL(LogicalAnd, a && b, se::symb, se::symb)
  SE_BZ_REL(LogicalOr, a || b, se::symb, se::symb)
  SE_BZ_REL(Min, se::s_min(a, b), se::sym, se::sym)
  SE_BZ_REL(Max, se::s_max(a, b), se::sym, se::sym)
#define SE_BZ_RED(NAME, FUN, FLD) \
  template <> class NAME<se::sym> { public: typedef se::sym T_sourcetype; typedef se::sym T_resulttype; typedef se::sym T_numtype; \
    static const bool needIndex = false, needInit = false; \
    NAME() : FLD(0) {} \
    bool operator()(const T_sourcetype &x, const int = 0) const { if (first) { FLD = x; first = false; } else FLD = se::s_##FUN(FLD, x); return true; } \
    T_resulttype result(const int) const { return FLD; } \
    void reset() const { first = true; } \
    static const char *name() { return #FUN; } \
    protected: mutable T_resulttype FLD; mutable bool first = true; };
  BZ_DECLARE_ARRAY_ET_SCALAR_OPS(se::sym)
  BZ_DECLARE_ARRAY_ET_SCALAR_FUNCS(se::sym)
  SE_BZ_RED(ReduceMin, min, min_)
  SE_BZ_RED(ReduceMax, max, max_)
}
#endif
