// hands arbitrary (symbolic) values to the limiter instead of those of the preceding pass
static bool probe_cyc[3], probe_rig[3];
template <class parent_t_> struct arbitrary_correction : parent_t_
{
  using parent_t = parent_t_;
  using parent_t::parent_t;
  void fct_adjust_antidiff(int e, int iter) override
  {
    using namespace H;
    constexpr int ND = parent_t::n_dims;
    int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
    const std::string it = std::to_string(iter);
    auto name = [&](const std::string &b, int i, int j, int k) {
      int c[3] = {i, j, k};
      for (int d = 0; d < ND; ++d) if (probe_cyc[d]) c[d] = (c[d] + n[d] - 1) % (n[d] - 1);
      return nm(b, c[0], c[1], c[2]);
    };
    auto psi = this->state(e);
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      AT<ND>(psi,i,j,k) = in(name("mid",i,j,k), .5, 1.5);
    this->xchng(e);
    for (int d = 0; d < ND; ++d)
      for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
      {
        int c[3] = {i, j, k};
        AT<ND>(this->GC_corr(iter)[d],i,j,k) = in(name("ac" + std::to_string(d),i,j,k), -.3, .3);
      }
    // at a wall: the mirror image
    for (int d = 0; d < ND; ++d) if (probe_rig[d])
      for (int i = 0; i < (d==0?1:n[0]); ++i) for (int j = 0; j < (d==1?1:n[1]); ++j) for (int k = 0; k < (d==2?1:n[2]); ++k)
      {
        auto at = [&](int f) -> num& { return AT<ND>(this->GC_corr(iter)[d], d==0?f:i, d==1?f:j, d==2?f:k); };
        at(-1) = -at(0);
        at(n[d] - 1) = -at(n[d] - 2);
      }
    parent_t::fct_adjust_antidiff(e, iter);
  }
};
// reports the field a corrective pass starts from
template <class parent_t_> struct report_pass : parent_t_
{
  using parent_t = parent_t_;
  using parent_t::parent_t;
  void fct_adjust_antidiff(int e, int iter) override
  {
    using namespace H;
    constexpr int ND = parent_t::n_dims;
    int n[3] = {argi("nx", 4), ND > 1 ? argi("ny", 4) : 1, ND > 2 ? argi("nz", 4) : 1};
    for (int i = 0; i < n[0]; ++i) for (int j = 0; j < n[1]; ++j) for (int k = 0; k < n[2]; ++k)
      out(nm("mid" + std::to_string(iter),i,j,k), AT<ND>(this->state(e),i,j,k));
    for (int d = 0; d < ND; ++d)
      for (int i = (d==0?-1:0); i < n[0]; ++i) for (int j = (d==1?-1:0); j < n[1]; ++j) for (int k = (d==2?-1:0); k < n[2]; ++k)
        out(nm("cor" + std::to_string(iter) + std::to_string(d),i,j,k), AT<ND>(this->GC_corr(iter)[d],i,j,k));
    parent_t::fct_adjust_antidiff(e, iter);
  }
};
