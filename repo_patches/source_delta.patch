From 8e0dda63caa6107fb39ae3ebd75b2b799d866aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 01/12] fix: make the pfc option compile (frac() called where()
 without its index type)

---
 libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
index b5f15ed..2ba9585 100644
--- a/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
+++ b/libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp
@@ -67,7 +67,7 @@ namespace libmpdataxx
       )
       {
         return return_helper<ix_t>(
-          where(den != 0, nom / den, 0) // note: apparently >0 would suffice
+          where<ix_t>(den != 0, nom / den, typename real_t_helper<ix_t, nom_t>::type(0)) // note: apparently >0 would suffice
         );
       }
 
-- 
2.43.0


From 12fe297c6c4a2f9bf5aa6707d48d0ab7ee7ad5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 02/12] fix: fill along-flow halos of antidiffusive velocities
 before copying them into normal halos (dfl without fct)

---
 libmpdata++/solvers/detail/mpdata_osc_2d.hpp | 4 ++--
 libmpdata++/solvers/detail/mpdata_osc_3d.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
index 70b53d6..edf0930 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
@@ -118,9 +118,9 @@ namespace libmpdataxx
               // the following check
               if (!opts::isset(ct_params_t::opts, opts::fct) && iter != (this->n_iters - 1))
               {
-                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
-                // if dfl option is set we need to fill these as well
+                // if dfl option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
                 if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
               }
 
               this->fct_adjust_antidiff(e, iter);
diff --git a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
index a2eab48..4b512ae 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
@@ -136,9 +136,9 @@ namespace libmpdataxx
               // the following check
               if (!opts::isset(ct_params_t::opts, opts::fct) && iter != (this->n_iters - 1))
               {
-                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
-                // if dfl option is set we need to fill these as well
+                // if dfl option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
                 if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
               }
 
               this->fct_adjust_antidiff(e, iter);
-- 
2.43.0


From 32b0cb93288e0310f4d128a28a4d4f7a37e8a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 03/12] fix: make the preconditioned pressure solver (pc)
 compile (lap()/precond() called without the 'simple' flag)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
index 3c24e1c..2b2e9f3 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp
@@ -50,7 +50,7 @@ namespace libmpdataxx
           for (int it=0; it<=pc_iters; it++)
           {
             q_err(this->ijk)    += real_t(.25) * pcnd_err(this->ijk);
-            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk);
+            pcnd_err(this->ijk) += real_t(.25) * this->lap(this->pcnd_err, this->ijk, this->dijk, false, simple);
           }
         }
 
@@ -76,7 +76,7 @@ namespace libmpdataxx
 
           if (error <= this->err_tol) this->converged = true;
 
-          precond();
+          precond(simple);
 
           this->lap_q_err(this->ijk) = this->lap(this->q_err, this->ijk, this->dijk, false, simple);
 
-- 
2.43.0


From 76f797ebf43bd77f1e3524437a7746599065ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 04/12] fix: smgani: out-of-bounds read (deformation expression
 indexed twice)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 5ca11b0..abe0d5f 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -37,8 +37,8 @@ namespace libmpdataxx
           const auto dlta_v = this->dijk[ct_params_t::n_dims-1];
 
           // Simon and Chow 2021, eqs. 9 and 10
-          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
-          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk);
+          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
+          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
           formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                         real_t(1.0),
-- 
2.43.0


From f29d1b3ec31aa4af51a478d482db72444a10720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 05/12] fix: barrier between update_rhs() and apply_rhs()
 (threads could apply the forcing while others still read neighbouring points)

---
 libmpdata++/solvers/mpdata_rhs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmpdata++/solvers/mpdata_rhs.hpp b/libmpdata++/solvers/mpdata_rhs.hpp
index 351d7c4..9ff1292 100644
--- a/libmpdata++/solvers/mpdata_rhs.hpp
+++ b/libmpdata++/solvers/mpdata_rhs.hpp
@@ -159,6 +159,8 @@ namespace libmpdataxx
             break;
           case rhs_scheme_t::euler_b:
             update_rhs(rhs, this->dt, n);
+            // other threads may still be reading neighbouring points in their update_rhs()
+            this->mem->barrier();
             apply_rhs(this->dt);
             break;
           case rhs_scheme_t::trapez:
@@ -184,6 +186,8 @@ namespace libmpdataxx
             break;
           case rhs_scheme_t::trapez:
             update_rhs(rhs, this->dt / 2, n+1);
+            // other threads may still be reading neighbouring points in their update_rhs()
+            this->mem->barrier();
             apply_rhs(this->dt / 2);
             break;
           case rhs_scheme_t::mixed:
-- 
2.43.0


From 33350cb47f65505dbfc48c4ba7e4ff4bb2502308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 06/12] fix: fct (2D, 3D, without iga): let each thread compute
 all the fluxes its betas depend on (a flux of the neighbouring thread was
 read without synchronisation)

---
 libmpdata++/solvers/detail/mpdata_fct_2d.hpp | 3 ++-
 libmpdata++/solvers/detail/mpdata_fct_3d.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
index fb4b61a..751c612 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
@@ -51,7 +51,8 @@ namespace libmpdataxx
           auto &GC_corr = parent_t::GC_corr(iter);
           const auto &G = *this->mem->G;
           const auto i1 = this->i^1, j1 = this->j^1;
-          const auto im1 = this->im^1, jm1 = this->jm^1;
+          // each thread computes all the fluxes its betas depend on
+          const rng_t im1(i1.first() - 1, i1.last()), jm1(j1.first() - 1, j1.last());
           const auto &im(this->im), &jm(this->jm); // calculating once for (i/j)-1/2 and (i/j)+1/2
 
           // fill halos of GC_corr -> mpdata works with halo=1, we need halo=2
diff --git a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
index 180e927..ea03ad5 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
@@ -64,8 +64,9 @@ namespace libmpdataxx
           // not optimal - with multiple threads some indices are repeated among threads
           const auto
             i = this->i, j = this->j, k = this->k,
-            i1 = i^1, j1 = j^1, k1 = k^1,
-            im1 = this->im^1, jm1 = this->jm^1, km1 = this->km^1;
+            i1 = i^1, j1 = j^1, k1 = k^1;
+          // each thread computes all the fluxes its betas depend on
+          const rng_t im1(i1.first() - 1, i1.last()), jm1(j1.first() - 1, j1.last()), km1(k1.first() - 1, k1.last());
 
           // fill halos -> mpdata works with halo=1, we need halo=2
           this->xchng_vctr_alng(GC_corr, true);
-- 
2.43.0


From 0bd5e4af6474d4251007e3b5d1ea43c09c11538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 07/12] fix: smg, smgani (compact): fill halos of k_m before
 interpolating it to the stress points (halos were never filled, nor those
 shared by threads synchronised)

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 3 +++
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index b961522..3caec8b 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -36,6 +36,9 @@ namespace libmpdataxx
           {
             k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
+            // neighbouring values of k_m are needed below
+            this->xchng_sclr(k_m, this->ijk, 1);
+
             formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                           real_t(1.0),
                                                                                           this->k_m,
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index abe0d5f..5c84fa1 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -40,6 +40,10 @@ namespace libmpdataxx
           k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
           k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
+          // neighbouring values of k_m are needed below
+          this->xchng_sclr(k_m[0], this->ijk, 1);
+          this->xchng_sclr(k_m[1], this->ijk, 1);
+
           formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                         real_t(1.0),
                                                                                         this->k_m,
-- 
2.43.0


From 64f86b5a03f098a280f077fc24ac2aadf6293de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 08/12] fix: open_1d: right halo velocities copy the nearest
 interior face (the wrong one was copied with halos wider than 1)

---
 libmpdata++/bcond/open_1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/bcond/open_1d.hpp b/libmpdata++/bcond/open_1d.hpp
index ceea477..51ab84c 100644
--- a/libmpdata++/bcond/open_1d.hpp
+++ b/libmpdata++/bcond/open_1d.hpp
@@ -73,7 +73,7 @@ namespace libmpdataxx
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const bool ad = false)
       {
         for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i)
-          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.first());
+          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.last());
       }
     };
   } // namespace bcond
-- 
2.43.0


From 7160f91c8b5a7cfeb37ff7090070f34f64bee05f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 09/12] fix: div_2nd, div_3rd: fill the halos of antidiffusive
 velocities that the third and subsequent iterations read

---
 libmpdata++/solvers/detail/mpdata_common.hpp | 9 +++++++++
 libmpdata++/solvers/detail/mpdata_fct_2d.hpp | 2 +-
 libmpdata++/solvers/detail/mpdata_fct_3d.hpp | 2 +-
 libmpdata++/solvers/detail/mpdata_osc_1d.hpp | 4 ++--
 libmpdata++/solvers/detail/mpdata_osc_2d.hpp | 7 ++++---
 libmpdata++/solvers/detail/mpdata_osc_3d.hpp | 7 ++++---
 6 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_common.hpp b/libmpdata++/solvers/detail/mpdata_common.hpp
index e744fb4..23de12d 100644
--- a/libmpdata++/solvers/detail/mpdata_common.hpp
+++ b/libmpdata++/solvers/detail/mpdata_common.hpp
@@ -59,6 +59,15 @@ namespace libmpdataxx
           return GC_corr(iter);
         }
 
+        // how far beyond the domain the halos of antidiffusive velocities need to reach in the normal direction
+        // (wider stencils of the third-order terms use them in the third and subsequent iterations)
+        int GC_corr_ext() const
+        {
+          return opts::isset(ct_params_t::opts, opts::div_3rd) || opts::isset(ct_params_t::opts, opts::div_3rd_dt)
+            ? this->halo - 1
+            : 0;
+        }
+
         // for Flux-Corrected Transport
         virtual void fct_init(int e) { }
         virtual void fct_adjust_antidiff(int e, int iter) { }
diff --git a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
index 751c612..59a6acb 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
@@ -57,7 +57,7 @@ namespace libmpdataxx
 
           // fill halos of GC_corr -> mpdata works with halo=1, we need halo=2
           this->xchng_vctr_alng(GC_corr, true);
-          this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
+          this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->GC_corr_ext());
 
           // calculation of fluxes for betas denominators
           if (opts::isset(ct_params_t::opts, opts::iga))
diff --git a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
index ea03ad5..69266d7 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
@@ -70,7 +70,7 @@ namespace libmpdataxx
 
           // fill halos -> mpdata works with halo=1, we need halo=2
           this->xchng_vctr_alng(GC_corr, true);
-          this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
+          this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->GC_corr_ext());
 
           // calculation of fluxes for betas denominators
           if (opts::isset(ct_params_t::opts, opts::iga))
diff --git a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
index ff74c3e..b9f2436 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_1d.hpp
@@ -79,9 +79,9 @@ namespace libmpdataxx
                 im
               );
 
-              // needed with the dfl option
+              // needed with the dfl and div_2nd options
               // if we aren't in the last iteration and fct is not set
-              if (opts::isset(ct_params_t::opts, opts::dfl) &&
+              if ((opts::isset(ct_params_t::opts, opts::dfl) || opts::isset(ct_params_t::opts, opts::div_2nd)) &&
                   iter != (this->n_iters - 1) &&
                   !opts::isset(ct_params_t::opts, opts::fct))
               {
diff --git a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
index edf0930..c2f8c99 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_2d.hpp
@@ -118,9 +118,10 @@ namespace libmpdataxx
               // the following check
               if (!opts::isset(ct_params_t::opts, opts::fct) && iter != (this->n_iters - 1))
               {
-                // if dfl option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
-                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
-                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
+                // if dfl or div_2nd option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
+                if (opts::isset(ct_params_t::opts, opts::dfl) || opts::isset(ct_params_t::opts, opts::div_2nd))
+                  this->xchng_vctr_alng(this->GC_corr(iter));
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->GC_corr_ext());
               }
 
               this->fct_adjust_antidiff(e, iter);
diff --git a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
index 4b512ae..41f6564 100644
--- a/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_osc_3d.hpp
@@ -136,9 +136,10 @@ namespace libmpdataxx
               // the following check
               if (!opts::isset(ct_params_t::opts, opts::fct) && iter != (this->n_iters - 1))
               {
-                // if dfl option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
-                if (opts::isset(ct_params_t::opts, opts::dfl)) this->xchng_vctr_alng(this->GC_corr(iter));
-                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk);
+                // if dfl or div_2nd option is set we need to fill these as well (first, as the normal halos are filled with copies of them)
+                if (opts::isset(ct_params_t::opts, opts::dfl) || opts::isset(ct_params_t::opts, opts::div_2nd))
+                  this->xchng_vctr_alng(this->GC_corr(iter));
+                this->xchng_vctr_nrml(this->GC_corr(iter), this->ijk, this->GC_corr_ext());
               }
 
               this->fct_adjust_antidiff(e, iter);
-- 
2.43.0


From afc37ccd99e191bc370763c0c97315077eaa709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 10/12] fix: pressure solver: normalise gradients before
 setting edge velocities, not after

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp
index 1708e9b..042ab95 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp
@@ -63,6 +63,7 @@ namespace libmpdataxx
               lap_tmp[d](this->ijk) -= tmp_uvw[d](this->ijk);
             }
           }
+          if (!simple) this->normalize_vip(lap_tmp);
           this->set_edges(lap_tmp, this->ijk, err_init ? -1 : 0);
           if (this->mem->G)
           {
@@ -71,7 +72,6 @@ namespace libmpdataxx
               lap_tmp[d](this->ijk) *= (*this->mem->G)(this->ijk);
             }
           }
-          if (!simple) this->normalize_vip(lap_tmp);
           for (int d = 0; d < parent_t::n_dims; ++d)
           {
             this->xchng_pres(lap_tmp[d], ijk);
-- 
2.43.0


From 461ca175859f4dba9ba2b29f26001b3d00cb45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 11/12] fix: Smagorinsky viscosity is proportional to the
 deformation, not to its square

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 4 ++--
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index 3caec8b..f52f9fd 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -34,7 +34,7 @@ namespace libmpdataxx
 
           if (static_cast<stress_diff_t>(ct_params_t::stress_diff) == compact)
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
             // neighbouring values of k_m are needed below
             this->xchng_sclr(k_m, this->ijk, 1);
@@ -50,7 +50,7 @@ namespace libmpdataxx
           }
           else
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) *  formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) * sqrt(formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk));
 
             for (auto& t : this->tau)
             {
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 5c84fa1..b006047 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -37,8 +37,8 @@ namespace libmpdataxx
           const auto dlta_v = this->dijk[ct_params_t::n_dims-1];
 
           // Simon and Chow 2021, eqs. 9 and 10
-          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
-          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
+          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
+          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
           // neighbouring values of k_m are needed below
           this->xchng_sclr(k_m[0], this->ijk, 1);
-- 
2.43.0


From feffca4d178962998935ca74d02b7efba0d3395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:09 +0000
Subject: [PATCH 12/12] fix: third-order scheme: differences in time of
 velocities, not of momenta, for ndt_GC and ndtt_GC

---
 .../solvers/detail/mpdata_rhs_vip_common.hpp    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
index 5f382f3..09fb62e 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp
@@ -96,10 +96,9 @@ namespace libmpdataxx
           return ret;
         }
 
-        virtual void fill_stash_helper(const int d) final
+        // current velocity (momentum divided by density if vip_den is defined) written to the given level of the stash
+        void velocity_to_stash(const int save_t_lev, const int d)
         {
-          // for third-order mpdata saving to t_lev == -2 so that it becomes -1 at the next time step
-          int save_t_lev = parent_t::div3_mpdata ? -2 : -1;
           if (ix::vip_den == -1)
             vip_stash(save_t_lev)[d](this->ijk) = vips()[d](this->ijk);
           else if (eps == 0) // this is the default
@@ -123,6 +122,12 @@ namespace libmpdataxx
           assert(std::isfinite(sum(vip_stash(save_t_lev)[d](this->ijk))));
         }
 
+        virtual void fill_stash_helper(const int d) final
+        {
+          // for third-order mpdata saving to t_lev == -2 so that it becomes -1 at the next time step
+          velocity_to_stash(parent_t::div3_mpdata ? -2 : -1, d);
+        }
+
         void fill_stash()
         {
           for (int d = 0; d < ct_params_t::n_dims; ++d) fill_stash_helper(d);
@@ -298,7 +303,8 @@ namespace libmpdataxx
             {
               for (int d = 0; d < parent_t::n_dims; ++d)
               {
-                vip_stash(0)[d](this->ijk) = this->dt * (vips()[d](this->ijk) - vip_stash(-1)[d](this->ijk)) / this->dt_stash[0];
+                velocity_to_stash(0, d);
+                vip_stash(0)[d](this->ijk) = this->dt * (vip_stash(0)[d](this->ijk) - vip_stash(-1)[d](this->ijk)) / this->dt_stash[0];
                 this->xchng_pres(this->vip_stash(0)[d], this->ijk, ex);
               }
               interpolate_in_space(this->mem->ndt_GC, vip_stash(0));
@@ -309,8 +315,9 @@ namespace libmpdataxx
             {
               for (int d = 0; d < parent_t::n_dims; ++d)
               {
+                velocity_to_stash(0, d);
                 vip_stash(0)[d](this->ijk) = this->dt * this->dt * (
-                                                  this->dt_stash[1] * vips()[d](this->ijk)
+                                                  this->dt_stash[1] * vip_stash(0)[d](this->ijk)
                                                 - (this->dt_stash[1] + this->dt_stash[0]) * vip_stash(-1)[d](this->ijk)
                                                 + this->dt_stash[0] * vip_stash(-2)[d](this->ijk)
                                              ) / ( this->dt_stash[0] * this->dt_stash[1]
-- 
2.43.0

