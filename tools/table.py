prop("C06", "The number of worker threads never changes a result",
 "For every option set, boundary condition and dimensionality, every field value after any number of time steps is bit-for-bit the same whether the domain is handled by one worker thread or split among several. In particular no cell at or near a subdomain seam is treated differently from the same cell of an undivided domain.",
 ["configurations", "inputs"], "all field, Courant-number and G values (symbolic); 1D/2D/3D option sets and boundary conditions of the matrix; 1 to 3 (thorough: 5) workers; small grids",
 "tests compare a handful of smooth runs against reference files with tolerances; a seam error depends on option, halo width, boundary kind and split position",
 ["libmpdata++/concurr/detail/concurr_common.hpp", "libmpdata++/concurr/detail/sharedmem.hpp", "libmpdata++/bcond/shared.hpp", "libmpdata++/solvers/detail/solver_1d.hpp", "libmpdata++/solvers/detail/solver_2d.hpp", "libmpdata++/solvers/detail/solver_3d.hpp"],
 [("halo exchange between subdomains", "solver_{1,2,3}d::xchng*"), ("subdomain ranges of antidiffusive velocities and fluxes", "mpdata_osc_{1,2,3}d::advop"), ("limiter ranges at seams", "mpdata_fct_{1,2,3}d")],
 "bounded: small grids, few steps, worker counts 1-3/5; IEEE operations are uninterpreted functions, so the verdict holds for every floating-point input within those bounds")
prop("C08", "Cyclic boundaries make advection commute with grid shifts",
 "In a direction with cyclic boundaries (whose first and last grid points are the same point) shifting the initial fields, the Courant numbers and G by any number of cells shifts the result by the same number of cells and changes nothing else. The two copies of the seam point always carry equal values.",
 ["inputs", "configurations"], "all field, Courant-number and G values (symbolic), shifts in each cyclic direction, cyclic directions alone or combined with open/rigid ones",
 "tests place one smooth feature in the domain interior; corner and seam halos matter only for special option/boundary mixes and iteration counts",
 ["libmpdata++/bcond/cyclic_1d.hpp", "libmpdata++/bcond/cyclic_2d.hpp", "libmpdata++/bcond/cyclic_3d.hpp", "libmpdata++/solvers/detail/solver_2d.hpp", "libmpdata++/solvers/detail/solver_3d.hpp"],
 [("cyclic halo filling", "bcond::cyclic_*"), ("order of halo filling in corners", "solver_*::xchng_sclr/xchng_vctr_*")],
 "bounded: grids 6, 5x6, 4x5x4, up to 3 iterations, 1-2 steps; bit-level (uninterpreted IEEE operations)")
prop("C07", "Worker threads never conflict and results do not depend on the schedule",
 "Between two barriers no worker touches an array element that another worker writes, every worker passes the same sequence of barriers, and therefore every schedule of the workers gives the same result. This holds for the whole time loop of every solver family: halo exchange, limiter, right-hand sides, pressure solver, subgrid stresses.",
 ["schedules", "configurations", "inputs"], "all interleavings of 2-3 (thorough: 5) workers at memory-access granularity, all input values, option sets, boundary conditions and solver families",
 "a race needs one unlucky interleaving; tests run one schedule per process and compare with tolerances",
 ["libmpdata++/concurr/detail/concurr_common.hpp", "libmpdata++/concurr/detail/sharedmem.hpp", "libmpdata++/bcond/shared.hpp", "libmpdata++/solvers/detail/solver_common.hpp", "libmpdata++/solvers/mpdata_rhs.hpp", "libmpdata++/solvers/detail/mpdata_fct_2d.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp"],
 [("barriers in the time loop", "solver_common::solve, mem->barrier()"), ("barriers around halo exchange", "solver_*::xchng*"), ("reductions", "sharedmem::sum/min/max")],
 "bounded: one or two calls of advance(), 2-3 workers, small grids; element accesses recorded from the symbolically executed code, barrier-ordered happens-before decided by z3; control flow as on the witness path")
prop("C09", "Mirroring the domain or exchanging its axes only mirrors or exchanges the result",
 "The scheme has no preferred direction: if fields, Courant numbers and G are mirrored in any dimension (velocities along it change sign), the result is the mirror image of the original result; if two dimensions with the same kind of boundaries are exchanged, the result is exchanged. This holds for every option set, with left and right boundaries treated alike.",
 ["inputs", "configurations"], "all real values of fields, Courant numbers and (positive) G; 1D/2D/3D option sets; cyclic, open and rigid boundaries",
 "a wrong sign or index in one direction's formula passes tests that use one flow direction or loose tolerances",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fdiv_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_psi_3d.hpp", "libmpdata++/bcond/open_1d.hpp", "libmpdata++/bcond/open_2d.hpp", "libmpdata++/bcond/rigid_2d.hpp", "libmpdata++/solvers/detail/mpdata_osc_2d.hpp"],
 [("antidiffusive velocity formulae per direction", "formulae::mpdata::antidiff<d>, div_2nd, div_3rd"), ("limiter", "formulae::mpdata::beta_up/beta_dn/GC_mono"), ("left/right halo filling", "bcond::*")],
 "bounded: grids 6 / 4x5, 4x4 / 4x4x4, 1-2 steps, 2 iterations; real arithmetic (rounding is not modelled); exchange of axes excludes open boundaries (their corner treatment is ordered by dimension on purpose)")
prop("C15", "Advancing in several calls is advancing in one",
 "advance(n) followed by advance(m) leaves every field (and every advector component) bit-for-bit as advance(n+m) does, for every solver family, time-integration scheme and boundary condition; a call with zero steps changes nothing.",
 ["histories", "inputs", "configurations"], "all ways of splitting 2-3 steps into calls (including calls with zero steps), all input values, all solver families",
 "tests call advance() once per run or compare coarse output; state that is carried between calls differs per family",
 ["libmpdata++/solvers/detail/solver_common.hpp", "libmpdata++/solvers/mpdata_rhs.hpp", "libmpdata++/solvers/mpdata_rhs_vip.hpp", "libmpdata++/solvers/mpdata_rhs_vip_prs.hpp", "libmpdata++/solvers/boussinesq.hpp"],
 [("time loop, first-step hooks", "solver_common::solve, hook_ante_loop"), ("carried state", "mpdata_rhs_vip::vip_state, mpdata_rhs::rhs")],
 "bounded: 2-3 steps, small grids; fixed time step; control flow of iterative solvers as on the witness path; 7 recorded findings (advance(0) before the first step with pressure solvers)")
prop("C16", "Fields advected together do not influence each other",
 "In homogeneous advection each field evolves exactly (bit for bit) as if it were advected alone, whatever the other fields contain and however many there are, also with delayed-step equations and with several workers.",
 ["inputs", "configurations"], "all values of all fields; 1-3 equations with and without delayed_step; option sets and boundary conditions in 1D-3D",
 "scratch arrays are shared by all equations; leakage appears only for some option mixes and values",
 ["libmpdata++/solvers/detail/solver_common.hpp", "libmpdata++/solvers/detail/mpdata_osc_1d.hpp", "libmpdata++/solvers/detail/mpdata_osc_2d.hpp", "libmpdata++/solvers/detail/mpdata_osc_3d.hpp", "libmpdata++/solvers/detail/mpdata_fct_common.hpp"],
 [("equation loop", "solver_common::solve_loop_body"), ("shared scratch arrays", "alloc_tmp_sclr/alloc_tmp_vctr, mpdata_common::tmp, mpdata_fct_common")],
 "bounded: 2-3 equations, small grids, 1-2 steps, up to 3 iterations, 2 workers; bit-level (uninterpreted IEEE operations)")
prop("C17", "No result depends on memory that was never written",
 "Every value a solver produces and every decision it takes is a function of the user's inputs alone: no halo cell, corner, edge or scratch array is read before something meaningful was stored in it, and nothing is read outside of the arrays.",
 ["inputs", "configurations"], "all contents of freshly allocated memory; option sets, boundary conditions, solver families, 1-2 workers",
 "fresh pages are usually zero, so tests see the same values every time",
 ["libmpdata++/solvers/detail/solver_2d.hpp", "libmpdata++/solvers/detail/solver_3d.hpp", "libmpdata++/bcond/detail/bcond_common.hpp", "libmpdata++/bcond/open_2d.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp", "libmpdata++/concurr/detail/concurr_common.hpp"],
 [("array allocation with halos", "solver_*::alloc, parent_t::alloc_tmp"), ("halo filling", "xchng*, bcond::*")],
 "bounded: small grids, 1-2 steps, up to 3 iterations; only array elements are tracked; outputs and branch decisions compared for arbitrary contents of never-written cells")
prop("C01", "Advection conserves the total amount of every field",
 "In a domain closed by cyclic boundaries and/or rigid walls the G-weighted sum of every advected field over the domain (the repeated point of a cyclic direction counted once, wall points as half cells) is the same after any number of time steps as before, whatever the flow (divergent or not) and whatever the option set, number of iterations and hint_scale.",
 ["inputs", "configurations"], "all real field, Courant-number and positive G values; option sets and mixes of cyclic and rigid boundaries in 1D-3D; 2-3 iterations",
 "tests check conservation of one smooth feature in the interior with a tolerance; corner halos, seam faces and third iterations matter only for special mixes",
 ["libmpdata++/formulae/donorcell_formulae.hpp", "libmpdata++/solvers/detail/mpdata_osc_1d.hpp", "libmpdata++/solvers/detail/mpdata_osc_2d.hpp", "libmpdata++/solvers/detail/mpdata_osc_3d.hpp", "libmpdata++/bcond/cyclic_2d.hpp", "libmpdata++/bcond/rigid_2d.hpp"],
 [("flux-form update", "formulae::donorcell::donorcell_sum / make_flux"), ("antidiffusive velocities and limited velocities at the domain edge", "mpdata_osc_*::advop, mpdata_fct_*::fct_adjust_antidiff, bcond fill_halos_vctr_*")],
 "bounded: grids 6 / 5x6 / 4x5x4, 1-2 steps, up to 3 iterations; real arithmetic (rounding is not modelled); denominators assumed non-zero")
prop("C04", "A uniform field stays uniform in a non-divergent flow",
 "When the Courant numbers are discretely non-divergent (G may vary) a spatially uniform field stays exactly uniform, for every option set, boundary condition and number of iterations.",
 ["inputs", "configurations"], "all discretely non-divergent flows (curl of an arbitrary potential plus a mean flow), all positive values of the uniform field and G; option sets, boundary conditions, 1D-3D",
 "tests use constant or solid-body flows on non-uniform fields; the cancellation must hold face by face for every flow",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_dfl_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fdiv_2d.hpp", "libmpdata++/bcond/open_2d.hpp", "libmpdata++/bcond/open_3d.hpp"],
 [("antidiffusive velocities vanish for uniform fields", "formulae::mpdata::antidiff, ndx_psi, nfdiv"), ("velocities at open and rigid edges", "bcond fill_halos_vctr_alng")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1 step (1D: 2), 2-3 iterations; real arithmetic; polar boundaries excluded; open boundaries only after all non-open ones (2 recorded findings for the other order); div_3rd with aver4 interpolation only")
prop("C05", "Without flow nothing changes",
 "When all Courant numbers are zero, every field is left exactly as it was, for every option set, boundary condition, number of iterations and any values of the fields and G.",
 ["inputs", "configurations"], "all field and positive G values; option sets, boundary conditions, 1D-3D",
 "tests never run at rest with all the options; normalising denominators, limiter and third-order terms must all drop out",
 ["libmpdata++/formulae/donorcell_formulae.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/bcond/open_2d.hpp"],
 [("fluxes vanish with the velocity", "formulae::donorcell::make_flux, antidiff<d>, GC_mono")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1 step (1D: 2), 2-3 iterations; real arithmetic")
prop("C10", "No variation in a dimension: same result as with one dimension less",
 "If fields, G and Courant numbers do not vary in one dimension and nothing flows along it, the 2D (3D) solver gives in every slice the same result as the 1D (2D) solver with the same options, whichever dimension is the uniform one.",
 ["inputs", "configurations"], "all field, Courant-number and positive G values of the smaller problem; option sets offered in both dimensionalities; each dimension in turn; cyclic, open and rigid boundaries in the others",
 "1D, 2D and 3D formulae are separate hand-written code; tests compare each with its own reference file",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_1d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_1d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_dfl_3d.hpp"],
 [("separate 1D/2D/3D formulae", "formulae::mpdata::antidiff / beta_up / TOT / DFL"), ("separate 1D/2D/3D drivers", "mpdata_osc_*::advop, mpdata_fct_*")],
 "bounded: 4-5 points per dimension, 1 step, 2-3 iterations; real arithmetic with the regularising epsilon taken as 0; div_2nd/div_3rd only with iga (their normalising denominators differ between dimensionalities by design), div_3rd_dt not vs 1D (not offered); uniform dimension cyclic or rigid")
prop("C11", "The result scales with the field; with infinite gauge the scheme is linear",
 "Multiplying a field by a positive number multiplies the result by it, and a field of opposite sign gives the result of opposite sign where the options allow fields of any sign (abs, iga). With infinite gauge and without the limiter the step is linear in the field (superposition holds), and in a non-divergent flow adding a constant to the field adds it to the result.",
 ["inputs", "configurations"], "all field, Courant-number and positive G values; option sets and boundary conditions in 1D-3D",
 "tests use one amplitude and one sign; formulae that mix powers of the field, or a wrong term that is quadratic in it, agree with references at the amplitude tested",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fdiv_2d.hpp"],
 [("ratios of the field in antidiffusive velocities", "formulae::mpdata::ndx_psi, fdiv, TOT"), ("limiter ratios", "beta_up/beta_dn")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1 step, 2-3 iterations; real arithmetic with eps taken as 0; sign symmetry not claimed for abs with fct; shift invariance not claimed with fct or div_3rd; some configurations stay undecided and are reported as such")
prop("C12", "Each option set has the order of accuracy it promises",
 "For smooth fields, velocities and G one step reproduces the exact solution of the transport equation up to the order the options stand for: first order for the donor-cell pass, second order with corrective iterations (in divergent flow when dfl or div_2nd is chosen), third order with tot (constant flow) and div_3rd, fourth order with fot (constant flow).",
 ["inputs", "configurations"], "all smooth fields, velocities and G given by arbitrary Taylor coefficients, all signs of the velocity components; option sets in 1D-3D",
 "convergence tests fix one flow and one field; a wrong coefficient of a mixed or divergence term vanishes for it or hides in tolerances",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_1d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_dfl_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_hot_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fdiv_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_psi_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_gc_2d.hpp"],
 [("antidiffusive velocities", "formulae::mpdata::antidiff"), ("third- and fourth-order terms", "TOT, FOT, div_2nd, div_3rd"), ("interpolation of G and velocities", "G_bar_*, GC*_bar_*")],
 "bounded: one step, an interior cell, 2 (tot without iga: 3) iterations, steady velocities; real arithmetic, eps taken as 0; limiter not covered (not smooth); quick: not all sign combinations in 2D and 3D; tot without iga not in 3D",
 technique="symbolic execution of the real templates (symbolic scalar type), truncated power series with symbolic coefficients + z3")
prop("C13", "Options that only change how something is computed do not change the result",
 "khn (Kahan summation), npa, pfc (exact arithmetic) and hint_scale do not change any result; G=1 under nug is the same as no nug and a constant G with Courant numbers multiplied by it changes nothing; dfl changes nothing in a non-divergent flow; one iteration, or upwind_filter_freq=1, is the donor-cell scheme whatever the other options; upwind_filter_freq=n affects every n-th step only.",
 ["inputs", "configurations"], "all field, Courant-number and positive G values; option sets and boundary conditions in 1D-3D",
 "each of these options has its own overloads of the formulae, most combinations are never tested",
 ["libmpdata++/formulae/donorcell_formulae.hpp", "libmpdata++/formulae/kahan_sum.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_g_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_g_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_dfl_2d.hpp", "libmpdata++/solvers/detail/mpdata_osc_2d.hpp", "libmpdata++/solvers/detail/solver_common.hpp"],
 [("option overloads", "formulae::mpdata::G_bar_*, fdiv, donorcell_sum<khn>, pospart/negpart<npa>"), ("iteration count and upwind filter", "mpdata_common::n_iters, solver_common::solve_loop_body")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1-2 steps, up to 3 iterations; real arithmetic with eps taken as 0; quick: a deterministic subset of the option/boundary matrix; some configurations stay undecided and are reported as such")
prop("C14", "Forcings are applied as the chosen time-integration scheme says",
 "Every step of a solver with a right-hand side is the composition its scheme stands for: explicit Euler adds dt times the right-hand side of the state at the beginning of the step, after advection (euler_a) or before it (euler_b), trapez adds half of it before and half of the one evaluated with the advected state after; equations flagged by hint_norhs are advected only; nothing else happens, in any step.",
 ["inputs", "configurations", "histories"], "all field, Courant-number and G values, time steps; coupled non-local right-hand sides; 1-3 steps; option sets in 1D-3D",
 "tests integrate a few standard problems with tolerances that hide an extra or missing half step or a stale right-hand side in some step",
 ["libmpdata++/solvers/mpdata_rhs.hpp", "libmpdata++/solvers/detail/solver_common.hpp"],
 [("update_rhs/apply_rhs around advection", "mpdata_rhs::hook_ante_loop, hook_ante_step, hook_post_step"), ("time level of equations", "solver_common::solve, cycle")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1-3 steps, 2 iterations, 2-3 equations; constant time step; real arithmetic; reference: a loop over the homogeneous step, symbolically executed from the real code")
prop("C24", "The velocity absorber relaxes the velocities and nothing else",
 "With an absorber the velocities relax towards the given state with the given coefficient and scheme (explicit or implicit half steps), all other fields are only advected, and a zero coefficient does nothing.",
 ["inputs", "configurations", "histories"], "all fields, coefficients, relaxed states and time steps; 1-2 steps; vip and pressure solvers",
 "one test uses an absorber in one corner of one run",
 ["libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp"],
 [("absorber", "mpdata_rhs_vip_common::vip_rhs_expl_calc, vip_rhs_impl_fnlz, add_relax"), ("in the pressure solver", "mpdata_rhs_vip_prs_common::vip_rhs_impl_fnlz")],
 "bounded: grids 4x5 / 4x4x4, 1-2 steps, constant time step, cyclic; with pressure solver zero coefficient only; real arithmetic")
prop("C33", "The advecting velocity is predicted from the velocity fields",
 "In solvers whose velocities (or momenta with a density) are part of the state, all fields are advected with Courant numbers that are the velocities extrapolated in time to the middle of the step (the first step uses the current ones), averaged to the cell faces, times dt/dx and G; the density division respects vip_eps; with the third-order options the tendencies handed to the scheme are the first and second differences in time of those velocities, in every step.",
 ["inputs", "configurations", "histories"], "all velocity, density, G values and time steps; 1-3 steps; option sets in 1D-3D",
 "tests check integrated outcomes; an index or time-level slip in one component hides in tolerances",
 ["libmpdata++/solvers/mpdata_rhs_vip.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp"],
 [("extrapolation and interpolation", "mpdata_rhs_vip::intrp, interpolate_in_space, extrapolate_in_time; mpdata_rhs_vip_common::extrp"), ("history of velocities", "mpdata_rhs_vip_common::fill_stash, vip_stash"), ("tendencies", "mpdata_rhs_vip::calc_ndt_gc, calc_ndtt_gc; mpdata_rhs_vip_common::calc_gc")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1-3 steps with constant dt, 2 iterations; cyclic boundaries; real arithmetic")
prop("C02", "A field that is nowhere negative stays so",
 "With the default (sign-definite) formulation a non-negative field stays non-negative: in the first pass whenever no cell loses more than it holds, and in every corrective pass for Courant numbers below a stability bound, whatever non-negative values the previous pass produced, for every flow, variable G and any boundary condition.",
 ["inputs", "configurations"], "all non-negative fields, all Courant numbers within the bound, all positive G; cyclic and rigid boundaries in 1D-3D",
 "tests look at the minimum of a few smooth runs; a wrong denominator or sign of one face shows only for values and flows next to the bound",
 ["libmpdata++/formulae/donorcell_formulae.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_1d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_3d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_common.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_g_2d.hpp"],
 [("upwind flux", "formulae::donorcell::make_flux"), ("ratios and cross terms of the antidiffusive velocity", "formulae::mpdata::antidiff, ndx_psi, ndy_psi")],
 "bounded: grids 6 / 4x5 / 4x4x4; one pass at a time (corrective passes from arbitrary non-negative intermediate values and |C|<=1/2, 1/4, 1/8 in 1D, 2D, 3D); options: default, nug; real arithmetic; some 3D corrective configurations stay undecided",
 technique="symbolic execution of the real templates (symbolic scalar type) + z3 (sign cases, linear real arithmetic over monomials)")
prop("C03", "With the fct option the scheme creates no new extrema",
 "After a flux-corrected pass no value lies outside of the range spanned by the cell and its face neighbours before the step and before the pass, whatever the antidiffusive velocities and G are; the first pass in a non-divergent flow in which no cell loses more than it holds has the same property.",
 ["inputs", "configurations"], "all fields, all antidiffusive velocities, all positive G; option sets with fct; cyclic, open and rigid boundaries in 1D-3D",
 "tests check minima and maxima of two or three runs; a limiter using a wrong neighbour, time level or sign case overshoots only for particular data",
 ["libmpdata++/formulae/mpdata/formulae_mpdata_fct_1d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_2d.hpp", "libmpdata++/formulae/mpdata/formulae_mpdata_fct_3d.hpp", "libmpdata++/solvers/detail/mpdata_fct_1d.hpp", "libmpdata++/solvers/detail/mpdata_fct_2d.hpp", "libmpdata++/solvers/detail/mpdata_fct_3d.hpp"],
 [("limiting ratios", "formulae::mpdata::beta_up_nominator, beta_up, beta_dn"), ("limited velocities", "mpdata_fct_*::fct_adjust_antidiff"), ("bounds of the values before the step", "mpdata_fct_*::fct_init")],
 "bounded: one corrective pass (grids 7 / 6x6 / 6x6x6) from arbitrary intermediate field and velocities, and the first pass (grids 5 / 4x5 / 4x4x4); quick: a third of the positions relative to the boundaries per configuration; real arithmetic; abs with fct undecided in 2D",
 technique="symbolic execution of the real templates (symbolic scalar type) + z3 (sign cases, linear real arithmetic over monomials)")
prop("C25", "The shallow-water solver integrates the shallow-water equations",
 "Fluid depth is advected with no other change, each momentum component is accelerated by -g h grad(h) (centred differences with the grid length of its direction) by the trapezoidal rule, and the advecting velocity is momentum over depth (zero where the depth is below vip_eps).",
 ["inputs", "configurations", "histories"], "all depths, momenta, g, time steps and grid lengths; 1-3 steps; option sets in 1D and 2D",
 "tests compare a parabolic drop with an analytic solution for equal grid lengths with a tolerance",
 ["libmpdata++/solvers/shallow_water.hpp", "libmpdata++/formulae/nabla_formulae.hpp", "libmpdata++/solvers/mpdata_rhs.hpp", "libmpdata++/solvers/mpdata_rhs_vip.hpp"],
 [("momentum source", "shallow_water::forcings_helper, update_rhs"), ("division by depth", "mpdata_rhs_vip::calc_gc, vip_eps")],
 "bounded: grids 6 / 4x5, 1-3 steps, 2 iterations, constant dt; cyclic boundaries; real arithmetic")
prop("C26", "The Boussinesq solvers couple temperature, velocity and pressure as documented",
 "Vertical velocity is accelerated by g/Tht_ref times the temperature perturbation (filtered if buoy_filter is set), temperature perturbation changes by vertical transport of the environmental profile and relaxation, in the explicit variant by the trapezoidal rule and in the implicit variant by solving the coupled implicit equations, and the pressure gradient is applied to the velocities at the times and with the weights of the scheme, whatever pressure the elliptic solver finds.",
 ["inputs", "configurations", "histories"], "all fields, environmental profiles, absorber coefficients, pressure fields, time steps and grid lengths; 1-2 steps; explicit and implicit variants in 2D and 3D",
 "tests compare rising-bubble runs with reference files with tolerances; filter, absorbers and anisotropic grids are not tested together",
 ["libmpdata++/solvers/boussinesq.hpp", "libmpdata++/solvers/detail/boussinesq_common.hpp", "libmpdata++/solvers/detail/boussinesq_expl.hpp", "libmpdata++/solvers/detail/boussinesq_impl.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp", "libmpdata++/solvers/mpdata_rhs_vip_prs.hpp"],
 [("buoyancy and its filter", "boussinesq_expl::update_rhs, filter"), ("implicit coupling", "boussinesq_impl::vip_rhs_impl_fnlz, normalize_vip"), ("pressure gradient", "mpdata_rhs_vip_prs_common::pressure_solver_apply, xchng_pres, set_edges")],
 "bounded: grids 4x5 / 4x4x4, 1-2 steps, 2 iterations, constant dt; cyclic and rigid walls; the elliptic solver replaced by an arbitrary field; real arithmetic; some configurations stay undecided")

SGS = ["libmpdata++/formulae/stress_formulae.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_fd_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp"]
prop("C28", "Subgrid-scale stresses conserve momentum, dissipate and are isotropic",
 "The forcing by subgrid-scale stresses is zero in uniform flow (apart from the surface drag, which has the prescribed magnitude and direction), changes no component of the total momentum of a cyclic domain, does work equal to minus viscosity times squared deformation (so never adds energy), commutes with mirroring a direction and exchanging two directions, and for velocities quadratic in space and constant viscosity equals the forcing of the continuous equations.",
 ["inputs", "configurations"], "all velocities, grid lengths, densities G, viscosities, drag and Smagorinsky coefficients; dns/smg/smgani with normal/pade/compact discretisations, 2D and 3D, cyclic, rigid and ground boundaries",
 "two tests compare a plume and a Taylor-Green run with reference files in 3D and 2D; a wrong factor in one tensor component or one ghost row hides in the tolerances",
 SGS + ["libmpdata++/bcond/gndsky_2d.hpp", "libmpdata++/bcond/gndsky_3d.hpp", "libmpdata++/bcond/rigid_2d.hpp", "libmpdata++/bcond/rigid_3d.hpp"],
 [("deformation and stress divergence", "formulae::stress::calc_deform*, calc_vip_div_cmpct, surface_stress"), ("viscosity", "mpdata_rhs_vip_prs_sgs_smg::multiply_sgs_visc, mpdata_rhs_vip_prs_sgs_smgani::multiply_sgs_visc"), ("ghost rows", "bcond fill_halos_sgs_*")],
 "bounded: grids 4x5, 5x5 (6x6 quadratic) / 4x4x4; one application of the stress; energy and quadratic exactness without G and for part of the variants; uniform flow in 3D over a ground boundary undecided; real arithmetic")
prop("C29", "The pressure projection leaves divergence within the tolerance only",
 "After the initial and after every step's pressure projection the divergence of G times velocity (over G), in the units of the solver, is the residual that the elliptic solver tracks, whatever step lengths it used, and the solver stops only with that residual within the tolerance.",
 ["inputs", "configurations", "histories"], "all velocities, densities G, pressures, tolerances, grid lengths and time steps; mr, cr, gcrk and pc; 2D and 3D; cyclic, rigid and open boundaries",
 "tests check a few flows with solvers that also run with a wrong residual recursion: the divergence is only looked at indirectly",
 ["libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_mr.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_cr.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_pc.hpp", "libmpdata++/solvers/mpdata_rhs_vip_prs.hpp", "libmpdata++/formulae/nabla_formulae.hpp"],
 [("residual recursion", "mpdata_rhs_vip_prs_*::pressure_solver_loop_init, pressure_solver_loop_body"), ("projection", "mpdata_rhs_vip_prs_common::pressure_solver_update, pressure_solver_apply, set_edges, normalize_vip"), ("Laplacian", "mpdata_rhs_vip_prs_common::lap, precond")],
 "bounded: grids 5x4 / 4x4x4, the paths of a few iterations that the tolerances given produce, one step; the arbitrary step lengths make the first statement independent of convergence; real arithmetic; that the iteration terminates is not claimed")
prop("C34", "Results do not depend on the units the problem is posed in",
 "Posing the same problem in other units of length, time, transported scalar or density (fields, grid lengths, time step, coefficients converted) gives the same results in those units, for every solver: every term of every equation has the dimension of the equation.",
 ["inputs", "configurations", "histories"], "all inputs and all unit factors (one unit at a time); right-hand sides, velocity prediction, absorbers, shallow water, Boussinesq, pressure solvers, subgrid-scale models; 1D-3D",
 "tests are set up in one set of units, nearly always with dx=dt=1 or so: a missing factor of dt or dx, or a power of it, does not show",
 ["libmpdata++/solvers/mpdata_rhs.hpp", "libmpdata++/solvers/mpdata_rhs_vip.hpp", "libmpdata++/solvers/mpdata_rhs_vip_prs.hpp", "libmpdata++/solvers/shallow_water.hpp", "libmpdata++/solvers/detail/boussinesq_common.hpp", "libmpdata++/solvers/detail/boussinesq_expl.hpp", "libmpdata++/solvers/detail/boussinesq_impl.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_common.hpp", "libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp"] + SGS,
 [("Courant numbers from velocities", "mpdata_rhs_vip::calc_gc"), ("Smagorinsky viscosity", "mpdata_rhs_vip_prs_sgs_smg::multiply_sgs_visc"), ("sources", "shallow_water, boussinesq_*::update_rhs; pressure_solver_update/apply")],
 "bounded: grids 6 / 4x5 / 4x4x4, 1-2 steps, 2 iterations; the fixed small constants (eps, tolerances with units) taken as 0 or converted; real arithmetic; some configurations stay undecided")
prop("C30", "Files written describe the state of the run",
 "Every record that the HDF5 output writes holds the state of the solver at the recorded time and the coordinates of the grid points, at the documented interval.",
 ["inputs", "histories"], "all fields, output intervals and grids", "tests read back a few files",
 ["libmpdata++/output/hdf5.hpp", "libmpdata++/output/hdf5_xdmf.hpp", "libmpdata++/output/detail/output_common.hpp"], [("records", "output::hdf5::record, output_common::hook_post_step")], "", claimed=False,
 reason="the values pass through the HDF5 C library and the file system, which cannot be executed with the symbolic scalar type; the part before it is covered as far as it is solver state (C15: any sequence of advance() calls)")
prop("C31", "Barriers of the thread back ends synchronise all workers",
 "With every back end (OpenMP, boost, C++11 threads) a barrier lets nobody pass before all have arrived, for any number of reuses.",
 ["schedules"], "all schedules, all numbers of workers", "tests run a few schedules",
 ["libmpdata++/concurr/openmp.hpp", "libmpdata++/concurr/cxx11_thread.hpp", "libmpdata++/concurr/boost_thread.hpp"], [("barrier", "cxx11_thread::mem_t::barrier_t::wait")], "", claimed=False,
 reason="the primitives are those of the OpenMP runtime, Boost and libstdc++ (condition variables), outside of the code that the symbolic scalar type executes; C07 takes a correct barrier as given and decides where the solvers need and call it")
prop("C32", "The elliptic solvers converge",
 "The pressure solvers reach the tolerance within finitely many iterations for every input.",
 ["inputs"], "all inputs", "tests run a few problems",
 ["libmpdata++/solvers/detail/mpdata_rhs_vip_prs_common.hpp"], [("loop", "mpdata_rhs_vip_prs_common::pressure_solver_update")], "", claimed=False,
 reason="a statement without bound on the number of iterations needs a proof about the iteration; what holds when it does end is decided by C29")
