// catalogue: sparse linear systems, finite elements, deformers
#include "catalog.h"
#include <complex>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/ls_masterslave.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/mshmisc.h"
#include "delfem2/femutil.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_mitc3.h"
#include "delfem2/deflap.h"
#include "delfem2/defarap.h"
#include "delfem2/lp.h"
#include "delfem2/cloth_internal.h"
using namespace delfem2;
namespace {
struct Sys { gen::Mesh m; std::vector<double> xy; VU pi, ps; unsigned np; };
Sys sys2(cat::Ctx &c) { Sys s; s.m = gen::grid(c.i(1, 4), c.i(1, 4), c.g, .1); s.np = (unsigned) s.m.xyz.size() / 3; for (unsigned i = 0; i < s.np; ++i) { s.xy.push_back(s.m.xyz[i * 3] + c.r(-.05, .05)); s.xy.push_back(s.m.xyz[i * 3 + 1] + c.r(-.05, .05)); } JArray_PSuP_MeshElem(s.pi, s.ps, s.m.tri.data(), s.m.tri.size() / 3, 3, s.np); JArray_Sort(s.pi, s.ps); return s; }
template<class T> void pat(CMatrixSparse<T> &A, const Sys &s, unsigned nd) { A.Initialize(s.np, nd, true); A.SetPattern(s.pi.data(), s.pi.size(), s.ps.data(), s.ps.size()); A.setZero(); }
std::vector<double> solve(cat::Ctx &c, CMatrixSparse<double> &A, std::vector<double> b, std::vector<int> &bc, bool ilu, int fill = 0) {
  A.SetFixedBC(bc.data()); setRHS_Zero(b, bc, 0); size_t n = b.size(); std::vector<double> x(n, 0), t0(n), t1(n), h;
  if (ilu) { CPreconditionerILU<double> P; if (fill) P.Initialize_ILUk(A, fill); else P.SetPattern0(A); P.CopyValue(A); P.Decompose(); h = Solve_PCG(ViewAsVectorXd(b), ViewAsVectorXd(x), ViewAsVectorXd(t0), ViewAsVectorXd(t1), 1e-6, 200, A, P); }
  else h = Solve_CG(ViewAsVectorXd(b), ViewAsVectorXd(x), ViewAsVectorXd(t0), ViewAsVectorXd(t1), 1e-6, 200, A);
  c.o(x); c.o(h); return x; }
OP(sparse_matrix) { Sys s = sys2(c); unsigned nd = 1 + c.g.n(3); CMatrixSparse<double> A; if (cat::dirty) { Sys q = s; A.Initialize(cat::dirty, 2, true); } pat(A, s, nd); VU mb; 
  for (size_t t = 0; t < s.m.tri.size() / 3; ++t) { std::vector<double> e(9 * nd * nd); for (auto &x : e) x = c.r(-.1, .1); for (unsigned i = 0; i < 3 * nd; ++i) {} for (int i = 0; i < 3; ++i) for (unsigned k = 0; k < nd; ++k) e[((i * 3 + i) * nd + k) * nd + k] += 2; Mearge(A, 3, &s.m.tri[t * 3], 3, &s.m.tri[t * 3], nd * nd, e.data(), mb); }
  std::vector<double> x = c.vec(s.np * nd), y(s.np * nd, .5); A.MatVec(y.data(), 1.5, x.data(), .25); c.o(y); A.MatTVec(y.data(), 1., x.data(), 0.); c.o(y); auto &B = A; B.AddDia(1.); B.MatVec(y.data(), 1., x.data(), 0.); c.o(y); std::vector<double> sc(s.np * nd, 0.9); MatSparse_ScaleBlkLen_LeftRight(B, sc.data()); c.o(B.val_crs_); c.o(B.val_dia_); std::vector<int> bc(s.np * nd, 0); bc[0] = 1; B.SetFixedBC(bc.data()); c.o(B.val_crs_); c.o(CheckSymmetry(B)); if (nd == 1) { std::vector<double> xx = c.vec(s.np * 3), yy(s.np * 3, 1); A.MatVecDegenerate(yy.data(), 3, 1., xx.data(), .5); c.o(yy); } }
OP(poisson) { Sys s = sys2(c); CMatrixSparse<double> A; pat(A, s, 1); std::vector<double> b(s.np, 0), v = c.vec(s.np); MergeLinSys_Poission_MeshTri2D(A, b.data(), 1., .5, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); std::vector<int> bc(s.np, 0); bc[0] = bc[s.np - 1] = 1; solve(c, A, b, bc, true, (int) c.g.n(3)); solve(c, A, b, bc, false); }
OP(diffusion) { Sys s = sys2(c); CMatrixSparse<double> A; pat(A, s, 1); std::vector<double> b(s.np, 0), v = c.vec(s.np), w = c.vec(s.np); MergeLinSys_Diffusion_MeshTri2D(A, b.data(), 1., .7, .5, .01, .6, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data(), w.data()); std::vector<int> bc(s.np, 0); bc[0] = 1; solve(c, A, b, bc, true); }
OP(solid2) { Sys s = sys2(c); CMatrixSparse<double> A; pat(A, s, 2); std::vector<double> b(s.np * 2, 0), v = c.vec(s.np * 2, -.1, .1), w = v, a = v; if (c.g.n(2)) MergeLinSys_SolidLinear_Static_MeshTri2D(A, b.data(), 10., 3., 1., 0., -1., s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); else MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(A, b.data(), 10., 3., 1., 0., -1., .1, .6, .36, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data(), w.data(), a.data()); std::vector<int> bc(s.np * 2, 0); bc[0] = bc[1] = bc[s.np * 2 - 1] = 1; solve(c, A, b, bc, c.g.n(2)); }
OP(stokes2) { Sys s = sys2(c); CMatrixSparse<double> A; pat(A, s, 3); std::vector<double> b(s.np * 3, 0), v = c.vec(s.np * 3), w = c.vec(s.np * 3); switch (c.g.n(3)) { case 0: MergeLinSys_StokesStatic2D(A, b.data(), 1., 0., -1., s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); break; case 1: MergeLinSys_StokesDynamic2D(A, b.data(), 1., 1., 0., -1., .1, .6, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data(), w.data()); break; default: MergeLinSys_NavierStokes2D(A, b.data(), 1., 1., 0., -1., .1, .6, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data(), w.data()); } std::vector<int> bc(s.np * 3, 0); bc[0] = bc[1] = bc[2] = 1; A.SetFixedBC(bc.data()); setRHS_Zero(b, bc, 0); c.o(b); c.o(A.val_crs_); c.o(A.val_dia_); CPreconditionerILU<double> P; P.SetPattern0(A); P.CopyValue(A); c.o(P.Decompose()); std::vector<double> x(b.size(), 0); auto h = Solve_PBiCGStab(b.data(), x.data(), 1e-4, 20, A, P); c.o(x); c.o(h); }
OP(helmholtz) { Sys s = sys2(c); CMatrixSparse<std::complex<double>> A; pat(A, s, 1); std::vector<std::complex<double>> b(s.np), v(s.np, {.1, .2}); MergeLinSys_Helmholtz_MeshTri2D(A, b.data(), .9, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); std::vector<int> bc(s.np, 0); bc[0] = 1; A.SetFixedBC(bc.data()); b[0] = 0; CPreconditionerILU<std::complex<double>> P; P.SetPattern0(A); P.CopyValue(A); c.o(P.Decompose()); std::vector<std::complex<double>> x(s.np); std::vector<double> h = Solve_PCOCG(b.data(), x.data(), 1e-4, 30, A, P); c.o(h); for (auto &z : x) { c.o(z.real()); c.o(z.imag()); } }
OP(plate_mitc3) { Sys s = sys2(c); CMatrixSparse<double> A; pat(A, s, 3); std::vector<double> b(s.np * 3, 0), v(s.np * 3, 0), M(s.np * 3); MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(A, b.data(), .05, 1., 1., 1., -1e-3, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); MassLumped_ShellPlateBendingMITC3(M.data(), 1., .05, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3); c.o(M); std::vector<int> bc(s.np * 3, 0); bc[0] = bc[1] = bc[2] = bc[4] = 1; solve(c, A, b, bc, true); }
OP(linear_solver_class) { Sys s = sys2(c); auto fill = [&](auto &L) { for (int rep = 0; rep < 2; ++rep) { L.BeginMerge(); for (size_t t = 0; t < s.m.tri.size() / 3; ++t) { double e[3][3][2][2]; for (auto &a : e) for (auto &b : a) for (auto &d : b) for (auto &x : d) x = .1; L.template Merge<3, 3, 2, 2>(&s.m.tri[t * 3], &s.m.tri[t * 3], e); } for (unsigned i = 0; i < s.np; ++i) for (int k = 0; k < 2; ++k) L.AddValueToDiagonal(i, k, 1. + .01 * i); for (auto &x : L.vec_r) x = c.r(-1, 1); L.dof_bcflag[1] = 1; } };
  LinearSystemSolver_BlockSparse a; a.Initialize(s.np, 2, s.pi, s.ps); fill(a); a.Solve(); c.o(a.vec_x); c.o(a.conv_hist); LinearSystemSolver_BlockSparseILU b; b.Initialize(s.np, 2, s.pi, s.ps); fill(b); b.Solve_Cg(); c.o(b.vec_x); fill(b); b.Solve_PcgIlu(); c.o(b.vec_x); }
OP(band_matrix) { int n = c.i(4, 9); BlockTriDiagonalMatrix<2> T; if (cat::dirty) T.Initialize(cat::dirty + 2); T.Initialize(n); for (int rep = 0; rep < 2; ++rep) { T.setZero(); for (int d = 0; d + 1 < n; ++d) { double e[2][2][2][2]; for (auto &a : e) for (auto &b : a) for (auto &q : b) for (auto &x : q) x = c.r(-.1, .1); e[0][0][0][0] += 2; e[0][0][1][1] += 2; e[1][1][0][0] += 2; e[1][1][1][1] += 2; T.Merge(d, e); } T.FixBC(0, 1); std::vector<double> r = c.vec(n * 2); r[1] = 0; T.Decompose(); T.Solve(r); c.o(r); }
  LinearSystemSolver_BlockPentaDiagonal<2> L; if (cat::dirty) L.Initialize(cat::dirty + 3); L.Initialize(n); L.dof_bcflag.assign(n * 2, 0); L.dof_bcflag[0] = 1; for (int rep = 0; rep < 2; ++rep) { L.BeginMerge(); for (int d = 0; d + 2 < n; ++d) { double e[3][3][2][2]; for (auto &a : e) for (auto &b : a) for (auto &q : b) for (auto &x : q) x = c.r(-.05, .05); unsigned ip[3] = {(unsigned) d, (unsigned) d + 1, (unsigned) d + 2}; L.template Merge<3, 3, 2, 2>(ip, ip, e); } for (int i = 0; i < n; ++i) { L.AddValueToDiagonal(i, 0, 2); L.AddValueToDiagonal(i, 1, 2); } L.vec_r = c.vec(n * 2); L.Solve(); c.o(L.vec_x); } }
OP(master_slave) { Sys s = sys2(c); std::vector<unsigned> ms(s.np, UINT_MAX); ms[s.m.tri[1]] = s.m.tri[0]; ms[s.m.tri[2]] = s.m.tri[0]; VU pi, ps; JArray_AddMasterSlavePattern(pi, ps, ms.data(), 1, s.pi.data(), s.pi.size(), s.ps.data()); JArray_Sort(pi, ps); c.o(pi); c.o(ps); CMatrixSparse<double> A; A.Initialize(s.np, 1, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); A.setZero(); std::vector<double> b(s.np, 0), v = c.vec(s.np); MergeLinSys_Poission_MeshTri2D(A, b.data(), 1., .5, s.xy.data(), s.np, s.m.tri.data(), s.m.tri.size() / 3, v.data()); setRHS_MasterSlave(b.data(), s.np, ms.data()); SetMasterSlave(A, ms.data()); c.o(b); c.o(A.val_crs_); c.o(A.val_dia_); }
OP(cloth_fem) { std::vector<double> X; std::vector<int> bc; std::vector<unsigned> t, q; SetClothShape_Square(X, bc, t, q, c.i(1, 3), 1.); std::vector<double> x = X, u(X.size(), 0); for (auto &v : x) v += c.r(-.02, .02); struct In : CInput_Contact { double penetrationNormal(double &nx, double &ny, double &nz, double px, double py, double pz) const override { nx = 0; ny = 0; nz = 1; return -.3 - pz; } } in; unsigned np = X.size() / 3; VU pi, ps; JArray_PSuP_MeshElem(pi, ps, q.data(), q.size() / 4, 4, np); JArray_Sort(pi, ps); CMatrixSparse<double> A; A.Initialize(np, 3, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); CPreconditionerILU<double> P; P.SetPattern0(A); double g[3] = {0, 0, -9.8}; for (int k = 0; k < 2; ++k) { if (c.g.n(2)) StepTime_InternalDynamics(x, u, A, X, bc, t, q, .02, 1., 4., .01, g, .01, 100., .02, in); else StepTime_InternalDynamicsILU(x, u, A, P, X, bc, t, q, .02, 1., 4., .01, g, .01, 100., .02, in); UpdateIntermidiateVelocity(u, x, X, bc, t, q, .02, 1., 4., .01, g, .01); c.o(x); c.o(u); } }
template<class M> void lap(cat::Ctx &c, const gen::Mesh &m, std::vector<int> bc, bool pre) { M d; for (int k = 0; k < (cat::dirty ? 2 : 1); ++k) d.Init(m.xyz, m.tri, pre); d.aBCFlag = bc; if constexpr (std::is_same_v<M, CDef_LaplacianLinear>) { if (pre) d.SetValueToPreconditioner(); } else if (pre) d.SetBoundaryConditionToPreconditioner(); std::vector<double> x = m.xyz; for (size_t i = 0; i < 3; ++i) x[i] += .1; d.Deform(x, m.xyz); c.o(x); c.o(d.aConvHist.size()); }
OP(deform_laplacian) { gen::Mesh m = gen::grid(c.i(1, 4), c.i(1, 4), c.g, .2); std::vector<int> bc(m.xyz.size(), 0); for (int k = 0; k < 6; ++k) bc[k < 3 ? k : bc.size() - 6 + k] = 1; switch (c.g.n(4)) { case 0: { CDef_LaplacianLinearAsym d; d.Init(m.xyz, m.tri); std::vector<double> x = m.xyz; x[0] += .1; d.Deform(x, m.xyz, bc); c.o(x); break; } case 1: lap<CDef_LaplacianLinearGram>(c, m, bc, c.g.n(2)); break; case 2: lap<CDef_LaplacianLinear>(c, m, bc, c.g.n(2)); break; default: { std::vector<int> b3(m.xyz.size(), 0); for (size_t i = 0; i < b3.size() / 3; ++i) b3[i] = 0; lap<CDef_LaplacianLinearDegenerate>(c, m, bc, c.g.n(2)); } } }
OP(deform_arap) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .2); size_t np = m.xyz.size() / 3; std::vector<int> bc(m.xyz.size(), 0); for (int k = 0; k < 6; ++k) bc[k < 3 ? k : bc.size() - 6 + k] = 1; std::vector<double> q(np * 4, 0), x = m.xyz; for (size_t i = 0; i < np; ++i) q[i * 4 + 3] = 1; for (int k = 0; k < 3; ++k) x[k] += .2; switch (c.g.n(3)) { case 0: { CDef_ArapEdgeLinearDisponly d(m.xyz, m.tri, 100., bc); d.Deform(x, m.xyz); break; } case 1: { CDef_ArapEdge d; d.Init(m.xyz, m.tri, 100., bc, c.g.n(2)); d.Deform(x, q, m.xyz); break; } default: { Deformer_Arap d; bool pre = c.g.n(2); d.Init(m.xyz, m.tri, pre); if (cat::dirty) d.Init(m.xyz, m.tri, pre); d.Deform(x, q, m.xyz, bc); UpdateQuaternions_Svd(q, m.xyz, x, d.psup_ind, d.psup); d.Deform(x, q, m.xyz, bc); } } c.o(x); c.o(q); }
OP(linear_programming) { CLinPro lp; int nv = c.i(2, 3), ne = c.i(2, 4); for (int e = 0; e < ne; ++e) { std::vector<double> w(nv); for (auto &x : w) x = c.i(0, 4); w[e % nv] += 1; lp.AddEqn(w, c.i(2, 9), CLinPro::LE); } std::vector<double> one(nv, 1.); if (cat::dirty) { int k = 50; lp.Precomp(k); } lp.AddEqn(one, 10., CLinPro::LE); if (c.g.n(2)) lp.AddEqn(one, .5, CLinPro::GE); int nit = 50; int r = lp.Precomp(nit); c.o(r); if (r == 0) { std::vector<double> s, t(nv); for (auto &x : t) x = c.i(1, 5); double v = 0; nit = 50; c.o(lp.Solve(s, v, nit, t)); c.o(s); c.o(v); c.o(lp.GetValid()); } }
}
