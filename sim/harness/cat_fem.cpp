// catalogue: element matrices and their assembly
#include "catalog.h"
#include <complex>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/mshmisc.h"
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/femutil.h"
#include "delfem2/fem_beam2.h"
#include "delfem2/fem_discreteshell.h"
#include "delfem2/fem_distance3.h"
#define DFM2_STATIC_LIBRARY  // the header names a source file that does not exist
#include "delfem2/fem_dkt.h"
#undef DFM2_STATIC_LIBRARY
#include "delfem2/fem_dkt.cpp"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_invertiblefem.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_mitc3.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_rod3_darboux.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_solidhyper.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/femcloth.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/hair_darboux_solver.h"
#include "delfem2/hair_darboux_collision.h"
#include "delfem2/defarapenergy_geo3.h"
using namespace delfem2;
namespace {
typedef double D;
template<class A, class G> void each(A &a, G &&g) { using T = std::remove_const_t<A>; if constexpr (std::is_array_v<T>) for (auto &x : a) each(x, g); else if constexpr (std::is_same_v<T, D>) g(a); else if constexpr (std::is_same_v<T, std::complex<D>>) { D *q = reinterpret_cast<D *>(const_cast<T *>(&a)); g(q[0]); g(q[1]); } else if constexpr (std::is_same_v<T, CVec3d>) for (auto &x : a.p) g(x); else for (auto &x : a.p_) g(x); }
// inputs: random;  outputs the callee writes: stale from an earlier use;  outputs it adds to: zero
struct RR { cat::Ctx &c; D a, b; template<class... A> void operator()(A &... x) { (each(x, [&](D &v) { v = c.r(a, b); }), ...); } };
template<class... A> void stale(A &... x) { int k = 0; (each(x, [&](D &v) { v = cat::dirty ? 3. + (D) (k++ % 5) : 0.; }), ...); }
template<class... A> void zero(A &... x) { (each(x, [&](D &v) { v = 0; }), ...); }
template<class... A> void out(cat::Ctx &c, const A &... x) { (each(x, [&](const D &v) { c.o(v); }), ...); }
struct E2 { D x[3][2]; }; struct E3 { D x[4][3]; };
E2 tri2(cat::Ctx &c) { E2 e = {{{0, 0}, {1, 0}, {.2, .9}}}; for (auto &r : e.x) for (D &v : r) v += c.r(-.1, .1); return e; }
E3 tet3(cat::Ctx &c) { E3 e = {{{0, 0, 0}, {1, 0, 0}, {.1, 1, 0}, {.2, .2, .9}}}; for (auto &r : e.x) for (D &v : r) v += c.r(-.1, .1); return e; }
struct Tm { std::vector<D> xyz; std::vector<unsigned> tet, hex; VU pi, ps; unsigned np; };
Tm tets(cat::Ctx &c, bool hex = false) { Tm t; unsigned nx = 1 + c.g.n(2), ny = 1, nz = 1 + c.g.n(2); auto id = [&](unsigned i, unsigned j, unsigned k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
  for (unsigned k = 0; k <= nz; ++k) for (unsigned j = 0; j <= ny; ++j) for (unsigned i = 0; i <= nx; ++i) { t.xyz.push_back(i + c.r(-.1, .1)); t.xyz.push_back(j + c.r(-.1, .1)); t.xyz.push_back(k + c.r(-.1, .1)); }
  for (unsigned k = 0; k < nz; ++k) for (unsigned i = 0; i < nx; ++i) { unsigned v[8] = {id(i, 0, k), id(i + 1, 0, k), id(i + 1, 1, k), id(i, 1, k), id(i, 0, k + 1), id(i + 1, 0, k + 1), id(i + 1, 1, k + 1), id(i, 1, k + 1)}; for (unsigned q : v) t.hex.push_back(q); unsigned T[5][4] = {{0, 1, 2, 5}, {0, 2, 3, 7}, {0, 5, 7, 4}, {2, 7, 5, 6}, {0, 2, 7, 5}}; for (auto &r : T) for (unsigned q : r) t.tet.push_back(v[q]); }
  t.np = (unsigned) t.xyz.size() / 3; if (hex) JArray_PSuP_MeshElem(t.pi, t.ps, t.hex.data(), t.hex.size() / 8, 8, t.np); else JArray_PSuP_MeshElem(t.pi, t.ps, t.tet.data(), t.tet.size() / 4, 4, t.np); JArray_Sort(t.pi, t.ps); return t; }
void pat(CMatrixSparse<D> &A, const Tm &s, unsigned nd) { A.Initialize(s.np, nd, true); A.SetPattern(s.pi.data(), s.pi.size(), s.ps.data(), s.ps.size()); A.setZero(); }
void fin(cat::Ctx &c, CMatrixSparse<D> &A, std::vector<D> b, bool sym = true) { c.o(A.val_crs_); c.o(A.val_dia_); c.o(b); std::vector<int> bc(b.size(), 0); for (size_t k = 0; k < A.nrowdim_ * 2; ++k) bc[k] = 1; A.SetFixedBC(bc.data()); setRHS_Zero(b, bc, 0); std::vector<D> x(b.size(), 0), t0 = x, t1 = x; if (!sym) { c.o(A.val_crs_); return; } CPreconditionerILU<D> P; P.SetPattern0(A); P.CopyValue(A); P.Decompose(); auto h = Solve_PCG(ViewAsVectorXd(b), ViewAsVectorXd(x), ViewAsVectorXd(t0), ViewAsVectorXd(t1), 1e-6, 50, A, P); c.o(x); c.o(h); }
struct Mute { std::streambuf *b; struct Null : std::streambuf { int overflow(int ch) override { return ch; } } n; Mute() : b(nullptr) {} };
OP(elem_beam_rod) { D dW[2][3], ddW[2][2][3][3], x[2][2], u[2][3]; RR{c, -1, 1}(x, u); x[1][0] += 3; stale(dW, ddW); dWddW_Beam2(dW, ddW, c.r(.5, 2), c.r(.5, 2), x, u); out(c, dW, ddW);
  D W = 0, w[3][2], ww[3][3][2][2], p[3][2], L[2] = {1, 1.2}; RR{c, -.2, .2}(p); p[1][0] += 1; p[2][0] += 2; p[2][1] += .3; stale(w, ww); WdWddW_Rod2(W, w, ww, p, L, 1., 2., .5); c.o(W); out(c, w, ww); }
OP(elem_distance) { CVec3d dw[2], P[2]; CMat3d dd[2][2]; RR{c, -1, 1}(P); P[1].p[0] += 3; stale(dw, dd); c.o(WdWddW_SquareLengthLineseg3D(dw, dd, 2., P, 1.5)); out(c, dw, dd); D C = 0, dc[2][3], p[2][3]; RR{c, -1, 1}(p); p[1][1] += 3; stale(dc); CdC_SquareLengthLineseg3D(C, dc, p, 1.); c.o(C); out(c, dc);
  D C3[3], d3[3][9], q[3][3]; E2 t = tri2(c); RR{c, -.1, .1}(q); for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) q[i][k] += t.x[i][k]; stale(C3, d3); CdC_LengthTriEdges23(C3, d3, t.x, q); out(c, C3, d3); D C6[6], d6[6][12]; E3 a = tet3(c), b = tet3(c); stale(C6, d6); CdC_LengthTetEdges(C6, d6, a.x, b.x); out(c, C6, d6); }
OP(elem_shell) { D C = 0; CVec3d dC[4], p[4]; stale(dC); RR{c, -.2, .2}(p); p[0].p[1] += 1; p[1].p[1] -= 1; p[3].p[0] += 1; CdC_DiscreteShell(C, dC, p[0], p[1], p[2], p[3]); c.o(C); out(c, dC); D E = 0, dE[3][3], ddE[3][3][3][3], a[3][3], b[3][3]; RR{c, -.1, .1}(a, b); E2 t = tri2(c); for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) { a[i][k] += t.x[i][k]; b[i][k] += t.x[i][k]; } stale(dE, ddE); WdWddW_MIPS(E, dE, ddE, a, b); c.o(E); out(c, dE, ddE);
  D u[3][3]; RR{c, -.1, .1}(u); E = 0; zero(dE, ddE); WdWddW_PlateBendingMITC3(E, dE, ddE, t.x, u, .05, 1., 1.); c.o(E); out(c, dE, ddE);
  D ww[3][3], wr[3][3][2], rw[3][3][2], rr[3][3][2][2], ew[3], er[3][2], w[3], rot[3][2]; RR{c, -.1, .1}(w, rot); stale(ww, wr, rw, rr, ew, er); MakeMat_PlateBendingDKT(ww, wr, rw, rr, ew, er, 1., .3, .05, t.x, w, rot); out(c, ww, wr, rw, rr, ew, er); }
OP(elem_stvk_bend) { E2 t = tri2(c); D C3[3], d3[3][9], p[3][3]; RR{c, -.1, .1}(p); for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) p[i][k] += t.x[i][k]; stale(C3, d3); CdC_StVK(C3, d3, t.x, p); out(c, C3, d3); D e = 0, de[9]; stale(de); CdC_EnergyStVK(e, de, t.x, p, 1., .5); c.o(e); out(c, de);
  D P[3][3]; RR{c, -.1, .1}(P); for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) P[i][k] += t.x[i][k]; D W = 0, dW[3][3], ddW[3][3][3][3]; stale(dW, ddW); WdWddW_CST(W, dW, ddW, P, p, 1., .5); c.o(W); out(c, dW, ddW); D K[3][3][3][3], R[3][3], S[3][3][3][3]; stale(K, R, S); WdWddW_CST_Sensitivity(K, R, S, 1., .5, P, p); out(c, K, R, S);
  D Q[4][3], q[4][3]; RR{c, -.1, .1}(Q, q); for (auto *X : {Q, q}) { X[0][1] += 1; X[1][1] -= 1; X[3][0] += 1; } D B[3], dB[3][4][3]; stale(B, dB); CdC_QuadBend(B, dB, Q, q); out(c, B, dB); D w4[4][3], ww4[4][4][3][3]; W = 0; stale(w4, ww4); WdWddW_Bend(W, w4, ww4, Q, q, 2.); c.o(W); out(c, w4, ww4); D K4[4][4][3][3], R4[4][3], S4[4][4][3][3]; stale(K4, R4, S4); WdWddW_QuadraticBending_Sensitivity(K4, R4, S4, Q, q, 2.); out(c, K4, R4, S4); }
OP(elem_poisson) { E2 t = tri2(c); D r[3], m[3][3], v[3], w[3]; RR{c, -1, 1}(v, w); stale(r, m); EMat_Poisson_Tri2D(r, m, 1.2, .5, t.x, v); out(c, r, m); stale(r, m); EMat_Diffusion_Tri2D(r, m, 1., .5, .1, .6, 2., t.x, v, w); out(c, r, m); D q[4][4]; stale(q); EMat_Poission2_QuadOrth(q, c.r(.5, 2), c.r(.5, 2)); out(c, q); stale(q); EMat_Poisson2_QuadOrth_GaussInt(q, 1., c.r(.5, 2), 1 + c.g.n(3)); out(c, q);
  E3 e = tet3(c); D r4[4], m4[4][4], v4[4], w4[4]; RR{c, -1, 1}(v4, w4); stale(r4, m4); EMat_Poisson_Tet3D(r4, m4, 1., .5, e.x, v4); out(c, r4, m4); stale(r4, m4); EMat_Diffusion_Newmark_Tet3D(r4, m4, 1., .5, .1, .6, 1., e.x, v4, w4); out(c, r4, m4); }
OP(elem_fluid) { E2 t = tri2(c); D v[3][3], a[3][3], m[3][3][3][3], r[3][3], ve[3][2], ac[3][2], p[3], ap[3], uu[3][3][2][2], up[3][3][2], pu[3][3][2], pp[3][3], ru[3][2], rp[3], Mu[3][3][2][2], Mp[3][3][2]; RR{c, -1, 1}(v, a, ve, ac, p, ap); stale(m, r); EMat_Stokes2D_Static_P1(1., .1, -.2, t.x, v, m, r); out(c, m, r); stale(m, r); EMat_Stokes2D_Dynamic_P1(1., 1.1, .1, -.2, .1, .6, t.x, v, a, m, r); out(c, m, r); stale(m, r); EMat_NavierStokes2D_Dynamic_P1(1., 1.1, .1, -.2, .1, .6, t.x, v, a, m, r); out(c, m, r);
  stale(uu, up, pu, pp, ru, rp); MakeMat_Stokes2D_Static_P1P1(1., .1, .2, t.x, ve, p, uu, up, pu, pp, ru, rp); out(c, uu, up, pu, pp, ru, rp); stale(uu, up, pu, pp, ru, rp); MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(1., 1., .1, .2, .1, .6, t.x, ve, p, ac, ap, uu, up, pu, pp, ru, rp); out(c, uu, up, pu, pp, ru, rp); zero(uu, up, pu, pp, ru, rp, Mu, Mp); }
OP(elem_fluid3) { E3 t = tet3(c); D v[4][4], a[4][4], m[4][4][4][4], r[4][4]; RR{c, -1, 1}(v, a); stale(m, r); MakeMat_Stokes3D_Static_P1(1., .1, .2, .3, t.x, v, m, r); out(c, m, r); stale(m, r); MakeMat_Stokes3D_Dynamic_P1(1., 1., .1, .2, .3, .1, .6, t.x, v, a, m, r); out(c, m, r); stale(m, r); MakeMat_NavierStokes3D_Dynamic_P1(1., 1., .1, .2, .3, .1, .6, t.x, v, a, m, r); out(c, m, r); D ve[4][3], ac[4][3], p[4], ap[4], uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4]; RR{c, -1, 1}(ve, ac, p, ap); stale(uu, up, pu, pp, ru, rp); MakeMat_Stokes3D_Static_P1P1(1., .1, .2, .3, t.x, ve, p, uu, up, pu, pp, ru, rp); out(c, uu, up, pu, pp, ru, rp); stale(uu, up, pu, pp, ru, rp); MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(1., 1., .1, .2, .3, .1, .6, t.x, ve, p, ac, ap, uu, up, pu, pp, ru, rp); out(c, uu, up, pu, pp, ru, rp); }
OP(elem_fluid3_newmark) { E3 t = tet3(c); D ve[4][3], ac[4][3], p[4], ap[4], uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4]; RR{c, -1, 1}(ve, ac, p, ap); stale(uu, up, pu, pp, ru, rp); MakeMat_Stokes3D_Dynamic_Newmark_P1P1(1., 1., .1, .2, .3, .1, .6, t.x, ve, p, ac, ap, uu, up, pu, pp, ru, rp); out(c, uu, up, pu, pp, ru, rp); }
OP(elem_solid) { E2 t = tri2(c); D r[3][2], m[3][3][2][2], u[3][2], v[3][2], a[3][2]; RR{c, -.1, .1}(u, v, a); stale(r, m); EMat_SolidStaticLinear_Tri2D(r, m, 1., 1.5, 1., 0., -1., u, t.x); out(c, r, m); stale(r, m); EMat_SolidDynamicLinear_Tri2D(r, m, 1., 1.5, 1., 0., -1., .1, .6, .36, u, v, a, t.x, c.g.n(2)); out(c, r, m); D q[4][4][2][2]; stale(q); EMat_SolidLinear2_QuadOrth_GaussInt(q, 1., c.r(.5, 2), 1., 1.5, 1 + c.g.n(3)); out(c, q);
  E3 e = tet3(c); D M[4][4][3][3], R[4][3], U[4][3], V[4][3], A[4][3]; RR{c, -.1, .1}(U, V, A); stale(M, R); EMat_SolidLinear_Static_Tet(M, R, 1., 1.5, e.x, U, false); out(c, M, R); zero(M, R); EMat_SolidLinear_Static_Tet(M, R, 1., 1.5, e.x, U, true); out(c, M, R); stale(M, R); EMat_SolidLinear_NewmarkBeta_MeshTet3D(R, M, 1., 1.5, 1., 0., 0., -1., .1, .6, .36, U, V, A, e.x, c.g.n(2)); out(c, M, R); D dl[4][3], a4[4]; stale(dl, a4); TetDlDx(dl, a4, e.x[0], e.x[1], e.x[2], e.x[3]); out(c, dl, a4); static thread_local D M10[10][10][3][3]; D R10[10][3], U10[10][3], st[3][3]; RR{c, -.1, .1}(U10); stale(M10, R10, st); matRes_LinearSolid_TetP2(M10, R10, .2, 1., 1.5, 0, 0, -1, 1., dl, U10); out(c, M10, R10); stress_LinearSolid_TetP2(st, .25, .25, .3, .2, .2, 1., 1.5, 0, 0, -1, dl, U10); out(c, st); }
OP(elem_hex) { D P[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}, U[8][3], N0[8][3]; RR{c, -.1, .1}(U, N0); for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) P[i][k] += N0[i][k]; D W = 0, dW[8][3], ddW[8][8][3][3], vol = 0; zero(dW, ddW); unsigned ig = c.g.n(2); AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W, dW, ddW, vol, 1., .5, P, U, ig); c.o(W); c.o(vol); out(c, dW, ddW); W = vol = 0; zero(dW, ddW); AddWdWddW_Solid3Compression_Hex(W, dW, ddW, vol, 2., P, U, ig); c.o(W); c.o(vol); out(c, dW, ddW); D g[3] = {0, 0, -1}, R[8][3]; stale(ddW, R); elemMatRes_LinearSolidGravity3_Static_Q1(1., 1.5, 1., g, P, U, ddW, R); out(c, ddW, R);
  D dn[8][3], an[8], dj = 0, r0 = c.r(-.9, .9), r1 = c.r(-.9, .9), r2 = c.r(-.9, .9); stale(dn, an); ShapeFunc_Hex8(r0, r1, r2, P, dj, dn, an); c.o(dj); out(c, dn, an); stale(dn, an); ShapeFunc_Vox8(r0, r1, r2, P, dj, dn, an); c.o(dj); out(c, dn, an); stale(dn); c.o(DiffShapeFuncAtQuadraturePoint_Hex(dn, 1, 0, 1, 0, P)); out(c, dn); D du[3][3], C[3][3], Ci[3][3]; stale(du, C, Ci); DispGrad_GradshapeDisp<3, 8, D>(du, dn, U); RightCauchyGreen_DispGrad<3>(C, du); c.o(DetInv_Mat3(Ci, C)); out(c, du, C, Ci); D dd[3][8][3][3]; (void) dd; D e8[8][8][3][3]; zero(e8); SetEmat_LinearSolid3<8>(e8, 1., .5, dn, .3); out(c, e8); zero(R); AddEmatEvecScale3<8>(R, e8, U, .5); out(c, R); }
OP(elem_util) { D a[3], b[3], d[3], r[3], A[9], B[9], C[9]; RR{c, -1, 1}(a, b, d, A, B); stale(r, C); c.o(femutil::Distance3D(a, b)); c.o(femutil::TriArea3D(a, b, d)); D ar = 0; femutil::UnitNormalAreaTri3D(r, ar, a, b, d); out(c, r); c.o(ar); c.o(femutil::Dot3D(a, b)); femutil::Cross3D(r, a, b); out(c, r); D z[3] = {0, 0, 2}; c.o(femutil::TetVolume3D(a, b, d, z)); femutil::MatVec3(r, A, a); out(c, r); femutil::MatMat3(C, A, B); out(c, C); femutil::MatMatTrans3(C, A, B); out(c, C); E2 t = tri2(c); D q[2] = {c.r(0, 1), c.r(0, 1)}; stale(r); femutil::TriAreaCoord(r, t.x[0], t.x[1], t.x[2], q); out(c, r); c.o(femutil::TriArea2D(t.x[0], t.x[1], t.x[2])); D dl[3][2], ct[3]; stale(dl, ct); TriDlDx(dl, ct, t.x[0], t.x[1], t.x[2]); out(c, dl, ct); E3 e = tet3(c); D d4[4][3], c4[4]; stale(d4, c4); TetDlDx(d4, c4, e.x[0], e.x[1], e.x[2], e.x[3]); out(c, d4, c4); D L3[4][4][3][3], L1[4][4], M3[4][4][3][3], T[3][3][2][2]; stale(L3, L1, M3, T); SetEMatLaplaceTet(L3, .5, d4); SetEMatLaplaceTet(L1, .5, d4); SetEmatConsistentMassTet(M3, .3); EmatConsistentMassTri2<2>(T, .2, false); EmatConsistentMassTri2<2>(T, .1, true); AddEmatConsistentMassTet<3>(M3, .1); out(c, L3, L1, M3, T); }
OP(elem_invertible) { auto neo = [](D dW[3], D ddW[3][3], D l0, D l1, D l2) -> D { dW[0] = l0 - 1; dW[1] = l1 - 1; dW[2] = l2 - 1; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ddW[i][j] = i == j; return .5 * ((l0 - 1) * (l0 - 1) + (l1 - 1) * (l1 - 1) + (l2 - 1) * (l2 - 1)); }; E3 P = tet3(c), p = tet3(c); for (auto &r : p.x) for (D &v : r) v += c.r(-.2, .2); if (c.g.n(3) == 0) p.x[3][2] = -p.x[3][2]; D dW[4][3], ddW[4][4][3][3]; stale(dW, ddW); std::function<D(D[3], D[3][3], D, D, D)> f = neo; c.o(WdWddW_InvertibleFEM(dW, ddW, P.x, p.x, f)); out(c, dW, ddW); }
OP(elem_darboux) { CVec3d P[3], S[2]; RR{c, -.2, .2}(P, S); P[1].p[0] += 1; P[2].p[0] += 1.7; P[2].p[1] += .6; for (auto &s : S) s.p[2] += 1; for (int i = 0; i < 2; ++i) { CVec3d u = (P[i + 1] - P[i]).normalized(); S[i] = (S[i] - u * S[i].dot(u)).normalized(); } D st[3] = {1., 2., .5}; CVec3d db = Darboux_Rod(P, S), d0(.1, .2, .05); out(c, db);
  CVec3d w[3], wt[2][3]; D t[2], tt[2][2]; CMat3d ww[3][3]; stale(w, wt, t, tt, ww); c.o(WdWddW_Rod3Exact(w, t, ww, wt, tt, st, P, S, d0)); out(c, w, wt, t, tt, ww); stale(w, wt, t, tt, ww); c.o(WdWddW_Rod3Approx(w, t, ww, wt, tt, st, P, S, d0)); out(c, w, wt, t, tt, ww); D hw[3][4], hh[3][3][4][4]; stale(hw, hh); c.o(WdWddW_HairApprox(hw, hh, st, P, S, d0)); out(c, hw, hh); D C[3], Ct[3][2]; CVec3d Cp[3][3]; stale(C, Ct, Cp); CdC_Rod(C, Cp, Ct, P, S); out(c, C, Ct, Cp); D off[3] = {.1, .2, .3}; stale(w, wt, t, tt, ww); c.o(WdWddW_DotFrame(w, t, ww, wt, tt, P, S, off)); out(c, w, wt, t, tt, ww); CVec3d fr[3], fr2[3]; stale(fr); RodFrameTrans(fr, S[0], P[1] - P[0], CVec3d(.01, .02, .03), .1); out(c, fr); CMat3d dF[3]; CVec3d dt[3]; stale(dF, dt); DiffFrameRod(dF, dt, 1.1, fr); out(c, dF, dt); CMat3d dv; CVec3d vt; D t2 = 0; DifDifFrameRod(dv, vt, t2, c.g.n(3), 1.1, S[0], fr); out(c, dv, vt); c.o(t2);
  D v[3][3], c3[3], dc[3][3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) v[i][k] = P[i].p[k]; stale(c3, dc); CdC_Rod3BendStraight(c3, dc, v); out(c, c3, dc); CVec3d bw[3]; CMat3d bb[3][3]; stale(bw, bb); c.o(WdWddW_Rod3BendStraight(bw, bb, P)); out(c, bw, bb); }
OP(merge_tet) { Tm t = tets(c); D g[3] = {0, 0, -1}; auto &x = t.xyz; size_t np = t.np, ne = t.tet.size() / 4; int k = c.i(0, 4); CMatrixSparse<D> A; if (cat::dirty) A.Initialize(cat::dirty, 2, true);
  if (k < 2) { pat(A, t, 1); std::vector<D> b(np, 0), v = c.vec(np), w = c.vec(np); if (k == 0) MergeLinSys_Poission_MeshTet3D(A, b.data(), 1., .5, x.data(), np, t.tet.data(), ne, v.data()); else MergeLinSys_Diffusion_MeshTet3D(A, b.data(), 1., 1., .5, .1, .6, x.data(), np, t.tet.data(), ne, v.data(), w.data()); fin(c, A, b); }
  else { pat(A, t, 3); std::vector<D> b(np * 3, 0), v = c.vec(np * 3, -.1, .1), w = v, a = v; if (k == 2) MergeLinSys_SolidLinear_Static_MeshTet3D(A, b.data(), 1., 1.5, 1., g, x.data(), np, t.tet.data(), ne, v.data()); else if (k == 3) MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(A, b.data(), 1., 1.5, 1., g, .1, .6, .36, x.data(), np, t.tet.data(), ne, v.data(), w.data(), a.data()); else MergeLinSys_SolidLinear_BEuler_MeshTet3D(A, b.data(), 1., 1.5, 1., g, .1, x.data(), (unsigned) np, t.tet.data(), (unsigned) ne, v.data(), w.data()); fin(c, A, b); } }
OP(merge_tet_stiffwarp) { Tm t = tets(c); D g[3] = {0, 0, -1}; size_t np = t.np; CMatrixSparse<D> A; pat(A, t, 3); std::vector<D> b(np * 3, 0), v = c.vec(np * 3, -.1, .1), w = v, R(np * 9, 0); for (size_t i = 0; i < np; ++i) { R[i * 9] = R[i * 9 + 4] = R[i * 9 + 8] = 1; R[i * 9 + 1] = .01; R[i * 9 + 3] = -.01; } MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(A, b.data(), 1., 1.5, 1., g, .1, t.xyz.data(), (unsigned) np, t.tet.data(), (unsigned) t.tet.size() / 4, v.data(), w.data(), R); fin(c, A, b); }
struct MZ : CMatrixSparse<D> { void SetZero() { setZero(); } };  // the name this one routine asks for
OP(merge_hex) { Tm t = tets(c, true); D g[3] = {0, 0, -1}; MZ A; pat(A, t, 3); std::vector<D> b(t.np * 3, 0), v = c.vec(t.np * 3, -.1, .1); MergeLinSys_LinearSolid3D_Static_Q1(A, b, 1., 1.5, 1., g, t.xyz, t.hex, v); fin(c, A, b); }
OP(merge_fluid3) { Tm t = tets(c); CMatrixSparse<D> A; pat(A, t, 4); std::vector<D> b(t.np * 4, 0), v = c.vec(t.np * 4), w = c.vec(t.np * 4); switch (c.g.n(3)) { case 0: MergeLinSys_Stokes3D_Static(A, b, 1., 1., 0, 0, -1, t.xyz, t.tet, v, w); break; case 1: MergeLinSys_Stokes3D_Dynamic(A, b, 1., 1., 0, 0, -1, .1, .6, t.xyz, t.tet, v, w); break; default: MergeLinSys_NavierStokes3D_Dynamic(A, b, 1., 1., 0, 0, -1, .1, .6, t.xyz, t.tet, v, w); } fin(c, A, b, false); }
OP(merge_helmholtz_bc) { E2 t = tri2(c); typedef std::complex<D> Z; Z r[3], m[3][3], v[3] = {{c.r(-1, 1), .1}, {.2, c.r(-1, 1)}, {.3, 0}}; stale(r, m); EMat_Helmholtz_Tri2D(r, m, .9, t.x, v); out(c, r, m); Z r2[2], m2[2][2]; stale(r2, m2); D P[2][2] = {{0, 0}, {c.r(.5, 1), .2}}; EMat_SommerfeltRadiationBC_Line2D(r2, m2, .9, P, v); out(c, r2, m2);
  gen::Mesh g = gen::grid(2, 2, c.g, .1); unsigned np = (unsigned) g.xyz.size() / 3; std::vector<D> xy; for (unsigned i = 0; i < np; ++i) { xy.push_back(g.xyz[i * 3]); xy.push_back(g.xyz[i * 3 + 1]); } VU pi, ps; JArray_PSuP_MeshElem(pi, ps, g.tri.data(), g.tri.size() / 3, 3, np); JArray_Sort(pi, ps); CMatrixSparse<Z> A; A.Initialize(np, 1, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); A.setZero(); std::vector<Z> b(np), val(np, {.1, .2}); std::vector<unsigned> pl = {g.tri[0], g.tri[1]}; MergeLinSys_SommerfeltRadiationBC_Polyline2D(A, b.data(), .9, xy.data(), np, pl.data(), pl.size(), val.data()); for (auto &z : b) { c.o(z.real()); c.o(z.imag()); } for (auto &z : A.val_dia_) { c.o(z.real()); c.o(z.imag()); } }
OP(merge_cloth) { struct In : CInput_Contact { D penetrationNormal(D &nx, D &ny, D &nz, D, D, D pz) const override { nx = 0; ny = 0; nz = 1; return .05 - pz; } } in; D w = 0, dw[3], dd[3][3], p[3] = {c.r(-1, 1), c.r(-1, 1), c.r(-.1, .1)}; stale(dw, dd); WdWddW_Contact(w, dw, dd, p, 10., .02, in); c.o(w); out(c, dw, dd);
  gen::Mesh g = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .1); unsigned np = (unsigned) g.xyz.size() / 3; VU q; ElemQuad_DihedralTri(q, g.tri.data(), (unsigned) g.tri.size() / 3, np); VU pi, ps; JArray_PSuP_MeshElem(pi, ps, q.data(), q.size() / 4, 4, np); if (q.empty()) return; JArray_Sort(pi, ps); CMatrixSparse<D> A; A.Initialize(np, 3, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); A.setZero(); std::vector<D> x = g.xyz, b(np * 3, 0); for (D &v : x) v += c.r(-.05, .05); c.o(MergeLinSys_Cloth(A, b.data(), 1., 2., .1, g.xyz.data(), np, 3, g.tri.data(), (unsigned) g.tri.size() / 3, q.data(), (unsigned) q.size() / 4, x.data())); c.o(MergeLinSys_Contact(A, b.data(), 10., .02, in, x.data(), (int) np)); c.o(b); c.o(A.val_crs_); c.o(A.val_dia_); }
OP(block_matrix_bc) { gen::Mesh g = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .1); unsigned np = (unsigned) g.xyz.size() / 3; VU pi, ps; JArray_PSuP_MeshElem(pi, ps, g.tri.data(), g.tri.size() / 3, 3, np); JArray_Sort(pi, ps); CMatrixSparse<D> A; A.Initialize(np, 3, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); for (D &v : A.val_crs_) v = c.r(-1, 1); for (D &v : A.val_dia_) v = c.r(-1, 1); for (unsigned i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) A.val_dia_[i * 9 + k * 4] += 24; std::vector<D> sc(np * 9, 0); for (unsigned i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) sc[i * 9 + k * 4] = c.r(.5, 1); MatSparse_ScaleBlk_LeftRight(A, sc.data()); c.o(A.val_crs_); std::vector<int> bc(np * 3, 0); for (int &b : bc) b = c.g.n(4) == 0; A.SetFixedBC_Dia(bc.data(), 1.); A.SetFixedBC_Row(bc.data()); if (c.g.n(2)) A.SetFixedBC_Col(bc.data()); c.o(A.val_crs_); c.o(A.val_dia_); CPreconditionerILU<D> P; if (c.g.n(2)) P.Initialize_ILUk(A, c.i(0, 2)); else P.SetPattern0(A); P.CopyValue(A); c.o(P.Decompose()); std::vector<D> v = c.vec(np * 3); P.ForwardSubstitution(v.data()); c.o(v); P.BackwardSubstitution(v.data()); c.o(v); }
OP(hair_merge) { std::vector<CVec3d> P, S; std::vector<unsigned> root = {0}; HairDarbouxShape h; for (int i = 0; i < c.i(1, 2); ++i) { std::vector<CVec3d> p, s; h.num_points = (unsigned) c.i(4, 6); h.pitch = c.r(0, .2); h.radius = c.r(.3, .6); h.edge_length = c.r(.2, .3); h.MakeConfigDaboux(p, s); for (auto &q : p) q += CVec3d(0, 0, i); P.insert(P.end(), p.begin(), p.end()); S.insert(S.end(), s.begin(), s.end()); root.push_back((unsigned) P.size()); } std::vector<CVec3d> P0 = P, S0 = S; for (auto &q : P0) q += CVec3d(c.r(-.02, .02), c.r(-.02, .02), c.r(-.02, .02)); MakeDirectorOrthogonal_RodHair(S0, P0); for (auto &v : S0) out(c, v); VI bc; bc.assign(P.size() * 4, 0); MakeBCFlag_RodHair(bc, root); c.o(bc); VU pi, ps; JArray_PSuP_Hair(pi, ps, root); JArray_Sort(pi, ps); c.o(pi); c.o(ps); LinearSystemSolver_BlockSparse L; L.Initialize((unsigned) P.size(), 4, pi, ps); L.dof_bcflag = bc; D st[3] = {1., 1., 1.}; L.BeginMerge(); c.o(Merge_HairDarboux(L, st, root, P, S, P0, S0)); c.o(Merge_HairStretch(L, 1., root, P, P0)); c.o(L.vec_r); c.o(L.matrix.val_dia_); }
OP(arap_energy) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .2); size_t np = m.xyz.size() / 3; VU pi, ps; JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.tri.size() / 3, 3, np); std::vector<D> x = m.xyz, q(np * 4, 0); for (D &v : x) v += c.r(-.1, .1); for (size_t i = 0; i < np; ++i) q[i * 4 + 3] = 1; c.o(W_ArapEnergy(m.xyz, x, q, pi, ps)); VD r; dW_ArapEnergy(r, m.xyz, x, q, pi, ps); c.o(r); std::vector<unsigned> ip(ps.begin() + pi[0], ps.begin() + pi[1]); ip.push_back(0); VD e; ddW_ArapEnergy(e, ip, m.xyz, q); c.o(e); }
}
