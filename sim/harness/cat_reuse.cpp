// catalogue: objects that are prepared again after an earlier use with other data
#include "catalog.h"
#include <complex>
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_normal.h"
#include "delfem2/jagarray.h"
#include "delfem2/deflap.h"
#include "delfem2/defarap.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srchgrid.h"
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/gridvoxel.h"
#include "delfem2/isrf_adf.h"
#include "delfem2/parse_math_expression.h"
#include "delfem2/gizmo_geo3.h"
#include "delfem2/rig_geo3.h"
using namespace delfem2;
namespace {
// in "dirty" mode the object has been prepared and used with other data before
template<class T, class F> void reuse(cat::Ctx &c, F f) { T obj{}; if (cat::dirty) for (int k = 0; k < 1 + cat::dirty % 2; ++k) { cat::Ctx d((uint64_t) cat::dirty * 7919 + k * 31 + 11); f(obj, d); } f(obj, c); }
CVec3d v3(cat::Ctx &c, double a = 1) { double x = c.r(-a, a), y = c.r(-a, a), z = c.r(-a, a); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void o(cat::Ctx &c, const PointOnSurfaceMesh<double> &p) { c.o(p.itri); c.o(p.r0); c.o(p.r1); }
struct Pat { VU pi, ps; gen::Mesh m; unsigned np, nd; };
Pat pat(cat::Ctx &c, int maxd = 3) { Pat p; p.m = gen::grid(c.i(1, 4), c.i(1, 4), c.g, .2); p.np = (unsigned) p.m.xyz.size() / 3; p.nd = 1 + c.g.n(maxd); JArray_PSuP_MeshElem(p.pi, p.ps, p.m.tri.data(), p.m.tri.size() / 3, 3, p.np); JArray_Sort(p.pi, p.ps); return p; }
void spd(CMatrixSparse<double> &A, const Pat &p, cat::Ctx &c) { A.Initialize(p.np, p.nd, true); A.SetPattern(p.pi.data(), p.pi.size(), p.ps.data(), p.ps.size()); A.setZero(); VU mb; unsigned nd = p.nd; for (size_t t = 0; t < p.m.tri.size() / 3; ++t) { std::vector<double> e(9 * nd * nd, 0.); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (unsigned k = 0; k < nd; ++k) e[((i * 3 + j) * nd + k) * nd + k] = (i == j ? 2.5 : -1) * (1 + .1 * k); Mearge(A, 3, &p.m.tri[t * 3], 3, &p.m.tri[t * 3], nd * nd, e.data(), mb); } A.AddDia(c.r(.1, 1)); }
OP(reuse_sparse) { reuse<CMatrixSparse<double>>(c, [](CMatrixSparse<double> &A, cat::Ctx &c) { Pat p = pat(c, 4); spd(A, p, c); c.o(A.col_ind_); c.o(A.row_ptr_); c.o(A.val_crs_); c.o(A.val_dia_); std::vector<double> x = c.vec(p.np * p.nd), y(x.size()); A.MatVec(y.data(), 1., x.data(), 0.); c.o(y); }); }
template<int FILL> void ilu(CPreconditionerILU<double> &P, cat::Ctx &c) { Pat p = pat(c, 5); CMatrixSparse<double> A; spd(A, p, c); if (FILL) P.Initialize_ILUk(A, (int) c.g.n(3)); else P.SetPattern0(A); for (int k = 0; k < 2; ++k) { P.CopyValue(A); c.o(P.Decompose()); std::vector<double> v = c.vec(p.np * p.nd); P.SolvePrecond(v.data()); c.o(v); A.AddDia(.5); } c.o(P.colInd); c.o(P.rowPtr); c.o(P.m_diaInd); }
OP(reuse_ilu0) { reuse<CPreconditionerILU<double>>(c, [](CPreconditionerILU<double> &P, cat::Ctx &c) { ilu<0>(P, c); }); }
OP(reuse_iluk) { reuse<CPreconditionerILU<double>>(c, [](CPreconditionerILU<double> &P, cat::Ctx &c) { ilu<1>(P, c); }); }
OP(reuse_ilu_mixed) { CPreconditionerILU<double> P; if (cat::dirty) { cat::Ctx d(cat::dirty); ilu<1>(P, d); } ilu<0>(P, c); P.Clear(); ilu<1>(P, c); }
template<class L, class F> void lin(L &l, cat::Ctx &c, F solve) { Pat p = pat(c, 1); p.nd = 2; l.Initialize(p.np, 2, p.pi, p.ps); c.o(l.nblk()); c.o(l.ndim()); c.o(l.ndof()); for (int rep = 0; rep < 2; ++rep) { l.BeginMerge(); for (size_t t = 0; t < p.m.tri.size() / 3; ++t) { double e[3][3][2][2]; for (auto &a : e) for (auto &b : a) for (auto &d : b) for (auto &x : d) x = .1; l.template Merge<3, 3, 2, 2>(&p.m.tri[t * 3], &p.m.tri[t * 3], e); } for (unsigned i = 0; i < p.np; ++i) for (int k = 0; k < 2; ++k) l.AddValueToDiagonal(i, k, 1.5 + .01 * i); for (auto &x : l.vec_r) x = c.r(-1, 1); l.dof_bcflag.assign(p.np * 2, 0); l.dof_bcflag[1] = 1; solve(l); c.o(l.vec_x); } }
OP(reuse_linear_solver) { reuse<LinearSystemSolver_BlockSparse>(c, [](LinearSystemSolver_BlockSparse &l, cat::Ctx &c) { lin(l, c, [](auto &q) { q.Solve(); }); c.o(l.conv_hist); }); }
OP(reuse_linear_solver_ilu) { reuse<LinearSystemSolver_BlockSparseILU>(c, [](LinearSystemSolver_BlockSparseILU &l, cat::Ctx &c) { bool b = c.g.n(2); lin(l, c, [b](auto &q) { if (b) q.Solve_Cg(); else q.Solve_PcgIlu(); }); }); }
OP(reuse_tridiagonal) { reuse<BlockTriDiagonalMatrix<2>>(c, [](BlockTriDiagonalMatrix<2> &T, cat::Ctx &c) { int n = c.i(2, 9); T.Initialize(n); T.setZero(); for (int d = 0; d + 1 < n; ++d) { double e[2][2][2][2]; for (auto &a : e) for (auto &b : a) for (auto &q : b) for (auto &x : q) x = c.r(-.1, .1); for (int k = 0; k < 2; ++k) e[0][0][k][k] += 2, e[1][1][k][k] += 2; T.Merge(d, e); } if (c.g.n(2)) T.FixBC(c.g.n(n), c.g.n(2)); std::vector<double> r = c.vec(n * 2); T.Decompose(); T.Solve(r); c.o(r); }); }
OP(reuse_pentadiagonal) { typedef LinearSystemSolver_BlockPentaDiagonal<2> L; reuse<L>(c, [](L &l, cat::Ctx &c) { int n = c.i(4, 9); l.Initialize(n); l.dof_bcflag.assign(n * 2, 0); l.dof_bcflag[c.g.n(2 * n)] = 1; l.BeginMerge(); for (int d = 0; d + 2 < n; ++d) { double e[3][3][2][2]; for (auto &a : e) for (auto &b : a) for (auto &q : b) for (auto &x : q) x = c.r(-.05, .05); unsigned ip[3] = {(unsigned) d, (unsigned) d + 1, (unsigned) d + 2}; l.template Merge<3, 3, 2, 2>(ip, ip, e); } for (int i = 0; i < n; ++i) { l.AddValueToDiagonal(i, 0, 2); l.AddValueToDiagonal(i, 1, 2); } l.vec_r = c.vec(n * 2); l.Solve(); c.o(l.vec_x); }); }
std::vector<int> bc6(const gen::Mesh &m) { std::vector<int> bc(m.xyz.size(), 0); for (int k = 0; k < 6; ++k) bc[k < 3 ? k : bc.size() - 6 + k] = 1; return bc; }
gen::Mesh patch(cat::Ctx &c) { return gen::grid(c.i(1, 4), c.i(1, 4), c.g, .2); }
OP(reuse_lap_asym) { reuse<CDef_LaplacianLinearAsym>(c, [](CDef_LaplacianLinearAsym &d, cat::Ctx &c) { gen::Mesh m = patch(c); d.Init(m.xyz, m.tri); auto bc = bc6(m); std::vector<double> x = m.xyz; x[0] += .1; d.Deform(x, m.xyz, bc); c.o(x); }); }
template<class M, class B> void lap(M &d, cat::Ctx &c, B setbc) { gen::Mesh m = patch(c); bool pre = c.g.n(2); d.Init(m.xyz, m.tri, pre); d.aBCFlag = bc6(m); if (pre) setbc(d); std::vector<double> x = m.xyz; for (int i = 0; i < 3; ++i) x[i] += c.r(-.1, .1); d.Deform(x, m.xyz); c.o(x); c.o(d.aConvHist); }
OP(reuse_lap_gram) { reuse<CDef_LaplacianLinearGram>(c, [](CDef_LaplacianLinearGram &d, cat::Ctx &c) { lap(d, c, [](auto &q) { q.SetBoundaryConditionToPreconditioner(); }); }); }
OP(reuse_lap_linear) { reuse<CDef_LaplacianLinear>(c, [](CDef_LaplacianLinear &d, cat::Ctx &c) { lap(d, c, [](auto &q) { q.SetValueToPreconditioner(); }); }); }
OP(reuse_lap_degenerate) { reuse<CDef_LaplacianLinearDegenerate>(c, [](CDef_LaplacianLinearDegenerate &d, cat::Ctx &c) { lap(d, c, [](auto &q) { q.SetBoundaryConditionToPreconditioner(); }); }); }
std::vector<double> ident(size_t np) { std::vector<double> q(np * 4, 0); for (size_t i = 0; i < np; ++i) q[i * 4 + 3] = 1; return q; }
OP(reuse_arap_edge) { reuse<CDef_ArapEdge>(c, [](CDef_ArapEdge &d, cat::Ctx &c) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .2); auto bc = bc6(m); d.Init(m.xyz, m.tri, 100., bc, c.g.n(2)); std::vector<double> x = m.xyz, q = ident(m.xyz.size() / 3); for (int k = 0; k < 3; ++k) x[k] += .2; d.Deform(x, q, m.xyz); c.o(x); c.o(q); c.o(d.psup_ind); c.o(d.psup); }); }
OP(reuse_arap) { reuse<Deformer_Arap>(c, [](Deformer_Arap &d, cat::Ctx &c) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .2); auto bc = bc6(m); d.Init(m.xyz, m.tri, c.g.n(2)); std::vector<double> x = m.xyz, q = ident(m.xyz.size() / 3); for (int k = 0; k < 3; ++k) x[k] += .2; for (int k = 0; k < 2; ++k) { d.Deform(x, q, m.xyz, bc); UpdateQuaternions_Svd(q, m.xyz, x, d.psup_ind, d.psup); } c.o(x); c.o(q); c.o(d.convergence_history); }); }
OP(reuse_arap2) { reuse<Deformer_Arap2>(c, [](Deformer_Arap2 &d, cat::Ctx &c) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .2); auto bc = bc6(m); std::vector<double> x = m.xyz, q = ident(m.xyz.size() / 3); d.Init(m.xyz, m.tri, q, bc); for (int k = 0; k < 3; ++k) x[k] += .2; for (int k = 0; k < 2; ++k) { d.Deform(x, q, m.xyz, bc); UpdateQuaternions_Svd(q, m.xyz, x, d.psup_ind, d.psup); } c.o(x); c.o(q); c.o(d.convergence_history); }); }
OP(reuse_bvh) { typedef CBVH_MeshTri3D<CBV3d_Sphere, double> B; reuse<B>(c, [](B &b, cat::Ctx &c) { gen::Mesh m = c.mesh(1); size_t nt = m.tri.size() / 3, np = m.xyz.size() / 3; b.Init(m.xyz.data(), np, m.tri.data(), nt, c.r(0, .05)); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), np, m.tri.data(), nt); for (int i = 0; i < 3; ++i) { CVec3d q = v3(c), n0(0, 0, 0); o(c, b.NearestPoint_Global(q, m.xyz, m.tri)); c.o(b.SignedDistanceFunction(n0, q, m.xyz, m.tri, n)); o(c, n0); } c.o(b.aNodeBVH.size()); for (auto &v : b.aBB_BVH) { c.o(v.c, 3); c.o(v.r); } }); }
OP(reuse_search_grid) { reuse<SearchGrid>(c, [](SearchGrid &s, cat::Ctx &c) { int n = c.i(1, 15); double a[3] = {c.r(-1, 0), -.2, 0}, b[3] = {c.r(.3, 1), .8, 1}; s.Initialize(a, b, c.r(.1, .6), n); VD p = c.vec(n * 3, 0, .3); for (int rep = 0; rep < 2; ++rep) { for (int i = 0; i < n; ++i) { s.aGrid2Obj[i].igrid = s.GetGridIndex(p.data() + i * 3); s.aGrid2Obj[i].iobj = i; } s.PostProcess(true); VU r; s.GetOneRingNeighbor(r, p.data()); std::sort(r.begin(), r.end()); c.o(r); c.o(s.aGrid2Obj_ind); for (auto &x : p) x += c.r(-.1, .1); for (auto &x : p) x = std::min(.75, std::max(.0, x)); for (int i = 0; i < n; ++i) if (p[i * 3] > b[0]) p[i * 3] = b[0]; } }); }
std::vector<double> ring(cat::Ctx &c, int lo, int hi, double r0, double r1) { std::vector<double> v; int n = c.i(lo, hi); for (int i = 0; i < n; ++i) { double t = 6.2831853 * i / n, r = c.r(r0, r1); v.push_back(r * cos(t)); v.push_back(r * sin(t)); } return v; }
void dump(cat::Ctx &c, const CMeshDynTri2D &d) { d.Check(); VD x; VU t; d.Export_StlVectors(x, t); c.o(x); c.o(t); c.o(d.nTri()); c.o(d.nPoint()); c.o(d.MinMax_XYZ()); }
OP(reuse_dyntri2) { reuse<CMeshDynTri2D>(c, [](CMeshDynTri2D &d, cat::Ctx &c) { if (c.g.n(2)) { gen::Mesh m = gen::grid(c.i(1, 4), c.i(1, 4), c.g, 0); std::vector<double> xy; for (size_t i = 0; i < m.xyz.size() / 3; ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); } d.Initialize(xy.data(), (int) xy.size() / 2, m.tri.data(), (int) m.tri.size() / 3); } else { std::vector<std::vector<double>> l(1, ring(c, 3, 8, .7, 1)); if (c.g.n(2)) l.push_back({-.2, -.2, .2, -.2, .2, .2, -.2, .2}); d.meshing_loops(l, c.g.n(4) ? c.r(.25, .5) : -1.); } dump(c, d); d.insertPointElem(c.g.n(d.nTri()), .3, .3); d.DelaunayAroundPoint(d.nPoint() - 1); dump(c, d); }); }
OP(reuse_dyntri2_clear) { reuse<CMeshDynTri2D>(c, [](CMeshDynTri2D &d, cat::Ctx &c) { d.Clear(); c.o(d.nTri()); c.o(d.nPoint()); std::vector<std::vector<double>> l(1, ring(c, 3, 8, .7, 1)); d.meshing_loops(l, .4); dump(c, d); }); }
OP(reuse_dyntri3) { reuse<CMeshDynTri3D>(c, [](CMeshDynTri3D &d, cat::Ctx &c) { gen::Mesh m = c.g.n(2) ? gen::grid(1 + c.g.n(6), 1 + c.g.n(6), c.g, .2) : gen::sphere(2, .8); d.Initialize(m.xyz.data(), m.xyz.size() / 3, 3, m.tri.data(), m.tri.size() / 3); for (int k = 0; k < 2; ++k) { d.insertPointElem(c.g.n(d.nTri()), .3, .4); d.DelaunayAroundPoint(d.nPoint() - 1); } d.Check(); for (auto &t : d.aETri) { c.o(t.v, 3); c.o(t.s2, 3); } for (auto &v : d.aVec3) o(c, v); }); }
OP(reuse_cad) { struct S { CCad2D cad; Cad2_Ui ui; }; reuse<S>(c, [](S &s, cat::Ctx &c) { CCad2D &cad = s.cad; cad.Clear(); c.o(cad.nVtx()); c.o(cad.nEdge()); auto xy = ring(c, 3, 6, .6, 1); cad.AddPolygon(xy); cad.aEdge[1].SetQuadraticBezierCurve(CVec2d(c.r(-.1, .1), c.r(-.1, .1))); cad.AddVtxEdge(.7 * (xy[0] + xy[2]) * .5, .7 * (xy[1] + xy[3]) * .5, 0); c.o(cad.Check()); c.o(cad.MinMaxXYZ()); for (auto &e : cad.aEdge) { c.o(e.ArcLength()); c.o(e.Distance(.1, .2)); c.o(e.GenMesh(3)); } for (auto &v : cad.aVtx) o(c, v.pos); s.ui.Pick(xy[0], xy[1], 2., cad); c.o(s.ui.ivtx_picked); c.o(s.ui.iedge_picked); c.o(s.ui.iface_picked); s.ui.DragPicked(cad, xy[0] + .05, xy[1], xy[0], xy[1]); for (auto &v : cad.aVtx) o(c, v.pos); s.ui.Pick(c.r(-.2, .2), c.r(-.2, .2), 2., cad); c.o(s.ui.ivtx_picked); c.o(s.ui.iedge_picked); c.o(s.ui.iface_picked); }); }
OP(reuse_cad_mesher) { struct S { CMesher_Cad2D me; CMeshDynTri2D d; }; reuse<S>(c, [](S &s, cat::Ctx &c) { CCad2D cad; auto xy = ring(c, 3, 6, .6, 1); cad.AddPolygon(xy); if (c.g.n(2)) cad.AddPolygon({2, 0, 3, 0, 3, 1}); s.me.edge_length = c.r(.3, .6); s.me.Meshing(s.d, cad); dump(c, s.d); for (unsigned e = 0; e < cad.nEdge(); ++e) { c.o(s.me.IndPoint_IndEdge(e, true, cad)); c.o(s.me.IndPoint_IndEdge(e, false, cad)); } c.o(s.me.IndPoint_IndEdgeArray({0, 1}, cad)); c.o(s.me.IndPoint_IndFaceArray({0}, cad)); c.o(s.me.aFlgPnt); c.o(s.me.aFlgTri); c.o(s.me.nvtx); c.o(s.me.nedge); c.o(s.me.nface); }); }
OP(reuse_grid3) { reuse<CGrid3<int>>(c, [](CGrid3<int> &g, cat::Ctx &c) { g.Initialize(c.i(1, 4), c.i(1, 4), c.i(1, 4), 0); for (auto &a : g.aVal) a = c.g.n(3) != 0; c.o(g.aVal); if (g.ndivx > 1 && g.ndivy > 1) { Grid3Voxel_Dilation(g); c.o(g.aVal); Grid3Voxel_Erosion(g); c.o(g.aVal); } c.o(g.IsInclude(0, 0, 0)); }); }
struct Slab : public Input_AdaptiveDistanceField3 { double r, k; double sdf(double x, double y, double z) const override { return r - z + k * x; } };
OP(reuse_adf) { reuse<AdaptiveDistanceField3>(c, [](AdaptiveDistanceField3 &a, cat::Ctx &c) { Slab b; b.r = c.r(.2, .8); b.k = c.r(.1, .5); double w = c.r(.8, 1.2), bb[6] = {-w, w, -w, w, -w, w}; a.SetUp(b, bb); c.o(a.aNode.size()); for (int i = 0; i < 5; ++i) { double n[3] = {0, 0, 0}; CVec3d q = v3(c, .7); c.o(a.Projection(q.p[0], q.p[1], q.p[2], n)); c.o(n, 3); } VD t; a.BuildIsoSurface_MarchingCube(t); c.o(t); c.o(a.dist_min); c.o(a.dist_max); }); }
OP(reuse_math_expression) { reuse<CMathExpressionEvaluator>(c, [](CMathExpressionEvaluator &e, cat::Ctx &c) { e.SetKey("x", c.r(.1, 2)); e.SetKey("t", c.r(.1, 2)); static const char *const ex[] = {"sin(x)+t*2", "x^2-t/3", "sqrt(x+1)*exp(t)", "abs(x-3)+floor(t)", "cos(x*t)-(x+t)*(x-t)", "2*x", "3.5"}; c.o(e.SetExp(ex[c.g.n(7)])); c.o(e.Eval()); c.o(e.IsKeyUsed("t")); e.SetKey("x", 1.5); c.o(e.Eval()); }); }
OP(reuse_rig) { reuse<std::vector<CRigBone>>(c, [](std::vector<CRigBone> &b, cat::Ctx &c) { unsigned nb = c.i(1, 5); std::vector<unsigned> par = {UINT_MAX}; for (unsigned i = 1; i < nb; ++i) par.push_back(c.g.n(i)); std::vector<double> J = c.vec(nb * 3); InitBones_JointPosition(b, nb, par.data(), J.data()); c.o(b.size()); for (auto &x : b) { x.SetRotationBryant(c.r(-1, 1), c.r(-1, 1), c.r(-1, 1)); } UpdateBoneRotTrans(b); for (auto &q : b) { c.o(q.affmat3Global, 16); c.o(q.invBindMat, 16); c.o(q.quatRelativeRot, 4); c.o(q.transRelative, 3); c.o(q.ibone_parent); } }); }
}
