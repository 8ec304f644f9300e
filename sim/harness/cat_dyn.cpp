// catalogue: position based dynamics, rigid bodies, hair, rigs, fluids, boundary elements, cameras, misc
#include "catalog.h"
#include <complex>
#include "delfem2/cagedef.h"
#include "delfem2/hair_darboux_util.h"
#include "delfem2/hair_darboux_solver.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/polyline_elastic_rod2.h"
#include "delfem2/polyline_elastic_beam2.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/view_array2d.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/kinetic_damping.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/rigopt.h"
#include "delfem2/cam_modelview.h"
#include "delfem2/cam_projection.h"
#include "delfem2/gizmo_geo3.h"
#include "delfem2/specialfuncs.h"
#include "delfem2/bem.h"
#include "delfem2/fdm_stablefluids.h"
#include "delfem2/fdm_array2.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/jagarray.h"
#include "delfem2/color.h"
using namespace delfem2;
namespace {
CVec3d v3(cat::Ctx &c, double a = 1) { double x = c.r(-a, a), y = c.r(-a, a), z = c.r(-a, a); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
OP(cage_mvc) { gen::Mesh m = gen::sphere(c.g.n(2), 1.); std::vector<double> p = c.vec(12, -.4, .4); c.o(ComputeMeanValueCoordinate<CVec3d>(p, m.xyz, m.tri)); std::vector<double> dof = c.vec(2 * m.xyz.size() / 3); c.o(ComputeMeanValueCoordinateReduced<CVec3d>(p, m.xyz, m.tri, 2, dof)); double xy[8] = {-1, -1, 1, -1, 1, 1, -1, 1}, w[4]; MeanValueCoordinate_Polygon2<CVec2d>(w, c.r(-.9, .9), c.r(-.9, .9), xy, 4); c.o(w, 4); }
OP(hair) { HairDarbouxShape hs{(unsigned) c.i(5, 9), c.r(.05, .2), c.r(.05, .3), c.r(.1, .2)}; std::vector<CVec3d> p0, s0, ap, as; VU root; hs.MakeConfigDaboux(ap, as); for (int k = 0; k < 2; ++k) { root.size() ? (void) 0 : (void) 0; } std::vector<unsigned> rt; for (int k = 0; k < 2; ++k) { rt.push_back(p0.size()); for (auto p : ap) { p.p[2] += k; p0.push_back(p); } for (auto &s : as) s0.push_back(s); } rt.push_back(p0.size()); std::vector<CVec3d> P = p0, S = s0; for (auto &s : S) s += v3(c, .05); LinearSystemSolver_BlockSparse sp; { VU pi, ps; JArray_PSuP_Hair(pi, ps, rt); sp.Initialize(p0.size(), 4, pi, ps); MakeBCFlag_RodHair(sp.dof_bcflag, rt); } for (size_t i = 0; i < P.size(); ++i) for (int k = 0; k < 3; ++k) if (!sp.dof_bcflag[i * 4 + k]) P[i].p[k] += c.r(-.03, .03); double st[3] = {1, 1, 1}; MakeDirectorOrthogonal_RodHair(S, P); for (int k = 0; k < 2; ++k) Solve_RodHair(P, S, sp, 1., st, .1, p0, s0, rt); for (auto &p : P) o(c, p); for (auto &s : S) o(c, s); }
OP(polyline_edit) { int n = c.i(4, 10); std::vector<std::array<double, 2>> v(n), u; for (int i = 0; i < n; ++i) v[i] = {i * .05, c.r(-.01, .01)}; u = v; LinearSystemSolver_BlockPentaDiagonal<2> sp; if (cat::dirty) sp.Initialize(cat::dirty + 3); for (int k = 0; k < 3; ++k) { DragPolylineElastic_Rod2(v, sp, c.g.n(n), {c.r(0, .3), c.r(0, .1)}); for (auto &a : v) c.o(a); } }
OP(pbd_cloth) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .0); size_t np = m.xyz.size() / 3; CMeshDynTri2D d; std::vector<double> xy; for (size_t i = 0; i < np; ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); } d.Initialize(xy.data(), (int) np, m.tri.data(), (int) m.tri.size() / 3); std::vector<double> x = m.xyz, u(x.size(), 0); VD xt; std::vector<int> bc(np, 0); bc[0] = 1; double g[3] = {0, 0, -9.8}; for (auto &q : x) q += c.r(-.02, .02); CKineticDamper kd; for (int k = 0; k < 3; ++k) { PBD_Pre3D(xt, .01, g, x, u, bc); PBD_TriStrain(xt.data(), np, d.aEPo.size() ? d.aETri : d.aETri, d.aVec2); PBD_Bend(xt.data(), np, d.aETri, d.aVec2, .7); unsigned l[2] = {0, (unsigned) np - 1}; if (c.g.n(2)) PBD_Seam(xt.data(), np, l, 1); PBD_Post(x, u, .01, xt, bc); kd.Damp(u); c.o(x); c.o(u); } c.o(kd.aEnergy); }
OP(pbd_rigid) { int n = c.i(4, 8); std::vector<double> X = c.vec(n * 3), x = X; for (auto &q : x) q += c.r(-.1, .1); std::vector<int> ci = {0, n > 6 ? 3 : n}, cl; if (n > 6) ci.push_back(n); for (int i = 0; i < n; ++i) cl.push_back(i); PBD_ConstProj_Rigid3D(x.data(), .8, ci.data(), (int) ci.size(), cl.data(), n, X.data(), n); c.o(x); std::vector<double> Y = c.vec(n * 2), y = Y; for (auto &q : y) q += c.r(-.1, .1); std::vector<unsigned> ui(ci.begin(), ci.end()), ul(cl.begin(), cl.end()); PBD_ConstProj_Rigid2D(y.data(), .8, ui.data(), ui.size(), ul.data(), n, Y.data(), n); c.o(y); }
OP(rigid2) { std::vector<CRigidState2> rs(3); for (int k = 0; k < 3; ++k) { auto &r = rs[k]; r.is_fix = k == 0; double h = k == 0 ? 2 : .3; r.shape = {CVec2d(-h, -.2), CVec2d(h, -.2), CVec2d(h, .2), CVec2d(-h, .2)}; r.posl = CVec2d(0, 0); r.mass = 1; r.I = .1; r.posg = CVec2d(k * .2, k * .39 + c.r(-.02, .02)); r.theta = c.r(-.2, .2) * (k > 0); r.velo = CVec2d(c.r(-.5, .5), 0); r.omega = 0; if (k == 0) r.velo = CVec2d(0, 0); r.shape_velo.assign(4, CVec2d(0, 0)); } for (int s = 0; s < 4; ++s) { Steptime_Rgd2(rs, .02, CVec2d(0, -9.8)); for (auto &r : rs) { o(c, r.posg); c.o(r.theta); o(c, r.velo); c.o(r.omega); } } }
OP(rig) { std::vector<CRigBone> b; unsigned nb = c.i(2, 5); std::vector<unsigned> par = {UINT_MAX}; for (unsigned i = 1; i < nb; ++i) par.push_back(c.g.n(i)); std::vector<double> J = c.vec(nb * 3); if (cat::dirty) b.resize(cat::dirty); InitBones_JointPosition(b, nb, par.data(), J.data()); for (auto &x : b) x.SetRotationBryant(c.r(-1, 1), c.r(-1, 1), c.r(-1, 1)); b[0].SetTranslation(.1, .2, .3); UpdateBoneRotTrans(b); gen::Mesh m = gen::sphere(1, 1.); size_t np = m.xyz.size() / 3; std::vector<double> W = c.vec(np * nb, 0, 1); for (size_t i = 0; i < np; ++i) { double s = 0; for (unsigned k = 0; k < nb; ++k) s += W[i * nb + k]; for (unsigned k = 0; k < nb; ++k) W[i * nb + k] /= s; } VD x(std::vector<double>(np * 3)); Skinning_LBS(x, m.xyz, b, W); c.o(x); VD sw; VU si; SparsifyMatrixRow(sw, si, W.data(), np, nb, 1e-3); c.o(sw); c.o(si); SkinningSparse_LBS(x, m.xyz, b, sw, si); c.o(x); VD L; Rig_Sensitivity_Skeleton(L, b); c.o(L); std::vector<CTarget> t(1); t[0].ib = nb - 1; t[0].pos = v3(c, .2); Solve_MinRigging(b, t); for (auto &q : b) { c.o(q.affmat3Global, 16); c.o(q.quatRelativeRot, 4); } VD ref; Rig_SkinReferncePositionsBoneWeighted(ref, b, m.xyz, W); c.o(ref); }
OP(camera_gizmo) { ModelView_Trackball t; ModelView_Ytop y; ModelView_Ztop z; for (int k = 0; k < 4; ++k) { float a = c.r(-1, 1), b = c.r(-1, 1); t.Rot_Camera(a, b); y.Rot_Camera(a, b); z.Rot_Camera(a, b); } c.o(t.GetMatrix()); c.o(y.GetMatrix()); c.o(z.GetMatrix()); for (int p = 0; p < 2; ++p) { Projection_LookOriginFromZplus pr(1.5f, p, 20); c.o(pr.GetMatrix(1.3f)); }
  CGizmo_Rotation<float> gr; gr.size = .7f; float s[3] = {.7f, (float) c.r(-.05, .05), -2}, s2[3] = {.6f, .2f, -2}, d[3] = {0, 0, 1}; gr.Pick(true, s, d, .1f); c.o(gr.ielem_picked); gr.Drag(s, s2, d); c.o(gr.quat, 4); CGizmo_Transl<float> gt; gt.size = .7f; float s3[3] = {(float) c.r(.1, .6), .01f, -2}; gt.Pick(true, s3, d, .1f); c.o(gt.ielem_picked); gt.Drag(s3, s2, d); c.o(gt.pos.p, 3); CGizmo_Affine<float> ga; ga.igizmo_mode = (int) c.g.n(2); ga.Pick(s3, d); ga.Drag(s3, s2, d); auto A = ga.Affine(); c.o(A.mat, 16); }
OP(special_functions) { int n = c.i(1, 8); double a[81]; CVec3d p = v3(c); p = p.normalized(); makeArray_SphericalHarmonics(a, n, p.p[0], p.p[1], p.p[2]); c.o(a, (n + 1) * (n + 1)); std::complex<double> h[12]; makeArray_SphericalHankelFirst(n, h, c.r(.5, 3)); for (int i = 0; i <= n; ++i) { c.o(h[i].real()); c.o(h[i].imag()); } double P[12]; makeArray_Legendre(n, P, c.r(-1, 1)); c.o(P, n + 1); }
OP(bem) { gen::Mesh m = gen::sphere(0, 1.); for (auto &x : m.xyz) x += c.r(-.05, .05); VD A, f; CVec3d v = v3(c); makeLinearSystem_PotentialFlow_Order0th(A, f, v, 1, m.xyz, m.tri); c.o(A); c.o(f); std::vector<double> x(f.size(), 0.); double conv = 1e-6; int it = 50; c.o(Solve_BiCGSTAB(conv, it, x, A, f)); c.o(x); double phi; CVec3d g; evaluateField_PotentialFlow_Order0th(phi, g, v3(c, 3) + CVec3d(5, 0, 0), v, 1, x, m.xyz, m.tri); c.o(phi); o(c, g); std::vector<CVortexParticle> vp; for (int i = 0; i < 4; ++i) { { CVortexParticle q; q.pos = v3(c); q.circ = q.circ0 = v3(c); q.rad = .2; q.m = CMat3d::Identity(); q.velo = q.velo_pre = CVec3d(0, 0, 0); q.gradvelo = q.gradvelo_pre = CMat3d::Identity(); vp.push_back(q); } } setGradVeloVortexParticles(vp); for (auto &q : vp) { q.stepTime_AdamsBashforth(.01); o(c, q.pos); o(c, q.velo); } }
}
