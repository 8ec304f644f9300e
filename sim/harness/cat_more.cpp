// catalogue: garments, rigs, gizmos, CAD edits, brute-force queries, mixed meshes, triangle edits, files' names
#include "catalog.h"
#include <map>
#include <set>
#include <string>
#include "delfem2/cad2.h"
#include "delfem2/cadtopo.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/rig_msh.h"
#include "delfem2/rigopt.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/srch_kdtree_tri.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_bending_for_dtri.h"
#include "delfem2/msh_normal.h"
#include "delfem2/garment.h"
#include "delfem2/msh_topology_mix.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/mshmisc.h"
#include "delfem2/gizmo_geo3.h"
#include "delfem2/geo_gjksat3.h"
#include "delfem2/polyline_elastic_beam2.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/file.h"
#include "delfem2/slice.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/expmap_geo3dijk.h"
using namespace delfem2;
namespace {
CVec3d v3(cat::Ctx &c, double a = 1) { double x = c.r(-a, a), y = c.r(-a, a), z = c.r(-a, a); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void dt(cat::Ctx &c, const std::vector<CDynTri> &T, const std::vector<CDynPntSur> &P) { for (auto &t : T) for (int k = 0; k < 3; ++k) { c.o(t.v[k]); c.o(t.s2[k]); } for (auto &p : P) c.o(p.e); }
OP(garment) { CCad2D cad; double h = c.r(.5, .8); cad.AddPolygon({0, 0, 1, 0, 1, h, 0, h}); cad.AddPolygon({2, 0, 3, 0, 3, h, 2, h}); std::vector<unsigned> seam = {1, 7, 3, 5}; std::vector<CRigidTrans_2DTo3D> rt(2); rt[0].org2 = CVec2d(.5, h / 2); rt[0].org3 = CVec3d(0, 0, .5); rt[1].org2 = CVec2d(2.5, h / 2); rt[1].org3 = CVec3d(0, 0, -.5); rt[1].R.SetRotMatrix_BryantAngle(0., M_PI, 0.); if (c.g.n(2)) rt[0].radinv_x = c.r(.5, 2); std::vector<CDynTri> T; std::vector<CVec2d> V; VD x; std::vector<unsigned> ln; CMesher_Cad2D ms; MeshingPattern(T, V, x, ln, ms, rt, cad, seam, c.r(.25, .4)); c.o(x); c.o(ln);
  CProjectorMesh pj; gen::Mesh b = gen::sphere(1, .3); pj.aXYZ_Body = b.xyz; pj.aTri_Body = b.tri; pj.Init(); std::vector<double> u(x.size(), 0); VD xt; std::vector<int> bc(x.size() / 3, 0); double g[3] = {0, 0, 0}; for (int k = 0; k < 2; ++k) StepTime_PbdClothSim(x, xt, u, bc, T, V, ln, pj, .01, g, .7); c.o(x); c.o(u); }
OP(rig_more) { std::vector<CRigBone> b; unsigned nb = c.i(2, 5); std::vector<unsigned> par = {UINT_MAX}; for (unsigned i = 1; i < nb; ++i) par.push_back(c.g.n(i)); std::vector<double> J = c.vec(nb * 3); InitBones_JointPosition(b, nb, par.data(), J.data()); std::vector<CChannel_BioVisionHierarchy> ch; for (unsigned i = 0; i < nb; ++i) { if (i == 0) for (int a = 0; a < 3; ++a) ch.emplace_back(0, a, false); for (int a : {2, 0, 1}) ch.emplace_back(i, a, true); } std::vector<double> val = c.vec(ch.size(), -90, 90); for (int k = 0; k < 2; ++k) { SetPose_BioVisionHierarchy(b, ch, val.data()); for (auto &q : b) { c.o(q.affmat3Global, 16); c.o(q.quatRelativeRot, 4); c.o(q.RootPosition()); } } std::vector<double> X; std::vector<unsigned> T; Mesh_RigBones_Octahedron<double, unsigned>(X, T, b); c.o(X); c.o(T); double p2[3], p0[3] = {.1, .2, .3}; b[0].DeformSkin(p2, p0); c.o(p2, 3); SetCurrentBoneRotationAsDefault(b); for (auto &q : b) c.o(q.invBindMat, 16);
  std::vector<double> A = c.vec(6), W = c.vec(3 * 4, 0, 1), P = c.vec(9); VD At, pos; Transpose_Mat(At, A, 2, 3); c.o(At); pos.assign(12, cat::dirty ? 4. : 0.); Points3_WeighttranspPosition(pos, W, P); c.o(pos); std::vector<double> sw = c.vec(4, 0, 1); std::vector<unsigned> si = {0, 1, 2, 1}; VD pp; Points3_WeightsparsePosition(pp, 2, sw, si, P); c.o(pp); VD M; M.assign(nb * 16, cat::dirty ? 4. : 0.); double tr[3] = {.1, .2, .3}; std::vector<double> Q; for (unsigned i = 0; i < nb; ++i) { double q[4]; Quat_Bryant(q, c.r(-1, 1), c.r(-1, 1), c.r(-1, 1)); Q.insert(Q.end(), q, q + 4); } std::vector<int> ip; for (unsigned i = 0; i < nb; ++i) ip.push_back(i ? (int) par[i] : -1); SetMat4AffineBone_FromJointRelativeRotation(M, tr, Q, ip, J); c.o(M); gen::Mesh m = gen::sphere(0, 1.); size_t np = m.xyz.size() / 3; std::vector<double> w(np * 4, .25), x1(np * 3, 9.); std::vector<unsigned> wi; for (size_t i = 0; i < np * 4; ++i) wi.push_back(c.g.n(nb)); Skinning_LBS_LocalWeight(x1.data(), m.xyz.data(), np, b, w.data(), wi.data()); c.o(x1); VD L; Rig_Sensitivity_Skeleton(L, b); VD dP; std::vector<double> sW(np * 2, .5); std::vector<unsigned> sI; for (size_t i = 0; i < np * 2; ++i) sI.push_back(c.g.n(nb)); Sensitivity_RigSkinPoint(dP, 0, m.xyz.data(), b, L, 2, sW, sI); c.o(dP); }
OP(gizmo_more) { float mv[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, pj[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; for (int i = 0; i < 16; ++i) if (i % 4 < 3 && i < 12) mv[i] += (float) c.r(-.1, .1); CVec3d p = v3(c, .3), ax = v3(c).normalized(); CVec2d s0(c.r(-.6, .6), c.r(-.6, .6)), s1(s0.x + c.r(-.1, .1), s0.y + c.r(-.1, .1)); double m[16]; for (int i = 0; i < 16; ++i) m[i] = i % 5 == 0; c.o(PickHandlerRotation_Mat4(CVec3d(c.r(-1, 1), c.r(-1, 1), 3), CVec3d(0, 0, -1), m, .7, .2)); double q[4] = {0, 0, 0, 1}; int ie = c.i(0, 2); c.o(DragHandlerRot_Mat4(q, ie, s0, s1, m, mv, pj)); c.o(q, 4); c.o(isPickPoint(s0, p, mv, pj, .3)); c.o(isPickCircle(ax, p, .5, CVec3d(c.r(-1, 1), 0, 3), CVec3d(0, 0, -1), .2)); c.o(isPickQuad(CVec3d(0, 0, 0), CVec3d(.5, 0, 0), CVec3d(.5, .5, 0), CVec3d(0, .5, 0), s0, CVec3d(0, 0, -1), mv, pj, .01)); c.o(isPick_AxisHandler(s0, p, ax, .5, mv, pj, .2)); c.o(DragCircle(s0, s1, p, ax, mv, pj)); c.o(isPickCircle(s0, p, ax, .5, mv, pj, .2)); c.o(PickHandlerRotation_PosQuat(CVec3d(c.r(-1, 1), c.r(-1, 1), 3), CVec3d(0, 0, -1), p, q, .7, .2)); c.o(DragHandlerRot_PosQuat(q, ie, s0, s1, p, mv, pj)); c.o(q, 4); o(c, drag_AxisHandler(s0, s1, p, ax, .5, mv, pj)); CGizmo_Affine<float> ga; ga.SetPivot(CVec3f(.1f, .2f, .3f)); ga.igizmo_mode = c.i(0, 1); float a[3] = {.1f, .9f, -2}, b[3] = {.2f, .8f, -2}, d[3] = {0, 0, 1}; ga.Pick(a, d); ga.Drag(a, b, d); c.o(ga.Affine().mat, 16); }
OP(cad_topology) { CadTopo t; t.AddPolygon((unsigned) c.i(3, 5)); t.AddPolygon(3); for (int k = 0; k < c.i(1, 4); ++k) { if (c.g.n(2)) c.o(t.AddVtx_Edge((unsigned) c.g.n((uint32_t) t.edges.size()))); else c.o(t.AddVtx_Face((unsigned) c.g.n(2))); t.Assert(); } for (auto &e : t.edges) { c.o(e.iv0); c.o(e.iv1); c.o(e.IndexVertex(true)); } for (auto &l : t.loops) { c.o(l.GetArray_IdVertex(t.edges)); c.o(l.IsIncludeEdge(2)); } c.o(t.FindFaceIndexes_IncludeEdge(1)); c.o(t.VertexIndexs_EdgeEndPoints(0)); c.o(t.EdgeIndexes_Face(1)); t.Clear(); t.AddPolygon(3); c.o(t.num_vertex); }
OP(cad_edges) { CCad2D cad; std::vector<double> xy = {-1, -1, 1, -1, 1, 1, -1, 1}; for (double &v : xy) v += c.r(-.2, .2); cad.AddPolygon(xy); unsigned e = c.g.n(4); if (c.g.n(2)) cad.aEdge[e].SetQuadraticBezierCurve(CVec2d(c.r(-.3, .3), c.r(-1.5, 1.5))); else cad.aEdge[e].SetCubicBezierCurve(CVec2d(c.r(-.8, .8), c.r(-1, 1)), CVec2d(c.r(-.8, .8), c.r(-1, 1))); cad.AddVtxEdge(0, xy[1], 0); cad.AddVtxFace(c.r(-.1, .1), c.r(-.1, .1), 0); cad.CopyVertexPositionsToEdges(); c.o(cad.Check()); for (auto &q : cad.aEdge) { c.o(q.ArcLength()); c.o(q.Distance(c.r(-1, 1), c.r(-1, 1))); c.o(q.AreaEnclosingOrigin()); c.o(q.GenMesh(3)); auto b = q.BB(); c.o(b.LengthDiagonal()); } c.o(AreaLoop(cad.aEdge)); c.o(cad.MinMaxXYZ()); CCad2D_EdgeGeo g = cad.aEdge[e]; double A[4] = {1, .1, -.1, 1}; g.Transform(A); o(c, g.p0); c.o(g.param); g.SetLine(); c.o(g.ArcLength()); }
OP(dtri_edits) { gen::Mesh m = gen::grid(c.i(2, 4), c.i(2, 4), c.g, .1); size_t np = m.xyz.size() / 3; std::vector<double> xy; for (size_t i = 0; i < np; ++i) { xy.push_back(m.xyz[i * 3] + c.r(-.02, .02)); xy.push_back(m.xyz[i * 3 + 1] + c.r(-.02, .02)); } CMeshDynTri2D d; if (cat::dirty) d.Initialize(xy.data(), (int) np, m.tri.data(), (int) m.tri.size() / 3); d.Initialize(xy.data(), (int) np, m.tri.data(), (int) m.tri.size() / 3); for (int k = 0; k < 3; ++k) d.DelaunayAroundPoint(d.insertPointElem((int) c.g.n((uint32_t) d.nTri()), c.r(.2, .4), c.r(.2, .4))); dt(c, d.aETri, d.aEPo); VD im; MakeInvMassLumped_Tri(im, 1., d.aVec2, d.aETri); c.o(im); double a0 = 0, a1 = 0; MinMaxTriArea(a0, a1, d.aVec2, d.aETri); c.o(a0); c.o(a1); VD ex; VU et; CMeshTri2D(ex, et, d.aVec2, d.aETri); c.o(ex); c.o(et); VD e2; MeshTri2D_Export<double>(e2, et, d.aVec2, d.aETri); c.o(e2); c.o(et); VI fl; fl.assign(d.aETri.size(), 0); FlagConnected(fl, d.aETri, 0, 3); c.o(fl); CCmdRefineMesh cm; d.RefinementPlan_EdgeLongerThan_InsideCircle(cm, .3, 0, 0, .5); c.o(cm.aCmdEdge.size()); c.o(d.MinMax_XYZ()); d.Clear(); c.o(d.nTri()); VU pi, ps; }
OP(mesh_loops) { std::vector<CDynPntSur> P; std::vector<CVec2d> V; std::vector<CDynTri> T; double w = c.r(.8, 1.2), hh = c.r(.2, .5); int n = c.i(4, 7); std::vector<double> outer, inner; for (int k = 0; k < n; ++k) { double t = 2 * M_PI * k / n; outer.push_back(w * cos(t)); outer.push_back(w * sin(t)); } for (int k = 3; k >= 0; --k) { double t = M_PI / 2 * k + .2; inner.push_back(hh * cos(t)); inner.push_back(hh * sin(t)); } std::vector<std::vector<double>> L = {outer}; if (c.g.n(2)) L.push_back(inner); GenMesh(P, T, V, L, c.r(.3, .5), c.g.n(2) ? c.r(.3, .5) : -1.); dt(c, T, P); for (auto &v : V) o(c, v); }
OP(triangle_finders) { gen::Mesh m = gen::sphere(1, .8); for (double &x : m.xyz) x += c.r(-.03, .03); size_t np = m.xyz.size() / 3, nt = m.tri.size() / 3; std::vector<CVec3d> PL; for (size_t i = 0; i < np; ++i) PL.emplace_back(m.xyz.data() + i * 3); KDTTriangle<CVec3d> kt(PL, m.tri); for (int k = 0; k < 2; ++k) { auto r = kt.SearchNearest(v3(c, 2)); std::sort(r.begin(), r.end()); c.o(r); } std::vector<double> nm(np * 3); Normal_MeshTri3D(nm.data(), m.xyz.data(), np, m.tri.data(), nt); CVec3d q = v3(c, 1.2); auto pe = Nearest_Point_MeshTri3D(q, m.xyz, m.tri); c.o(pe.itri); CVec3d n; c.o(SDFNormal_NearestPoint(n, q, pe, m.xyz, m.tri, nm)); o(c, n); c.o(SDFNormal_NearestPoint(n, q, pe, m.xyz.data(), (unsigned) np, m.tri.data(), (unsigned) nt, nm.data())); c.o(DistanceToTri(pe, q, (unsigned) c.g.n((uint32_t) nt), m.xyz, m.tri)); c.o(pe.r0); VU adj; ElSuEl_MeshElem(adj, m.tri.data(), nt, MESHELEM_TRI, np); auto pp = pe.PositionOnMeshTri3(m.xyz, m.tri); auto in = IndexesOfConnectedTriangleInSphere(pp, c.r(.1, .6), pe.itri, m.xyz, m.tri, adj); std::sort(in.begin(), in.end()); c.o(in); std::vector<std::tuple<unsigned, double, double>> sm; std::multimap<unsigned, unsigned> es; for (unsigned k = 0; k < 8; ++k) { unsigned t = c.g.n((uint32_t) nt); sm.emplace_back(t, .3, .3); es.insert({t, k}); } c.o(IsTherePointOnMeshInsideSphere({c.g.n((uint32_t) nt), .3, .3}, c.r(.1, .5), sm, es, m.xyz, m.tri, adj)); std::map<double, PointOnSurfaceMesh<double>> mp; std::vector<unsigned> part; for (int k = 0; k < 20; ++k) part.push_back(c.g.n((uint32_t) nt)); IntersectionRay_MeshTri3DPart(mp, CVec3d(c.r(-.5, .5), c.r(-.5, .5), -2), CVec3d(0, 0, 1), m.tri, m.xyz, part, 1e-6); for (auto &e : mp) c.o(e.first); std::vector<PointOnSurfaceMesh<double>> hp; std::vector<float> H(12); for (float &v : H) v = (float) c.r(0, .5); double s[3] = {c.r(0, 3), c.r(0, 2), 5}, dr[3] = {.01, .02, -1}; IntersectionLine_Hightfield(hp, s, dr, 4, 3, H); for (auto &p : hp) { c.o(p.itri); c.o(p.r0); } }
OP(mixed_groups) { CElemMixed em; int nt = c.i(1, 4), base = 0; for (int k = 0; k < nt; ++k) { em.AddElement(MESHELEM_TRI, {base, base + 1, base + 2}); if (c.g.n(2)) em.AddElement(MESHELEM_QUAD, {base + 1, base + 3, base + 4, base + 2}); if (c.g.n(2)) em.AddElement(MESHELEM_TRI, {base, base + 2, base + 5}); base += 6; } VI fi, fr; em.MakeSurroundingRelationship(fi, fr, base); c.o(fi); c.o(fr); int ng = 0; VI ig; em.MakeGroupElem(ng, ig, fi, fr); c.o(ng); c.o(ig); CElemMixed cl; if (cat::dirty) cl.AddElement(MESHELEM_TRI, {0, 1, 2}); CElemMixed c2; em.ClipGroup(c2, (int) c.g.n(ng), ig); c.o(c2.aElem); c.o(c2.aElemInd); VI fp; em.FlipElement(fp); c.o(fp); VU tr; em.getTriElement(tr); c.o(tr); VU si, sp; em.MakeElemSurroundingPoint(si, sp, base); c.o(si); c.o(sp); }
OP(mesh_tools) { gen::Mesh m = c.mesh(); size_t np = m.xyz.size() / 3; std::vector<double> xy; for (size_t i = 0; i < np; ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); } int nl = c.i(1, 3); std::vector<unsigned> te(m.tri.size() / 3 * 3 * nl * 4, 7); SetTopology_ExtrudeTri2Tet(te.data(), (int) np, m.tri.data(), (int) m.tri.size() / 3, nl); c.o(te); CVec3d a = v3(c), b = v3(c), d = v3(c); c.o(SolidAngleTri3D(a.p, b.p, d.p)); c.o(Area_MeshTri3(m.xyz, m.tri, [](unsigned i) { return i % 2 == 0; })); std::vector<double> tp; for (double v : xy) tp.push_back(v * 1.1); c.o(Distortion_MappingTriangleFrom2To3Dim(1.5, 1.5, 0, m.tri, m.xyz, tp)); o(c, CVec3d(0, 0, 0)); auto M = rgd_v2m3::Mat3_Affine(CVec2d(c.r(-1, 1), .2), c.r(-1, 1), CVec2d(.3, .4)); c.o(M.p_, 9); c.o(pathRemoveExtension("a/b.c/" + std::to_string(c.i(0, 99)) + ".obj")); c.o(pathGetExtension("x.y" + std::to_string(c.i(0, 9)))); c.o(getPathDir("p/q/r" + std::to_string(c.i(0, 9)))); }
OP(penetration3) { std::vector<CVec3d> A, B; for (int k = 0; k < 8; ++k) { CVec3d u((k & 1) - .5, (k >> 1 & 1) - .5, (k >> 2) - .5); A.push_back(u + v3(c, .05)); B.push_back(u + CVec3d(c.r(.2, 1.2), c.r(-.3, .3), c.r(-.3, .3)) + v3(c, .05)); } c.o(IsIntersect_Points3_Points3_Gjk(A, B)); CVec3d n(0, 0, 0); if (Penetration_Points3_Points3_Epa(n, A, B, 1e-4)) o(c, n); std::vector<unsigned> f = {0, 1, 2, 1, 3, 2, 4, 5, 6}; c.o(IsIntersect_Points3_Points3_Sat(A, f, B, f)); }
OP(polyline_beam) { std::vector<std::array<double, 2>> v((size_t) c.i(5, 10)); for (size_t i = 0; i < v.size(); ++i) v[i] = {i * .1, c.r(-.01, .01)}; PolylineElasticEdit2 pe; unsigned ip = c.g.n((uint32_t) v.size()); pe.Initialize(v, ip, v[ip][0], v[ip][1]); for (int k = 0; k < 3; ++k) { pe.Drag(v, v[ip][0] + c.r(-.05, .05), v[ip][1] + c.r(-.05, .05)); for (auto &a : v) c.o(a); } }
OP(slices) { gen::Mesh m = gen::sphere(1, .8); for (double &x : m.xyz) x += c.r(-.02, .02); VU adj; ElSuEl_MeshElem(adj, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, m.xyz.size() / 3); std::vector<double> hv, hs = {c.r(-.5, -.2), c.r(-.1, .1), c.r(.2, .5)}; for (size_t i = 0; i < m.xyz.size() / 3; ++i) hv.push_back(m.xyz[i * 3 + 2]); std::vector<CSliceTriMesh> cs; Slice_MeshTri3D_Heights(cs, hs, hv, m.tri, adj); for (auto &s : cs) { c.o(s.IndHeight()); c.o(s.NumSeg()); for (unsigned k = 0; k < s.NumSeg(); ++k) { c.o(s.IndTri_Seg(k)); double a[3], b[3]; s.aTriInfo[k].Pos3D(a, b, m.xyz, m.tri); c.o(a, 3); c.o(b, 3); } } std::vector<std::set<unsigned>> rg; MakeReebGraph(rg, cs, m.tri, adj); for (auto &s : rg) for (unsigned k : s) c.o(k); std::vector<CSegInfo> sg; std::vector<double> lv; for (double v : hv) lv.push_back(v - hs[1]); AddContour(sg, 0., m.tri.data(), m.tri.size() / 3, lv.data()); c.o(sg.size()); for (auto &s : sg) c.o(s.r0A); }
}
