// catalogue: spatial search, CAD, meshing, dynamic meshes, voxels and implicit surfaces
#include "catalog.h"
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/cad2_mesh_deformation.h"
#include "delfem2/cad2_io_svg.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
#include "delfem2/grid2.h"
#include "delfem2/isrf_adf.h"
#include "delfem2/isrf_iss.h"
#include "delfem2/isrf_sdf.h"
using namespace delfem2;
namespace {
CVec3d v3(cat::Ctx &c, double a = 1) { double x = c.r(-a, a), y = c.r(-a, a), z = c.r(-a, a); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const PointOnSurfaceMesh<double> &p) { c.o(p.itri); c.o(p.r0); c.o(p.r1); }
template<class V> struct DV : std::vector<V> { DV() { for (int i = 0; i < cat::dirty; ++i) this->push_back(V()); } };
template<class N> void freekd(N *n) { if (!n) return; freekd(n->leftChild); freekd(n->rightChild); delete n; }
OP(kdtree_points) { std::vector<CVec3d> p; int n = c.i(1, 25); for (int i = 0; i < n; ++i) p.push_back(v3(c)); struct G { KDTNodePoint<CVec3d> *r; ~G() { freekd(r); } } g{ConstructKDT(p)}; for (int i = 0; i < 4; ++i) o(c, SearchNearstPoint<CVec3d>(g.r, v3(c))); }
template<class BV> void bvhop(cat::Ctx &c) { gen::Mesh m = c.mesh(1); size_t nt = m.tri.size() / 3, np = m.xyz.size() / 3; CBVH_MeshTri3D<BV, double> b; b.Init(m.xyz.data(), np, m.tri.data(), nt, c.r(0, .05)); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), np, m.tri.data(), nt);
  for (int i = 0; i < 3; ++i) { CVec3d q = v3(c); o(c, b.NearestPoint_Global(q, m.xyz, m.tri)); CVec3d n0(0, 0, 0); c.o(b.SignedDistanceFunction(n0, q, m.xyz, m.tri, n)); o(c, n0); PointOnSurfaceMesh<double> pes; c.o(b.Nearest_Point_IncludedInBVH(pes, q, .3, m.xyz.data(), np, m.tri.data(), nt)); o(c, pes); std::vector<unsigned> id; BVH_GetIndElem_Predicate(id, CIsBV_IncludePoint<BV>(q.p), b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); c.o(id); }
  for (auto &x : m.xyz) x += c.r(-.05, .05); b.UpdateGeometry(m.xyz.data(), np, m.tri.data(), nt, .01); o(c, b.NearestPoint_Global(v3(c), m.xyz, m.tri)); std::vector<double> pp = c.vec(15); std::vector<CInfoNearest<double>> ai; for (int k = 0; k < 2; ++k) { Project_PointsIncludedInBVH_Outside_Cache(pp.data(), ai, 5u, .05, b, m.xyz.data(), (unsigned) np, m.tri.data(), (unsigned) nt, n.data(), .3); c.o(pp); } }
OP(bvh_sphere) { bvhop<CBV3d_Sphere>(c); }
OP(bvh_aabb) { gen::Mesh m = c.mesh(1); size_t nt = m.tri.size() / 3, np = m.xyz.size() / 3; CBVH_MeshTri3D<CBV3d_AABB, double> b; b.Init(m.xyz.data(), np, m.tri.data(), nt, c.r(0, .05)); for (int k = 0; k < 2; ++k) { CVec3d q = v3(c); std::vector<unsigned> id; BVH_GetIndElem_Predicate(id, CIsBV_IncludePoint<CBV3d_AABB>(q.p), b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); c.o(id); for (auto &x : m.xyz) x += c.r(-.05, .05); b.UpdateGeometry(m.xyz.data(), np, m.tri.data(), nt, .01); } for (auto &v : b.aBB_BVH) { c.o(v.bbmin, 3); c.o(v.bbmax, 3); } }
OP(bvh_morton) { gen::Mesh m = c.mesh(1); size_t nt = m.tri.size() / 3, np = m.xyz.size() / 3; DV<CNodeBVH2> nd; DV<CBV3d_Sphere> bv; ConstructBVHTriangleMeshMortonCode(nd, bv, m.xyz, m.tri); Check_BVH(nd, nt); for (auto &x : nd) { c.o(x.iparent); c.o(x.ichild[0]); c.o(x.ichild[1]); }
  for (int i = 0; i < 4; ++i) { CVec3d s = v3(c, 1.5), d = v3(c); PointOnSurfaceMesh<double> p; bool h = Intersection_Ray3_Tri3_Bvh(p, s, d, m.xyz, m.tri, nd, bv); c.o(h); if (h) o(c, p); }
  DV<CBV3d_Sphere> pv; VU so, sm; double a[3] = {-2, -2, -2}, b[3] = {2, 2, 2}; std::vector<double> pts = c.vec(30); SortedMortenCode_Points3(so, sm, pts, a, b); DV<CNodeBVH2> pn; BVHTopology_Morton(pn, so, sm); CLeafVolumeMaker_Point<CBV3d_Sphere, double> lp(pts.data(), 10); BVH_BuildBVHGeometry(pv, 0u, pn, lp); for (int i = 0; i < 3; ++i) { CVec3d q = v3(c); unsigned ip = UINT_MAX; double ds = -1; BVH_IndPoint_NearestPoint(ip, ds, q.p, 0u, pn, pv); c.o(ip); c.o(ds); double mn = 1, mx = 0; BVH_Range_DistToNearestPoint(mn, mx, q.p, 0u, pn, pv); c.o(mn); c.o(mx); } }
OP(self_intersection) { gen::Mesh m = c.mesh(1); for (auto &x : m.xyz) x += c.r(-.15, .15); size_t nt = m.tri.size() / 3, np = m.xyz.size() / 3; CBVH_MeshTri3D<CBV3d_AABB, double> b; b.Init(m.xyz.data(), np, m.tri.data(), nt, .02); std::vector<CIntersectTriPair<double>> ap; GetIntersectTriPairs(ap, m.xyz, m.tri, b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); c.o(ap.size()); for (auto &x : ap) { c.o(x.itri); c.o(x.jtri); }
  std::set<CContactElement> ce; GetContactElement_Proximity(ce, .02, m.xyz, m.tri, b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); for (auto &x : ce) { c.o(x.is_fv); c.o(x.ino0); c.o(x.ino3); } }
OP(ray_brute) { gen::Mesh m = c.mesh(1); CVec3d s = v3(c, 1.5), d = v3(c); auto l = IntersectionLine_MeshTri3(s, d, m.tri, m.xyz, 1e-6); for (auto &x : l) o(c, x); std::map<double, PointOnSurfaceMesh<double>> mp; IntersectionRay_MeshTri3(mp, s, d, m.tri, m.xyz, 1e-6); for (auto &x : mp) { c.o(x.first); o(c, x.second); } o(c, Nearest_Point_MeshTri3D(s, m.xyz, m.tri));
  VU ts; ElSuEl_MeshElem(ts, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, m.xyz.size() / 3); auto cg = IndexesOfConnectedTriangleInSphere({m.xyz[0], m.xyz[1], m.xyz[2]}, .5, 0, m.xyz, m.tri, ts); c.o(cg); }
OP(cad_polygon) { CCad2D cad; int n = c.i(3, 6); std::vector<double> xy; for (int i = 0; i < n; ++i) { double t = 6.2831853 * i / n, r = c.r(.6, 1); xy.push_back(r * cos(t)); xy.push_back(r * sin(t)); } cad.AddPolygon(xy); cad.aEdge[1].SetQuadraticBezierCurve(CVec2d(c.r(-.1, .1), c.r(-.1, .1))); cad.AddVtxEdge(.7 * (xy[0] + xy[2]) * .5, .7 * (xy[1] + xy[3]) * .5, 0); c.o(cad.Check()); c.o(cad.MinMaxXYZ()); for (auto &e : cad.aEdge) { c.o(e.ArcLength()); c.o(e.Distance(.1, .2)); c.o(e.GenMesh(3)); }
  Cad2_Ui ui; ui.Pick(xy[0], xy[1], 2.0, cad); c.o(ui.ivtx_picked); ui.DragPicked(cad, xy[0] + .05, xy[1], xy[0], xy[1]); c.o(cad.aVtx[0].pos.p, 2); CMesher_Cad2D me; me.edge_length = c.r(.3, .6); CMeshDynTri2D d; me.Meshing(d, cad); VD x; VU t; d.Export_StlVectors(x, t); c.o(x); c.o(t); c.o(me.IndPoint_IndEdge(0, true, cad)); VD w; SetCadMeshDeformationWeightVtx(w, 0, cad, me, x); c.o(w); SetCadMeshDeformationWeightEdge(w, 0, cad, me, x); c.o(w); }
OP(meshing_loops) { CMeshDynTri2D d; std::vector<std::vector<double>> l(1); int n = c.i(3, 8); for (int i = 0; i < n; ++i) { double t = 6.2831853 * i / n, r = c.r(.7, 1); l[0].push_back(r * cos(t)); l[0].push_back(r * sin(t)); } if (c.g.n(2)) l.push_back({-.2, -.2, .2, -.2, .2, .2, -.2, .2}); d.meshing_loops(l, c.r(.25, .5)); d.Check(); VD x; VU t; d.Export_StlVectors(x, t); c.o(x); c.o(t); CCmdRefineMesh cmd; d.RefinementPlan_EdgeLongerThan_InsideCircle(cmd, .2, 0, .3, .3); d.Check(); c.o(cmd.aCmdEdge.size()); c.o(d.nTri()); for (auto &p : d.aVec2) o(c, p); }
// Delaunay flips in 3D presume a surface that is nearly flat around each point
static gen::Mesh fine(cat::Ctx &c) { gen::Mesh m = c.g.n(2) ? gen::grid(1 + c.g.n(6), 1 + c.g.n(6), c.g, .2) : gen::sphere(2, .8); return m; }
OP(dyntri3_edit) { gen::Mesh m = fine(c); CMeshDynTri3D d; d.Initialize(m.xyz.data(), m.xyz.size() / 3, 3, m.tri.data(), m.tri.size() / 3); for (int k = 0; k < 4; ++k) { d.insertPointElem(c.g.n(d.nTri()), .3, .4); d.DelaunayAroundPoint(d.nPoint() - 1); } d.Check(); c.o(d.nTri()); for (auto &t : d.aETri) c.o(t.v, 3); std::vector<std::pair<unsigned, unsigned>> tp; GetTriArrayAroundPoint(tp, d.nPoint() - 1, d.aEPo, d.aETri); c.o(tp); c.o(d.MinMax_XYZ()); }
OP(voxel_grid) { int nx = c.i(1, 3), ny = c.i(1, 3), nz = c.i(1, 3); std::vector<int> v(nx * ny * nz); for (auto &x : v) x = c.g.n(2); v[0] = 1; VD x; VU q; MeshQuad3D_VoxelGrid(x, q, nx, ny, nz, v); c.o(x); c.o(q); VI h; MeshHex3D_VoxelGrid(x, h, nx, ny, nz, v); c.o(x); c.o(h); MeshTet3D_VoxelGrid(x, h, nx, ny, nz, v); c.o(h); CGrid3<int> g; g.Initialize(4, 3, 4, 0); for (auto &a : g.aVal) a = c.g.n(3) != 0; Grid3Voxel_Dilation(g); c.o(g.aVal); Grid3Voxel_Erosion(g); c.o(g.aVal); VD ds; std::vector<std::pair<unsigned, double>> sd = {{0u, 0.}}; g.aVal[0] = 1; VoxelGeodesic(ds, sd, 1., g); c.o(ds); VU iv; Intersection_VoxelGrid_LinSeg(iv, g, CVec3d(-.3, .21, .33), CVec3d(3.7, 2.1, 2.6)); c.o(iv);
  std::vector<CCubeGrid> cu; for (int k = 0; k < 4; ++k) Add_CubeGrid(cu, c.i(0, 2), c.i(0, 2), c.i(0, 2)); Del_CubeGrid(cu, 1, 1, 1); int bb[6]; AABB_CubeGrid(bb, cu); c.o(bb, 6); c.o(cu.size()); }
OP(grid_smooth) { unsigned ny = c.i(2, 6), nx = c.i(2, 6); std::vector<float> z(nx * ny), l; for (auto &x : z) x = (float) c.r(-1, 1); l.assign(nx * ny, (float) cat::dirty); LaplacianGrid(l, z, ny, nx); c.o(l); LaplacianSmoothGrid(z, .3, l, ny, nx); c.o(z); }
struct Ball : public Input_AdaptiveDistanceField3, public CInput_IsosurfaceStuffing { double r; double sdf(double x, double y, double z) const override { return r - std::sqrt(x * x + y * y + z * z); } double SignedDistance(double x, double y, double z) const override { return sdf(x, y, z); } };
struct Slab : public Input_AdaptiveDistanceField3 { double r; double sdf(double x, double y, double z) const override { return r - z + .3 * x; } };
OP(adf) { Slab b; b.r = c.r(.4, .8); AdaptiveDistanceField3 a; double bb[6] = {-1, 1, -1, 1, -1, 1}; a.SetUp(b, bb); c.o(a.aNode.size()); for (int i = 0; i < 5; ++i) { double n[3] = {0, 0, 0}; CVec3d q = v3(c, .9); c.o(a.Projection(q.p[0], q.p[1], q.p[2], n)); c.o(n, 3); } VD t; a.BuildIsoSurface_MarchingCube(t); c.o(t.size()); }
OP(isosurface_stuffing) { Ball b; b.r = c.r(.5, .8); VD x; VU t; VI f; double ct[3] = {0, 0, 0}; IsoSurfaceStuffing(x, t, f, b, .5, 2.0, ct); c.o(x); c.o(t); c.o(f); }
}
