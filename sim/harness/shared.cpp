// T04: any number of threads may read one finished structure at once. Each run builds one structure of the real
// library, then 2-4 simulated threads put queries to it through its const interface; the answers must be those the
// same queries give alone, no access may race, and the structure must be the same afterwards.
#include "catalog.h"
#include "simsched.h"
#include <thread>
#include <memory>
#include <list>
#include "delfem2/srch_kdtree.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_trimesh3_class.h"
#include "delfem2/srch_bruteforce.h"
#include "delfem2/srch_selfintersection_bvh.h"
#include "delfem2/srchgrid.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/cad2.h"
#include "delfem2/cad2_mesher.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
#include "delfem2/dtri_topology.h"
#include "delfem2/isrf_adf.h"
#include "delfem2/isrf_sdf.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/parse_math_expression.h"
#include "delfem2/rig_geo3.h"
#include "delfem2/dijkstra.h"
#include "delfem2/slice.h"
#include "delfem2/cagedef.h"
#include "delfem2/cam_modelview.h"
#include "delfem2/cam_projection.h"
#include "delfem2/mshelm.h"
#include "delfem2/lp.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/jagarray.h"
int cat::dirty = 0;
namespace sc = sim::sched;
using namespace delfem2;
namespace {
typedef void (*Query)(cat::Ctx &, const void *);
struct World { virtual ~World() {} virtual const char *name() const = 0; virtual uint64_t digest() const = 0; virtual int nq() const = 0; virtual void ask(int k, cat::Ctx &c) const = 0; };
CVec3d v3(cat::Ctx &c, double a = 1) { double x = c.r(-a, a), y = c.r(-a, a), z = c.r(-a, a); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void o(cat::Ctx &c, const PointOnSurfaceMesh<double> &p) { c.o(p.itri); c.o(p.r0); c.o(p.r1); }
uint64_t hb(const std::vector<CBV3d_Sphere> &v, uint64_t h) { for (auto &b : v) { h = sim::hash_bytes(&b.r, 8, h); h = sim::hash_bytes(b.c, 24, h); } return h; }

struct MeshWorld : World { gen::Mesh m; size_t nt, np; std::vector<double> nrm; CBVH_MeshTri3D<CBV3d_Sphere, double> b; std::vector<unsigned> ts; std::vector<CNodeBVH2> nd; std::vector<CBV3d_Sphere> bv; CBVH_MeshTri3D<CBV3d_AABB, double> a;
  explicit MeshWorld(cat::Ctx &c) { m = c.mesh(1); if (m.tri.size() < 6) m = gen::sphere(1, .8); nt = m.tri.size() / 3; np = m.xyz.size() / 3; nrm.resize(m.xyz.size()); Normal_MeshTri3D(nrm.data(), m.xyz.data(), np, m.tri.data(), nt); b.Init(m.xyz.data(), np, m.tri.data(), nt, c.r(0, .05)); a.Init(m.xyz.data(), np, m.tri.data(), nt, c.r(0, .05)); ElSuEl_MeshElem(ts, m.tri.data(), nt, MESHELEM_TRI, np); ConstructBVHTriangleMeshMortonCode(nd, bv, m.xyz, m.tri); }
  const char *name() const override { return "mesh"; }
  uint64_t digest() const override { uint64_t h = gen::hv(m.xyz, gen::hv(m.tri, gen::hv(nrm, gen::hv(ts, 1)))); for (auto &n : nd) { unsigned u[3] = {n.iparent, n.ichild[0], n.ichild[1]}; h = sim::hash_bytes(u, 12, h); } for (auto &n : b.aNodeBVH) { unsigned u[3] = {n.iparent, n.ichild[0], n.ichild[1]}; h = sim::hash_bytes(u, 12, h); } return hb(bv, hb(b.aBB_BVH, h)); }
  int nq() const override { return 13; }
  void ask(int k, cat::Ctx &c) const override { CVec3d q = v3(c, 1.2); switch (k) {
    case 0: o(c, b.NearestPoint_Global(q, m.xyz, m.tri)); break;
    case 1: { CVec3d n0(0, 0, 0); c.o(b.SignedDistanceFunction(n0, q, m.xyz, m.tri, nrm)); o(c, n0); break; }
    case 2: { PointOnSurfaceMesh<double> p; c.o(b.Nearest_Point_IncludedInBVH(p, q, c.r(.1, .6), m.xyz.data(), np, m.tri.data(), nt)); o(c, p); break; }
    case 3: { std::vector<unsigned> id; BVH_GetIndElem_Predicate(id, CIsBV_IncludePoint<CBV3d_Sphere>(q.p), b.iroot_bvh, b.aNodeBVH, b.aBB_BVH); c.o(id); break; }
    case 4: { PointOnSurfaceMesh<double> p; CVec3d d = v3(c) - q; bool h = Intersection_Ray3_Tri3_Bvh(p, q, d, m.xyz, m.tri, nd, bv); c.o(h); if (h) o(c, p); break; }
    case 5: { o(c, Nearest_Point_MeshTri3D(q, m.xyz, m.tri)); break; }
    case 6: { std::map<double, PointOnSurfaceMesh<double>> mp; IntersectionRay_MeshTri3(mp, q, v3(c), m.tri, m.xyz, 1e-6); for (auto &x : mp) { c.o(x.first); o(c, x.second); } break; }
    case 7: { c.o(IndexesOfConnectedTriangleInSphere({m.xyz[0], m.xyz[1], m.xyz[2]}, .5, 0, m.xyz, m.tri, ts)); break; }
    case 8: { std::vector<double> n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), np, m.tri.data(), nt); c.o(n); break; }
    case 9: { std::vector<unsigned> s, p; JArray_PSuP_MeshElem(s, p, m.tri.data(), nt, 3, np); c.o(s); c.o(p); break; }
    case 10: { std::vector<unsigned> x, y; DijkstraElem_MeshElemTopo(x, y, c.g.n((uint32_t) nt), ts, (unsigned) nt); c.o(x); c.o(y); break; }
    case 11: { std::vector<unsigned> id; BVH_GetIndElem_Predicate(id, CIsBV_IncludePoint<CBV3d_AABB>(q.p), a.iroot_bvh, a.aNodeBVH, a.aBB_BVH); c.o(id); break; }
    default: { std::vector<CIntersectTriPair<double>> ap; GetIntersectTriPairs(ap, m.xyz, m.tri, a.iroot_bvh, a.aNodeBVH, a.aBB_BVH); c.o(ap.size()); for (auto &x : ap) { c.o(x.itri); c.o(x.jtri); } } } } };

struct PointWorld : World { std::vector<CVec3d> p; std::vector<double> x; KDTNodePoint<CVec3d> *root; SearchGrid g; std::vector<CNodeBVH2> nd; std::vector<CBV3d_Sphere> bv;
  static void fr(KDTNodePoint<CVec3d> *n) { if (!n) return; fr(n->leftChild); fr(n->rightChild); delete n; }
  explicit PointWorld(cat::Ctx &c) { int n = c.i(2, 30); for (int i = 0; i < n; ++i) { p.push_back(v3(c)); p.back().push_back_to_vector(x); } root = ConstructKDT(p); double a[3] = {-1, -1, -1}, b[3] = {1, 1, 1}; g.Initialize(a, b, .37, n); for (int i = 0; i < n; ++i) { g.aGrid2Obj[i].igrid = g.GetGridIndex(p[i].p); g.aGrid2Obj[i].iobj = i; } g.PostProcess(true); std::vector<unsigned> so, sm; SortedMortenCode_Points3(so, sm, x, a, b); BVHTopology_Morton(nd, so, sm); CLeafVolumeMaker_Point<CBV3d_Sphere, double> lp(x.data(), n); BVH_BuildBVHGeometry(bv, 0u, nd, lp); }
  ~PointWorld() override { fr(root); }
  const char *name() const override { return "points"; }
  uint64_t digest() const override { uint64_t h = gen::hv(x, 2); for (auto &q : g.aGrid2Obj) h = sim::hash_u64(q.iobj * 977ull + q.igrid, h); return hb(bv, gen::hv(g.aGrid2Obj_ind, h)); }
  int nq() const override { return 4; }
  void ask(int k, cat::Ctx &c) const override { CVec3d q = v3(c, 1.2); switch (k) {
    case 0: o(c, SearchNearstPoint<CVec3d>(root, q)); break;
    case 1: { std::vector<unsigned> r; g.GetOneRingNeighbor(r, q.p); c.o(r); break; }
    case 2: { unsigned ip = UINT_MAX; double d = -1; BVH_IndPoint_NearestPoint(ip, d, q.p, 0u, nd, bv); c.o(ip); c.o(d); break; }
    default: { double mn = 1, mx = 0; BVH_Range_DistToNearestPoint(mn, mx, q.p, 0u, nd, bv); c.o(mn); c.o(mx); std::vector<unsigned> id; BVH_GetIndElem_Predicate(id, CIsBV_InsideRange<CBV3d_Sphere>(q.p, mn, mx), 0u, nd, bv); c.o(id); } } } };

struct CadWorld : World { CCad2D cad; CMeshDynTri2D dm; CMesher_Cad2D me;
  explicit CadWorld(cat::Ctx &c) { int n = c.i(3, 6); std::vector<double> xy; for (int i = 0; i < n; ++i) { double t = 6.2831853 * i / n, r = c.r(.6, 1); xy.push_back(r * cos(t)); xy.push_back(r * sin(t)); } cad.AddPolygon(xy); { auto &e = cad.aEdge[0]; e.SetQuadraticBezierCurve(.5 * (e.p0 + e.p1) + CVec2d(.05, c.r(-.1, .1))); } { auto &e = cad.aEdge[1]; e.SetCubicBezierCurve(.7 * e.p0 + .3 * e.p1 + CVec2d(.03, .05), .3 * e.p0 + .7 * e.p1 + CVec2d(.02, c.r(-.05, .05))); } me.edge_length = .4; me.Meshing(dm, cad); }
  const char *name() const override { return "outline"; }
  uint64_t digest() const override { cat::Ctx c(1); for (auto &v : cad.aVtx) o(c, v.pos); for (auto &e : cad.aEdge) { o(c, e.p0); o(c, e.p1); c.o((int) e.type_edge); c.o(e.param); } for (auto &v : dm.aVec2) o(c, v); for (auto &t : dm.aETri) c.o(t.v, 3); return c.h; }
  int nq() const override { return 6; }
  void ask(int k, cat::Ctx &c) const override { switch (k) {
    case 0: c.o(cad.MinMaxXYZ()); c.o(cad.Check()); break;
    case 1: for (auto &e : cad.aEdge) { c.o(e.ArcLength()); c.o(e.Distance(c.r(-1, 1), .2)); c.o(e.AreaEnclosingOrigin()); } break;
    case 2: for (auto &e : cad.aEdge) c.o(e.GenMesh(c.i(1, 5))); break;
    case 3: { CMesher_Cad2D m2; m2.edge_length = c.r(.35, .6); CMeshDynTri2D d; m2.Meshing(d, cad); std::vector<double> x; std::vector<unsigned> t; d.Export_StlVectors(x, t); c.o(x); c.o(t); break; }
    case 4: { std::vector<double> x; std::vector<unsigned> t; dm.Export_StlVectors(x, t); c.o(x); c.o(t); dm.Check(); c.o(dm.MinMax_XYZ()); break; }
    default: { std::vector<std::pair<unsigned, unsigned>> a; GetTriArrayAroundPoint(a, c.g.n((uint32_t) dm.aEPo.size()), dm.aEPo, dm.aETri); c.o(a); } } } };

struct DynWorld : World { CMeshDynTri3D d;
  explicit DynWorld(cat::Ctx &c) { gen::Mesh m = gen::grid(1 + c.g.n(5), 1 + c.g.n(5), c.g, .2); d.Initialize(m.xyz.data(), m.xyz.size() / 3, 3, m.tri.data(), m.tri.size() / 3); for (int k = 0; k < 3; ++k) { d.insertPointElem(c.g.n(d.nTri()), .3, .4); d.DelaunayAroundPoint(d.nPoint() - 1); } }
  const char *name() const override { return "dynamic-mesh"; }
  uint64_t digest() const override { cat::Ctx c(1); for (auto &v : d.aVec3) o(c, v); for (auto &t : d.aETri) { c.o(t.v, 3); c.o(t.s2, 3); } for (auto &p : d.aEPo) { c.o(p.e); c.o(p.d); } return c.h; }
  int nq() const override { return 5; }
  void ask(int k, cat::Ctx &c) const override { switch (k) {
    case 0: c.o(d.MinMax_XYZ()); break;
    case 1: AssertDTri(d.aETri); AssertMeshDTri(d.aEPo, d.aETri); break;
    case 2: { std::vector<std::pair<unsigned, unsigned>> a; GetTriArrayAroundPoint(a, c.g.n((uint32_t) d.aEPo.size()), d.aEPo, d.aETri); c.o(a); break; }
    case 3: { unsigned a = 9, b = 9, e = 9; bool f = FindEdge_LookAroundPoint(a, b, e, c.g.n((uint32_t) d.aEPo.size()), c.g.n((uint32_t) d.aEPo.size()), d.aEPo, d.aETri); c.o(f); if (f) { c.o(a); c.o(b); c.o(e); } break; }
    default: { unsigned a = 9, b = 9, e = 9; FindEdge_LookAllTriangles(a, b, d.aETri[0].v[0], d.aETri[0].v[1], d.aETri); c.o(a); c.o(b); } } } };

struct LinWorld : World { gen::Mesh m; std::vector<double> xy, rhs; std::vector<int> bc; CMatrixSparse<double> A; CPreconditionerILU<double> P; unsigned n;
  explicit LinWorld(cat::Ctx &c) { m = gen::grid(2 + c.g.n(4), 2 + c.g.n(4), c.g, 0); n = (unsigned) m.xyz.size() / 3; for (unsigned i = 0; i < n; ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); } std::vector<unsigned> pi, ps; JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.tri.size() / 3, 3, n); JArray_Sort(pi, ps); A.Initialize(n, 1, true); A.SetPattern(pi.data(), pi.size(), ps.data(), ps.size()); A.setZero(); rhs.assign(n, 0); std::vector<double> v(n, 0); MergeLinSys_Poission_MeshTri2D(A, rhs.data(), 1., c.r(.2, 1), xy.data(), n, m.tri.data(), m.tri.size() / 3, v.data()); bc.assign(n, 0); bc[0] = bc[n - 1] = 1; A.SetFixedBC(bc.data()); for (unsigned i = 0; i < n; ++i) if (bc[i]) rhs[i] = 0; P.SetPattern0(A); P.CopyValue(A); P.Decompose(); }
  const char *name() const override { return "linear-system"; }
  uint64_t digest() const override { return gen::hv(A.val_crs_, gen::hv(A.val_dia_, gen::hv(A.col_ind_, gen::hv(A.row_ptr_, gen::hv(P.valCrs, gen::hv(P.valDia, gen::hv(rhs, 3))))))); }
  int nq() const override { return 5; }
  void ask(int k, cat::Ctx &c) const override { std::vector<double> x = c.vec(n), y = c.vec(n); switch (k) {
    case 0: A.MatVec(y.data(), c.r(-1, 1), x.data(), c.r(0, 1)); c.o(y); break;
    case 1: A.MatTVec(y.data(), c.r(-1, 1), x.data(), c.r(0, 1)); c.o(y); break;
    case 2: P.SolvePrecond(x.data()); c.o(x); break;
    case 3: { std::vector<double> r = rhs, u(n, 0), t0(n), t1(n); auto h = Solve_CG(ViewAsVectorXd(r), ViewAsVectorXd(u), ViewAsVectorXd(t0), ViewAsVectorXd(t1), 1e-6, 30, A); c.o(u); c.o(h); break; }
    default: { std::vector<double> r = rhs, u(n, 0), t0(n), t1(n); auto h = Solve_PCG(ViewAsVectorXd(r), ViewAsVectorXd(u), ViewAsVectorXd(t0), ViewAsVectorXd(t1), 1e-6, 30, A, P); c.o(u); c.o(h); } } } };

struct Slab : Input_AdaptiveDistanceField3 { double r; double sdf(double x, double, double z) const override { return r - z + .3 * x; } };
struct FieldWorld : World { AdaptiveDistanceField3 a; std::vector<std::unique_ptr<CSDF3>> f; CMathExpressionEvaluator e; 
  explicit FieldWorld(cat::Ctx &c) { Slab s; s.r = c.r(.4, .8); double bb[6] = {-1, 1, -1, 1, -1, 1}; a.SetUp(s, bb); double n[3] = {0, 0, 1}, p0[3] = {0, 0, c.r(-.5, .5)}; f.emplace_back(new CPlane<double>(n, p0)); f.emplace_back(new CSphere<double>(c.r(.3, .9), std::vector<double>{.1, .2, c.r(-.2, .2)}, c.g.n(2))); f.emplace_back(new CCylinder<double>(c.r(.2, .6), p0, n, c.g.n(2))); f.emplace_back(new CTorus<double>()); e.SetKey("x", c.r(.1, 1)); e.SetKey("t", .3); e.SetExp("sin(x)+t*2-x^2"); }
  const char *name() const override { return "fields"; }
  uint64_t digest() const override { cat::Ctx c(1); for (auto &n : a.aNode) { c.o(n.cent_, 3); c.o(n.dists_, 8); c.o(n.ichilds_, 8); } c.o(e.Eval()); return c.h; }
  int nq() const override { return 3; }
  void ask(int k, cat::Ctx &c) const override { switch (k) {
    case 0: for (int i = 0; i < 3; ++i) { double n[3] = {0, 0, 0}; CVec3d q = v3(c, .9); c.o(a.Projection(q.p[0], q.p[1], q.p[2], n)); c.o(n, 3); } break;
    case 1: for (auto &s : f) { double n[3] = {0, 0, 0}; CVec3d q = v3(c); c.o(s->Projection(n, q.p[0], q.p[1], q.p[2])); c.o(n, 3); } break;
    default: for (int i = 0; i < 3; ++i) c.o(e.Eval()); } } };

struct RigWorld : World { std::vector<CRigBone> b; std::vector<double> x0; std::vector<double> w; std::vector<double> ws; std::vector<unsigned> wi; ModelView_Trackball cam; Projection_LookOriginFromZplus prj; CLinPro lp;
  explicit RigWorld(cat::Ctx &c) : prj(1.2f, true, 20.f) { unsigned nb = c.i(2, 5); std::vector<unsigned> par = {UINT_MAX}; for (unsigned i = 1; i < nb; ++i) par.push_back(c.g.n(i)); std::vector<double> J = c.vec(nb * 3); InitBones_JointPosition(b, nb, par.data(), J.data()); for (auto &x : b) { double q[4] = {c.r(-.3, .3), c.r(-.3, .3), c.r(-.3, .3), 1}; Normalize_Quat(q); for (int k = 0; k < 4; ++k) x.quatRelativeRot[k] = q[k]; } UpdateBoneRotTrans(b); int np = c.i(2, 9); x0 = c.vec(np * 3); w.resize(np * nb); for (auto &x : w) x = 1. / nb; for (int i = 0; i < np; ++i) for (int k = 0; k < 4; ++k) { ws.push_back(.25); wi.push_back(c.g.n(nb)); } for (int k = 0; k < 3; ++k) cam.Rot_Camera((float) c.r(-1, 1), .3f); }
  const char *name() const override { return "rig"; }
  uint64_t digest() const override { cat::Ctx c(1); for (auto &x : b) { c.o(x.quatRelativeRot, 4); c.o(x.transRelative, 3); c.o(x.affmat3Global, 16); c.o(x.invBindMat, 16); } c.o(x0); return c.h; }
  int nq() const override { return 4; }
  void ask(int k, cat::Ctx &c) const override { switch (k) {
    case 0: { std::vector<double> x(x0.size()); Skinning_LBS(x, x0, b, w); c.o(x); break; }
    case 1: { std::vector<double> x(x0.size()); Skinning_LBS_LocalWeight(x.data(), x0.data(), (unsigned) x0.size() / 3, b, ws.data(), wi.data()); c.o(x); break; }
    case 2: { c.o(cam.GetMatrix()); c.o(prj.GetMatrix((float) c.r(.5, 2))); break; }
    default: { for (auto &x : b) { c.o(x.RootPosition()); double p[3], q[3] = {c.r(-1, 1), .2, .3}; (void) p; x.DeformSkin(p, q); c.o(p, 3); } } } } };

World *build(int k, cat::Ctx &c) { switch (k) { case 0: return new MeshWorld(c); case 1: return new PointWorld(c); case 2: return new CadWorld(c); case 3: return new DynWorld(c); case 4: return new LinWorld(c); case 5: return new FieldWorld(c); default: return new RigWorld(c); } }
struct Ask { int q; uint32_t seed; uint64_t h; };
void run(const World &w, Ask &a) { cat::Ctx c(a.seed); w.ask(a.q, c); a.h = c.h; }
void go(int lo, int hi, bool same) {
  cat::Ctx c(1 + sim::choose(50000)); std::unique_ptr<World> w(build(lo + (int) sim::choose(hi - lo + 1), c)); uint64_t before = w->digest();
  int nt = 2 + (int) sim::choose(3), per = 1 + (int) sim::choose(3); int q0 = (int) sim::choose(w->nq()); std::vector<std::vector<Ask>> j(nt);
  for (auto &v : j) for (int k = 0; k < per; ++k) { Ask a{same ? q0 : (int) sim::choose(w->nq()), 1 + sim::choose(5000), 0}; v.push_back(a); sim::logf("thread %zu asks %s for %d (%u)", (size_t) (&v - &j[0]), w->name(), a.q, a.seed); }
  bool first = sim::chance(1, 2); auto ref = j; if (first) for (auto &v : ref) for (auto &a : v) run(*w, a);
  sc::pick_mode(); sc::begin();
  { std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { for (auto &a : j[t]) { run(*w, a); sim::vtime(1); } }); for (auto &t : th) t.join(); }
  if (!first) for (auto &v : ref) for (auto &a : v) run(*w, a);
  for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) { if (j[t][k].h != ref[t][k].h) sim::violation("answer-differs", "%s query %d seed %u: %016llx while other threads were asking, %016llx alone", w->name(), j[t][k].q, j[t][k].seed, (unsigned long long) j[t][k].h, (unsigned long long) ref[t][k].h); sim::mix(j[t][k].h); char b[64]; snprintf(b, sizeof b, "%s-%d", w->name(), j[t][k].q); sim::probe(b); }
  if (w->digest() != before) sim::violation("structure-changed", "%s is not the same after it was only read", w->name());
  sim::state(sc::interleaving_hash()); sim::mix(sc::interleaving_hash()); if (sc::switches() > 2) sim::nontrivial(); }
void surface() { go(0, 1, sim::chance(1, 2)); }
void outline() { go(2, 3, sim::chance(1, 2)); }
void numeric() { go(4, 6, sim::chance(1, 2)); }
const sim::Scenario T04[] = {{"shared-surface", 3, surface}, {"shared-outline", 2, outline}, {"shared-numeric", 3, numeric}};
}
SIM_MAIN(SIM_TABLE("T04", T04))
