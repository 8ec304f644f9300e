#include "catalog.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_topology_mix.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_normal.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_geodesic_polyhedron.h"
#include "delfem2/mshmisc.h"
#include <stack>
#include "delfem2/slice.h"
#include "delfem2/dijkstra.h"
#include "delfem2/4rotsym.h"
#include "delfem2/clusterpoints.h"
#include "delfem2/expmap_geo3dijk.h"
#include "delfem2/jagarray.h"
#include "delfem2/srchgrid.h"
using namespace delfem2;
namespace {
OP(primitives) {
  VD x; VU t; int k = c.i(0, 8);
  if (k == 0) MeshTri3D_Sphere(x, t, 1.0, (unsigned) c.i(3, 8), (unsigned) c.i(3, 8));
  if (k == 1) MeshTri3D_CylinderOpen(x, t, .7, 1.0, (unsigned) c.i(3, 7), (unsigned) c.i(1, 4));
  if (k == 2) MeshTri3D_CylinderClosed(x, t, .7, 1.0, (unsigned) c.i(3, 7), (unsigned) c.i(1, 4));
  if (k == 3) MeshTri3D_Cube(x, t, (unsigned) c.i(1, 3));
  if (k == 4) MeshTri3D_Disk(x, t, 1.0, c.i(1, 3), c.i(3, 8));
  if (k == 5) MeshTri3D_Icosahedron(x, t);
  if (k == 6) MeshTri3_Torus(x, t, 1.0, .3, (unsigned) c.i(3, 8), (unsigned) c.i(3, 8));
  if (k == 7) MeshTri3_Capsule(x, t, .5, 1.0, (unsigned) c.i(4, 8), (unsigned) c.i(2, 4), (unsigned) c.i(2, 4));
  if (k == 8) { double a[3] = {0, 0, 0}, b[3] = {1, 2, 3}; MeshQuad3_CubeVox(x, t, a, b); c.o(MeshQuadTopo_CubeVox()); }
  c.o(x); c.o(t); }
OP(grids) { VD x; VU q; MeshHex3_Grid(x, q, c.i(1, 3), c.i(1, 3), c.i(1, 3), .5); c.o(x); c.o(q); MeshQuad2D_Grid(x, q, c.i(1, 4), c.i(1, 4)); c.o(x); c.o(q);
  VU t; convert2Tri_Quad(t, q); c.o(t); FlipElement_Tri(t); c.o(t); }
OP(topology_tri) {
  gen::Mesh m = c.mesh(); size_t np = m.xyz.size() / 3; VU a, b, s, e;
  JArray_ElSuP_MeshTri(a, b, m.tri, np); c.o(a); c.o(b);
  ElSuEl_MeshElem(s, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, np); c.o(s);
  VU pi, ps; JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.tri.size() / 3, 3, np); JArray_Sort(pi, ps); c.o(pi); c.o(ps);
  VU ei, ed; JArrayEdge_MeshElem(ei, ed, m.tri.data(), MESHELEM_TRI, a, b, c.g.n(2)); c.o(ei); c.o(ed);
  VU l; MeshLine_MeshElem(l, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, np); c.o(l);
  VU q; ElemQuad_DihedralTri(q, m.tri.data(), m.tri.size() / 3, np); c.o(q);
  VU ui, u; JArrayEdgeUnidir_PointSurPoint(ui, u, pi, ps); c.o(ui); c.o(u);
  VU xi, xx; JArray_Extend(xi, xx, pi.data(), pi.size(), ps.data()); c.o(xi); c.o(xx);
  VU di, dd; JArray_AddDiagonal(di, dd, pi.data(), pi.size(), ps.data(), ps.size()); c.o(di); c.o(dd);
  int ng; VU f; MakeGroupElem(ng, f, m.tri, s, 3, 3); c.o(ng); c.o(f); }
OP(topology_hex) { VD x; VU h; MeshHex3_Grid(x, h, c.i(1, 2), c.i(1, 2), c.i(1, 2), .5); VU s; ElSuEl_MeshElem(s, h.data(), h.size() / 8, MESHELEM_HEX, x.size() / 3); c.o(s);
  VU l; MeshLine_MeshElem(l, h.data(), h.size() / 8, MESHELEM_HEX, x.size() / 3); c.o(l);
  VU h1, pi, ps, qf; SubdivTopo_MeshHex(h1, pi, ps, qf, h.data(), h.size() / 8, x.size() / 3); VD x1; SubdivisionPoints_Hex(x1, pi, ps, qf, h.data(), h.size() / 8, x.data(), x.size() / 3); c.o(h1); c.o(x1); }
OP(subdivision_quad) { double a[3] = {0, 0, 0}, b[3] = {1, c.r(.5, 2), 1}; VD x; VU q; MeshQuad3_CubeVox(x, q, a, b);
  for (int k = c.i(1, 2); k > 0; --k) { VU q1, pi, ps, ef; SubdivTopo_MeshQuad(q1, pi, ps, ef, q.data(), q.size() / 4, x.size() / 3); VD x1; SubdivisionPoints_QuadCatmullClark(x1, q1, ef, pi, ps, q.data(), q.size() / 4, x.data(), x.size() / 3); x = x1; q = q1; }
  c.o(x); c.o(q); VD n; Normal_MeshQuad3(n, x, q); c.o(n); }
OP(subdivision_tet) { VU t = {0, 1, 2, 3, 0, 2, 1, 4}; VU t1, pi, ps; SubdivTopo_MeshTet(t1, pi, ps, t.data(), 2, 5); c.o(t1); c.o(pi); c.o(ps); VU s; ElSuEl_MeshElem(s, t.data(), 2, MESHELEM_TET, 5); c.o(s); }
OP(mesh_mixed) { CElemMixed m; int n = c.i(1, 3); for (int k = 0; k < n; ++k) { m.AddElement(MESHELEM_TRI, VI{k, k + 1, 9}); m.AddElement(MESHELEM_QUAD, VI{k, 5 + k, 6 + k, k + 1}); }
  VU a, b; m.MakeElemSurroundingPoint(a, b, 12); c.o(a); c.o(b); VI f, r; m.MakeSurroundingRelationship(f, r, a, b); c.o(f); c.o(r); VU t; Convert2Tri_MeshMix(t, m.aElemInd, m.aElem, m.aElemType); c.o(t);
  int ng; VI gi; MakeGroupElem_MeshMix(ng, gi, m.aElemInd, m.aElem, m.aElemType, 12); c.o(ng); c.o(gi); }
OP(normals) { gen::Mesh m = c.mesh(1); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3); c.o(n);
  c.o(Normal_TriInMeshTri3(0u, m.xyz.data(), m.tri.data())); VD u, w, e; UnidexedVertexDataTriMesh(u, m.xyz, m.tri); UnindexedNormalTriMesh3(w, m.xyz, m.tri); UnindexedEdgeMesh3_UnindexedTrimesh3(e, u); c.o(u); c.o(w); c.o(e);
  VD ms(m.xyz.size() / 3); MassPoint_Tri3D(ms.data(), 1.0, m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3); c.o(ms);
  c.o(Area_MeshTri3(m.xyz, m.tri, [](unsigned it) { return it % 2 == 0; })); }
OP(bounding_box) { gen::Mesh m = c.mesh(1); double a[3], b[3]; BoundingBox3_Points3(a, b, m.xyz.data(), m.xyz.size() / 3); c.o(a, 3); c.o(b, 3); CenterWidth_Points3(a, b, m.xyz); c.o(a, 3); c.o(b, 3); c.o(Size_Points3D_LongestAABBEdge(m.xyz));
  double ex[3] = {1, 0, 0}, ey[3] = {0, .6, .8}, ez[3] = {0, -.8, .6}; double q[6]; GetCenterWidthLocal(q[0], q[1], q[2], q[3], q[4], q[5], m.xyz, ex, ey, ez); c.o(q, 6); }
OP(affine) { gen::Mesh m = c.mesh(1); Rotate_Points3(m.xyz, c.r(-3, 3), c.r(-3, 3), c.r(-3, 3)); Translate_Points3(m.xyz, .1, .2, c.r(-1, 1)); Scale_PointsX(m.xyz, c.r(.5, 2)); Normalize_Points3(m.xyz, 2.0); c.o(m.xyz);
  VD d = c.vec(m.xyz.size()); NormalizeVector_Points(d.data(), d.size() / 3, 3); c.o(d); double cg[3]; CG_Point3(cg, m.xyz); c.o(cg, 3); CG_MeshTri3_Shell(cg, m.xyz, m.tri); c.o(cg, 3); CG_MeshTri3_Solid(cg, m.xyz, m.tri); c.o(cg, 3); VD ct; c.o(CentsMaxRad_MeshTri3(ct, m.xyz, m.tri)); c.o(ct); }
OP(geodesic_polyhedron) { VD x; VU t; MeshTri3D_GeodesicPolyhedron(x, t); c.o(x.size()); c.o(t); }
OP(misc_edit) { gen::Mesh m = c.mesh(); VU e(m.tri.begin(), m.tri.begin() + 3 * c.i(1, m.tri.size() / 3)); VD x1; VU e1; VI map; RemoveUnreferencedPoints_MeshElem(x1, e1, map, 3, m.xyz, e); c.o(x1); c.o(e1); c.o(map);
  AddMesh(m.xyz, m.tri, x1, e1); c.o(m.xyz); c.o(m.tri); VD xy = {0, 0, 1, 0, 1, 1, 0, 1}; VU tr = {0, 1, 2, 0, 2, 3}; VD x3; VU tet; ExtrudeTri2Tet(c.i(1, 3), .4, x3, tet, xy, tr); c.o(x3); c.o(tet); VD ms(x3.size() / 3); MassPoint_Tet3D(ms.data(), 1., x3.data(), x3.size() / 3, tet.data(), tet.size() / 4); c.o(ms);
  double vt, cg[3]; CG_MeshTet3(vt, cg, x3, tet); c.o(vt); c.o(cg, 3); double ma, mn; Quality_MeshTri2D(ma, mn, xy.data(), tr.data(), 2); c.o(ma); c.o(mn); }
OP(slice) { gen::Mesh m = gen::sphere(1 + c.g.n(2), .8); VU s; ElSuEl_MeshElem(s, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, m.xyz.size() / 3); VD hv(m.xyz.size() / 3); for (size_t i = 0; i < hv.size(); ++i) hv[i] = m.xyz[i * 3 + 2] + .013;
  std::vector<double> hs; int n = c.i(1, 4); for (int i = 0; i < n; ++i) hs.push_back(-.7 + 1.3 * (i + c.r(.2, .8)) / n); std::vector<CSliceTriMesh> cs; Slice_MeshTri3D_Heights(cs, hs, hv, m.tri, s); for (auto &q : cs) { c.o(q.IndHeight()); for (auto &a : q.aTriInfo) { c.o(a.itri); c.o(a.iedA); c.o(a.r0A); c.o(a.iedB); c.o(a.r0B); } }
  std::vector<std::set<unsigned int>> con; MakeReebGraph(con, cs, m.tri, s); for (auto &q : con) for (unsigned v : q) c.o(v);
  std::vector<CSegInfo> seg; AddContour(seg, .05, m.tri.data(), m.tri.size() / 3, hv.data()); for (auto &a : seg) { double A[3], B[3]; a.Pos3D(A, B, m.xyz, m.tri); c.o(A, 3); c.o(B, 3); } }
OP(dijkstra) { gen::Mesh m = c.mesh(1); VU s, a, b; size_t nt = m.tri.size() / 3; ElSuEl_MeshElem(s, m.tri.data(), nt, MESHELEM_TRI, m.xyz.size() / 3); DijkstraElem_MeshElemTopo(a, b, c.g.n(nt), s, nt); c.o(a); c.o(b); }
OP(orientation_field) { gen::Mesh m = c.mesh(); VU pi, ps; size_t np = m.xyz.size() / 3; JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.tri.size() / 3, 3, np); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), np, m.tri.data(), m.tri.size() / 3);
  VD o = c.vec(np * 3); TangentVector_Points3(o, n); c.o(o); Smooth4RotSym(o, n, pi, ps); c.o(o); }
OP(cluster_points) { gen::Mesh m = c.mesh(1); VU pi, ps, map; size_t np = m.xyz.size() / 3; JArray_PSuP_MeshElem(pi, ps, m.tri.data(), m.tri.size() / 3, 3, np); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), np, m.tri.data(), m.tri.size() / 3); VD ar(np); MassPoint_Tri3D(ar.data(), 1., m.xyz.data(), np, m.tri.data(), m.tri.size() / 3);
  VD x1, a1, n1; BinaryClustering_Points3d(x1, a1, n1, map, m.xyz, ar, n, pi, ps); c.o(x1); c.o(a1); c.o(n1); c.o(map); VU pi1, ps1; Clustering_Psup(pi1, ps1, x1.size() / 3, np, map.data(), pi.data(), ps.data()); c.o(pi1); c.o(ps1); }
OP(exponential_map) { gen::Mesh m = c.mesh(); VU s; size_t nt = m.tri.size() / 3; ElSuEl_MeshElem(s, m.tri.data(), nt, MESHELEM_TRI, m.xyz.size() / 3); VD tex, dist; VU ord; unsigned k = c.g.n(nt); CExpMap_DijkstraElem e(tex, k, m.xyz, m.tri, s); DijkstraElem_MeshElemGeo3(dist, ord, e, k, m.tri, nt, m.xyz, s); c.o(tex); c.o(dist); c.o(ord); }
OP(search_grid) { int n = c.i(1, 12); double a[3] = {0, 0, 0}, b[3] = {1, 1, 1}; SearchGrid s; s.Initialize(a, b, .31, n); VD p = c.vec(n * 3, 0, 1); for (int i = 0; i < n; ++i) { s.aGrid2Obj[i].igrid = s.GetGridIndex(p.data() + i * 3); s.aGrid2Obj[i].iobj = i; } s.PostProcess(true); VU r; s.GetOneRingNeighbor(r, p.data()); std::sort(r.begin(), r.end()); c.o(r); c.o(s.aGrid2Obj_ind); }
}
