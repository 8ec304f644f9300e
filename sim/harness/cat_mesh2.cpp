// catalogue: mixed meshes, extrusion, voxel and cube grids, clustering of elements, bounding data, strings and colours
#include "catalog.h"
#include <set>
#include <map>
#include <iostream>
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_topology_mix.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_unindexed.h"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_arrow.h"
#include "delfem2/msh_normal.h"
#include "delfem2/mshmisc.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/jagarray.h"
#include "delfem2/gridvoxel.h"
#include "delfem2/gridcube.h"
#include "delfem2/dijkstra.h"
#include "delfem2/str.h"
#include "delfem2/color.h"
#include "delfem2/noise.h"
using namespace delfem2;
namespace {
typedef cat::OV<MESHELEM_TYPE> VT;
void o(cat::Ctx &c, const std::vector<MESHELEM_TYPE> &v) { c.o(v.size()); for (auto t : v) c.o((int) t); }
struct Mix { std::vector<unsigned> ind, el; std::vector<MESHELEM_TYPE> ty; int np; };
Mix surf(cat::Ctx &c) {    // two disconnected strips of quads, some of them cut in two triangles
  Mix m; m.ind.assign(1, 0); int base = 0;
  for (int s = 0; s < 2; ++s) { int n = c.i(1, 4);
    for (int k = 0; k < n; ++k) { int a = base + 2 * k, b = a + 1, d = a + 2, e = a + 3;
      if (c.g.n(2)) AddElement(MESHELEM_QUAD, {a, d, e, b}, m.ind, m.el, m.ty); else { AddElement(MESHELEM_TRI, {a, d, b}, m.ind, m.el, m.ty); AddElement(MESHELEM_TRI, {b, d, e}, m.ind, m.el, m.ty); } }
    base += 2 * n + 2; }
  m.np = base; return m; }
Mix solid(cat::Ctx &c) { Mix m; m.ind.assign(1, 0); int n = c.i(1, 3);
  for (int k = 0; k < n; ++k) { int a = 4 * k; AddElement(MESHELEM_HEX, {a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7}, m.ind, m.el, m.ty); }
  int t = 4 * n, p = t + 4; if (c.g.n(2)) { AddElement(MESHELEM_PYRAMID, {t, t + 1, t + 2, t + 3, p}, m.ind, m.el, m.ty); AddElement(MESHELEM_TET, {t, t + 1, p, p + 1}, m.ind, m.el, m.ty); } else AddElement(MESHELEM_TET, {t, t + 1, t + 2, p}, m.ind, m.el, m.ty);
  m.np = p + 2; return m; }
OP(mixed_relation) { Mix m = c.g.n(2) ? surf(c) : solid(c); VU a, b; JArray_ElSuP_MeshMix(a, b, m.ind, m.el, m.np); c.o(a); c.o(b);
  VI f, r, f2, r2; ElSuEl_MeshMix(f, r, m.ind, m.el, m.ty, a, b); ElSuEl_MeshMix(f2, r2, m.ind, m.el, m.ty, m.np); c.o(f); c.o(r); c.o(f2); c.o(r2);
  VU bi, be; VT bt; Boundary_MeshMix(bi, be, bt, m.ind, m.el, m.ty, f, r); c.o(bi); c.o(be); o(c, bt);
  int ng; VI g; MakeGroupElem(ng, g, m.ind, m.el, f, r); c.o(ng); c.o(g); VI q(g); MarkConnectedElements(q, 0, 7, f, r); c.o(q);
  for (int k = 0; k < ng; ++k) { VU ci, ce; VT ct; ClipGroup_MeshMix(ci, ce, ct, m.ind, m.el, m.ty, k, g); c.o(ci); c.o(ce); o(c, ct); } }
OP(mixed_surface) { Mix m = surf(c); VI fl; FlipElement_MeshMix(fl, m.ind, m.el, m.ty); c.o(fl); VU t; Convert2Tri_MeshMix(t, m.ind, m.el, m.ty); c.o(t);
  int ng; VI g; MakeGroupElem_MeshMix(ng, g, m.ind, m.el, m.ty, m.np); c.o(ng); c.o(g); VD x = c.vec(m.np * 3); double w[6]; GetCenterWidthGroup(w[0], w[1], w[2], w[3], w[4], w[5], x, m.ind, m.el, ng - 1, g); c.o(w, 6); GetCenterWidth3DGroup(w, x, m.ind, m.el, 0, g); c.o(w, 6); }
OP(mixed_class) { CElemMixed m; Mix s = c.g.n(2) ? surf(c) : solid(c); m.aElemInd = s.ind; m.aElem = s.el; m.aElemType = s.ty; CElemMixed b; if (cat::dirty) { b.AddElement(MESHELEM_TRI, {0, 1, 2}); b.AddElement(MESHELEM_QUAD, {0, 1, 2, 5}); } m.makeBoundary(b, s.np); c.o(b.aElemInd); c.o(b.aElem); o(c, b.aElemType); VI f, r; m.MakeSurroundingRelationship(f, r, s.np); c.o(f); c.o(r); int ng; VI g; m.MakeGroupElem(ng, g, f, r); c.o(ng); c.o(g); m.MakeGroupElem(ng, g, s.np); c.o(ng); c.o(g); c.o(m.nElem()); }
OP(unify_separate_indexing) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .1); size_t np = m.xyz.size() / 3; std::vector<double> tx; std::vector<unsigned> tt = m.tri; for (size_t i = 0; i < np; ++i) { tx.push_back(m.xyz[i * 3]); tx.push_back(m.xyz[i * 3 + 1]); }
  int cut = c.i(0, 3); for (int k = 0; k < cut; ++k) { size_t q = c.g.n(tt.size()); tx.push_back(c.r(-1, 1)); tx.push_back(c.r(-1, 1)); unsigned old = tt[q], nw = tx.size() / 2 - 1; tt[q] = nw; (void) old; }
  VD ux, ut; VU tu, uxi, uti; UnifySeparateIndexing_PosTex<double>(ux, ut, tu, uxi, uti, m.xyz, tx, m.tri, tt); c.o(ux); c.o(ut); c.o(tu); c.o(uxi); c.o(uti); }
OP(extrude) { gen::Mesh m = gen::grid(c.i(1, 3), c.i(1, 3), c.g, .1); std::vector<double> xy; for (size_t i = 0; i < m.xyz.size() / 3; ++i) { xy.push_back(m.xyz[i * 3]); xy.push_back(m.xyz[i * 3 + 1]); }
  VD x; VU t; int nl = c.i(1, 3); ExtrudeTri2Tet(nl, c.r(.1, .5), x, t, xy, m.tri); c.o(x); c.o(t); VD ms(x.size() / 3); MassPoint_Tet3D(ms.data(), 2., x.data(), x.size() / 3, t.data(), t.size() / 4); c.o(ms); VD m2(xy.size() / 2); MassPoint_Tri2D(m2.data(), 2., xy.data(), xy.size() / 2, m.tri.data(), m.tri.size() / 3); c.o(m2);
  double as, ar; Quality_MeshTri2D(as, ar, xy.data(), m.tri.data(), m.tri.size() / 3); c.o(as); c.o(ar); double v, g[3]; CG_MeshTet3(v, g, (std::vector<double> &) x, (std::vector<unsigned> &) t); c.o(v); c.o(g, 3);
  VU t1, pi, ps; SubdivTopo_MeshTet(t1, pi, ps, t.data(), t.size() / 4, x.size() / 3); c.o(t1); c.o(pi); c.o(ps); VU l; MeshLine_MeshElem(l, t.data(), t.size() / 4, MESHELEM_TET, x.size() / 3); c.o(l); VU s; ElSuEl_MeshElem(s, t.data(), t.size() / 4, MESHELEM_TET, x.size() / 3); c.o(s); }
OP(unreferenced_points) { gen::Mesh m = c.mesh(1); std::vector<unsigned> tr; for (size_t t = 0; t < m.tri.size() / 3; ++t) if (t == 0 || c.g.n(2)) tr.insert(tr.end(), m.tri.begin() + t * 3, m.tri.begin() + t * 3 + 3); VD x; VU e; VI mp; RemoveUnreferencedPoints_MeshElem(x, e, mp, 3, m.xyz, tr); c.o(x); c.o(e); c.o(mp); VD y(m.xyz); VU tt(m.tri); AddMesh(y, tt, x, e); c.o(y); c.o(tt); }
OP(smoothing_solid_angle) { gen::Mesh m = c.mesh(); std::vector<unsigned> a, b; JArray_ElSuP_MeshTri(a, b, m.tri, m.xyz.size() / 3); std::vector<int> ti(m.tri.begin(), m.tri.end()), ai(a.begin(), a.end()), bi(b.begin(), b.end()); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3); VD sa; makeSolidAngle(sa, m.xyz, m.tri, n, ai, bi); c.o(sa); VD x(m.xyz); LaplacianSmoothing(x, ti, ai, bi); c.o(x); }
OP(closed_one_ring) { gen::Mesh m = gen::sphere(c.i(0, 2), 1); size_t np = m.xyz.size() / 3; std::vector<unsigned> a, b, s; JArray_ElSuP_MeshTri(a, b, m.tri, np); ElSuEl_MeshElem(s, m.tri.data(), m.tri.size() / 3, MESHELEM_TRI, np); VU pi, ps; JArrayPointSurPoint_MeshOneRingNeighborhood(pi, ps, m.tri.data(), a, b, 3, np); c.o(pi); c.o(ps); VU l; MeshLine_JArrayEdge(l, pi, ps); c.o(l); for (int k = 0; k < 3; ++k) { unsigned t = c.g.n(m.tri.size() / 3), e = c.g.n(3); c.o(FindAdjEdgeIndex(t, e, s[t * 3 + e], m.tri.data())); c.o(FindIndexTri(m.tri.data() + t * 3, m.tri[t * 3 + e])); }
  VU f(m.tri.size() / 3, 3u); MarkConnectedElements(f, c.g.n(m.tri.size() / 3), 9, s); c.o(f); VI fl(m.tri.size() / 3); for (size_t k = 0; k < fl.size(); ++k) fl[k] = k % 3; double g[3]; c.o(CG_TriMsh3Flg_Shell(g, m.xyz, m.tri, 1, (std::vector<int> &) fl)); c.o(g, 3); double v; CG_MeshLine3(v, g, m.xyz, (std::vector<unsigned> &) l); c.o(v); c.o(g, 3); std::vector<int> ti(m.tri.begin(), m.tri.end()); CG_Tri(g[0], g[1], g[2], 1, m.xyz, ti); c.o(g, 3); }
OP(group_bounds) { gen::Mesh m = c.mesh(1); std::vector<int> g(m.tri.size() / 3); for (auto &x : g) x = c.g.n(2); g[0] = 0; double w[6]; GetCenterWidthGroup(w[0], w[1], w[2], w[3], w[4], w[5], m.xyz, m.tri, 3, 0, g); c.o(w, 6); CenterWidth_Point3(w[0], w[1], w[2], w[3], w[4], w[5], m.xyz.data(), m.xyz.size() / 3); c.o(w, 6); double mn = 1, mx = -1, a = 0, b = 0, d = 0, e = 0; updateMinMaxXYZ(mn, mx, a, b, d, e, 1., 2., 3.); updateMinMaxXYZ(mn, mx, a, b, d, e, c.r(0, 4), 1., 5.); c.o(mn); c.o(mx); c.o(a); c.o(b); c.o(d); c.o(e);
  double rgb[2][3] = {{1, 0, 0}, {0, .5, 1}}; VD col; UnindexedColorTriMesh3(col, rgb, g, m.tri); c.o(col); }
OP(affine_points) { gen::Mesh m = c.mesh(); VD x(m.xyz), xy = c.vec(10); double t[3] = {c.r(-1, 1), 2, 3}; Translate_Points(x.data(), x.size() / 3, 3, t); Scale_Points(x.data(), x.size() / 3, 3, c.r(.5, 2)); c.o(x); Translate_Points2((std::vector<double> &) xy, t[0], t[1]); c.o(xy); Normalize_Points3((std::vector<double> &) x, 1.); c.o(x); VD n(m.xyz.size()); Normal_MeshTri3D(n.data(), m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3); std::vector<double> od(n.size()); for (auto &v : od) v = c.r(-1, 1); TangentVector_Points3(od, n); c.o(od); }
OP(arrow) { std::vector<float> x; std::vector<unsigned> t; for (int k = 0; k < 3; ++k) Mesh_ArrowOcta<float, unsigned>(x, t, CMat4f::Identity(), CVec3f(c.r(-1, 1), 0, 1), CVec3f(c.r(-1, 1), c.r(.1, 1), .5), .1f, .7f); c.o(x); c.o(t); }
OP(subdivision_simple) { double a[3] = {0, 0, 0}, b[3] = {1, c.r(.5, 2), 1}; std::vector<double> x; std::vector<unsigned> q; MeshQuad3_CubeVox(x, q, a, b); VU q1, pi, ps, ef; SubdivTopo_MeshQuad(q1, pi, ps, ef, q.data(), q.size() / 4, x.size() / 3); std::vector<int> efi(ef.begin(), ef.end()); VD y; SubdivPoints3_MeshQuad(y, efi, q, x); c.o(y); for (int k = 0; k < 4; ++k) c.o(findEdge(c.g.n(8), c.g.n(8), pi, ps)); }
std::vector<int> vox(cat::Ctx &c, int &nx, int &ny, int &nz) { nx = c.i(1, 4); ny = c.i(1, 3); nz = c.i(1, 3); std::vector<int> v(nx * ny * nz); for (auto &q : v) q = c.g.n(3) != 0; return v; }
OP(voxel_meshes) { int nx, ny, nz; auto v = vox(c, nx, ny, nz); VD x; VU q; VI h; MeshQuad3D_VoxelGrid(x, q, nx, ny, nz, v); c.o(x); c.o(q); MeshHex3D_VoxelGrid(x, h, nx, ny, nz, v); c.o(x); c.o(h); MeshTet3D_VoxelGrid(x, h, nx, ny, nz, v); c.o(x); c.o(h); for (int f = 0; f < 6; ++f) c.o(Adj_Grid(c.g.n(nx * ny * nz), f, nx, ny, nz)); int bb[8] = {1, -1, 0, 0, 0, 0, 0, 0}; Add_AABB(bb, 1, 2, 3); Add_AABB(bb, c.i(0, 4), 0, 5); c.o(bb, 6); c.o(IsInclude_AABB(bb, 1, 2, 4)); }
OP(cube_grid) { std::vector<CCubeGrid> g; int n = c.i(1, 20); for (int k = 0; k < n; ++k) { if (c.g.n(3)) Add_CubeGrid(g, c.i(0, 2), c.i(0, 2), c.i(0, 2)); else Del_CubeGrid(g, c.i(0, 2), c.i(0, 2), c.i(0, 2)); } for (auto &q : g) { c.o(q.ivx); c.o(q.ivy); c.o(q.ivz); c.o(q.is_active); } int bb[6]; if (!g.empty()) { AABB_CubeGrid(bb, g); c.o(bb, 6); int a, b, d; Adj_CubeGrid(a, b, d, c.g.n(g.size()), c.g.n(6), g); c.o(a); c.o(b); c.o(d); } unsigned ip; int fp = -1; double s[3] = {c.r(0, 3), c.r(0, 3), 9}, dr[3] = {.01, .02, -1}, og[3] = {0, 0, 0}; Pick_CubeGrid(ip, fp, s, dr, 1., og, g); c.o(ip); c.o(ip == UINT_MAX ? -1 : fp); }
struct Proc { unsigned long h = 0; std::vector<unsigned> vis; void AddElem(unsigned i, std::vector<unsigned> &o) { vis.push_back(i); h = h * 31 + o[i]; } void AddPoint(unsigned i, std::vector<unsigned> &o) { AddElem(i, o); } bool IsIncludeElem(unsigned i) { return i % 7 != 6; } };
OP(dijkstra_geometry) { gen::Mesh m = c.mesh(); size_t np = m.xyz.size() / 3, nt = m.tri.size() / 3; std::vector<unsigned> s, pi, ps; ElSuEl_MeshElem(s, m.tri.data(), nt, MESHELEM_TRI, np); JArray_PSuP_MeshElem(pi, ps, m.tri.data(), nt, 3, np); Proc p; VD d; VU od; DijkstraElem_MeshElemGeo3(d, od, p, c.g.n(nt), m.tri, nt, m.xyz, s); c.o(d); c.o(od); c.o(p.vis); Proc p2; DijkstraPoint_MeshTri3D(d, od, p2, c.g.n(np), m.xyz, pi, ps); c.o(d); c.o(od); c.o(p2.vis); double g[3]; Center_Elem3(g, c.g.n(nt), m.tri, 3, m.xyz); c.o(g, 3); }
OP(strings) { std::string s = "a,bb,(c,d),\"e,f\"," + std::to_string(c.i(0, 999)) + ", g ,h"; c.o(Split(s, ',')); c.o(Split(s, std::string(", "))); c.o(Split_Parentheses(s, ',', "()")); c.o(Split_Quote(s, ',', '"')); c.o(Get_Parentheses(s, "()")); c.o(Replace(s, ',', ';')); c.o(Remove(s, "abc")); c.o(RemoveSpace(s)); c.o(RemoveBeginning(s, "a,")); std::vector<std::string> tk; if (cat::dirty) tk.assign(cat::dirty, "old"); Split(tk, s, ','); c.o(tk);
  std::vector<double> v; for (int k = 0; k < 3; ++k) v.push_back(c.i(-99, 99) * .25); std::vector<double> w; ReadVector_CSV(w, std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2])); c.o(w); c.o(Str_SVGPolygon({0, 0, 1, 0, c.r(0, 1), 1}, 2.)); std::map<std::string, std::string> at; ParseAttributes(at, " id=\"x" + std::to_string(c.i(0, 9)) + "\" d=\"M 1 2\""); for (auto &p : at) { c.o(p.first); c.o(p.second); } c.o(myStoi(std::to_string(c.i(-50, 50)))); c.o(myStod("2.5")); c.o(isAlphabet('c')); c.o(isAlphabetUpper('c')); c.o(isNumeric('5'));
  std::string a0 = "prog", a1 = "-n", a2 = std::to_string(c.i(0, 99)), a3 = "-q", a4 = "1.5"; char *av[] = {&a0[0], &a1[0], &a2[0], &a3[0], &a4[0]}; c.o(getCmdOptionInt(av, av + 5, "-n", 3)); c.o(getCmdOptionInt(av, av + 5, "-z", 3)); c.o(getCmdOptionDouble(av, av + 5, "-q", 3)); c.o(getCmdOptionStr(av, av + 5, "-n")); c.o(cmdOptionExists(av, av + 5, "-q")); c.o(cmdOptionExists(av, av + 5, "-w"));
  auto js = ReadDictionary_Json("{\"a\":\"1\",\"b\":\"x" + a2 + "\"}"); for (auto &p : js) { c.o(p.first); c.o(p.second); } std::string xm = "<a x=\"1\"><b>" + a2 + "</b></a>"; std::vector<std::string> xs; XML_SeparateTagContent(xs, std::vector<char>(xm.c_str(), xm.c_str() + xm.size() + 1)); c.o(xs); }
OP(colours) { auto oc = [&](const CColor &q) { c.o(q.r); c.o(q.g); c.o(q.b); c.o(q.a); }; double d[3]; heatmap(c.r(-.2, 1.2), d); c.o(d, 3); float r, g, b; GetRGB_HSV(r, g, b, (float) c.r(0, 1), .5f, .8f); c.o(r); c.o(g); c.o(b); std::vector<std::pair<double, CColor>> m; int k = c.i(0, 2); if (k == 0) ColorMap_BlueGrayRed(m, 0, 1); if (k == 1) ColorMap_BlueCyanGreenYellowRed(m, 0, 1); if (k == 2) ColorMap_RedYellowGreenCyanBlue(m, 0, 1); for (int q = 0; q < 4; ++q) oc(getColor(c.r(-.3, 1.3), m)); CColor z; interpolateColor(z, c.r(0, 1), CColor::Red(), CColor::Cyan()); oc(z); int x[3]; z.getRGBChar(x[0], x[1], x[2]); c.o(x, 3); float rgb[3]; ColorRGB_Int(rgb, c.i(0, 0xffffff)); c.o(rgb, 3); CColorMap cm(0, 1, c.g.n(2) ? "bgr" : "bcgyr"); for (auto &q : cm.aColor) { c.o(q.first); oc(q.second); } }
OP(perlin_noise) { int n = 16; std::vector<int> P(2 * n); for (int k = 0; k < n; ++k) P[k] = (k * 5 + 3) % n; for (int k = 0; k < n; ++k) P[n + k] = P[k]; std::vector<double> G = c.vec(3 * 16); int np = c.i(2, 6); for (int k = 0; k < 4; ++k) { c.o(noise_perlin_2d(c.r(0, 3), c.r(0, 3), np, {-1, -1, -1, 1, 1, -1, 1, 1}, P)); c.o(noise_perlin_3d(c.r(0, 3), c.r(0, 3), c.r(0, 3), np, G, P)); c.o(noise_perlin_2d_oct(c.r(0, 1), c.r(0, 1), 3, 3, .5, {-1, -1, -1, 1, 1, -1, 1, 1}, P)); c.o(noise_perlin_3d_oct(c.r(0, 1), c.r(0, 1), c.r(0, 1), 3, 2, .5, G, P)); } }
}
