// catalogue: geometry primitives, curves, polygons, intersections, convex hulls, math utilities
#include "catalog.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/svd3.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geo_polyline.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_convhull2.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_gjksat2.h"
#include "delfem2/geo_ccd.h"
#include "delfem2/geo_surface_parametric.h"
#include "delfem2/polynomial_root.h"
#include "delfem2/quadrature.h"
#include "delfem2/parse_math_expression.h"
using namespace delfem2;
namespace {
CVec2d v2(cat::Ctx &c) { double x = c.r(-1, 1), y = c.r(-1, 1); return CVec2d(x, y); }
CVec3d v3(cat::Ctx &c) { double x = c.r(-1, 1), y = c.r(-1, 1), z = c.r(-1, 1); return CVec3d(x, y, z); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CMat3d &m) { double a[9]; m.CopyTo(a); c.o(a, 9); }
template<class V> void oo(cat::Ctx &c, const std::vector<V> &v) { c.o(v.size()); for (auto &x : v) o(c, x); }
template<class V> struct DV : std::vector<V> { DV() { for (int i = 0; i < cat::dirty; ++i) this->push_back(V()); } };
std::vector<CVec2d> pts2(cat::Ctx &c, int n) { std::vector<CVec2d> p; for (int i = 0; i < n; ++i) p.push_back(v2(c)); return p; }
std::vector<CVec2d> poly(cat::Ctx &c, int n) { std::vector<CVec2d> p; for (int i = 0; i < n; ++i) { double t = 6.2831853 * i / n, r = c.r(.5, 1); p.push_back(CVec2d(r * cos(t), r * sin(t))); } return p; }

OP(curve_bezier_cubic) { CVec2d a = v2(c), b = v2(c), d = v2(c), e = v2(c), q = v2(c); o(c, PointOnCubicBezierCurve(.3, a, b, d, e)); o(c, Tangent_CubicBezierCurve(.4, a, b, d, e)); DV<CVec2d> P; Polyline_BezierCubic(P, (unsigned) c.i(1, 6), a, b, d, e); oo(c, P);
  c.o(Length_CubicBezierCurve_Quadrature(a, b, d, e, 3)); c.o(Nearest_CubicBezierCurve(q, a, b, d, e, 20u, 4u)); c.o(Nearest_CubicBezierCurve_Strum(q, a, b, d, e)); c.o(Area_CubicBezierCurve2(a, b, d, e)); c.o(AABB_CubicBezierCurve(a, b, d, e)); for (auto &x : Split_CubicBezierCurve(a, b, d, e, .37)) o(c, x); c.o(Length_CubicBezierCurve_QuadratureSubdivision(a, b, d, e, 1e-5, 5)); }
OP(curve_bezier_quadratic) { CVec2d a = v2(c), b = v2(c), d = v2(c), q = v2(c); DV<CVec2d> P; Polyline_BezierQuadratic(P, (unsigned) c.i(1, 6), a, b, d); oo(c, P); c.o(Length_QuadraticBezierCurve_Quadrature(a, b, d, 3)); c.o(Length_QuadraticBezierCurve_Analytic(a, b, d)); c.o(Nearest_QuadraticBezierCurve(q, a, b, d, 20u, 4u)); c.o(Nearest_QuadraticBezierCurve_Sturm(q, a, b, d, 16u)); c.o(Area_QuadraticBezierCurve2(a, b, d)); c.o(AABB_QuadraticBezierCurve(a, b, d)); for (auto &x : Split_QuadraticBezierCurve(a, b, d, .6)) o(c, x); c.o(Length_QuadraticBezierCurve_QuadratureSubdiv(a, b, d, 1e-5, 5)); }
OP(curve_splines) { auto p = pts2(c, c.i(4, 8)); CVec2d q = v2(c); o(c, Sample_QuadraticBsplineCurve(c.r(.01, 1.9), p)); o(c, Tangent_QuadraticBsplineCurve(c.r(.01, 1.9), p)); c.o(Nearest_QuadraticBSplineCurve(p, q)); o(c, Sample_CubicBsplineCurve(c.r(.01, .9), p)); DV<CVec2d> s; Polyline_CubicBSplineCurve(s, (unsigned) c.i(2, 9), p); oo(c, s); o(c, Sample_CatmullRomSplineCurve(c.r(.01, 2.9), p)); DV<CVec2d> t; Polyline_CatmullRomSplineCurve(t, (unsigned) c.i(2, 9), p); oo(c, t);
  o(c, Sample_BsplineCurve<CVec2d, 3>(c.r(.01, .9), p)); o(c, Sample_BsplineDerivative<CVec2d, 3>(c.r(.01, .9), p)); VD kf; std::vector<int> km = {3, 1, 3}; std::vector<double> kn = {0, .5, 1}; FlatKnot(kf, km, kn); c.o(kf); DV<CVec2d> u; std::vector<CVec2d> cp(p.begin(), p.begin() + 4); SampleBSpline(u, c.i(2, 6), 2, kf, cp); oo(c, u); }
OP(polyline) { auto p = pts2(c, c.i(3, 9)); CVec2d q = v2(c); oo(c, Polyline_Resample_Polyline(p, c.r(.2, .5))); c.o(Length_Polyline(p)); c.o(Area_Polyline2(p)); c.o(AABB_Polyline(p)); o(c, Sample_Polyline(p, c.r(.1, 1.9))); o(c, Tangent_Polyline(p, c.r(.1, 1.9))); c.o(Nearest_Polyline(p, q)); c.o(ArcLengthPointInPolyline(p, q)); c.o(WindingNumber_Polyline2(p, q)); c.o(FindNearestPointInPoints(p, q)); Translate(p, .1, .2); Rotate(p, .3); Smooth_Polyline(p, 1u, .5); oo(c, p); }
OP(polygon) { auto p = poly(c, c.i(3, 9)); CVec2d cg, a1, a2; double ar, I1, I2; cg = CVec2d(0, 0);  c.o(Length_Polygon(p)); oo(c, Polygon_Invert(p)); c.o(XY_Polygon(p));
  std::vector<std::vector<double>> vv = {XY_Polygon(p)}; VI ind, loop; DV<CVec2d> xy; JArray_FromVecVec_XY(ind, loop, xy, vv); c.o(ind); c.o(loop); oo(c, xy); c.o(CheckInputBoundaryForTriangulation(ind, xy)); FixLoopOrientation(loop, ind, xy); ResamplingLoop(ind, loop, xy, c.r(.1, .4)); c.o(ind); c.o(loop); oo(c, xy); double q[2] = {c.r(-1, 1), c.r(-1, 1)}; c.o(IsInclude_Loop(q, ind[0], ind[1], xy));
  std::vector<double> cc; for (auto &x : p) { cc.push_back(x.p[0]); cc.push_back(x.p[1]); } VD vc; makeSplineLoop(cc, vc); c.o(vc); }
OP(convex_hull2) { auto p = pts2(c, c.i(3, 20)); VU id; ConvexHull2(id, p); c.o(id); }
OP(convex_hull3) { std::vector<CVec3d> p; int n = c.i(4, 20); for (int i = 0; i < n; ++i) p.push_back(v3(c)); VU t; ConvexHull3(t, p); c.o(t); }
OP(gjk2) { auto a = poly(c, c.i(3, 7)), b = poly(c, c.i(3, 7)); CVec2d d = v2(c) * 1.5; for (auto &x : b) x += d; c.o(IsIntersect_Points2_Points2_Gjk(a, b)); c.o(IsIntersect_Points2_Points2_Sat(a, b)); CVec2d n(0, 0); bool h = Penetration_Points2_Points2_Epa(n, a, b, 1e-5); c.o(h); if (h) o(c, n); }
OP(nearest_triangle) { CVec3d p[4]; for (auto &x : p) x = v3(c); double r0, r1, w0, w1; o(c, Nearest_Origin3_Tri3(r0, r1, p[0], p[1], p[2])); c.o(r0); c.o(r1); double q[3]; Nearest_Triangle3_Point3(q, r0, r1, p[3].p, p[0].p, p[1].p, p[2].p); c.o(q, 3); c.o(IntersectRay_Tri3(r0, r1, p[3], -p[3], p[0], p[1], p[2], 1e-5)); c.o(DistanceFaceVertex(p[0], p[1], p[2], p[3], w0, w1)); c.o(Area_Tri3(p[0], p[1], p[2])); c.o(SolidAngleTri(p[0], p[1], p[2])); c.o(Mat3_IrotTri(p[0], p[1], p[2]));
  c.o(Height_Tet(p[0], p[1], p[2], p[3])); c.o(Volume_Tet(p[0], p[1], p[2], p[3])); CVec3d P[4]; for (int i = 0; i < 4; ++i) P[i] = CVec3d(i == 1, i == 2, i == 3); c.o(DeformationGradientOfTet(P[0], P[1], P[2], P[3], p[0], p[1], p[2], p[3])); double dF[4][3]; DiffDeformationGradientOfTet(dF, P[0], P[1], P[2], P[3]); c.o(&dF[0][0], 12); }
OP(nearest_lines) { CVec3d a = v3(c), b = v3(c), d = v3(c), e = v3(c), x, y; double r, s, D, ta, tb; o(c, Nearest_Edge_Point(r, a, b, d)); c.o(r); Nearest_Edge3_Line3(x, y, a, b, d, e); o(c, x); o(c, y); c.o(Distance_Edge3_Edge3(a, b, d, e, r, s)); c.o(r); Nearest_Line3_Line3(D, x, y, ta, tb, a, b, d, e); c.o(D); o(c, x); o(c, Nearest_Line3_Point3(a, b, d)); o(c, Intersection_Plane3_Line3(a, b, d, e)); CVec3d p0, q0; Nearest_Line_Circle(p0, q0, a, b, d, CVec3d(0, 0, 1), .7); o(c, p0); o(c, q0);
  CVec2d A = v2(c), B = v2(c), C = v2(c), E = v2(c); c.o(IsIntersect_Edge2_Edge2(A, B, C, E)); }
OP(quad_patches) { CVec3d q[12]; for (auto &x : q) x = v3(c); double s0, s1; o(c, Nearst_Origin3_Quad3(s0, s1, q[0], q[1], q[2], q[3])); o(c, getPointHermetianQuad(.2, .7, q)); }
OP(ccd) { CVec3d p[8]; for (auto &x : p) x = v3(c); double r = 0; bool b = FindCoplanerInterp(r, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); c.o(b); if (b) c.o(r); double q[3] = {.5, .5, .5}; c.o(Nearest_LineSeg_LineSeg_CCD_Iteration(q, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], 10)); c.o(q, 3); c.o(IsContact_FV_CCD2(0, 1, 2, 3, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])); }
OP(mat3_svd) { CMat3d F; for (int i = 0; i < 9; ++i) F.p_[i] = c.r(-1, 1); CMat3d U, V; double G[3]; Svd3(U.p_, G, V.p_, F.p_, 30); c.o(G, 3); o(c, U); o(c, V); double R[9]; GetRotPolarDecomp(R, F.p_, 30); c.o(R, 9); CMat3d I = F.Inverse(); o(c, I); o(c, F * I); c.o(F.determinant()); double ev[3], sm[6]; for (double &x : sm) x = c.r(-1, 1); double UU[9]; EigenSym3(UU, ev, sm, 30); c.o(ev, 3); c.o(UU, 9); }
OP(mat4) { CMat4d A = CMat4d::Translation(std::array<double, 3>{c.r(-1, 1), .2, .3}.data()), B; double q[4] = {c.r(-1, 1), c.r(-1, 1), c.r(-1, 1), 1}; Normalize_Quat(q); B = CMat4d::Quat(q); CMat4d C = A * B; c.o(C.mat, 16); CMat4d D = C.Inverse(); c.o(D.mat, 16); c.o((C * D).mat, 16); }
OP(quaternion) { double a[4], b[4], r[4], v[3] = {1, 2, 3}, w[3]; for (double &x : a) x = c.r(-1, 1); for (double &x : b) x = c.r(-1, 1); Normalize_Quat(a); Normalize_Quat(b); QuatQuat(r, a, b); c.o(r, 4); QuatVec(w, r, v); c.o(w, 3); double R[9]; Mat3_Quat(R, r); c.o(R, 9); }
OP(polynomial) { double k[6]; for (double &x : k) x = c.r(-1, 1); k[5] = 1; auto rt = RootsOfPolynomial<6>(k, 20); c.o(rt); c.o(RootsInRange_QuadraticPolynomial(-1., 1., k[0], k[1], k[2])); }
OP(math_expression) { CMathExpressionEvaluator e; e.SetKey("x", c.r(.1, 2)); e.SetKey("t", c.r(.1, 2)); static const char *const ex[] = {"sin(x)+t*2", "x^2-t/3", "sqrt(x+1)*exp(t)", "abs(x-3)+floor(t)", "cos(x*t)-(x+t)*(x-t)", "2*x"}; bool b = e.SetExp(ex[c.g.n(6)]); c.o(b); if (b) { c.o(e.Eval()); e.SetKey("x", 1.5); c.o(e.Eval()); } }
}
