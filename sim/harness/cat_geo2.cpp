// catalogue: small geometry and linear algebra
#include "catalog.h"
#include <complex>
#include <sstream>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/matn.h"
#include "delfem2/quat.h"
#include "delfem2/svd3.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/geosolidelm_v3.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_surface_parametric.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/geo_gjksat3.h"
#include "delfem2/polynomial_root.h"
#include "delfem2/specialfuncs.h"
#include "delfem2/grid3hash.h"
#include "delfem2/img_interpolation.h"
#include "delfem2/cvimggraygrad.h"
#include "delfem2/vecxitrsol.h"
using namespace delfem2;
namespace {
CVec3d v3(cat::Ctx &c, double a = 1) { return CVec3d(c.r(-a, a), c.r(-a, a), c.r(-a, a)); }
CVec2d v2(cat::Ctx &c, double a = 1) { return CVec2d(c.r(-a, a), c.r(-a, a)); }
void o(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
void o(cat::Ctx &c, const CVec2d &v) { c.o(v.p, 2); }
void o(cat::Ctx &c, const CMat3d &m) { c.o(m.p_, 9); }
template<class T> void o(cat::Ctx &c, const std::vector<T> &v) { c.o(v.size()); for (auto &x : v) o(c, x); }
OP(mat3_more) { double q[4] = {c.r(-1, 1), c.r(-1, 1), c.r(-1, 1), 1}; Normalize_Quat(q); CMat3d A = CMat3d::Quat(q), B = CMat3d::Skew(v3(c)), S = CMat3d(1.5, .2, .3, -.1, 2, .4, c.r(-1, 1), .1, 3); o(c, A * S + B - 2. * S); o(c, S.Inverse()); CMat3d T = S; T.SetInverse(); o(c, T); o(c, S.transpose()); c.o(S.determinant()); c.o(S.trace()); c.o(S.squaredNorm()); o(c, S.Sym()); o(c, S.MatMat(A)); double w[3] = {1, 2, 3}; c.o(S.MatVec(w)); double y[3]; S.MatVecTrans(w, y); c.o(y, 3); c.o(A.GetQuaternion()); CMat3d D; D.SetRotMatrix_BryantAngle(.1, c.r(-1, 1), .3); o(c, D); double sm[6] = {1, 2, 3, .1, .2, .3}; double m4[16]; S.AffineMatrixTrans(m4); c.o(m4, 16); S.CopyToMat4(m4); D.SetIdentity(); D.SetMat4(m4); o(c, D);
  o(c, CMat3d::OuterProduct(w, y)); c.o(Det_Mat3(S.p_)); double e[9]; Inverse_Mat3(e, S.p_); c.o(e, 9); MatMatT3(e, S.p_, A.p_); c.o(e, 9); MatTMat3(e, S.p_, A.p_); c.o(e, 9); MatTMat3_ScaleAdd(e, S.p_, A.p_, .5, 2.); c.o(e, 9); Mat3_Spin_ScaleAdd(e, w, .5, 1.); c.o(e, 9); MatTVec3(y, S.p_, w); c.o(y, 3); MatVec3_ScaleAdd(y, S.p_, w, 2., .5); c.o(y, 3); double x2[2] = {.3, c.r(-1, 1)}; c.o(Vec2_Mat3Vec2_Homography(S.p_, x2)); double y2[2]; Vec2_Mat3Vec2_AffineDirection(y2, S.p_, x2); c.o(y2, 2);
  AxisAngleVectorCRV_Mat3(y, A.p_); c.o(y, 3); AxisAngleVectorCartesian_Mat3(y, A.p_); c.o(y, 3); EulerAngle_Mat3(y, A.p_, {2, 1, 0}); c.o(y, 3); Mat3_RotMatFromAxisAngleVec(e, w); c.o(e, 9); Quat_Mat3(q, A.p_); c.o(q, 4); c.o(SquareNormFrobenius_SymMat3(sm)); double u[9], l[3]; EigenSym3(u, l, sm, 30); c.o(u, 9); c.o(l, 3); CMat3d U, G, V; std::tie(U, G, V) = Svd3(S, 30); o(c, U); o(c, G); o(c, V); double df[9][3][3]; Svd3Differential(df, U, G, V); c.o(&df[0][0][0], 81); GetRotPolarDecomp(e, S.p_, 30); c.o(e, 9); }
OP(mat4_more) { double A[16], B[16], C[16]; Mat4_AffineLookAt(A, 3., c.r(1, 2), 2., 0., 0., 0., 0., 1., 0.); Mat4_AffineProjectionFrustum(B, .8, c.r(.5, 2), .1, 10.); MatMat4(C, B, A); c.o(C, 16); double I[16]; Inverse_Mat4(I, C); c.o(I, 16); c.o(Inverse_Mat4(C)); Mat4_AffineProjectionOrtho(B, -1., c.r(1, 2), -1., 1., -1., 3.); c.o(B, 16); double w[3] = {.1, c.r(-1, 1), .3}; Mat4_AffineRotationCartesian(B, w); c.o(B, 16); Rotate_Mat4AffineRodriguez(B, w); c.o(B, 16); Translate_Mat4Affine(B, w); c.o(B, 16); c.o(Vec3_Mat4Vec3_Homography(C, w)); c.o(Vec2_Mat4Vec3_Homography(C, w)); double y[3]; Vec3_Mat4Vec3_Affine(y, B, w); c.o(y, 3); Vec3_Vec3Mat4_Homography(y, w, C); c.o(y, 3); Mat4Vec3(y, B, w); c.o(y, 3); Vec3Mat4(y, w, B); c.o(y, 3); double q[4] = {.5, .5, .5, .5}; Mat4_ScaleRotTrans(B, 2., q, w); c.o(B, 16); Transpose_Mat4(A, B); c.o(A, 16); CMat4d M(C), N = M.Inverse() * M - CMat4d::Identity(); c.o(N.mat, 16); c.o(M.GetMat3()); c.o(M.GetTranslationComponent()); c.o(M.MultVec3(w)); c.o(M.MultVec3_Homography(w)); c.o(CMat4d::AffineOrthogonalProjection(-1, 1, -1, 1, -1, 1).mat, 16); c.o(CMat4d::AffineAxisTransform({1, 0, 0}, {0, 0, 1}, {0, 1, 0}).mat, 16); c.o(CMat4d::Skew(w).mat, 16); auto rr = RayFromInverseMvpMatrix(I, 3, 4, 10u, 12u); c.o(rr.first); c.o(rr.second);
  double n[16]; for (int k = 0; k < 16; ++k) n[k] = c.r(-1, 1) + 4 * (k % 5 == 0); c.o(Inverse_Matrix<double, 4>(n)); c.o(n, 16); double P[16]; MatMat<double, 4>(P, n, C); c.o(P, 16); Sub_MatMat<double, 4>(P, n, C); c.o(P, 16); double v4[4]; double x4[4] = {1, 2, 3, 4}; MatVec<double, 4, 4>(v4, n, x4); c.o(v4, 4); }
OP(quat_more) { CQuatd a(c.r(-1, 1), .2, .3, .9), b(.1, c.r(-1, 1), .2, .8); a.normalize(); b.normalize(); auto oq = [&](const CQuatd &q) { c.o(q.p, 4); }; oq(a * b); oq(a.conjugate()); oq(a + b); oq(a - b); oq(SphericalLinearInterp(a, b, c.r(0, 1))); CQuatd s = a; s.SetSmallerRotation(); oq(s); c.o(a.norm()); c.o(a.RotateVector(v3(c))); double q[4]; Quat_Bryant(q, .1, c.r(-1, 1), .3); c.o(q, 4); Quaternion_EulerAngle<double>(q, {c.r(-1, 1), .2, .3}, {2, 1, 0}); c.o(q, 4); double w[3] = {.1, c.r(-1, 1), .2}, y[3]; Quat_CartesianAngle(q, w); c.o(q, 4); QuatConjVec(y, q, w); c.o(y, 3); double i[4]; Inverse_Quat(i, q); c.o(i, 4); c.o(Dot_Quat(q, i)); c.o(Length_Quat(q)); c.o(Mult_QuatQuat(q, a.p)); }
OP(mat2_vec2) { double A[4] = {c.r(1, 2), c.r(-1, 1), .3, c.r(1, 2)}, B[4], C[4]; c.o(InverseMat2(B, A)); c.o(B, 4); gramian2(C, A); c.o(C, 4); RotationalComponentOfMatrix2(C, A); c.o(C, 4); VLVt2(C, 1., 2., A); c.o(C, 4); MatMat2(C, A, B); c.o(C, 4); double v[2] = {1, 2}, w[2]; MatVec2(w, A, v); c.o(w, 2); CMat2d M(A[0], A[1], A[2], A[3]), R, S, U, G, V; polar_decomposition(R, S, M); c.o(R.p, 4); c.o(S.p, 4); svd(U, G, V, M); c.o(U.p, 4); c.o(G.p, 4); c.o(V.p, 4); c.o(M.transpose().p, 4); c.o(M.determinant());
  CVec2d p[5]; for (auto &q : p) q = v2(c); c.o(DetDelaunay(p[0], p[1], p[2], p[3])); c.o(Area_Tri2(p[0], p[1], p[2])); c.o(IsCrossLines(p[0].p, p[1].p, p[2].p, p[3].p)); o(c, rotate(p[0], .3)); o(c, Mat2Vec(A, p[1])); std::vector<CVec2d> vv(p, p + 5); unsigned ip[3] = {0, 2, 4}; double MM[9]; MakeMassMatrixTri(MM, 2., ip, vv); c.o(MM, 9); c.o(Area_Tri(0, 1, 2, vv)); double wn[2] = {3, c.r(1, 4)}; Normalize2(wn); c.o(wn, 2); }
OP(triangles_more) { CVec3d p[8]; for (auto &q : p) q = v3(c); std::vector<double> x; std::vector<unsigned> t = {0, 1, 2, 3, 4, 5}; for (int k = 0; k < 6; ++k) p[k].push_back_to_vector(x); CVec3d a, b; c.o(isIntersectTriPair(a, b, 0, 1, t, x)); double w0, w1; c.o(DistanceFaceVertex(p[0], p[1], p[2], p[3], w0, w1)); c.o(w0); c.o(w1); c.o(SquareTriArea(p[0], p[1], p[2])); c.o(Area_Tri3(p[0], p[1], p[2])); CVec3d n; Normal_Tri3(n, p[0], p[1], p[2]); o(c, n); UnitNormal_Tri3(n, p[0], p[1], p[2]); o(c, n); double ar; UnitNormalAreaTri3(n, ar, p[0], p[1], p[2]); o(c, n); c.o(ar); c.o(SolidAngleTri(p[0], p[1], p[2])); c.o(CG_Tri3(1, t, x)); c.o(Normal_Tri3(1, t, x)); c.o(Mat3_IrotTri(p[0], p[1], p[2])); c.o(Mat3_IrotTriSolid(p[0], p[1], p[2])); double r0, r1; o(c, Nearest_Origin3_Tri3(r0, r1, p[0], p[1], p[2])); c.o(r0); c.o(r1); double np[3]; Nearest_Triangle3_Point3(np, r0, r1, p[3].p, p[0].p, p[1].p, p[2].p); c.o(np, 3); c.o(r0); c.o(r1); bool h2 = IntersectRay_Tri3(r0, r1, p[0], p[1], p[2], p[3], p[4], 1e-4); c.o(h2); if (h2) { c.o(r0); c.o(r1); } }
OP(tetrahedra) { CVec3d p[9]; for (auto &q : p) q = v3(c); p[3] = p[0] + 1.5 * (p[1] - p[0]).cross(p[2] - p[0]) + v3(c, .01); if (Volume_Tet(p[0], p[1], p[2], p[3]) < 1e-6) return; c.o(Height_Tet(p[0], p[1], p[2], p[3])); double r[3]; c.o(barycentricCoord_Origin_Tet(r[0], r[1], r[2], p[0], p[1], p[2], p[3])); c.o(r, 3); c.o(Volume_OrgTet(p[0], p[1], p[2])); c.o(Volume_Tet(p[0], p[1], p[2], p[3])); c.o(Mat3_3BasesOfTet(p[0], p[1], p[2], p[3])); c.o(DeformationGradientOfTet(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])); double dF[4][3]; DiffDeformationGradientOfTet(dF, p[0], p[1], p[2], p[3]); c.o(&dF[0][0], 12); c.o(LongestSquaredEdgeLengthOfTet(p[0], p[1], p[2], p[3])); c.o(ShortestSquaredEdgeLengthOfTet(p[0], p[1], p[2], p[3])); o(c, CircumCenter(p[0], p[1], p[2], p[3])); c.o(Circumradius(p[0], p[1], p[2], p[3])); c.o(SquareCircumradius(p[0], p[1], p[2], p[3])); c.o(DetDelaunay(p[0], p[1], p[2], p[3]));
  c.o(Volume_Pyramid(p[0], p[1], p[2], p[3], p[4])); c.o(Volume_Wedge(p[0], p[1], p[2], p[3], p[4], p[5])); o(c, positionBarycentricCoord_Pyramid(.1, .2, .3, p[0], p[1], p[2], p[3], p[4])); o(c, positionBarycentricCoord_Wedge(.1, .2, .3, p[0], p[1], p[2], p[3], p[4], p[5])); }
OP(edges_lines) { CVec3d p[6]; for (auto &q : p) q = v3(c); double r; o(c, Nearest_Origin_Edge(r, p[0], p[1])); c.o(r); o(c, Nearest_Edge_Point(r, p[0], p[1], p[2])); c.o(r); c.o(Distance_Edge_Point(p[0], p[1], p[2])); CVec2d q[4]; for (auto &x : q) x = v2(c); c.o(IsIntersect_Edge2_Edge2(q[0], q[1], q[2], q[3])); double n[3]; Nearest_Edge3_Point3(n, p[0].p, p[1].p, p[2].p); c.o(n, 3); CVec3d a, b; Nearest_Edge3_Line3(a, b, p[0], p[1], p[2], p[3]); o(c, a); o(c, b); double s, t; c.o(Distance_Edge3_Edge3(p[0], p[1], p[2], p[3], s, t)); c.o(s); c.o(t); c.o(IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, p[0], p[1], p[2], p[3], .5)); c.o(Mat3_IrotLineSeg(p[0], p[1])); c.o(FindNearestPointParameter_Line_Point(p[0], p[1], p[2])); o(c, Nearest_Line3_Point3(p[0], p[1], p[2])); double D, ta, tb; Nearest_Line3_Line3(D, a, b, ta, tb, p[0], p[1], p[2], p[3]); c.o(D); o(c, a); o(c, b); c.o(ta); c.o(tb); CVec3d nn = p[4]; nn.normalize(); Nearest_Line_Circle(a, b, p[0], p[1], p[2], nn, .7); o(c, a); o(c, b); }
OP(quad_query) { CVec3d q[4] = {CVec3d(0, 0, c.r(-.2, .2)), CVec3d(1, 0, 0), CVec3d(1, 1, c.r(-.2, .2)), CVec3d(0, 1, .1)}; double s0, s1; CVec3d p; bool h = intersection_Point_Quad(p, s0, s1, CVec3d(c.r(0, 1), c.r(0, 1), 1), CVec3d(0, 0, -1), q[0], q[1], q[2], q[3]); c.o(h); if (h) { o(c, p); c.o(s0); c.o(s1); } std::vector<int> qi = {0, 1, 2, 3}; std::vector<CVec3d> ap(q, q + 4); o(c, QuadBilinear(0, .3, c.r(0, 1), qi, ap)); for (auto &x : q) x -= CVec3d(.3, .4, c.r(-1, 1)); o(c, Nearst_Origin3_Quad3(s0, s1, q[0], q[1], q[2], q[3])); c.o(s0); c.o(s1); }
OP(gjk3) { std::vector<CVec3d> A, B; CVec3d d = v3(c, .9); for (int k = 0; k < 8; ++k) { A.push_back(CVec3d(k & 1 ? .5 : -.5, k & 2 ? .5 : -.5, k & 4 ? .5 : -.5)); B.push_back(A.back() * c.r(.6, .9) + d); } c.o(IsIntersect_Points3_Points3_Gjk(A, B)); std::vector<unsigned> fa, fb; ConvexHull3(fa, A); ConvexHull3(fb, B); c.o(fb); o(c, FindFurthest(A, d)); auto r = Range_ProjectionPointsOnAxis(A, d); c.o(r.first); c.o(r.second); }
OP(curves_more) { CVec2d p[4]; for (auto &q : p) q = v2(c); std::vector<CVec2d> cp; int n = c.i(5, 8); for (int k = 0; k < n; ++k) cp.push_back(v2(c)); std::vector<CVec2d> s; if (cat::dirty) s.assign(cat::dirty, CVec2d(1, 1)); Polyline_CubicBSplineCurve(s, 9, cp); o(c, s); Polyline_CatmullRomSplineCurve(s, 9, cp); o(c, s); Polyline_BezierCubic(s, 7, p[0], p[1], p[2], p[3]); o(c, s); Polyline_BezierQuadratic(s, 7, p[0], p[1], p[2]); o(c, s); o(c, Sample_BsplineCurve<CVec2d, 4>(c.r(0, n - 3), cp)); o(c, Sample_BsplineDerivative<CVec2d, 4>(c.r(0, n - 3), cp)); o(c, PointOnQuadraticBezierCurve(c.r(0, 1), p[0], p[1], p[2])); c.o(Length_QuadraticCurve_Gauss(p[0], p[1], p[2], 3)); c.o(Length_QuadraticCurve(p[0], p[1], p[2])); c.o(Nearest_Origin_QuadraticCurve(p[0], p[1], p[2], 20)); c.o(AABB_QuadraticCurve(p[0], p[1], p[2])); c.o(WindingNumber_QuadraticCurve2(p[0], p[1], p[2], 15, 5)); double co[4][4]; CoefficientsOfOpenUniformCubicBSpline(co, c.i(0, 4), 5); c.o(&co[0][0], 16); double c3[3][3]; CoefficientsOfOpenUniformBSpline_Quadratic(c3, c.i(0, 4), 5u); c.o(&c3[0][0], 9);
  std::vector<double> fk; std::vector<int> km = {4, 1, 1, 4}; std::vector<double> kn = {0, .3, .6, 1}; FlatKnot(fk, km, kn); c.o(fk); std::vector<CVec2d> c6(cp); c6.resize(6, CVec2d(.1, .2)); o(c, DeBoorBSpline(c.r(.05, .95), 3, c6, fk)); SampleBSpline(s, 8, 3, fk, c6); o(c, s); }
OP(surfaces) { std::vector<CVec3d> cp; for (int k = 0; k < 16; ++k) cp.push_back(v3(c)); std::vector<CVec3d> s; if (cat::dirty) s.assign(cat::dirty, CVec3d(1, 1, 1)); getCubicBezierSurface(3, s, cp); o(c, s); CVec3d h[12]; for (auto &x : h) x = v3(c); o(c, getPointHermetianQuad(c.r(0, 1), c.r(0, 1), h)); o(c, getPointSurfaceBezierCubic(c.r(0, 1), c.r(0, 1), cp[0], cp[1], cp[2], cp[3], cp[4], cp[5], cp[6], cp[7], cp[8], cp[9], cp[10], cp[11], cp[12], cp[13], cp[14], cp[15])); }
OP(polynomials_more) { double q[3] = {c.r(-1, 1), c.r(-2, 2), c.r(.5, 1)}, s3[3][3] = {}; SturmSequenceOfPolynomial_Quadratic(s3, q); c.o(&s3[0][0], 9); double cu[4] = {c.r(-1, 1), c.r(-1, 1), .3, 1}, s4[4][4] = {}; SturmSequenceOfPolynomial_Cubic(s4, cu); c.o(&s4[0][0], 16); double s5[5][5] = {}, f[5] = {c.r(-1, 1), .2, c.r(-1, 1), .1, 1}; SturmSequenceOfPolynomial<5>(s5, f); c.o(&s5[0][0], 25); c.o(SturmNumber<5>(c.r(-1, 1), s5)); c.o(Eval_Polynomial(.3, f, 5)); c.o(RootsOfPolynomial<5>(f, 20)); auto ri = RootInterval_SturmSequence<5>(-3, 3, s5); c.o(ri); for (auto &p : ri) c.o(RootInInterval_Bisection(p.first, p.second, f, 5, 10)); std::complex<double> h[9]; makeArray_CoeffSphericalHankelFirst(4, h, c.r(.5, 2)); for (int k = 0; k < 4; ++k) { c.o(h[k].real()); c.o(h[k].imag()); } double P[64] = {}; makeArrayAssociatedLegendre(4, P, c.r(-.9, .9)); c.o(P, 15); }
OP(images) { int w = c.i(2, 5), h = c.i(2, 5); std::vector<unsigned char> im(w * h * 3); for (auto &x : im) x = c.g.n(256); double col[3]; for (int k = 0; k < 3; ++k) { ImageInterpolation_Bilinear(col, w, h, im.data(), c.r(0, 1), c.r(0, 1)); c.o(col, 3); } std::vector<float> rgb(4 * 5 * 3), g(4 * 5 * 4); for (auto &x : rgb) x = c.r(0, 1); float sc[3] = {.3f, .6f, .1f}; Grayscale(g.data(), 1, 4, 5, rgb.data(), sc); c.o(g.data(), 20); c.o(WGrid1Cubic(c.r(-2, 2))); c.o(dWGrid1Cubic(c.r(-2, 2))); c.o(WGrid3Cubic(1.5, c.r(-1, 1), .2, .3)); c.o(dWGrid3Cubic(1.5, c.r(-1, 1), .2, .3)); std::hash<GridCoordinate3> hs; c.o(hs(GridCoordinate3(c.i(-9, 9), 2, 3)) == hs(GridCoordinate3(1, 2, 3))); }
OP(vectors) { int n = c.i(1, 12); std::vector<double> x = c.vec(n), y = c.vec(n), z = c.vec(n), w = c.vec(n); std::vector<int> bc(n); for (auto &b : bc) b = c.g.n(4) == 0; c.o(DotX(x.data(), y.data(), (size_t) n)); c.o(Dot(x, y)); XPlusAY(x, n, bc, .3, y); c.o(x); AXPY(.2, y, x); c.o(x); XPlusAYBZ(x, n, bc, .1, y, .2, z); c.o(x); XPlusAYBZCW(x, n, bc, .1, y, .2, z, .3, w); c.o(x); setRHS_Zero(x, bc, 0); c.o(x); NormalizeX(y.data(), n); c.o(y); OrthogonalizeToUnitVectorX(z.data(), y.data(), n); c.o(z); ScaleX(z.data(), .5, (size_t) n); c.o(z); std::vector<double> A = c.vec(n * 3), u = c.vec(3), v(n); MatVec(v.data(), A.data(), n, 3, u.data()); c.o(v); MatTVec(u.data(), .5, A.data(), n, 3, w.data(), .5); c.o(u); c.o(Distance(x, y)); }
}
