// catalogue: vectors, matrices, quaternions, boxes and other small arithmetic
#include "catalog.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/mat4.h"
#include "delfem2/quat.h"
#include "delfem2/svd3.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geosolidelm_v3.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
#include "delfem2/geo_convhull3.h"
#include "delfem2/mshelm.h"
#include "delfem2/metashape_camera.h"
#include "delfem2/cvcamera.h"
#include "delfem2/cvimggraygrad.h"
#include "delfem2/rgd_v2m3.h"
#include "delfem2/fdm_array2.h"
using namespace delfem2;
namespace {
template<class T, size_t N> void rnd(cat::Ctx &c, T (&a)[N], double lo = -1, double hi = 1) { for (T &v : a) v = (T) c.r(lo, hi); }
template<class T, size_t N> void stale(T (&a)[N]) { for (size_t k = 0; k < N; ++k) a[k] = cat::dirty ? (T) (3 + k % 5) : T(0); }
#define O(a) c.o(a, sizeof(a) / sizeof(a[0]))
CVec3d v3(cat::Ctx &c, double s = 1) { return CVec3d(c.r(-s, s), c.r(-s, s), c.r(-s, s)); }
void ov(cat::Ctx &c, const CVec3d &v) { c.o(v.p, 3); }
template<class T> void vec(cat::Ctx &c) { T a[2], b[2], d[2]; rnd(c, a); rnd(c, b); rnd(c, d); c.o(Dot2(a, b)); c.o(Length2(a)); c.o(Distance2(a, b)); c.o(SquareLength2(a)); c.o(SquareDistance2(a, b)); c.o(Area_Tri2(a, b, d)); Normalize2(a); O(a); typedef CVec2<T> V; V p(a), q(b[0], b[1]), r = p + q; r -= V(d); r *= .5; c.o(r.p, 2); r = -r + p * (T) 2; c.o((r ^ p)); c.o(r.dot(q)); c.o(r.norm()); c.o(r.normalized().p, 2); c.o(r.Rotate((T) .3).p, 2); c.o(rotate(r, .3).p, 2); c.o(rotate90(r).p, 2); T A[9]; rnd(c, A); A[8] = 3; c.o(r.Mat3Vec2_AffineProjection(A).p, 2); c.o(r.Mat3Vec2_AffineDirection(A).p, 2); c.o(Cross2(p, q)); c.o(Cross(p, q)); c.o(Dot(p, q)); c.o(Distance(p, q)); c.o(SquareDistance(p, q)); c.o(Length(p)); c.o(SquareLength(p)); c.o(Area_Tri2(p, q, r));
  T x[3], y[3], z[3], w[3]; rnd(c, x); rnd(c, y); rnd(c, z); stale(w); c.o(Dot3(x, y)); c.o(Distance3(x, y)); c.o(Length3(x)); c.o(SquareDistance3(x, y)); c.o(SquareLength3(x)); Cross(w, x, y); O(w); c.o(ScalarTripleProduct(x, y, z)); stale(w); AverageTwo3(w, x, y); O(w); stale(w); AverageFour3(w, x, y, z, w == nullptr ? x : z); O(w); Add3(w, x); O(w); CVec3<T> e(x), f(y), g = e.cross(f) + f * (T) 2 - e / (T) 3; c.o(g.p, 3); c.o(e.mult(f).p, 3); c.o(g.normalized().p, 3); c.o(g.dot(e)); g.CopyToScale(w, (T) 2); O(w); g.AddToScale(w, (T) .5); O(w); c.o(g.isNaN()); std::vector<T> pv; g.push_back_to_vector(pv); c.o(pv); c.o(e == f); c.o(CVec3<T>::Axis(c.g.n(3)).p, 3); CVec3<T> fx, fy; FrameFromVectorZ(fx, fy, e); c.o(fx.p, 3); c.o(fy.p, 3); if constexpr (sizeof(T) == 8) c.o(RotateVec3WithAxisAngleVector(e, f).p, 3); Normalize3(x); O(x); }
OP(vec_small) { vec<double>(c); vec<float>(c); double a[2], b[2], d[2], e[2]; rnd(c, a); rnd(c, b); rnd(c, d); rnd(c, e); c.o(IsCrossLines(a, b, d, e)); std::vector<CVec2d> P; for (int i = 0; i < 4; ++i) P.emplace_back(c.r(-1, 1), c.r(-1, 1)); c.o(Area_Tri(0, 1, 2, P)); c.o(DetDelaunay(P[0], P[1], P[2], P[3])); double M[9]; unsigned ip[3] = {0, 1, 2}; stale(M); MakeMassMatrixTri(M, 1.2, ip, P); O(M); CBoundingBox2<double> bb; bb.Add(a[0], a[1]); c.o(bb.isActive()); bb.Add(b[0], b[1]); c.o(bb.LengthDiagonal()); CBoundingBox2<double> b2(-.2, .3, -.3, .2); bb += b2; c.o(bb.LengthDiagonal()); }
template<class T> void m3(cat::Ctx &c) { T A[9], B[9], C[9], v[3], w[3]; rnd(c, A); rnd(c, B); rnd(c, v); A[0] += 3; A[4] += 3; A[8] += 3; stale(C); MatMat3(C, A, B); O(C); MatMatT3(C, A, B); O(C); MatTMat3(C, A, B); O(C); MatTMat3_ScaleAdd(C, A, B, (T) .5, (T) .2); O(C); Transpose_Mat3(C, A); O(C); Inverse_Mat3(C, A); O(C); Inverse_Mat3(A); O(A); c.o(Det_Mat3(A)); stale(w); MatVec3(w, A, v); O(w); MatTVec3(w, A, v); O(w); MatVec3_ScaleAdd(w, A, v, (T) .3, (T) .4); O(w); MatTVec3_ScaleAdd(w, A, v, (T) .3, (T) .4); O(w); stale(C); Mat3_Spin(C, v); O(C); Mat3_Spin_ScaleAdd(C, v, (T) .5, (T) .25); O(C); Mat3_Identity(C, (T) 2); O(C); Mat3_Identity_ScaleAdd(C, (T) .5, (T) .25); O(C); stale(C); Mat3_AffineRotation(C, v[0]); O(C); stale(C); Mat3_AffineTranslation(C, v); O(C); stale(C); Mat3_RotMatFromAxisAngleVec(C, v); O(C); T q[4], q2[4]; stale(q2); Quat_CartesianAngle(q, v); O(q); stale(C); Mat3_Quat(C, q); O(C); Quat_Mat3(q2, C); O(q2); T a[3]; stale(a); AxisAngleVectorCartesian_Mat3(a, C); O(a); stale(a); AxisAngleVectorCRV_Mat3(a, C); O(a); T x2[2] = {v[0], v[1]}, y2[2]; stale(y2); A[8] += 4; Vec2_Mat3Vec2_Homography(y2, A, x2); O(y2); stale(y2); Vec2_Mat3Vec2_AffineDirection(y2, A, x2); O(y2); }
OP(mat3_small) { m3<double>(c); m3<float>(c); CVec3d u = v3(c), v = v3(c), w = v3(c); u.normalize(); v.normalize(); c.o(Mat3_From3Bases(u, v, w)); c.o(Mat3_MinimumRotation(u, v)); c.o(Mat3_OuterProduct(u, w)); c.o(Mat3_Spin(w)); c.o(Mat3_NormalProjection(u)); c.o(Mat3_Mirror(u)); c.o(Mat3_RotMatFromAxisAngleVec(w)); c.o(Mat3_RotMatFromRodriguesVector(w)); c.o(Mat3_RotMatFromConformalRotationVector(w)); c.o(Mat3_CrossCross(w)); double sm[6], y[3], x[3], m[9]; rnd(c, sm); rnd(c, x); rnd(c, m); c.o(SquareNormFrobenius_SymMat3(sm)); stale(y); VecMat3(y, x, m); O(y); auto R = Mat3_RotMatFromAxisAngleVec(w); double ea[3]; stale(ea); EulerAngle_Mat3(ea, R.data(), std::array<int, 3>{2, 1, 0}); O(ea); CMat3d A(m), B(R); A = A + B * 2. - B.transpose(); A *= .5; c.o(A.p_, 9); CMat3d I = (A + CMat3d::Identity(4.)).Inverse(); c.o(I.p_, 9); c.o(I.determinant()); c.o(I.trace()); c.o(I.squaredNorm()); c.o((I * B).p_, 9); ov(c, I * u); c.o(I.Sym().p_, 9); double m16[16]; stale(m16); I.AffineMatrixTrans(m16); O(m16); std::fill(m16, m16 + 16, .5); I.CopyToMat4(m16); O(m16); I.SetMat4(m16); c.o(I.GetQuaternion()); I.SetRotMatrix_BryantAngle(.1, u.p[0], .3); c.o(I.p_, 9); c.o(I.isNaN()); I.SetRotMatrix_Quaternion(B.GetQuaternion().data()); c.o(I.p_, 9); c.o(CMat3d::Skew(u).p_, 9); c.o(CMat3d::OuterProduct(u.p, v.p).p_, 9); double y3[3]; stale(y3); I.MatVecTrans(u.p, y3); O(y3); c.o(I.MatVec(v.p)); I.CopyToScale(m, 2.); I.AddToScale(m, .5); O(m);
  float f[3] = {.1f, .2f, .3f}; c.o(Mat3_Identity(2.)); CMat2d M2(c.r(-1, 1), .2, c.r(-1, 1), 1.5); CMat2d Rr, S; polar_decomposition(Rr, S, M2); c.o(Rr.p, 4); c.o(S.p, 4); CMat2d U, sg, V; svd(U, sg, V, M2); c.o(sg.p, 4); M2.transposeInPlace(); double o2[2]; stale(o2); M2.multiply_vec2(o2, x); O(o2); c.o(M2.determinant()); double iv[4], g[4]; stale(iv); stale(g); c.o(InverseMat2(iv, M2.p)); O(iv); gramian2(g, M2.p); O(g); RotationalComponentOfMatrix2(g, M2.p); O(g); }
template<class T> void m4(cat::Ctx &c) { T A[16], B[16], C[16], v[4], w[4], q[4]; rnd(c, A); rnd(c, B); rnd(c, v); rnd(c, q); Normalize_Quat(q); for (int i = 0; i < 4; ++i) A[i * 5] += 4; stale(C); MatMat4(C, A, B); O(C); stale(C); Inverse_Mat4(C, A); O(C); Transpose_Mat4(C, A); O(C); Copy_Mat4(C, B); O(C); stale(w); MatVec4(w, A, v); O(w); VecMat4(w, v, A); O(w); T R[9], y[3]; rnd(c, R); stale(C); Mat4_Mat3(C, R); O(C); stale(C); Mat4_AffineTrans_RotTransl(C, R, v); O(C); Mat4_Identity(C); O(C); stale(C); Mat4_AffineProjectionOrtho(C, (T) -1, (T) 1, (T) -2, (T) 2, (T) -3, (T) 3); O(C); stale(C); Mat4_AffineLookAt(C, v[0], v[1], (T) 3, (T) 0, (T) 0, (T) 0, (T) 0, (T) 1, (T) 0); O(C); stale(C); Mat4_AffineProjectionFrustum(C, (T) .7, (T) 1.2, (T) .1, (T) 9); O(C); stale(C); Mat4_AffineScale(C, (T) 2); O(C); stale(C); Mat4_AffineTranslation(C, v[0], v[1], v[2]); O(C); stale(C); Mat4_AffineRotationCartesian(C, v); O(C); Rotate_Mat4AffineRodriguez(C, v); O(C); Translate_Mat4Affine(C, v); O(C); stale(y); Mat4Vec3(y, C, v); O(y); stale(y); Vec3_Mat4Vec3_Affine(y, C, v); O(y); stale(y); Vec3_Vec3Mat4_Homography(y, v, C); O(y); c.o(Vec3_Mat4Vec3_Homography(C, v)); c.o(Vec2_Mat4Vec3_Homography(C, v)); stale(C); Mat4_AffineQuaternion(C, q); O(C); stale(C); Mat4_AffineQuaternionConjugate(C, q); O(C); c.o(Mat4_AffineRotationRodriguez(v[0], v[1], v[2])); CMat4<T> M(A), N = CMat4<T>::Quat(q), P = M * N + N - M; c.o(P.mat, 16); c.o(M.Inverse().mat, 16); c.o(M.transpose().mat, 16); c.o(M.GetMat3()); c.o(M.GetTranslationComponent()); c.o(M.MultVec3(v)); c.o(M.MultVec3_Homography(v)); c.o(CMat4<T>::ScaleXYZ(1, 2, 3).mat, 16); c.o(CMat4<T>::Skew(v).mat, 16); c.o(CMat4<T>::Mat3(R).mat, 16); c.o(CMat4<T>::AffineScale(3).mat, 16); M.SetAffineTranslate(1, 2, 3); c.o(M.mat, 16); M.SetScale(1, 2, 3); c.o(M.mat, 16); c.o(CMat4<T>::AffineOrthogonalProjection(-1, 1, -2, 2, -3, 3).mat, 16); }
OP(mat4_small) { m4<double>(c); m4<float>(c); double m[16], q[4], t[3], vo[3]; rnd(c, q); rnd(c, t); Normalize_Quat(q); stale(m); Mat4_ScaleRotTrans(m, 1.5, q, t); O(m); stale(vo); Vec3Mat4(vo, t, m); O(vo); auto inv = Inverse_Mat4(m); c.o(inv); auto ray = RayFromInverseMvpMatrix(inv.data(), 3, 5, 20, 30); c.o(ray); }
template<class T> void qt(cat::Ctx &c) { T p[4], q[4], r[4], v[3], w[3]; rnd(c, p); rnd(c, q); rnd(c, v); Normalize_Quat(p); Normalize_Quat(q); stale(r); QuatQuat(r, p, q); O(r); c.o(Mult_QuatQuat(p, q)); c.o(Dot_Quat(p, q)); c.o(Length_Quat(q)); stale(r); Inverse_Quat(r, q); O(r); Quat_Identity(r); O(r); stale(r); Quat_Bryant(r, v[0], v[1], v[2]); O(r); c.o(Quat_Bryant(v[0], v[1], v[2])); stale(r); Quaternion_EulerAngle(r, std::array<T, 3>{v[0], v[1], v[2]}, std::array<int, 3>{2, 1, 0}); O(r); Copy_Quat(r, p); O(r); stale(w); QuatVec(w, q, v); O(w); stale(w); QuatConjVec(w, q, v); O(w); c.o(QuatVec3(q, v)); CQuat<T> a(p), b(q), d = a * b; d = d * (T) 2 + a; d.normalize(); c.o(d.p, 4); c.o(SphericalLinearInterp(a, b, (T) .3).p, 4); d.SetSmallerRotation(); c.o(d.p, 4); c.o(d.conjugate().p, 4); c.o(d.norm()); c.o((a - b).p, 4); }
OP(quat_small) { qt<double>(c); qt<float>(c); }
OP(boxes3) { CBV3d_AABB a, b; a.Set_Inactive(); c.o(a.IsActive()); for (int i = 0; i < c.i(1, 4); ++i) a.AddPoint(v3(c).p, c.r(0, .1)); b.SetCenterWidth(c.r(-1, 1), 0, 0, 1, 1, 1); double e[6]; stale(e); b.GetCenterWidth(e[0], e[1], e[2], e[3], e[4], e[5]); O(e); c.o(a.IsIntersect(b)); c.o(a.DiagonalLength()); c.o(a.MaxLength()); c.o(a.isInclude_Point(c.r(-1, 1), 0, 0)); c.o(a.IsInclude_AABB3(b)); c.o(a.MinimumDistance(c.r(-2, 2), 1, 1)); a += b; c.o(a.bbmin, 3); c.o(a.bbmax, 3); CBV3d_Sphere s, t; s.Set_Inactive(); c.o(s.IsActive()); CVec3d p = v3(c), q = v3(c), r = v3(c), u = v3(c); s.SetPoints4(p.p, q.p, r.p, u.p, .01); c.o(s.c, 3); c.o(s.r); t.SetPoints4(u.p, q.p, p.p, r.p, .02); c.o(s.IsIntersect(t)); double dr[3] = {1, c.r(-1, 1), 0}; c.o(s.IsIntersectLine(p.p, dr)); c.o(s.IsIntersectRay(p.p, dr)); c.o(s.isInclude_Point(0, c.r(-1, 1), 0)); double lo = 0, hi = 0; s.Range_DistToPoint(lo, hi, 2, 0, 0); c.o(lo); c.o(hi); s += t; c.o(s.r); }
OP(edges_tris) { CVec3d a = v3(c), b = v3(c), d = v3(c), e = v3(c), f = v3(c); ov(c, Nearest_Origin_Edge(a, b)); double t = 0, r0 = 0, r1 = 0; ov(c, Nearest_Origin_Edge(t, a, b)); c.o(t); ov(c, Nearest_Edge_Point(d, a, b)); ov(c, Nearest_Edge_Point(t, d, a, b)); c.o(t); c.o(Distance_Edge_Point(d, a, b)); double n3[3]; stale(n3); Nearest_Edge3_Point3(n3, d.p, a.p, b.p); O(n3); CVec3d n1, n2; Nearest_Edge3_Line3(n1, n2, a, b, d, e); ov(c, n1); ov(c, n2); c.o(Distance_Edge3_Edge3(a, b, d, e, r0, r1)); c.o(r0); c.o(r1); c.o(IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, a, b, d, e, .3)); c.o(Mat3_IrotLineSeg(a, b)); stale(n3); Nearest_Triangle3_Point3(n3, r0, r1, f.p, a.p, b.p, d.p); O(n3); c.o(r0); c.o(r1); ov(c, Nearest_Origin3_Tri3(r0, r1, a, b, d)); c.o(IntersectRay_Tri3(r0, r1, e, f, a, b, d, 1e-8)); c.o(isPointInsideTriangle((a + b + d) / 3., a, b, d)); CVec3d ip; c.o(isRayIntersectingTriangle(e, f, a, b, d, ip)); double w0 = 0, w1 = 0; c.o(DistanceFaceVertex(a, b, d, e, w0, w1)); c.o(Area_Tri3(a, b, d)); c.o(SquareTriArea(a, b, d)); CVec3d n; Normal_Tri3(n, a, b, d); ov(c, n); UnitNormal_Tri3(n, a, b, d); ov(c, n); double ar = 0; UnitNormalAreaTri3(n, ar, a, b, d); c.o(ar); c.o(SolidAngleTri(a, b, d)); c.o(Mat3_IrotTri(a, b, d)); c.o(Mat3_IrotTriSolid(a, b, d)); std::vector<unsigned> T = {0, 1, 2, 3, 4, 5}; std::vector<double> X = c.vec(18); CVec3d p, q; c.o(isIntersectTriPair(p, q, 0, 1, T, X)); c.o(CG_Tri3(0u, T, X)); c.o(Normal_Tri3(1u, T, X)); ov(c, Nearst_Origin3_Quad3(r0, r1, a, b, d, e)); c.o(r0); c.o(r1); }
OP(quads_solids) { CVec3d q[6] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}}; for (auto &v : q) v += v3(c, .1); CVec3d s; double s0 = .5, s1 = .5; c.o(intersection_Point_Quad(s, s0, s1, CVec3d(c.r(.2, .8), c.r(.2, .8), 2), CVec3d(0, 0, -1), q[0], q[1], q[2], q[3])); c.o(s0); c.o(s1); CVec3d o(.4, .4, .2); double r0 = .3, r1 = .3, r2 = .3; CVec3d a[6]; for (int i = 0; i < 6; ++i) a[i] = q[i] - o; ov(c, positionBarycentricCoord_Pyramid(.2, .3, .1, a[0], a[1], a[2], a[3], a[4])); CVec3d w[6] = {{-.5, -.5, -.5}, {.7, -.4, -.5}, {-.3, .7, -.5}, {-.5, -.5, .5}, {.7, -.4, .5}, {-.3, .7, .5}}; for (auto &v : w) v += v3(c, .05); ov(c, positionBarycentricCoord_Wedge(.2, .3, .1, w[0], w[1], w[2], w[3], w[4], w[5])); VI aq; aq.assign({0, 1, 2, 3}); std::vector<CVec3d> ap(q, q + 4); ov(c, QuadBilinear(0, .3, .6, aq, ap)); std::vector<CVec3d> P; for (int i = 0; i < c.i(5, 12); ++i) P.push_back(v3(c)); VU T; ConvexHull3(T, P); c.o(T); for (const auto n : {nNodeElem(MESHELEM_HEX), nNodeElem(MESHELEM_TRI)}) c.o(n); c.o(nFaceElem(MESHELEM_TET)); c.o(nNodeElemFace(MESHELEM_HEX, 0)); }
OP(curve_samplers) { std::vector<CVec3d> p; for (int i = 0; i < c.i(4, 7); ++i) p.push_back(v3(c)); double t = 0; ov(c, Sample_CubicBsplineCurve(c.r(0, 1), p)); ov(c, Sample_CatmullRomSplineCurve(c.r(0, 1), p)); std::vector<CVec3d> s; if (cat::dirty) s.resize(cat::dirty, CVec3d(7, 7, 7)); Polyline_CubicBSplineCurve(s, 7, p); for (auto &v : s) ov(c, v); if (cat::dirty) s.resize(cat::dirty, CVec3d(7, 7, 7)); Polyline_CatmullRomSplineCurve(s, 5, p); for (auto &v : s) ov(c, v); if (cat::dirty) s.resize(cat::dirty, CVec3d(7, 7, 7)); Polyline_BezierCubic(s, 6, p[0], p[1], p[2], p[3]); for (auto &v : s) ov(c, v); ov(c, PointOnCubicBezierCurve(.3, p[0], p[1], p[2], p[3])); ov(c, Tangent_CubicBezierCurve(.3, p[0], p[1], p[2], p[3])); for (auto &v : Split_CubicBezierCurve(p[0], p[1], p[2], p[3], c.r(.1, .9))) ov(c, v); c.o(Length_CubicBezierCurve_Quadrature(p[0], p[1], p[2], p[3], 3)); c.o(Length_CubicBezierCurve_QuadratureSubdivision<CVec3d>(p[0], p[1], p[2], p[3], 1e-3, 4)); std::vector<CVec2d> p2; for (auto &v : p) p2.emplace_back(v.x, v.y); auto b0 = Sample_BsplineCurve<CVec2d, 4>(.4, p2), b1 = Sample_BsplineDerivative<CVec2d, 4>(.4, p2); c.o(b0.p, 2); c.o(b1.p, 2); VD kf; VI km; km.assign({4, 1, 4}); std::vector<double> k = {0, .5, 1}; FlatKnot(kf, km, k); c.o(kf); if (p.size() == 5) { ov(c, DeBoorBSpline(.3, 3, p, kf)); SampleBSpline(s, 5, 3, kf, p); for (auto &v : s) ov(c, v); } }
OP(camera_calc) { float K[9]; stale(K); SetCameraInteriorMat(K, 640, 480, (float) c.r(20, 40), (float) c.r(20, 80)); O(K); double im[2], pos[3] = {c.r(-1, 1), c.r(-1, 1), c.r(2, 4)}; stale(im); ProjectionCameraWithCalibration(im, pos, 3., 2., 500., .01, .001, .0001, .01, .02, 640u, 480u); O(im); c.o(Mat4_CameraInternal_MetashapePinhole(500.f, 1.f, 2.f, 640.f, 480.f)); c.o(Mat4_Image2Screen(640.f, 480.f, 2.f)); double m[16], cc[2], dc[2][3]; rnd(c, m); m[15] += 4; stale(cc); stale(dc[0]); stale(dc[1]); CdC_ScreenCoordinate<CVec3d>(cc, dc, m, pos); O(cc); O(dc[0]); O(dc[1]);
  int nx = c.i(3, 6), ny = c.i(3, 6); std::vector<float> rgb(nx * ny * 3), g(nx * ny, cat::dirty ? 5.f : 0.f), gr(nx * ny * 2, 0.f); for (float &v : rgb) v = (float) c.r(0, 1); float co[3] = {.3f, .5f, .2f}; Grayscale(g.data(), 1, ny, nx, rgb.data(), co); c.o(g); GrayscaleGradientCenter(gr.data(), 1, ny, nx, rgb.data(), co); c.o(gr); std::fill(gr.begin(), gr.end(), 0.f); GrayscaleGradientSobel(gr.data(), 1, ny, nx, rgb.data(), co); c.o(gr); }
}
