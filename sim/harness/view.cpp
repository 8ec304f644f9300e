// V01: viewers under any event history. The window system is simulated: it owns the windows, their sizes, the cursor and the
// keyboard, and decides when, in which order and how often the library's callbacks hear about them. Every delivered event is
// judged on its own: what the viewer showed before, what it shows after and whom it called.
#include "simgl.h"
#include "geomgen.h"
#include "seams.h"
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include "delfem2/glfw/viewer2.h"
#include "delfem2/glfw/viewer3.h"
#include "delfem2/glfw/ViewRig.h"
using namespace delfem2;
namespace {
struct Null : std::streambuf { int overflow(int c) override { return c; } };
struct Hush { static Null n; std::streambuf *o; Hush() : o(std::cout.rdbuf(&n)) {} ~Hush() { std::cout.rdbuf(o); } }; Null Hush::n;
typedef std::array<float, 16> F16;

// ---- what a viewer told its owner
struct Told {
  int press = 0, drag = 0, release = 0, key = 0, keyup = 0, keyrep = 0, wheel = 0, camera = 0, presscb = 0, keycb = 0;
  float src[3], dir[3], d0[3], d1[3], dd[3]; double y = 0; int k = 0, m = 0; int button_at_release = -2;
};
struct View {   // a window with one of the shipped viewers in it
  virtual ~View() {}
  sgl::Window *w = nullptr; int dim = 3; Told told;
  virtual F16 P() const = 0; virtual F16 MV() const = 0; virtual void draw() const = 0; virtual CMouseInput &nav() = 0; virtual double scale() const = 0;
  // the simulator's side: what was delivered
  double ndc[2] = {0, 0}; bool known = false; int nw = 0, nh = 0;   // where the viewer last heard the cursor was, in which window size
  bool held[3] = {false, false, false}; int button = -1; bool clear = true; int mods = 0;
};
struct V3 : View {
  struct Mine : glfw::CViewer3 { V3 *o; explicit Mine(double h) : CViewer3(h) {}
    void mouse_press(const float s[3], const float d[3]) override { o->told.press++; std::copy(s, s + 3, o->told.src); std::copy(d, d + 3, o->told.dir); }
    void mouse_drag(const float a[3], const float b[3], const float d[3]) override { o->told.drag++; std::copy(a, a + 3, o->told.d0); std::copy(b, b + 3, o->told.d1); std::copy(d, d + 3, o->told.dd); }
    void mouse_release() override { o->told.release++; o->told.button_at_release = nav.ibutton; }
    void key_press(int k, int m) override { o->told.key++; o->told.k = k; o->told.m = m; }
    void key_release(int k, int) override { o->told.keyup++; o->told.k = k; }
    void key_repeat(int k, int) override { o->told.keyrep++; o->told.k = k; }
    void mouse_wheel(double y) override { o->told.wheel++; o->told.y = y; } };
  Mine v; int kind = 0;
  explicit V3(double h) : v(h) { v.o = this; }
  F16 P() const override { return v.GetProjectionMatrix(); } F16 MV() const override { return v.GetModelViewMatrix(); } void draw() const override { v.DrawBegin_oldGL(); v.SwapBuffers(); } CMouseInput &nav() override { return v.nav; } double scale() const override { return v.scale; }
};
struct V2 : View {
  struct Mine : glfw::CViewer2 { V2 *o;
    void mouse_press(const float s[2]) override { o->told.press++; std::copy(s, s + 2, o->told.src); }
    void mouse_drag(const float a[2], const float b[2]) override { o->told.drag++; std::copy(a, a + 2, o->told.d0); std::copy(b, b + 2, o->told.d1); }
    void mouse_release() override { o->told.release++; o->told.button_at_release = nav.ibutton; }
    void key_press(int k, int m) override { o->told.key++; o->told.k = k; o->told.m = m; }
    void key_release(int k, int) override { o->told.keyup++; o->told.k = k; } };
  Mine v; V2() { v.o = this; dim = 2; }
  F16 P() const override { return v.GetProjectionMatrix(); } F16 MV() const override { return v.GetModelViewMatrix(); } void draw() const override { v.DrawBegin_oldGL(); v.SwapBuffers(); } CMouseInput &nav() override { return v.nav; } double scale() const override { return v.scale; }
};

typedef double D16[16];
void mulm(const F16 &a, const F16 &b, double r[16]) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { r[i * 4 + j] = 0; for (int k = 0; k < 4; ++k) r[i * 4 + j] += (double) a[i * 4 + k] * b[k * 4 + j]; } }
bool project(const double M[16], const double p[3], double q[3]) { double h[4]; for (int i = 0; i < 4; ++i) h[i] = M[i * 4] * p[0] + M[i * 4 + 1] * p[1] + M[i * 4 + 2] * p[2] + M[i * 4 + 3]; if (h[3] == 0) return false; for (int i = 0; i < 3; ++i) q[i] = h[i] / h[3]; return true; }
bool finite(const F16 &a) { for (float x : a) if (!std::isfinite(x)) return false; return true; }
double worst = 0, worst_pan = 0;
// the line src + t dir is seen at ndc
void check_ray(const char *what, const F16 &P, const F16 &MV, const float *s, const float *d, const double ndc[2], double tol) {
  double M[16]; mulm(P, MV, M);
  for (int k = 0; k < 3; ++k) { double t = k * .4, p[3], q[3]; for (int i = 0; i < 3; ++i) p[i] = s[i] + t * d[i]; if (!project(M, p, q)) continue; for (int i = 0; i < 2; ++i) { double e = std::fabs(q[i] - ndc[i]); if (e > worst) worst = e; if (!(e <= tol * (1 + std::fabs(ndc[i])))) sim::violation("ray-misses-cursor", "%s: the ray is seen at (%g,%g), the cursor is at (%g,%g)", what, q[0], q[1], ndc[0], ndc[1]); } }
  double p1[3], q0[3], q1[3], p0[3]; for (int i = 0; i < 3; ++i) { p0[i] = s[i]; p1[i] = s[i] + .5 * d[i]; } if (project(M, p0, q0) && project(M, p1, q1) && !(q0[2] > q1[2])) sim::violation("ray-backwards", "%s: the ray runs towards the eye (depth %g then %g)", what, q0[2], q1[2]); }
// rotation part
void rot(const F16 &m, double R[9]) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i * 3 + j] = m[i * 4 + j]; }
double rigid(const double R[9]) { double e = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += R[i * 3 + k] * R[j * 3 + k]; e = std::max(e, std::fabs(s - (i == j))); }
  double det = R[0] * (R[4] * R[8] - R[5] * R[7]) - R[1] * (R[3] * R[8] - R[5] * R[6]) + R[2] * (R[3] * R[7] - R[4] * R[6]); return std::max(e, std::fabs(det - 1)); }
bool same16(const F16 &a, const F16 &b) { return !std::memcmp(a.data(), b.data(), sizeof a); }
double diff16(const F16 &a, const F16 &b) { double e = 0; for (int i = 0; i < 16; ++i) e = std::max(e, (double) std::fabs(a[i] - b[i]) / (1 + std::fabs(a[i]))); return e; }

struct Ev { int t; double x, y; int a, b, c; };   // what the window system has queued
enum { MOVE, DOWN, UP, SCROLL, KEY, SIZE };
double tolerance(const View &v, const F16 &P, const F16 &MV) {   // what single precision leaves of a position on the screen
  double m = 0; for (int i = 0; i < 3; ++i) m = std::max(m, (double) std::fabs(MV[i * 4 + 3])); double s = std::max(std::fabs(P[0]), std::fabs(P[5])) / std::max(1e-6, (double) std::fabs(P[15])); return 2e-3 + 2e-5 * m * s; }

void deliver(View &v, const Ev &e, std::vector<std::unique_ptr<View>> &all) {
  sgl::Window *w = v.w; GLFWwindow *h = (GLFWwindow *) w; bool gone = w->w == 0 || w->h == 0;
  std::vector<std::pair<F16, F16>> before; std::vector<Told> told0; for (auto &o : all) { before.push_back({o->P(), o->MV()}); o->told = Told(); }
  const F16 P0 = v.P(), M0 = v.MV(); const double s0 = v.scale(); Told &T = v.told;
  double q[2] = {(2 * e.x - w->w) / std::max(1, w->w), (w->h - 2 * e.y) / std::max(1, w->h)}, c[2] = {(2 * w->cx - w->w) / std::max(1, w->w), (w->h - 2 * w->cy) / std::max(1, w->h)};
  { Hush hs; sim::Lib lib;
    switch (e.t) { case MOVE: w->on_cursor(h, e.x, e.y); break; case DOWN: w->down[e.a & 7] = true; w->on_button(h, e.a, GLFW_PRESS, e.b); break; case UP: w->down[e.a & 7] = false; w->on_button(h, e.a, GLFW_RELEASE, e.b); break; case SCROLL: w->on_scroll(h, e.x, e.y); break; case KEY: w->on_key(h, e.a, 0, e.c, e.b); break; case SIZE: w->on_size(h, e.a, e.b); break; } }
  const F16 P1 = v.P(), M1 = v.MV(); const double s1 = v.scale();
  for (size_t i = 0; i < all.size(); ++i) if (all[i].get() != &v) { Told &o = all[i]->told; if (!same16(before[i].first, all[i]->P()) || !same16(before[i].second, all[i]->MV()) || o.press + o.drag + o.release + o.key + o.keyup + o.wheel + o.camera + o.keyrep) sim::violation("other-window", "an event of one window reached another"); }
  if (!gone && (!finite(P1) || !finite(M1))) sim::violation("view-lost", "the view is no longer finite after event kind %d", e.t);
  if (!finite(M1) || !std::isfinite(s1)) sim::violation("view-lost", "position, direction or zoom are no longer finite after event kind %d in a %dx%d window", e.t, w->w, w->h);
  double R0[9], R1[9]; rot(M0, R0); rot(M1, R1); if (v.dim == 2 || ((V3 &) v).kind == 0) { if (rigid(R1) > 2e-3) sim::violation("not-rigid", "the view is sheared or scaled by its rotation (%g)", rigid(R1)); }
  int moved = !same16(M0, M1) || s0 != s1;
  if (v.dim == 3 && moved && !T.camera) sim::violation("camera-change-untold", "event kind %d changed the view and no camera-change callback was called", e.t);
  if (!moved && T.camera > 1) sim::violation("camera-change-twice", "camera-change callbacks ran %d times for one event that changed nothing", T.camera);
  auto quiet = [&](const char *what) { if (moved) sim::violation("view-moved", "%s changed the view", what); };
  switch (e.t) {
    case MOVE: {
      bool same_size = v.known && v.nw == w->w && v.nh == w->h && !gone;
      if (gone) { quiet("moving the cursor while the window has no area"); break; } if (!v.clear) break;
      bool turn = v.dim == 3 && v.button == 0 && v.mods == GLFW_MOD_ALT, pan = v.button == 0 && v.mods == GLFW_MOD_SHIFT;
      if (pan) {
        if (T.drag) sim::violation("drag-during-navigation", "a pan was also reported as a drag"); if (s0 != s1) sim::violation("zoom-changed", "a pan changed the zoom"); for (int i = 0; i < 9; ++i) if (R0[i] != R1[i]) sim::violation("pan-turns", "a pan turned the view");
        if (same_size) { // the scene point seen at the old cursor, in the plane of the look-at point, is now seen at the new cursor
          double a[16]; for (int i = 0; i < 16; ++i) a[i] = P0[i]; double A = a[0] - v.ndc[0] * a[12], B = a[1] - v.ndc[0] * a[13], C = a[4] - v.ndc[1] * a[12], D = a[5] - v.ndc[1] * a[13], r0 = v.ndc[0] * a[15] - a[3], r1 = v.ndc[1] * a[15] - a[7], det = A * D - B * C;
          double p[3] = {(r0 * D - B * r1) / det, (A * r1 - C * r0) / det, 0}, z[3]; for (int i = 0; i < 3; ++i) p[i] += M1[i * 4 + 3] - M0[i * 4 + 3]; double b[16]; for (int i = 0; i < 16; ++i) b[i] = P1[i];
          if (project(b, p, z)) { double tol = tolerance(v, P0, M0); for (int i = 0; i < 2; ++i) { double er = std::fabs(z[i] - q[i]); worst_pan = std::max(worst_pan, er); if (!(er <= tol * (1 + std::fabs(q[i])))) sim::violation("pan-loses-cursor", "the scene point dragged with the cursor is seen at (%g,%g), the cursor is at (%g,%g)", z[0], z[1], q[0], q[1]); } }
          if (M1[11] != M0[11]) sim::violation("pan-moves-depth", "a pan moved the scene along the line of sight"); sim::probe("pan"); sim::nontrivial(); } }
      else if (turn) {
        if (T.drag) sim::violation("drag-during-navigation", "a turn of the view was also reported as a drag"); for (int i = 0; i < 3; ++i) if (s0 != s1) sim::violation("zoom-changed", "turning the view changed the zoom");
        if (((V3 &) v).kind == 0) { auto *tb = dynamic_cast<ModelView_Trackball *>(((V3 &) v).v.view_rotation.get()); for (int i = 0; i < 3; ++i) { double w0 = M0[i * 4 + 3], w1 = M1[i * 4 + 3], big = 1 + std::fabs(w0); for (int l = 0; l < 3 && tb; ++l) { double q = tb->anchor[l]; w0 += M0[i * 4 + l] * q; w1 += M1[i * 4 + l] * q; big += std::fabs(q) * 10; } if (std::fabs(w1 - w0) > 1e-5 * big) sim::violation("turn-moves", "turning the view moved what it turns about"); } }
        if (v.known && ((V3 &) v).kind == 0) { double dx = q[0] - v.ndc[0], dy = q[1] - v.ndc[1], an = std::sqrt(dx * dx + dy * dy); double D[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
          if (an > 0) { double x = -dy / an, y = dx / an, cc = std::cos(an), ss = std::sin(an); double t[9] = {x * x * (1 - cc) + cc, x * y * (1 - cc), y * ss, x * y * (1 - cc), y * y * (1 - cc) + cc, -x * ss, -y * ss, x * ss, cc}; std::copy(t, t + 9, D); }
          if (!gone && v.nw > 0 && v.nh > 0) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double r = 0; for (int k = 0; k < 3; ++k) r += D[i * 3 + k] * R0[k * 3 + j]; if (std::fabs(r - R1[i * 3 + j]) > 2e-3) sim::violation("turn-wrong", "a drag of (%g,%g) did not turn the view by that angle about the axis across it", dx, dy); } sim::probe("turn"); sim::nontrivial(); } }
        if (auto *tb = dynamic_cast<ModelView_Trackball *>(((V3 &) v).v.view_rotation.get())) { auto m = tb->GetMatrix(); for (int k = 0; k < 3; ++k) { double q = m[k * 4 + 3]; for (int l = 0; l < 3; ++l) q += (double) m[k * 4 + l] * tb->anchor[l]; if (!(std::fabs(q) <= 1e-4)) sim::violation("anchor-moves", "the anchor of the trackball appears at %g along axis %d", q, k); } }
        if (((V3 &) v).kind == 1 || ((V3 &) v).kind == 2) { int up = ((V3 &) v).kind; double psi = up == 1 ? ((ModelView_Ytop &) *((V3 &) v).v.view_rotation).psi : ((ModelView_Ztop &) *((V3 &) v).v.view_rotation).psi; if (std::fabs(std::cos(psi)) > .03) { if (rigid(R1) > 5e-3) sim::violation("not-rigid", "the turntable view is sheared or scaled (%g)", rigid(R1)); if (std::fabs(R1[up]) > 5e-3) sim::violation("turntable-tilts", "the up axis is no longer upright on the screen"); sim::probe("turntable"); } } }
      else { quiet("moving the cursor"); if (v.button == -1) { if (T.drag) sim::violation("drag-without-button", "a drag was reported with no button held"); }
        else if (T.drag != 1) sim::violation("drag-lost", "the cursor moved with a button held and %d drags were reported", T.drag);
        else if (same_size) { double tol = tolerance(v, P0, M0);
          if (v.dim == 3) { check_ray("drag start", P0, M0, T.d0, T.dd, v.ndc, tol); if (finite(P0)) { double M[16], p[3] = {T.d1[0], T.d1[1], T.d1[2]}, z[3]; mulm(P0, M0, M); if (project(M, p, z)) for (int i = 0; i < 2; ++i) if (!(std::fabs(z[i] - q[i]) <= tol * (1 + std::fabs(q[i])))) sim::violation("ray-misses-cursor", "drag end: seen at (%g,%g), the cursor is at (%g,%g)", z[0], z[1], q[0], q[1]); } }
          else { double M[16], z[3]; mulm(P0, M0, M); for (int k = 0; k < 2; ++k) { const float *s = k ? T.d1 : T.d0; const double *n = k ? q : v.ndc; double p[3] = {s[0], s[1], 0}; if (project(M, p, z)) for (int i = 0; i < 2; ++i) if (!(std::fabs(z[i] - n[i]) <= tol * (1 + std::fabs(n[i])))) sim::violation("ray-misses-cursor", "drag: seen at (%g,%g), the cursor is at (%g,%g)", z[0], z[1], n[0], n[1]); } }
          sim::probe("drag"); sim::nontrivial(); } }
      break; }
    case DOWN: {
      if (gone) { quiet("pressing a button"); break; }
      quiet("pressing a button"); bool navi = v.dim == 3 && (e.b == GLFW_MOD_SHIFT || e.b == GLFW_MOD_ALT);
      if (navi) { if (T.press || T.presscb) sim::violation("press-during-navigation", "a press that starts view navigation was reported to the scene"); }
      else if (v.dim == 3 || e.b != GLFW_MOD_SHIFT) { if (T.press != 1) sim::violation("press-lost", "a press was reported %d times", T.press); if (v.dim == 3 && T.presscb != 2) sim::violation("press-lost", "a press reached %d of 2 registered callbacks", T.presscb);
        if (!gone) { double tol = tolerance(v, P0, M0); if (v.dim == 3) check_ray("press", P0, M0, T.src, T.dir, c, tol); else { double M[16], z[3], p[3] = {T.src[0], T.src[1], 0}; mulm(P0, M0, M); if (project(M, p, z)) for (int i = 0; i < 2; ++i) if (!(std::fabs(z[i] - c[i]) <= tol * (1 + std::fabs(c[i])))) sim::violation("ray-misses-cursor", "press: seen at (%g,%g), the cursor is at (%g,%g)", z[0], z[1], c[0], c[1]); } sim::probe("press"); sim::nontrivial(); } }
      break; }
    case UP: quiet("releasing a button"); if (T.release != 1) sim::violation("release-lost", "a release was reported %d times", T.release); if (v.clear && v.button == e.a && T.button_at_release != e.a) sim::violation("release-forgets-button", "the release callback can no longer see which button was held"); if (T.drag + T.press) sim::violation("release-acts", "a release was reported as something else"); break;
    case SCROLL: { double f = s1 / s0, want = std::pow(1.01, e.y); if (std::fabs(f - want) > 1e-4 * want) sim::violation("zoom-wrong", "scrolling by %g multiplied the scale by %g instead of %g", e.y, f, want); if (!same16(M0, M1)) sim::violation("view-moved", "scrolling moved the view"); if (v.dim == 3 && (T.wheel != 1 || T.y != e.y)) sim::violation("wheel-lost", "a scroll was reported %d times", T.wheel);
      if (!gone && std::fabs(P1[0] - want * P0[0]) > 1e-3 * std::fabs(P1[0])) sim::violation("zoom-wrong", "what is drawn did not grow by %g", want); sim::probe("zoom"); break; }
    case KEY: { if (!same16(M0, M1)) sim::violation("view-moved", "a key moved the view"); double want = 1; if (v.dim == 3 && e.c == GLFW_PRESS) { if (e.a == GLFW_KEY_PAGE_UP) want = 1.03; if (e.a == GLFW_KEY_PAGE_DOWN) want = 1 / 1.03; } if (std::fabs(s1 / s0 - want) > 1e-4) sim::violation("zoom-wrong", "a key multiplied the scale by %g instead of %g", s1 / s0, want);
      if (e.c == GLFW_PRESS) { if (T.key != 1 || T.k != e.a || T.m != e.b) sim::violation("key-lost", "a key press was reported %d times", T.key); if (v.dim == 3 && T.keycb != 2) sim::violation("key-lost", "a key press reached %d of 2 registered callbacks", T.keycb); if (T.keyup + T.keyrep) sim::violation("key-confused", "a key press was reported as something else"); }
      if (e.c == GLFW_RELEASE && (T.keyup != 1 || T.k != e.a || T.key)) sim::violation("key-lost", "a key release was reported %d times", T.keyup);
      if (v.dim == 3 && e.c == GLFW_REPEAT && (T.keyrep != 1 || T.key)) sim::violation("key-lost", "a key repeat was reported %d times", T.keyrep);
      if (w->close != (e.a == GLFW_KEY_ESCAPE && e.c == GLFW_PRESS)) sim::violation("close-wrong", "the window %s", w->close ? "was asked to close" : "ignored the escape key"); w->close = false; break; }
    case SIZE: quiet("resizing"); { GLint *vp = w->gl.vp; if (vp[0] || vp[1] || vp[2] != e.a || vp[3] != e.b) sim::violation("viewport-wrong", "after a resize to %dx%d that window draws into %dx%d", e.a, e.b, vp[2], vp[3]); } sim::probe("resize"); break;
  }
  // what the viewer has heard by now
  if (e.t == MOVE && !gone) { v.ndc[0] = q[0]; v.ndc[1] = q[1]; v.known = true; v.nw = w->w; v.nh = w->h; }
  if (e.t == DOWN) { if (!gone) { v.ndc[0] = c[0]; v.ndc[1] = c[1]; v.known = true; v.nw = w->w; v.nh = w->h; } if (v.button != -1 || gone) v.clear = false; v.button = e.a; v.mods = e.b; }
  if (e.t == UP) { v.known = false; if (v.button != e.a && v.button != -1) v.clear = false; v.button = -1; v.mods = e.b; bool any = false; for (bool b : v.held) any |= b; if (!any) v.clear = true; }
  if (e.t == KEY && e.c == GLFW_PRESS && v.dim == 3) v.mods = e.b;
  for (auto &o : all) { if (!o->w->gl.err.empty()) sim::violation("driver-refused", "%s", o->w->gl.err.c_str()); }
}

void frame(View &v, std::vector<std::unique_ptr<View>> &all) {
  F16 P0 = v.P(), M0 = v.MV(); long n0 = v.w->swaps; GLint vp[4]; std::copy(v.w->gl.vp, v.w->gl.vp + 4, vp); Told t0 = v.told; v.told = Told();
  { sim::Lib lib; v.draw(); }
  if (!same16(M0, v.MV()) || (finite(P0) && !same16(P0, v.P()))) sim::violation("frame-moves-view", "drawing a frame changed the view");
  if (sgl::current() != v.w) sim::violation("frame-elsewhere", "the frame was drawn into another window"); if (v.w->swaps != n0 + 1) sim::violation("frame-elsewhere", "the drawn frame was not shown");
  auto &g = v.w->gl; if (!g.err.empty()) sim::violation("driver-refused", "%s", g.err.c_str()); if (std::memcmp(vp, g.vp, sizeof vp)) sim::violation("viewport-wrong", "drawing a frame changed the viewport"); if (g.mv.size() != 1 || g.pj.size() != 1) sim::violation("stack-left", "a frame leaves matrices on the stack");
  if (v.w->w && v.w->h) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double a = g.mv.back()[j * 4 + i], b = g.pj.back()[j * 4 + i]; if (std::fabs(a - M0[i * 4 + j]) > 1e-5 * (1 + std::fabs(a)) || std::fabs(b - P0[i * 4 + j] * (i == 2 ? -1 : 1)) > 1e-5 * (1 + std::fabs(b))) sim::violation("frame-shows-other", "the frame is not drawn with the view the viewer reports"); }
  Told &T = v.told; if (T.press + T.drag + T.release + T.key + T.camera) sim::violation("frame-acts", "drawing a frame called back as if an event had come"); v.told = t0; (void) all; sim::probe("frame");
}

std::unique_ptr<View> open_view() {
  std::unique_ptr<View> r; double hh = std::pow(10., sim::sreal(1));
  if (sim::chance(1, 3)) { auto p = std::make_unique<V2>(); if (sim::chance(2, 3)) p->v.view_height = (float) hh; p->v.width = 40 + sim::choose(1500); p->v.height = 40 + sim::choose(1200); { sim::Lib l; p->v.OpenWindow(); } p->w = sgl::W(p->v.window); r = std::move(p); }
  else { auto p = std::make_unique<V3>(hh); p->v.width = 40 + sim::choose(1500); p->v.height = 40 + sim::choose(1200); p->kind = (int) sim::choose(4); if (p->kind == 3) p->kind = 0;
    if (sim::chance(1, 2)) p->v.projection = std::make_unique<Projection_LookOriginFromZplus>((float) hh, true, (float) sim::real(5, 70));
    if (p->kind == 1) p->v.view_rotation = std::make_unique<ModelView_Ytop>((float) sim::sreal(3), (float) sim::sreal(1)); if (p->kind == 2) p->v.view_rotation = std::make_unique<ModelView_Ztop>();
    if (p->kind == 0 && sim::chance(1, 3)) if (auto *tb = dynamic_cast<ModelView_Trackball *>(p->v.view_rotation.get())) { for (float &q : tb->anchor) q = (float) sim::sreal(2); sim::probe("anchored trackball"); }
    { sim::Lib l; p->v.OpenWindow(); } p->w = sgl::W(p->v.window); V3 *o = p.get();
    for (int i = 0; i < 2; ++i) { o->v.keypress_callbacks.push_back([o](int, int) { o->told.keycb++; }); o->v.mousepress_callbacks.push_back([o](const float s[3], const float d[3]) { o->told.presscb++; for (int k = 0; k < 3; ++k) if (s[k] != o->told.src[k] || d[k] != o->told.dir[k]) { if (std::isfinite(s[k]) && std::isfinite(d[k])) sim::violation("press-callback-ray", "a registered callback got another ray than the viewer"); } }); } o->v.camerachange_callbacks.push_back([o] { o->told.camera++; });
    r = std::move(p); }
  r->w->gl.vp[2] = r->w->w; r->w->gl.vp[3] = r->w->h; r->w->cx = r->w->w * .5; r->w->cy = r->w->h * .5; return r; }

// the user: what happens physically; the window system turns it into queued events
void user(View &v, std::deque<Ev> &q) {
  auto clamp_cursor = [&] { double W = std::max(1, v.w->w), H = std::max(1, v.w->h); v.w->cx = std::min(2 * W, std::max(-W, v.w->cx)); v.w->cy = std::min(2 * H, std::max(-H, v.w->cy)); };
  sgl::Window *w = v.w; static const int MODS[] = {0, GLFW_MOD_SHIFT, GLFW_MOD_ALT, GLFW_MOD_CONTROL, GLFW_MOD_SHIFT | GLFW_MOD_CONTROL};
  switch (sim::choose(12)) {
    case 0: case 1: case 2: case 3: case 4: { int n = 1 + (int) sim::choose(4); for (int i = 0; i < n; ++i) { double s = sim::chance(1, 8) ? 1.5 : .15; w->cx += sim::sreal(s) * std::max(1, w->w); w->cy += sim::sreal(s) * std::max(1, w->h); double W = std::max(1, w->w), H = std::max(1, w->h); w->cx = std::min(2 * W, std::max(-W, w->cx)); w->cy = std::min(2 * H, std::max(-H, w->cy)); q.push_back({MOVE, w->cx, w->cy, 0, 0, 0}); } break; }
    case 5: case 6: { int b = sim::chance(1, 3) ? (int) sim::choose(3) : 0; if (!v.held[b]) { v.held[b] = true; q.push_back({DOWN, 0, 0, b, MODS[sim::choose(5)], 0}); } else { v.held[b] = false; q.push_back({UP, 0, 0, b, MODS[sim::choose(5)], 0}); } break; }
    case 7: { for (int b = 0; b < 3; ++b) if (v.held[b]) { v.held[b] = false; q.push_back({UP, 0, 0, b, MODS[sim::choose(3)], 0}); } break; }
    case 8: { double y = sim::chance(1, 4) ? sim::sreal(30) : (sim::chance(1, 2) ? 1 : -1); if (v.scale() > 30) y = -std::fabs(y); if (v.scale() < .03) y = std::fabs(y); q.push_back({SCROLL, sim::sreal(2), y, 0, 0, 0}); break; }
    case 9: { static const int K[] = {GLFW_KEY_A, GLFW_KEY_PAGE_UP, GLFW_KEY_PAGE_DOWN, GLFW_KEY_ESCAPE, GLFW_KEY_LEFT_SHIFT, GLFW_KEY_LEFT_ALT}; int k = K[sim::choose(6)], m = MODS[sim::choose(5)]; q.push_back({KEY, 0, 0, k, m, GLFW_PRESS}); if (sim::chance(1, 3)) q.push_back({KEY, 0, 0, k, m, GLFW_REPEAT}); q.push_back({KEY, 0, 0, k, m, GLFW_RELEASE}); break; }
    case 10: { w->w = 40 + (int) sim::choose(1600); w->h = 40 + (int) sim::choose(1200); clamp_cursor(); q.push_back({SIZE, 0, 0, w->w, w->h, 0}); break; }
    default: if (w->w && w->h && sim::chance(1, 2)) { sim::fault("window minimised"); int k = sim::choose(3); if (k != 1) w->w = 0; if (k != 2) w->h = 0; q.push_back({SIZE, 0, 0, w->w, w->h, 0}); } else if (!w->w || !w->h) { w->w = 40 + (int) sim::choose(1600); w->h = 40 + (int) sim::choose(1200); clamp_cursor(); q.push_back({SIZE, 0, 0, w->w, w->h, 0}); } else { sim::fault("grab broken"); for (int b = 0; b < 3; ++b) if (v.held[b]) { v.held[b] = false; q.push_back({UP, 0, 0, b, 0, 0}); } }
  } }

void session(int nv) {
  sim::alloc_fill(1 + (int) sim::choose(255)); std::vector<std::unique_ptr<View>> all; for (int i = 0; i < nv; ++i) all.push_back(open_view()); std::vector<std::deque<Ev>> q(all.size());
  int n = 20 + (int) sim::choose(sim::chance(1, 10) ? 600 : 80);
  for (int s = 0; s < n; ++s) {
    size_t i = sim::choose((uint32_t) all.size()); View &v = *all[i]; auto &d = q[i]; sim::vtime(1 + sim::choose(40)); sim::add_steps(1);
    if (d.size() < 12 && sim::chance(1, 2)) { user(v, d); continue; }
    if (sim::chance(1, 4)) { frame(v, all); continue; }
    if (d.empty()) continue;
    size_t k = 0;
    switch (sim::choose(16)) {
      case 1: if (d[0].t == MOVE && d.size() > 1 && d[1].t == MOVE) { sim::fault("moves coalesced"); d.pop_front(); } break;
      case 2: if (d[0].t == MOVE) { sim::fault("move duplicated"); d.push_front(d[0]); } break;
      case 3: if (d[0].t == MOVE) { sim::fault("move lost"); d.pop_front(); if (d.empty()) continue; } break;
      case 4: if (d[0].t == UP) { sim::fault("release lost"); d.pop_front(); if (d.empty()) continue; } break;
      case 5: if (d.size() > 1) { sim::fault("events reordered"); k = 1; } break;
      case 6: if (d[0].t == UP) { sim::fault("release duplicated"); d.push_front(d[0]); } break;
      case 7: if (d.size() > 3) { sim::fault("events delayed"); continue; } break;
      default: break; }
    Ev e = d[k]; d.erase(d.begin() + (long) k); deliver(v, e, all); sim::state(sim::hash_u64((uint64_t) e.t * 64 + v.button + 1, sim::hash_u64(v.mods, sim::hash_u64((uint64_t) v.dim * 4 + v.clear, 77)))); sim::mix((uint64_t) e.t); auto M = v.MV(); sim::mix(sim::hash_bytes(M.data(), 64)); }
  sgl::current() = nullptr;
}
// ---- the rig editor: bones posed by dragging handles
struct Rig : glfw::CViewerGlfw_RiggedMesh { int np = 0, nd = 0; float ps[3], pd[3], d0[3], d1[3], dd[3];
  void mouse_press(const float s[3], const float d[3]) override { np++; std::copy(s, s + 3, ps); std::copy(d, d + 3, pd); CViewerGlfw_RiggedMesh::mouse_press(s, d); }
  void mouse_drag(const float a[3], const float b[3], const float d[3]) override { nd++; std::copy(a, a + 3, d0); std::copy(b, b + 3, d1); std::copy(d, d + 3, dd); CViewerGlfw_RiggedMesh::mouse_drag(a, b, d); } };
struct Pose { std::vector<double> q, t, g, x; };
Pose pose(const Rig &r) { Pose p; for (auto &b : r.aBone) { p.q.insert(p.q.end(), b.quatRelativeRot, b.quatRelativeRot + 4); p.t.insert(p.t.end(), b.transRelative, b.transRelative + 3); p.g.insert(p.g.end(), b.affmat3Global, b.affmat3Global + 16); } p.x = r.aXYZ1; return p; }
double gap(const std::vector<double> &a, const std::vector<double> &b) { double e = a.size() == b.size() ? 0 : 1e9; for (size_t i = 0; i < a.size() && i < b.size(); ++i) { double d = std::fabs(a[i] - b[i]); if (!(d <= e)) e = d; } return e; }
gen::V3 root(const Rig &r, int b) { auto p = r.aBone[(size_t) b].RootPosition(); return {p[0], p[1], p[2]}; }
gen::V3 axis(const Pose &p, int b, int e) { const double *g = &p.g[(size_t) b * 16]; return {g[e], g[4 + e], g[8 + e]}; }
gen::V3 v3(const float *p) { return {p[0], p[1], p[2]}; }
double line_point(const gen::V3 &s, const gen::V3 &d, const gen::V3 &p) { gen::V3 w = gen::sub(p, s); double t = gen::dot(w, d) / gen::dot(d, d); return gen::norm(gen::sub(w, {d[0] * t, d[1] * t, d[2] * t})); }
void frame_of(const gen::V3 &n, gen::V3 &x, gen::V3 &y) { gen::V3 h = std::fabs(n[0]) < .7 ? gen::V3{1, 0, 0} : gen::V3{0, 1, 0}; x = gen::cross(h, n); double l = gen::norm(x); for (double &c : x) c /= l; y = gen::cross(n, x); }
const double RING = .3, TOL = .03;
double line_ring(const gen::V3 &s, const gen::V3 &d, const gen::V3 &c, const gen::V3 &n) { gen::V3 x, y; frame_of(n, x, y); double m = 1e9; for (int i = 0; i < 180; ++i) { double a = i * M_PI / 90; m = std::min(m, line_point(s, d, gen::add(gen::add(c, x, RING * std::cos(a)), y, RING * std::sin(a)))); } return m; }
// the point where a ray goes through a ring, if it really does
bool on_ring(const gen::V3 &s, const gen::V3 &d, const gen::V3 &c, const gen::V3 &n, gen::V3 &r) { double dn = gen::dot(d, n) / gen::norm(d); if (std::fabs(dn) < .35) return false; double t = gen::dot(gen::sub(c, s), n) / gen::dot(d, n); r = gen::sub(gen::add(s, d, t), c); return std::fabs(gen::norm(r) - RING) < 2e-3; }
bool on_axis(const gen::V3 &s, const gen::V3 &d, const gen::V3 &c, int e, double &u) { gen::V3 a = {0, 0, 0}; a[e] = 1; double dd = gen::dot(d, d), da = d[e], den = dd - da * da; if (den < .15 * dd) return false; gen::V3 w = gen::sub(s, c); u = (dd * w[e] - da * gen::dot(d, w)) / den; gen::V3 p = gen::add(c, a, u); return line_point(s, d, p) < 2e-3; }
void check_skin(const Rig &r, const char *when) {
  size_t np = r.aXYZ0.size() / 3, nw = r.aSkinningSparseW.size() / np; for (size_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) { double s = 0; for (size_t j = 0; j < nw; ++j) { auto &b = r.aBone[r.aSkinningSparseI[i * nw + j]]; double l[4] = {0, 0, 0, 1}; for (int a = 0; a < 3; ++a) l[a] = b.invBindMat[a * 4] * r.aXYZ0[i * 3] + b.invBindMat[a * 4 + 1] * r.aXYZ0[i * 3 + 1] + b.invBindMat[a * 4 + 2] * r.aXYZ0[i * 3 + 2] + b.invBindMat[a * 4 + 3]; double v = 0; for (int a = 0; a < 4; ++a) v += b.affmat3Global[k * 4 + a] * l[a]; s += r.aSkinningSparseW[i * nw + j] * v; }
    if (!(std::fabs(s - r.aXYZ1[i * 3 + (size_t) k]) < 1e-6)) sim::violation("skin-stale", "%s: the skin at vertex %zu does not follow the pose", when, i); } }
double worst_axis = 0, worst_ang = 0, worst_still = 0, worst_mv = 0;
void check_drag(const Rig &r, const Pose &a, const Pose &b, bool rotmode, int bone, int el) {
  size_t nb = r.aBone.size(); for (double x : b.g) if (!std::isfinite(x)) sim::violation("pose-lost", "the pose is no longer finite after a drag");
  gen::V3 s0 = v3(r.d0), s1 = v3(r.d1), d = v3(r.dd); bool still = !std::memcmp(r.d0, r.d1, sizeof r.d0);
  int handle = rotmode ? (bone >= 0 ? el : -1) : el;
  for (size_t i = 0; i < nb; ++i) { bool mine = handle >= 0 && (rotmode ? (int) i == bone : i == 0); double dq = 0, dt = 0; for (size_t k = 0; k < 4; ++k) dq = std::max(dq, std::fabs(a.q[i * 4 + k] - b.q[i * 4 + k])); double dq2 = 0; for (size_t k = 0; k < 4; ++k) dq2 = std::max(dq2, std::fabs(a.q[i * 4 + k] + b.q[i * 4 + k])); dq = std::min(dq, dq2); for (size_t k = 0; k < 3; ++k) dt = std::max(dt, std::fabs(a.t[i * 3 + k] - b.t[i * 3 + k]));
    if (dq > 1e-3 && !(mine && rotmode)) sim::violation("other-bone", "dragging %s turned bone %zu by %g (bone %d is being edited)", handle < 0 ? "without a handle" : "a handle", i, dq, bone); if (dt > 1e-5 && !(mine && !rotmode)) sim::violation("other-bone", "dragging %s moved bone %zu by %g", handle < 0 ? "without a handle" : "a handle", i, dt);
    if (still && (dq > 1e-3 || dt > 1e-5)) sim::violation("pose-jumps", "a drag that did not move the cursor changed bone %zu by %g", i, std::max(dq, dt)); worst_still = std::max(worst_still, (still || handle < 0) ? dq : 0.); }
  for (size_t i = 0; i < nb; ++i) { double n = 0; for (size_t k = 0; k < 4; ++k) n += b.q[i * 4 + k] * b.q[i * 4 + k]; if (std::fabs(n - 1) > 1e-2) sim::violation("pose-lost", "the rotation of bone %zu is no longer a rotation (%g)", i, n); }
  if (handle >= 0 && rotmode) { gen::V3 x0 = axis(a, bone, el), x1 = axis(b, bone, el); double e = gen::norm(gen::sub(x0, x1)); worst_axis = std::max(worst_axis, e); if (!(e < 5e-3)) sim::violation("turns-off-axis", "dragging ring %d of bone %d moved the ring's own axis by %g", el, bone, e);
    gen::V3 r0, r1, c = root(r, bone); if (on_ring(s0, d, c, x0, r0) && on_ring(s1, d, c, x0, r1)) { double an = std::atan2(gen::dot(gen::cross(r0, r1), x0), gen::dot(r0, r1)); gen::V3 u = axis(a, bone, (el + 1) % 3), w = axis(b, bone, (el + 1) % 3), t = gen::cross(x0, u); gen::V3 z; for (int k = 0; k < 3; ++k) z[k] = u[k] * std::cos(an) + t[k] * std::sin(an); double er = gen::norm(gen::sub(z, w)); worst_ang = std::max(worst_ang, er); if (!(er < .06)) sim::violation("handle-loses-cursor", "ring %d of bone %d was dragged by %g rad and the bone is off by %g", el, bone, an, er); sim::probe("ring dragged"); sim::nontrivial(); } else sim::probe("ring left"); }
  if (handle >= 0 && !rotmode) { gen::V3 m = {b.t[0] - a.t[0], b.t[1] - a.t[1], b.t[2] - a.t[2]}; for (int k = 0; k < 3; ++k) if (k != el && std::fabs(m[k]) > 1e-5) sim::violation("moves-off-axis", "dragging arrow %d moved the rig along axis %d", el, k);
    double u0, u1; gen::V3 c = {a.t[0], a.t[1], a.t[2]}; if (on_axis(s0, d, c, el, u0) && on_axis(s1, d, c, el, u1)) { double er = std::fabs(m[el] - (u1 - u0)); worst_mv = std::max(worst_mv, er); if (!(er < 2e-2)) sim::violation("handle-loses-cursor", "arrow %d was dragged by %g and the rig moved by %g", el, u1 - u0, m[el]); sim::probe("arrow dragged"); sim::nontrivial(); } }
  if (handle < 0) sim::probe("dragged nothing"); check_skin(r, "after a drag"); }
void check_pick(const Rig &r, bool rotmode, int bone0, int bone1, int el) {
  gen::V3 s = v3(r.ps), d = v3(r.pd); Pose p = pose(r); const double E = 3e-3;
  if (!rotmode) { gen::V3 c = {p.t[0], p.t[1], p.t[2]}; int want = -1; for (int e = 0; e < 3; ++e) { double m = 1e9; for (int i = -60; i <= 60; ++i) { gen::V3 q = c; q[e] += RING * i / 60.; m = std::min(m, line_point(s, d, q)); } if (std::fabs(m - TOL) < E) return; if (1 - d[e] * d[e] / gen::dot(d, d) < .05 && m < .2) return; /* an arrow seen end on */ if (m < TOL && want < 0) want = e; } if (want != el) sim::violation("pick-wrong", "arrow %d was picked, the cursor is on %d", el, want); sim::probe("pick arrow"); return; }
  if (bone0 >= 0) { int near = 0; bool doubt = false, ok = false; for (int e = 0; e < 3; ++e) { double m = line_ring(s, d, root(r, bone0), axis(p, bone0, e)); if (std::fabs(m - TOL) < E) doubt = true; if (m < TOL) { near++; if (e == el) ok = true; } gen::V3 rr; if (m < TOL && !on_ring(s, d, root(r, bone0), axis(p, bone0, e), rr)) doubt = true; }
    if (doubt) return; if (near && el < 0 && near == 1) sim::violation("pick-wrong", "the cursor is on a ring of bone %d and no ring was picked", bone0); if (el >= 0 && !ok) sim::violation("pick-wrong", "ring %d of bone %d was picked, the cursor is not on it", el, bone0); if (el >= 0) { if (bone1 != bone0) sim::violation("pick-wrong", "picking a ring changed the bone"); sim::probe("pick ring"); return; } if (near) return; }
  int want = -1; for (size_t i = 0; i < r.aBone.size(); ++i) { double m = line_point(s, d, root(r, (int) i)); if (std::fabs(m - TOL) < E) return; if (m < TOL) want = (int) i; } if (bone1 != want) sim::violation("pick-wrong", "bone %d was picked, the cursor is on %d", bone1, want); if (want >= 0) sim::probe("pick bone"); }
void rig() {
  sim::alloc_fill(1 + (int) sim::choose(255)); gen::Rng g = gen::rng(); auto r = std::make_unique<Rig>(); int nb = 1 + (int) sim::choose(5);
  { sim::NoLib nl; std::vector<CRigBone> B((size_t) nb); for (int i = 0; i < nb; ++i) { B[(size_t) i].ibone_parent = i ? (int) g.n((uint32_t) i) : -1; for (double &t : B[(size_t) i].transRelative) t = i ? g.r(-.4, .4) : 0; } UpdateBoneRotTrans(B); for (auto &b : B) for (int k = 0; k < 3; ++k) b.invBindMat[k * 4 + 3] = -b.affmat3Global[k * 4 + 3];
    auto m = gen::sphere(1, .6); std::vector<double> w; std::vector<unsigned> id; for (size_t i = 0; i < m.xyz.size() / 3; ++i) { double a = g.r(0, 1); w.push_back(a); w.push_back(1 - a); id.push_back(g.n((uint32_t) nb)); id.push_back(g.n((uint32_t) nb)); } r->SetRiggedMesh(m.xyz, m.tri, w, id, B); }
  r->projection = std::make_unique<Projection_LookOriginFromZplus>((float) g.r(.8, 1.6), g.n(2) == 1, 40.f); r->width = 300 + g.n(900); r->height = 300 + g.n(900); { sim::Lib l; r->OpenWindow(); } sgl::Window *w = sgl::W(r->window); GLFWwindow *h = (GLFWwindow *) w; w->gl.vp[2] = w->w; w->gl.vp[3] = w->h; w->gl.keep = false; w->cx = w->w * .5; w->cy = w->h * .5;
  bool held = false; auto &gz = r->gizmo; auto rotmode = [&] { return gz.mode_edit == CGizmo_Rig<float>::MODE_EDIT::ROT; };
  auto aim = [&](const gen::V3 &p) { double M[16], z[3]; mulm(r->GetProjectionMatrix(), r->GetModelViewMatrix(), M); if (!project(M, p.data(), z) || std::fabs(z[0]) > 3 || std::fabs(z[1]) > 3) return; w->cx = (z[0] + 1) * .5 * w->w; w->cy = (1 - z[1]) * .5 * w->h; };
  auto target = [&] { Pose p = pose(*r); uint32_t k = sim::choose(8); int b = gz.ipicked_bone >= 0 && gz.ipicked_bone < nb ? gz.ipicked_bone : 0;
    if (k < 2) { aim(root(*r, (int) sim::choose((uint32_t) nb))); return; }
    if (k < 6) { if (rotmode()) { int e = (held || k < 4) && gz.gizmo_rot.ielem_picked >= 0 ? gz.gizmo_rot.ielem_picked : (int) sim::choose(3); gen::V3 n = axis(p, b, e), x, y; frame_of(n, x, y); double a = sim::sreal(M_PI); aim(gen::add(gen::add(root(*r, b), x, RING * std::cos(a)), y, RING * std::sin(a))); }
      else { int e = (held || k < 4) && gz.gizmo_trnsl.ielem_picked >= 0 ? gz.gizmo_trnsl.ielem_picked : (int) sim::choose(3); gen::V3 c = {p.t[0], p.t[1], p.t[2]}; c[e] += sim::sreal(RING); aim(c); } return; }
    if (k == 6) { w->cx += sim::sreal(20); w->cy += sim::sreal(20); return; } };
  auto move = [&] { Pose a = pose(*r); int bone = gz.ipicked_bone, el = rotmode() ? gz.gizmo_rot.ielem_picked : gz.gizmo_trnsl.ielem_picked, nd = r->nd; bool rm = rotmode(); { Hush hs; sim::Lib l; w->on_cursor(h, w->cx, w->cy); } if (r->nd == nd) { if (gap(a.q, pose(*r).q) + gap(a.t, pose(*r).t) != 0) sim::violation("pose-jumps", "moving the cursor with no button held changed the pose"); return; } check_drag(*r, a, pose(*r), rm, bone, el); };
  auto press = [&](int mods) { Pose a = pose(*r); int b0 = gz.ipicked_bone, np = r->np; bool rm = rotmode(); { Hush hs; sim::Lib l; w->down[0] = true; w->on_button(h, 0, GLFW_PRESS, mods); } if (gap(a.g, pose(*r).g) + gap(a.q, pose(*r).q) + gap(a.x, pose(*r).x) != 0) sim::violation("pose-jumps", "a press changed the pose"); if (r->np != np) check_pick(*r, rm, b0, gz.ipicked_bone, rm ? gz.gizmo_rot.ielem_picked : gz.gizmo_trnsl.ielem_picked); held = true; };
  auto release = [&] { Hush hs; sim::Lib l; w->down[0] = false; w->on_button(h, 0, GLFW_RELEASE, 0); held = false; };
  int n = 20 + (int) sim::choose(sim::chance(1, 10) ? 500 : 80);
  for (int s = 0; s < n; ++s) { sim::vtime(1 + sim::choose(40)); sim::add_steps(1); uint32_t k = sim::choose(20);
    if (k < 7) { if (held && sim::chance(3, 4)) { target(); move(); if (sim::chance(1, 5)) { sim::fault("move duplicated"); move(); } } else { target(); if (sim::chance(1, 4)) sim::fault("move lost"); else move(); if (held) { sim::fault("release lost"); } press(0); } }
    else if (k < 12) { if (held) { target(); move(); } }
    else if (k < 14) { if (held) release(); if (sim::chance(1, 6)) { sim::fault("release duplicated"); release(); } }
    else if (k < 15) { Hush hs; sim::Lib l; w->on_key(h, sim::chance(1, 2) ? GLFW_KEY_G : GLFW_KEY_R, 0, GLFW_PRESS, 0); }
    else if (k < 17) { Pose a = pose(*r); F16 P = r->GetProjectionMatrix(), M = r->GetModelViewMatrix(); { sim::Lib l; r->DrawBegin_oldGL(); r->Draw(); r->SwapBuffers(); } Pose b = pose(*r); if (gap(a.q, b.q) + gap(a.t, b.t) + gap(a.g, b.g) + gap(a.x, b.x) != 0) sim::violation("frame-edits", "drawing a frame changed the pose"); if (!same16(P, r->GetProjectionMatrix()) || !same16(M, r->GetModelViewMatrix())) sim::violation("frame-moves-view", "drawing a frame changed the view"); if (!w->gl.err.empty()) sim::violation("driver-refused", "%s", w->gl.err.c_str()); if (w->gl.mv.size() != 1 || w->gl.pj.size() != 1) sim::violation("stack-left", "a frame leaves matrices on the stack"); sim::probe("frame"); }
    else if (k == 17) { if (sim::chance(1, 2)) { { sim::Lib l; r->SetUndeformed(); } for (auto &b : r->aBone) if (b.quatRelativeRot[3] != 1) sim::violation("undeform-wrong", "resetting the pose left a bone turned"); check_skin(*r, "after a reset"); sim::probe("pose reset"); } }
    else if (k == 18) { if (held) release(); press(GLFW_MOD_ALT); w->cx += sim::sreal(.3) * w->w; w->cy += sim::sreal(.3) * w->h; Pose a = pose(*r); int nd = r->nd; { Hush hs; sim::Lib l; w->on_cursor(h, w->cx, w->cy); } if (r->nd != nd || gap(a.g, pose(*r).g) != 0) sim::violation("drag-during-navigation", "turning the view edited the pose"); release(); }
    else { double y = sim::sreal(3); if (r->scale > 2) y = -std::fabs(y); if (r->scale < .5) y = std::fabs(y); Hush hs; sim::Lib l; w->on_scroll(h, 0, y); }
    sim::state(sim::hash_u64((uint64_t) gz.mode_edit * 64 + (uint64_t) (gz.ipicked_bone + 1) * 8 + (uint64_t) (gz.gizmo_rot.ielem_picked + 1), 99 + (uint64_t) (gz.gizmo_trnsl.ielem_picked + 1) * 2 + held)); Pose p = pose(*r); sim::mix(sim::hash_bytes(p.q.data(), p.q.size() * 8)); }
  sgl::current() = nullptr; }
void single() { session(1); }
void several() { session(2 + (int) sim::choose(2)); }
const sim::Scenario V01[] = {{"one window", 3, single}, {"several windows", 2, several}, {"rig editor", 3, rig}};
}
SIM_MAIN(SIM_TABLE("V01", V01))
