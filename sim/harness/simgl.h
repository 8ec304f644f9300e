// A simulated OpenGL 1.x driver and GLFW window system.  Everything the library asks of them is answered here,
// inside the process: the driver records the primitives it is given (in object and eye space), keeps the fixed
// state machine of the specification and refuses what the specification refuses; the window system holds windows
// whose sizes, cursors and events are decided by the harness.
// Include this in exactly one translation unit, before the library's opengl/glfw headers.
#pragma once
#include <GL/gl.h>
#include <GL/glu.h>
#include <GLFW/glfw3.h>
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "seams.h"

namespace sgl {

struct Vtx {
  double p[3];   // object space
  double e[3];   // eye space (after the model view transformation)
  double n[3];   // current normal (object space)
  double ne[3];  // normal in eye space (rotation part only)
  double c[4];
  double t[2];
};

struct Prim {
  GLenum mode;
  bool lit, tex;
  float line_width, point_size;
  std::vector<Vtx> v;
};

using M4 = std::array<double, 16>;  // column major
inline M4 ident() { return M4{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; }
inline M4 mul(const M4 &a, const M4 &b) {
  M4 r{};
  for (int j = 0; j < 4; ++j)
    for (int i = 0; i < 4; ++i)
      for (int k = 0; k < 4; ++k) r[j * 4 + i] += a[k * 4 + i] * b[j * 4 + k];
  return r;
}

struct Tex { int w = 0, h = 0; GLenum ifmt = 0; std::vector<unsigned char> px; };

struct State {
  std::map<GLenum, bool> on;
  std::vector<M4> mv{ident()}, pj{ident()}, tx{ident()};
  GLenum mode = GL_MODELVIEW;
  bool in = false;
  Prim cur;
  std::vector<Prim> prims;
  bool keep = true;
  double n[3] = {0, 0, 1}, c[4] = {1, 1, 1, 1}, t[2] = {0, 0};
  float lw = 1, ps = 1;
  GLint vp[4] = {0, 0, 640, 480};
  std::string err;  // first misuse of the interface
  long nerr = 0, ncalls = 0;
  bool varray = false, narray = false;
  struct Arr { int size = 0; GLenum type = 0; int stride = 0; const void *ptr = nullptr; } va, na;
  std::map<GLuint, Tex> tex;
  GLuint tex_bound = 0, tex_next = 1;
  GLenum depth_func = GL_LESS;
  bool depth_mask = true;
  float clear[4] = {0, 0, 0, 0};
  GLenum shade = GL_SMOOTH;
  int unpack = 4, pack = 4;
  std::map<GLenum, float> mat;
};

State &S();
struct Attr { std::map<GLenum, bool> on; GLint vp[4]; double c[4]; float lw, ps; };
std::vector<Attr> &attrs();

inline void bad(const char *what) {
  auto &s = S();
  ++s.nerr;
  if (s.err.empty()) s.err = what;
}
inline std::vector<M4> &stack() {
  auto &s = S();
  return s.mode == GL_PROJECTION ? s.pj : s.mode == GL_TEXTURE ? s.tx : s.mv;
}
inline void outside(const char *what) {
  ++S().ncalls;
  if (S().in) bad(what);
}
inline void vertex(double x, double y, double z) {
  sim::NoLib nl;
  auto &s = S();
  ++s.ncalls;
  if (!s.in) { bad("glVertex outside glBegin/glEnd"); return; }
  if (!s.keep) return;
  Vtx v;
  v.p[0] = x; v.p[1] = y; v.p[2] = z;
  const M4 &m = s.mv.back();
  for (int i = 0; i < 3; ++i) v.e[i] = m[i] * x + m[4 + i] * y + m[8 + i] * z + m[12 + i];
  for (int i = 0; i < 3; ++i) v.n[i] = s.n[i];
  for (int i = 0; i < 3; ++i) v.ne[i] = m[i] * s.n[0] + m[4 + i] * s.n[1] + m[8 + i] * s.n[2];
  for (int i = 0; i < 4; ++i) v.c[i] = s.c[i];
  v.t[0] = s.t[0]; v.t[1] = s.t[1];
  s.cur.v.push_back(v);
}
inline void element(long i) {
  auto &s = S();
  if (s.narray) {
    if (!s.na.ptr) { bad("array element with no normal pointer"); return; }
    int st = s.na.stride ? s.na.stride : 3 * (s.na.type == GL_DOUBLE ? 8 : 4);
    const char *q = (const char *)s.na.ptr + i * st;
    for (int k = 0; k < 3; ++k) s.n[k] = s.na.type == GL_DOUBLE ? ((const double *)q)[k] : ((const float *)q)[k];
  }
  if (!s.varray || !s.va.ptr) { bad("array element with the vertex array disabled"); return; }
  int st = s.va.stride ? s.va.stride : s.va.size * (s.va.type == GL_DOUBLE ? 8 : 4);
  const char *q = (const char *)s.va.ptr + i * st;
  double p[3] = {0, 0, 0};
  for (int k = 0; k < s.va.size && k < 3; ++k) p[k] = s.va.type == GL_DOUBLE ? ((const double *)q)[k] : ((const float *)q)[k];
  vertex(p[0], p[1], p[2]);
}
inline void multiply(const M4 &m) {
  sim::NoLib nl;
  outside("matrix multiplication inside glBegin/glEnd");
  auto &st = stack();
  st.back() = mul(st.back(), m);
}

// ---- window system

struct Window {
  int w = 640, h = 480;          // what a size query answers
  double cx = 0, cy = 0;         // what a cursor query answers
  void *user = nullptr;
  bool close = false, alive = true;
  bool down[8] = {};             // mouse buttons held
  int key = -1, mods = 0;        // key held
  State gl;                      // every window has a context of its own
  std::vector<Attr> attr;
  long swaps = 0;
  GLFWframebuffersizefun on_size = nullptr;
  GLFWkeyfun on_key = nullptr;
  GLFWmousebuttonfun on_button = nullptr;
  GLFWcursorposfun on_cursor = nullptr;
  GLFWscrollfun on_scroll = nullptr;
};
inline std::vector<Window *> &windows() { static std::vector<Window *> w; return w; }
inline Window *&current() { static Window *w = nullptr; return w; }
inline Window *W(GLFWwindow *w) { return (Window *)w; }
inline Window &offscreen() { static Window w; return w; }
inline State &S() { return current() ? current()->gl : offscreen().gl; }
inline std::vector<Attr> &attrs() { return current() ? current()->attr : offscreen().attr; }
inline void reset() {
  sim::NoLib nl;
  S() = State();
  attrs().clear();
}

}  // namespace sgl

// ---------------------------------------------------------------- GL

extern "C" {
#define OUT(name) sgl::outside(name " inside glBegin/glEnd")

void glBegin(GLenum mode) {
  sim::NoLib nl;
  auto &s = sgl::S();
  ++s.ncalls;
  if (s.in) { sgl::bad("glBegin inside glBegin/glEnd"); return; }
  if (mode > GL_POLYGON) { sgl::bad("glBegin with an unknown primitive"); return; }
  s.in = true;
  s.cur = sgl::Prim{mode, s.on[GL_LIGHTING], s.on[GL_TEXTURE_2D], s.lw, s.ps, {}};
}
void glEnd(void) {
  sim::NoLib nl;
  auto &s = sgl::S();
  ++s.ncalls;
  if (!s.in) { sgl::bad("glEnd without glBegin"); return; }
  s.in = false;
  if (s.keep) s.prims.push_back(std::move(s.cur));
}
void glVertex2d(GLdouble x, GLdouble y) { sgl::vertex(x, y, 0); }
void glVertex2f(GLfloat x, GLfloat y) { sgl::vertex(x, y, 0); }
void glVertex3d(GLdouble x, GLdouble y, GLdouble z) { sgl::vertex(x, y, z); }
void glVertex3f(GLfloat x, GLfloat y, GLfloat z) { sgl::vertex(x, y, z); }
void glVertex2dv(const GLdouble *v) { sgl::vertex(v[0], v[1], 0); }
void glVertex2fv(const GLfloat *v) { sgl::vertex(v[0], v[1], 0); }
void glVertex3dv(const GLdouble *v) { sgl::vertex(v[0], v[1], v[2]); }
void glVertex3fv(const GLfloat *v) { sgl::vertex(v[0], v[1], v[2]); }
void glNormal3d(GLdouble x, GLdouble y, GLdouble z) { auto &n = sgl::S().n; n[0] = x; n[1] = y; n[2] = z; }
void glNormal3f(GLfloat x, GLfloat y, GLfloat z) { glNormal3d(x, y, z); }
void glNormal3dv(const GLdouble *v) { glNormal3d(v[0], v[1], v[2]); }
void glNormal3fv(const GLfloat *v) { glNormal3d(v[0], v[1], v[2]); }
void glColor4d(GLdouble r, GLdouble g, GLdouble b, GLdouble a) { auto &c = sgl::S().c; c[0] = r; c[1] = g; c[2] = b; c[3] = a; }
void glColor4f(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { glColor4d(r, g, b, a); }
void glColor3d(GLdouble r, GLdouble g, GLdouble b) { glColor4d(r, g, b, 1); }
void glColor3f(GLfloat r, GLfloat g, GLfloat b) { glColor4d(r, g, b, 1); }
void glColor3dv(const GLdouble *v) { glColor4d(v[0], v[1], v[2], 1); }
void glColor3fv(const GLfloat *v) { glColor4d(v[0], v[1], v[2], 1); }
void glColor4dv(const GLdouble *v) { glColor4d(v[0], v[1], v[2], v[3]); }
void glColor4fv(const GLfloat *v) { glColor4d(v[0], v[1], v[2], v[3]); }
void glTexCoord2d(GLdouble s, GLdouble t) { auto &c = sgl::S().t; c[0] = s; c[1] = t; }
void glTexCoord2f(GLfloat s, GLfloat t) { glTexCoord2d(s, t); }
void glTexCoord2i(GLint s, GLint t) { glTexCoord2d(s, t); }
void glEnable(GLenum c) { sim::NoLib nl; OUT("glEnable"); sgl::S().on[c] = true; }
void glDisable(GLenum c) { sim::NoLib nl; OUT("glDisable"); sgl::S().on[c] = false; }
GLboolean glIsEnabled(GLenum c) { sim::NoLib nl; OUT("glIsEnabled"); return sgl::S().on[c] ? GL_TRUE : GL_FALSE; }
void glMatrixMode(GLenum m) {
  OUT("glMatrixMode");
  if (m != GL_MODELVIEW && m != GL_PROJECTION && m != GL_TEXTURE) { sgl::bad("glMatrixMode with an unknown mode"); return; }
  sgl::S().mode = m;
}
void glLoadIdentity(void) { OUT("glLoadIdentity"); sgl::stack().back() = sgl::ident(); }
void glPushMatrix(void) {
  sim::NoLib nl;
  OUT("glPushMatrix");
  auto &s = sgl::stack();
  if (s.size() >= (sgl::S().mode == GL_MODELVIEW ? 32u : 2u)) { sgl::bad("matrix stack overflow"); return; }
  s.push_back(s.back());
}
void glPopMatrix(void) {
  sim::NoLib nl;
  OUT("glPopMatrix");
  auto &s = sgl::stack();
  if (s.size() <= 1) { sgl::bad("matrix stack underflow"); return; }
  s.pop_back();
}
void glMultMatrixd(const GLdouble *m) { sgl::M4 a; for (int i = 0; i < 16; ++i) a[i] = m[i]; sgl::multiply(a); }
void glMultMatrixf(const GLfloat *m) { sgl::M4 a; for (int i = 0; i < 16; ++i) a[i] = m[i]; sgl::multiply(a); }
void glTranslated(GLdouble x, GLdouble y, GLdouble z) { auto a = sgl::ident(); a[12] = x; a[13] = y; a[14] = z; sgl::multiply(a); }
void glTranslatef(GLfloat x, GLfloat y, GLfloat z) { glTranslated(x, y, z); }
void glScaled(GLdouble x, GLdouble y, GLdouble z) { auto a = sgl::ident(); a[0] = x; a[5] = y; a[10] = z; sgl::multiply(a); }
void glRotated(GLdouble deg, GLdouble x, GLdouble y, GLdouble z) {
  double l = std::sqrt(x * x + y * y + z * z), c = std::cos(deg * M_PI / 180), s = std::sin(deg * M_PI / 180);
  x /= l; y /= l; z /= l;
  auto a = sgl::ident();
  a[0] = x * x * (1 - c) + c; a[1] = y * x * (1 - c) + z * s; a[2] = x * z * (1 - c) - y * s;
  a[4] = x * y * (1 - c) - z * s; a[5] = y * y * (1 - c) + c; a[6] = y * z * (1 - c) + x * s;
  a[8] = x * z * (1 - c) + y * s; a[9] = y * z * (1 - c) - x * s; a[10] = z * z * (1 - c) + c;
  sgl::multiply(a);
}
void glOrtho(GLdouble l, GLdouble r, GLdouble b, GLdouble t, GLdouble n, GLdouble f) {
  auto a = sgl::ident();
  a[0] = 2 / (r - l); a[5] = 2 / (t - b); a[10] = -2 / (f - n);
  a[12] = -(r + l) / (r - l); a[13] = -(t + b) / (t - b); a[14] = -(f + n) / (f - n);
  sgl::multiply(a);
}
void gluOrtho2D(GLdouble l, GLdouble r, GLdouble b, GLdouble t) { glOrtho(l, r, b, t, -1, 1); }
void glGetIntegerv(GLenum p, GLint *o) {
  OUT("glGetIntegerv");
  auto &s = sgl::S();
  if (p == GL_MODELVIEW_STACK_DEPTH) *o = (GLint)s.mv.size();
  else if (p == GL_PROJECTION_STACK_DEPTH) *o = (GLint)s.pj.size();
  else if (p == GL_VIEWPORT) for (int i = 0; i < 4; ++i) o[i] = s.vp[i];
  else if (p == GL_TEXTURE_BINDING_2D) *o = (GLint)s.tex_bound;
  else if (p == GL_MATRIX_MODE) *o = (GLint)s.mode;
  else sgl::bad("glGetIntegerv of a value the simulated driver does not have");
}
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) {
  OUT("glViewport");
  if (w < 0 || h < 0) { sgl::bad("glViewport with a negative size"); return; }
  auto &v = sgl::S().vp; v[0] = x; v[1] = y; v[2] = w; v[3] = h;
}
void glClearColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a) { OUT("glClearColor"); float *c = sgl::S().clear; c[0] = r; c[1] = g; c[2] = b; c[3] = a; }
void glClear(GLbitfield) { OUT("glClear"); }
void glClearStencil(GLint) { OUT("glClearStencil"); }
void glDepthFunc(GLenum f) { OUT("glDepthFunc"); sgl::S().depth_func = f; }
void glDepthMask(GLboolean m) { OUT("glDepthMask"); sgl::S().depth_mask = m; }
void glColorMask(GLboolean, GLboolean, GLboolean, GLboolean) { OUT("glColorMask"); }
void glPolygonOffset(GLfloat, GLfloat) { OUT("glPolygonOffset"); }
void glStencilFunc(GLenum, GLint, GLuint) { OUT("glStencilFunc"); }
void glStencilOp(GLenum, GLenum, GLenum) { OUT("glStencilOp"); }
void glBlendFunc(GLenum, GLenum) { OUT("glBlendFunc"); }
void glShadeModel(GLenum m) { OUT("glShadeModel"); sgl::S().shade = m; }
void glLineWidth(GLfloat w) { OUT("glLineWidth"); if (!(w > 0)) { sgl::bad("glLineWidth of a width that is not positive"); return; } sgl::S().lw = w; }
void glPointSize(GLfloat w) { OUT("glPointSize"); if (!(w > 0)) { sgl::bad("glPointSize of a size that is not positive"); return; } sgl::S().ps = w; }
void glLightfv(GLenum, GLenum, const GLfloat *p) { OUT("glLightfv"); volatile float f = p[0] + p[1] + p[2]; (void)f; }
void glLightModelf(GLenum, GLfloat) { OUT("glLightModelf"); }
void glLightModeli(GLenum, GLint) { OUT("glLightModeli"); }
void glMaterialfv(GLenum, GLenum e, const GLfloat *p) {
  int n = e == GL_SHININESS ? 1 : 4;
  volatile float f = 0;
  for (int i = 0; i < n; ++i) f = f + p[i];
}
void glColorMaterial(GLenum, GLenum) { OUT("glColorMaterial"); }
void glHint(GLenum, GLenum) { OUT("glHint"); }
void glPixelStorei(GLenum p, GLint v) { OUT("glPixelStorei"); if (p == GL_UNPACK_ALIGNMENT) sgl::S().unpack = v; if (p == GL_PACK_ALIGNMENT) sgl::S().pack = v; }
void glPushAttrib(GLbitfield) {
  sim::NoLib nl;
  OUT("glPushAttrib");
  auto &s = sgl::S();
  if (sgl::attrs().size() >= 16) { sgl::bad("attribute stack overflow"); return; }
  sgl::Attr a;
  a.on = s.on; a.lw = s.lw; a.ps = s.ps;
  memcpy(a.vp, s.vp, sizeof a.vp);
  memcpy(a.c, s.c, sizeof a.c);
  sgl::attrs().push_back(a);
}
void glPopAttrib(void) {
  sim::NoLib nl;
  OUT("glPopAttrib");
  auto &s = sgl::S();
  if (sgl::attrs().empty()) { sgl::bad("attribute stack underflow"); return; }
  auto &a = sgl::attrs().back();
  s.on = a.on; s.lw = a.lw; s.ps = a.ps;
  memcpy(s.vp, a.vp, sizeof a.vp);
  memcpy(s.c, a.c, sizeof a.c);
  sgl::attrs().pop_back();
}
void glEnableClientState(GLenum a) { OUT("glEnableClientState"); if (a == GL_VERTEX_ARRAY) sgl::S().varray = true; else if (a == GL_NORMAL_ARRAY) sgl::S().narray = true; else sgl::bad("glEnableClientState of an array the simulated driver does not have"); }
void glDisableClientState(GLenum a) { OUT("glDisableClientState"); if (a == GL_VERTEX_ARRAY) sgl::S().varray = false; else if (a == GL_NORMAL_ARRAY) sgl::S().narray = false; }
void glVertexPointer(GLint size, GLenum type, GLsizei stride, const void *p) { OUT("glVertexPointer"); sgl::S().va = {size, type, stride, p}; }
void glNormalPointer(GLenum type, GLsizei stride, const void *p) { OUT("glNormalPointer"); sgl::S().na = {3, type, stride, p}; }
void glArrayElement(GLint i) { sgl::element(i); }
void glDrawElements(GLenum mode, GLsizei n, GLenum type, const void *ind) {
  if (type != GL_UNSIGNED_INT) { sgl::bad("glDrawElements with an index type the simulated driver does not have"); return; }
  glBegin(mode);
  for (int i = 0; i < n; ++i) sgl::element(((const unsigned int *)ind)[i]);
  glEnd();
}
void glDrawArrays(GLenum mode, GLint first, GLsizei n) {
  glBegin(mode);
  for (int i = 0; i < n; ++i) sgl::element(first + i);
  glEnd();
}
// ---- textures
static int sgl_channels(GLenum f) {
  switch (f) {
    case GL_RGB: case GL_BGR: return 3;
    case GL_RGBA: case GL_BGRA: return 4;
    case GL_DEPTH_COMPONENT: case GL_RED: case GL_LUMINANCE: case GL_ALPHA: return 1;
    default: return 0;
  }
}
static size_t sgl_bytes(int w, int h, GLenum fmt, GLenum type, int align) {
  size_t el = type == GL_FLOAT ? 4 : type == GL_UNSIGNED_BYTE ? 1 : 0;
  size_t row = (size_t)w * sgl_channels(fmt) * el;
  size_t pad = (row + align - 1) / align * align;
  return h ? pad * (h - 1) + row : 0;
}
void glGenTextures(GLsizei n, GLuint *o) {
  sim::NoLib nl;
  OUT("glGenTextures");
  for (int i = 0; i < n; ++i) { o[i] = sgl::S().tex_next; sgl::S().tex_next += 1 + (o[i] % 3); sgl::S().tex[o[i]]; }
}
void glDeleteTextures(GLsizei n, const GLuint *o) {
  sim::NoLib nl;
  OUT("glDeleteTextures");
  for (int i = 0; i < n; ++i) { sgl::S().tex.erase(o[i]); if (sgl::S().tex_bound == o[i]) sgl::S().tex_bound = 0; }
}
GLboolean glIsTexture(GLuint t) { return sgl::S().tex.count(t) ? GL_TRUE : GL_FALSE; }
void glBindTexture(GLenum, GLuint t) {
  OUT("glBindTexture");
  if (t && !sgl::S().tex.count(t)) sgl::bad("glBindTexture of a name that was never generated");
  sgl::S().tex_bound = t;
}
void glTexParameteri(GLenum, GLenum, GLint) { OUT("glTexParameteri"); }
void glTexEnvi(GLenum, GLenum, GLint) { OUT("glTexEnvi"); }
void glTexImage2D(GLenum, GLint, GLint ifmt, GLsizei w, GLsizei h, GLint, GLenum fmt, GLenum type, const void *px) {
  sim::NoLib nl;
  OUT("glTexImage2D");
  auto &s = sgl::S();
  if (!s.tex_bound) { sgl::bad("glTexImage2D with no texture bound"); return; }
  auto &t = s.tex[s.tex_bound];
  t.w = w; t.h = h; t.ifmt = ifmt;
  size_t n = sgl_bytes(w, h, fmt, type, s.unpack);
  t.px.assign(n, 0);
  if (px && n) memcpy(t.px.data(), px, n);
}
void glTexSubImage2D(GLenum, GLint, GLint, GLint, GLsizei w, GLsizei h, GLenum fmt, GLenum type, const void *px) {
  sim::NoLib nl;
  OUT("glTexSubImage2D");
  auto &s = sgl::S();
  if (!s.tex_bound) { sgl::bad("glTexSubImage2D with no texture bound"); return; }
  auto &t = s.tex[s.tex_bound];
  if (w > t.w || h > t.h) { sgl::bad("glTexSubImage2D larger than the texture"); return; }
  size_t n = sgl_bytes(w, h, fmt, type, s.unpack);
  t.px.assign(n, 0);
  if (px && n) memcpy(t.px.data(), px, n);
}
void glReadPixels(GLint, GLint, GLsizei w, GLsizei h, GLenum fmt, GLenum type, void *px) {
  OUT("glReadPixels");
  size_t n = sgl_bytes(w, h, fmt, type, sgl::S().pack);
  if (n) memset(px, 0x3f, n);
}
void glDrawPixels(GLsizei, GLsizei, GLenum, GLenum, const void *) { OUT("glDrawPixels"); }
void glGetTexImage(GLenum, GLint, GLenum fmt, GLenum type, void *px) {
  OUT("glGetTexImage");
  auto &s = sgl::S();
  auto &t = s.tex[s.tex_bound];
  size_t n = sgl_bytes(t.w, t.h, fmt, type, s.pack);
  if (n) memset(px, 0x3f, n);
}
void glFinish(void) { OUT("glFinish"); }
void glFlush(void) { OUT("glFlush"); }
GLenum glGetError(void) { GLenum e = sgl::S().nerr ? GL_INVALID_OPERATION : GL_NO_ERROR; return e; }
#undef OUT

// ---------------------------------------------------------------- GLFW

void glfwGetWindowSize(GLFWwindow *w, int *x, int *y) { if (x) *x = sgl::W(w)->w; if (y) *y = sgl::W(w)->h; }
void glfwGetFramebufferSize(GLFWwindow *w, int *x, int *y) { glfwGetWindowSize(w, x, y); }
void glfwGetCursorPos(GLFWwindow *w, double *x, double *y) { *x = sgl::W(w)->cx; *y = sgl::W(w)->cy; }
void glfwSetWindowShouldClose(GLFWwindow *w, int v) { sgl::W(w)->close = v != 0; }
int glfwWindowShouldClose(GLFWwindow *w) { return sgl::W(w)->close; }
GLFWwindow *glfwCreateWindow(int x, int y, const char *, GLFWmonitor *, GLFWwindow *) {
  sim::NoLib nl;
  auto *w = new sgl::Window;
  w->w = x; w->h = y;
  sgl::windows().push_back(w);
  return (GLFWwindow *)w;
}
void glfwDestroyWindow(GLFWwindow *w) { sgl::W(w)->alive = false; }
void glfwTerminate(void) {}
int glfwInit(void) { return 1; }
void glfwWindowHint(int, int) {}
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; }
void glfwMakeContextCurrent(GLFWwindow *w) { sgl::current() = sgl::W(w); }
void glfwSetWindowUserPointer(GLFWwindow *w, void *p) { sgl::W(w)->user = p; }
void *glfwGetWindowUserPointer(GLFWwindow *w) { return sgl::W(w)->user; }
GLFWframebuffersizefun glfwSetFramebufferSizeCallback(GLFWwindow *w, GLFWframebuffersizefun f) { std::swap(sgl::W(w)->on_size, f); return f; }
GLFWkeyfun glfwSetKeyCallback(GLFWwindow *w, GLFWkeyfun f) { std::swap(sgl::W(w)->on_key, f); return f; }
GLFWmousebuttonfun glfwSetMouseButtonCallback(GLFWwindow *w, GLFWmousebuttonfun f) { std::swap(sgl::W(w)->on_button, f); return f; }
GLFWcursorposfun glfwSetCursorPosCallback(GLFWwindow *w, GLFWcursorposfun f) { std::swap(sgl::W(w)->on_cursor, f); return f; }
GLFWscrollfun glfwSetScrollCallback(GLFWwindow *w, GLFWscrollfun f) { std::swap(sgl::W(w)->on_scroll, f); return f; }
void glfwSwapBuffers(GLFWwindow *w) { ++sgl::W(w)->swaps; }
void glfwPollEvents(void) {}
void glfwWaitEvents(void) {}
void glfwSwapInterval(int) {}
void glfwSetWindowTitle(GLFWwindow *, const char *) {}
double glfwGetTime(void) { return 0; }
GLFWwindow *glfwGetCurrentContext(void) { return (GLFWwindow *)sgl::current(); }
int glfwGetMouseButton(GLFWwindow *w, int b) { return sgl::W(w)->down[b & 7] ? GLFW_PRESS : GLFW_RELEASE; }
int glfwGetKey(GLFWwindow *w, int k) { return sgl::W(w)->key == k ? GLFW_PRESS : GLFW_RELEASE; }
void glfwGetWindowContentScale(GLFWwindow *, float *x, float *y) { if (x) *x = 1; if (y) *y = 1; }
void glfwSetWindowSize(GLFWwindow *w, int x, int y) { sgl::W(w)->w = x; sgl::W(w)->h = y; }
int glfwGetWindowAttrib(GLFWwindow *, int) { return 1; }
}
