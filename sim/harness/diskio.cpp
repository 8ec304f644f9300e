// F01-F05: readers and writers of the library over the simulated disk.
#include "sim.h"
#include "seams.h"
#include "geomgen.h"
#include <string>
#include <typeinfo>
#include <fstream>
#include <sstream>
#include <iostream>
#include "delfem2/msh_io_obj.h"
#include "delfem2/msh_io_ply.h"
#include "delfem2/msh_io_misc.h"
#include "delfem2/filenpy_str.h"
#include "delfem2/img_ioppm.h"
#include "delfem2/file.h"
#include "delfem2/rig_bvh.h"
#include "delfem2/cad2_io_dxf.h"
#include "delfem2/cad2.h"
#include "delfem2/cvcamera.h"
#include "delfem2/cad3d.h"
namespace dfm2 = delfem2;
extern "C" int sim_stdio_open_count();
extern "C" { void glNormal3dv(const double *) {} void glNormal3fv(const float *) {} }   // referenced by cad3d.h's colour header, never called
namespace {
typedef std::vector<double> A;
struct Out { double tol = 0; int status = 1;                 // 1 success / void, 0 reported failure
  bool threw = false; std::string what; std::vector<A> arr; std::vector<std::string> str;
  bool operator==(const Out &o) const {
    if (threw || o.threw) return threw == o.threw;
    if (status != o.status) return false; if (!status) return true;
    if (str != o.str || arr.size() != o.arr.size()) return false;
    for (size_t i = 0; i < arr.size(); ++i) { if (arr[i].size() != o.arr[i].size()) return false;
      for (size_t k = 0; k < arr[i].size(); ++k) if (!eq(arr[i][k], o.arr[i][k], tol)) return false; }
    return true; }
  static bool eq(double a, double b, double tol) { return a == b || (a != a && b != b) || std::fabs(a - b) <= tol; }
  uint64_t hash() const { uint64_t h = sim::hash_u64(status * 2 + threw, 7); for (auto &a : arr) h = gen::hv(a, h); for (auto &s : str) h = sim::hash_bytes(s.data(), s.size(), h); return h; }
  bool empty(size_t n) const { for (size_t i = 0; i < std::min(n, arr.size()); ++i) if (!arr[i].empty()) return false; return true; } };
template<class V> A cp(const V &v) { return A(v.begin(), v.end()); }
template<class T> std::vector<T> junk(bool d, T a) { std::vector<T> v; if (d) v.assign(23, a); return v; }

struct Mark { size_t end; std::vector<size_t> n; };   // after the line ending at `end`, array j has n[j] entries
struct File { std::string path, data; };
enum Kind { LINE, COUNTED, STATUS, PREFIX };
struct Case { std::vector<File> f; Out expect; std::vector<Mark> mark; std::string path; size_t full_arrays = 0;
  size_t needed = (size_t) -1;      // STATUS: number of bytes of the (last) file that carry content
  bool exact_only = false; };
struct Fmt { const char *name; Kind kind; Case (*make)(gen::Rng &); Out (*read)(const std::string &path, bool dirty); };

// ------------------------------------------------------------------ text helpers
std::string num(gen::Rng &g, double &v) {   // a decimal and the double it denotes
  char b[64]; 
  switch (g.n(7)) { case 0: snprintf(b, 64, "%d", (int) g.n(2001) - 1000); break; case 1: snprintf(b, 64, "%.3f", g.r(-100, 100)); break; case 2: snprintf(b, 64, "%.6e", g.r(-1, 1)); break;
    case 3: snprintf(b, 64, "%.17g", g.r(-1, 1)); break; case 4: snprintf(b, 64, "%g", g.r(-1, 1) * 1e-7); break; case 5: snprintf(b, 64, "%.1f", 0.0); break; default: snprintf(b, 64, "%g", g.r(-1000, 1000)); }
  v = strtod(b, nullptr); return b; }
std::string eolf(gen::Rng &g) { return g.n(3) ? "\n" : "\r\n"; }
std::string junk_comment(gen::Rng &g) { std::string s; size_t n = g.n(6) ? g.n(30) : g.n(2) ? 230 + g.n(60) : 500 + g.n(600); for (size_t i = 0; i < n; ++i) s += (char) (32 + g.n(90)); return s; }
std::string sp(gen::Rng &g) { return g.n(5) ? " " : "  "; }

// ------------------------------------------------------------------ OBJ
struct ObjGen { Case c; std::string eol; bool quad, slash, attrs; A xyz, tex, nrm; std::vector<A> out; };
// flavour 0: plain triangles "f a b c"; 1: plain quads; 2: triangles, any of a, a/b, a//c, a/b/c; 3: triangles and quads mixed; 4: full wavefront
Case make_obj(gen::Rng &g, int fl) {
  Case c; std::string s, eol = eolf(g); int nline = 3 + (int) g.n(g.n(4) ? 14 : 60); size_t nv = 0, nt = 0, nn = 0;
  A xyz, tex, nrm, f0, fi{0}, ft, fn, gi{0}; std::vector<std::string> gn{"default"}; std::string mtl;
  c.path = "/sim/m.obj"; bool no_final = g.n(4) == 0;
  auto mark = [&]() { std::vector<size_t> n; if (fl < 4) n = {xyz.size(), f0.size()}; else n = {xyz.size(), tex.size(), nrm.size(), fi.size(), f0.size(), ft.size(), fn.size()}; c.mark.push_back({s.size(), n}); };
  mark();
  for (int l = 0; l < nline; ++l) {
    std::string e = (l == nline - 1 && no_final) ? "" : eol; double v; unsigned w = l < 4 ? 0 : g.n(14);
    if (w <= 4) { s += "v"; for (int k = 0; k < 3; ++k) { s += (k ? sp(g) : std::string(" ")) + num(g, v); xyz.push_back(fl == 5 ? (float) v : v); } if (!g.n(6)) s += " 1.0"; ++nv; }
    else if (w <= 8) { int n = fl == 1 ? 4 : fl == 3 ? 3 + g.n(2) : fl == 4 ? 3 + g.n(4) : 3; s += "f"; std::vector<int> id;
      for (int k = 0; k < n; ++k) { int a = (int) g.n(nv + 1) + 1, b = (int) g.n(nt + 1) + 1, d = (int) g.n(nn + 1) + 1; id.push_back(a - 1); s += sp(g) + std::to_string(a); int it = -1, in = -1;
        if (fl >= 2) switch (g.n(4)) { case 0: s += "/" + std::to_string(b); it = b - 1; break; case 1: s += "//" + std::to_string(d); in = d - 1; break; case 2: s += "/" + std::to_string(b) + "/" + std::to_string(d); it = b - 1; in = d - 1; break; }
        if (fl == 4) { f0.push_back((unsigned) (a - 1)); ft.push_back((unsigned) it); fn.push_back((unsigned) in); } }
      if (fl == 4) fi.push_back((double) f0.size());
      else if (n == 4 && fl == 3) for (int k : {0, 1, 2, 0, 2, 3}) f0.push_back(id[k]);
      else for (int k : id) f0.push_back(k);
      if (!g.n(5)) s += " "; }
    else if (w == 9) { s += "#" + junk_comment(g); }
    else if (w == 10) { s += "vt "; A t(2); std::string a = num(g, t[0]), b = num(g, t[1]); s += a + " " + b; for (double q : t) tex.push_back(q); ++nt; }
    else if (w == 11) { s += "vn "; double n3[3]; for (double &q : n3) s += num(g, q) + " "; double L = std::sqrt(n3[0] * n3[0] + n3[1] * n3[1] + n3[2] * n3[2]); for (double q : n3) nrm.push_back(q / L); ++nn; }
    else if (w == 12) { if (g.n(2)) { std::string nm = "grp" + std::to_string(g.n(100)); s += "g " + nm; gn.push_back(nm); gi.push_back((double) fi.size() - 1); } else if (g.n(2)) { s += "usemtl m" + std::to_string(g.n(9)); } else { mtl = "a" + std::to_string(g.n(99)) + ".mtl"; s += "mtllib " + mtl; } }
    else { switch (g.n(3)) { case 0: break; case 1: s += "s off"; break; default: s += "o " + junk_comment(g); } }
    s += e; mark(); }
  gi.push_back((double) fi.size() - 1);
  c.f = {{c.path, s}};
  if (fl < 4) { c.expect.arr = {xyz, f0}; c.full_arrays = 2; } else { c.expect.arr = {xyz, tex, nrm, fi, f0, ft, fn, gi}; c.expect.str = gn; c.expect.str.push_back(mtl); c.full_arrays = 7; }
  return c; }
Case mk_obj0(gen::Rng &g) { return make_obj(g, 0); }
Case mk_obj1(gen::Rng &g) { return make_obj(g, 1); }
Case mk_obj2(gen::Rng &g) { return make_obj(g, 2); }
Case mk_obj3(gen::Rng &g) { return make_obj(g, 3); }
Case mk_obj4(gen::Rng &g) { return make_obj(g, 4); }
Out rd_obj(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_Obj(x, t, p); sim::NoLib n; Out o; o.arr = {cp(x), A()}; for (unsigned i : t) o.arr[1].push_back((int) i); return o; }
Out rd_objq(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_Obj_MeshQuad3(x, t, p); sim::NoLib n; Out o; o.arr = {cp(x), A()}; for (unsigned i : t) o.arr[1].push_back((int) i); return o; }
Out rd_obj2(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_Obj2(p, x, t); sim::NoLib n; Out o; o.arr = {cp(x), A()}; for (unsigned i : t) o.arr[1].push_back((int) i); return o; }
Out rd_obj3(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_Obj3(x, t, p); sim::NoLib n; Out o; o.arr = {cp(x), A()}; for (unsigned i : t) o.arr[1].push_back((int) i); return o; }
Out rd_wav(const std::string &p, bool d) { auto x = junk<double>(d, 7.5), t = x, n = x; auto i = junk<unsigned>(d, 5), a = i, b = i, e = i, gi = i; std::vector<std::string> gn; std::string m; if (d) { gn = {"x", "y"}; m = "old"; }
  bool ok = dfm2::Read_WavefrontObjWithMaterialMixedElem(m, x, t, n, i, a, b, e, gn, gi, p); sim::NoLib nl; Out o; o.status = ok; o.arr = {x, t, n, cp(i), cp(a), cp(b), cp(e), cp(gi)}; o.str = gn; o.str.push_back(m);
  if (ok) { if (gn.size() + 1 != gi.size()) sim::violation("group-index", "%zu group names, %zu group offsets", gn.size(), gi.size()); if (i.empty() || i.back() != a.size() || a.size() != b.size() || a.size() != e.size()) sim::violation("elem-index", "element index does not cover the element arrays");
    if (gi.back() != i.size() - 1) sim::violation("group-index", "group offsets end at %u of %zu elements", gi.back(), i.size() - 1); }
  return o; }

// ------------------------------------------------------------------ counted meshes
struct TriMesh { A xyz, tri; };
TriMesh small_mesh(gen::Rng &g) { TriMesh m; int nv = (int) g.n(g.n(3) ? 9 : 40), nt = nv ? (int) g.n(12) : 0; for (int i = 0; i < nv * 3; ++i) { double v; num(g, v); m.xyz.push_back(v); } for (int i = 0; i < nt * 3; ++i) m.tri.push_back(g.n(nv)); return m; }
std::string d2s(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
Case mk_ply(gen::Rng &g) { Case c; c.path = "/sim/m.ply"; TriMesh m = small_mesh(g); std::string e = eolf(g), s = "ply" + e + "format ascii 1.0" + e; int nc = (int) g.n(4); for (int i = 0; i < nc; ++i) s += "comment " + junk_comment(g) + e;
  s += "element vertex " + std::to_string(m.xyz.size() / 3) + e + "property float x" + e + "property float y" + e + "property float z" + e + "element face " + std::to_string(m.tri.size() / 3) + e + "property list uchar int vertex_indices" + e + "end_header" + e;
  for (size_t i = 0; i < m.xyz.size(); ++i) s += d2s(m.xyz[i]) + (i % 3 == 2 ? e : sp(g));
  for (size_t i = 0; i < m.tri.size(); ++i) s += (i % 3 == 0 ? "3 " : "") + std::to_string((int) m.tri[i]) + (i % 3 == 2 ? e : sp(g));
  c.f = {{c.path, s}}; c.expect.arr = {m.xyz, m.tri}; c.full_arrays = 2; return c; }
Out rd_ply(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_Ply(x, t, std::filesystem::path(p)); sim::NoLib n; Out o; o.arr = {cp(x), cp(t)}; return o; }
Out rd_plyp(const std::string &p, bool d) { int nn = d ? 4 : 0, nt = d ? 5 : 0; double *x = nullptr; unsigned *t = nullptr; 
  struct G { double *&x; unsigned *&t; ~G() { delete[] x; delete[] t; } } gd{x, t}; 
  dfm2::Read_Ply(p, nn, x, nt, t); sim::NoLib n; Out o; o.arr = {A(), A()}; if (nn < 0 || nt < 0) sim::violation("negative-count", "%d nodes, %d triangles", nn, nt);
  if (x) o.arr[0].assign(x, x + nn * 3); if (t) o.arr[1].assign(t, t + nt * 3); return o; }
Case mk_raw(gen::Rng &g) { Case c; c.path = "/sim/m.tri"; TriMesh m = small_mesh(g); std::string e = eolf(g), s = std::to_string(m.xyz.size() / 3) + " " + std::to_string(m.tri.size() / 3) + e;
  for (size_t i = 0; i < m.xyz.size(); ++i) s += d2s(m.xyz[i]) + (i % 3 == 2 ? e : sp(g)); for (size_t i = 0; i < m.tri.size(); ++i) s += std::to_string((int) m.tri[i]) + (i % 3 == 2 ? e : sp(g));
  c.f = {{c.path, s}}; c.expect.arr = {m.xyz, m.tri}; c.full_arrays = 2; return c; }
Out rd_raw(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<int>(d, 5); { std::ifstream f(p); dfm2::Read_MeshTri3D(f, x, t); } sim::NoLib n; Out o; o.arr = {cp(x), cp(t)}; return o; }
Case mk_tet(gen::Rng &g) { Case c; c.path = "/sim/t.1"; TriMesh m = small_mesh(g); std::string e = eolf(g); int nv = (int) m.xyz.size() / 3, nt = (int) m.tri.size() / 3, nq = nv ? (int) g.n(8) : 0; A tet, tri;
  std::string a = std::to_string(nv) + "  3  0  0" + e, b = std::to_string(nq) + "  4  0" + e, f = std::to_string(nt) + "  0" + e;
  for (int i = 0; i < nv; ++i) { a += "  " + std::to_string(i); for (int k = 0; k < 3; ++k) a += "  " + d2s(m.xyz[i * 3 + k]); a += e; } if (g.n(2)) a += "# Generated by tetgen" + e;
  for (int i = 0; i < nq; ++i) { b += "  " + std::to_string(i); for (int k = 0; k < 4; ++k) { tet.push_back(g.n(nv)); b += "  " + std::to_string((int) tet.back()); } b += e; }
  for (int i = 0; i < nt; ++i) { f += "  " + std::to_string(i); for (int k = 0; k < 3; ++k) f += "  " + std::to_string((int) m.tri[i * 3 + k]); f += e; tri.insert(tri.end(), {m.tri[i * 3], m.tri[i * 3 + 2], m.tri[i * 3 + 1]}); }
  c.f = {{c.path + ".node", a}, {c.path + ".ele", b}, {c.path + ".face", f}}; c.expect.arr = {m.xyz, tet, tri}; c.full_arrays = 3; return c; }
Out rd_tet(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto q = junk<int>(d, 5), t = q; dfm2::Read_MeshTet3D_TetGen(p, x, q, t); sim::NoLib n; Out o; o.arr = {cp(x), cp(q), cp(t)}; return o; }
Case mk_vtk(gen::Rng &g) { Case c; c.path = "/sim/m.vtk"; TriMesh m = small_mesh(g); std::string e = eolf(g); int ty[] = {5, 9, 10, 12}, nn[] = {3, 4, 4, 8}, w = (int) g.n(4), nv = (int) m.xyz.size() / 3, ne = nv ? 1 + (int) g.n(7) : 0; A el, val;
  std::string s = "# vtk DataFile Version 2.0" + e + (g.n(4) ? std::string("name") : junk_comment(g)) + e + "ASCII" + e + "DATASET UNSTRUCTURED_GRID" + e + "POINTS " + std::to_string(nv) + " float" + e;
  for (size_t i = 0; i < m.xyz.size(); ++i) s += d2s(m.xyz[i]) + (i % 3 == 2 ? e : sp(g));
  s += "CELLS " + std::to_string(ne) + " " + std::to_string(ne * (nn[w] + 1)) + e; for (int i = 0; i < ne; ++i) { s += std::to_string(nn[w]); for (int k = 0; k < nn[w]; ++k) { el.push_back(g.n(nv)); s += " " + std::to_string((int) el.back()); } s += e; }
  s += "CELL_TYPES " + std::to_string(ne) + e; for (int i = 0; i < ne; ++i) s += std::to_string(ty[w]) + e;
  int pd = (int) g.n(3); if (pd) { s += "POINT_DATA " + std::to_string(nv) + e; if (pd == 1) s += "SCALARS point_scalars float 1" + e + "LOOKUP_TABLE default" + e; else s += "VECTORS point_vectors float" + e;
    for (int i = 0; i < nv * (pd == 1 ? 1 : 3); ++i) { double v; s += num(g, v) + (pd == 1 || i % 3 == 2 ? e : " "); val.push_back(v); } }
  c.f = {{c.path, s}}; c.expect.arr = {m.xyz, el, ne ? A{(double) ty[w]} : A(), val}; c.full_arrays = 3; return c; }
Out rd_vtk(const std::string &p, bool d) { auto x = junk<double>(d, 7.5), v = x; auto el = junk<int>(d, 5); int ty = d ? 5 : 0; dfm2::ReadVTK(x, ty, el, v, p); sim::NoLib n; Out o; o.arr = {x, cp(el), ty < 0 ? A() : A{(double) ty}, v}; return o; }
Case mk_nas(gen::Rng &g) { Case c; c.path = "/sim/m.nas"; std::string e = eolf(g), s; A xyz, tri; auto mark = [&]() { c.mark.push_back({s.size(), {xyz.size(), tri.size()}}); }; mark(); int nv = 1 + (int) g.n(12), nt = (int) g.n(10); std::vector<int> ids; std::set<int> used; bool no_final = !g.n(4);
  auto pad = [](std::string t) { t.resize(8, ' '); return t; }; auto noise = [&]() { while (!g.n(4)) { s += g.n(2) ? "$ " + junk_comment(g) : std::string("CORD2R"); s += e; mark(); } };
  for (int i = 0; i < nv; ++i) { noise(); int id; do id = 1 + (int) g.n(4 * nv + 3); while (!used.insert(id).second); ids.push_back(id); s += pad("GRID") + pad(std::to_string(id)) + pad("0"); 
    for (int k = 0; k < 3; ++k) { char b[32]; snprintf(b, 32, "%.4f", g.r(-9, 9)); xyz.push_back(strtod(b, nullptr)); s += pad(b); } if (i == nv - 1 && !nt && no_final) ; else s += e; mark(); }
  for (int i = 0; i < nt; ++i) { noise(); s += pad("CTRIA3") + pad(std::to_string(i + 1)) + pad("1"); for (int k = 0; k < 3; ++k) { int q = (int) g.n(nv); tri.push_back(q); s += pad(std::to_string(ids[q])); } if (!(i == nt - 1 && no_final)) s += e; mark(); }
  c.f = {{c.path, s}}; c.expect.arr = {xyz, tri}; c.full_arrays = 2; return c; }
Out rd_nas(const std::string &p, bool d) { auto x = junk<double>(d, 7.5); auto t = junk<unsigned>(d, 5); dfm2::Read_MeshTri3D_Nas(x, t, p.c_str()); sim::NoLib n; Out o; o.arr = {cp(x), cp(t)}; return o; }

// ------------------------------------------------------------------ other files
std::string npy(const std::string &shape, const std::string &descr, gen::Rng &g) { std::string d = "{'descr': '" + descr + "', 'fortran_order': False, 'shape': " + shape + ", }"; size_t pad = 64 - (10 + d.size() + 1) % 64; if (!g.n(3)) pad += 64 * g.n(6); d += std::string(pad, ' ') + "\n";
  std::string s("\x93NUMPY", 6); s += (char) 1; s += (char) 0; s += (char) (d.size() & 255); s += (char) (d.size() >> 8); return s + d; }
template<class T> Case mk_npy2(gen::Rng &g) { Case c; c.path = "/sim/a.npy"; int a = (int) g.n(7), b = (int) g.n(9); std::string s = npy("(" + std::to_string(a) + ", " + std::to_string(b) + ")", sizeof(T) == 4 ? "<f4" : "<f8", g); A v{(double) a, (double) b};
  for (int i = 0; i < a * b; ++i) { T x = (T) g.r(-5, 5); s.append((char *) &x, sizeof x); v.push_back(x); } c.f = {{c.path, s}}; c.expect.arr = {v}; c.needed = s.size(); return c; }
template<class T> Out rd_npy2(const std::string &p, bool d) { auto x = junk<T>(d, 3); int a = d ? 9 : 0, b = d ? 2 : 0; bool ok = dfm2::LoadNumpy_2Dim(a, b, x, p); sim::NoLib n; Out o; o.status = ok; if (ok) { if ((size_t) a * b != x.size() || a < 0 || b < 0) sim::violation("size", "shape (%d,%d), %zu values", a, b, x.size()); o.arr = {A{(double) a, (double) b}}; for (T q : x) o.arr[0].push_back(q); } return o; }
Case mk_npy1(gen::Rng &g) { Case c; c.path = "/sim/a.npy"; int a = (int) g.n(30); std::string s = npy("(" + std::to_string(a) + ",)", "<f4", g); A v{(double) a}; for (int i = 0; i < a; ++i) { float x = (float) g.r(-5, 5); s.append((char *) &x, 4); v.push_back(x); } c.f = {{c.path, s}}; c.expect.arr = {v}; c.needed = s.size(); return c; }
Out rd_npy1(const std::string &p, bool d) { auto x = junk<float>(d, 3); int a = d ? 9 : 0; bool ok = dfm2::LoadNumpy_1DimF(a, x, p); sim::NoLib n; Out o; o.status = ok; if (ok) { if ((size_t) a != x.size()) sim::violation("size", "shape (%d), %zu values", a, x.size()); o.arr = {A{(double) a}}; for (float q : x) o.arr[0].push_back(q); } return o; }
Case mk_ppmb(gen::Rng &g) { Case c; c.path = "/sim/i.ppm"; int w = (int) g.n(9), h = (int) g.n(7); std::string s = "P6\n", px; if (g.n(2)) s += "#" + junk_comment(g) + "\n"; s += std::to_string(w) + " " + std::to_string(h) + "\n255\n"; A v{(double) w, (double) h}, img(w * h * 3);
  for (int r = 0; r < h; ++r) for (int q = 0; q < w * 3; ++q) { unsigned char b = (unsigned char) (g.n(3) ? g.n(256) : (const char *) "\n #"[g.n(3)] - (const char *) 0 ? "\n #5"[g.n(4)] : 0); px += (char) b; img[(h - 1 - r) * w * 3 + q] = b; }
  v.insert(v.end(), img.begin(), img.end()); s += px; c.f = {{c.path, s}}; c.expect.arr = {v}; c.needed = s.size(); return c; }
Out rd_ppmb(const std::string &p, bool d) { auto x = junk<unsigned char>(d, 3); int w = d ? 9 : 0, h = d ? 3 : 0; bool ok = dfm2::LoadImage_PPMBinary(p, x, w, h); sim::NoLib n; Out o; o.status = ok; if (ok) { if (w < 0 || h < 0 || x.size() < (size_t) w * h * 3) sim::violation("size", "%d x %d image, %zu bytes", w, h, x.size()); o.arr = {A{(double) w, (double) h}}; for (size_t i = 0; i < (size_t) w * h * 3; ++i) o.arr[0].push_back(x[i]); } return o; }
Case mk_ppma(gen::Rng &g) { Case c; c.path = "/sim/i.ppm"; int w = (int) g.n(9), h = (int) g.n(7); std::string e = eolf(g), s = "P3" + e + std::to_string(w) + " " + std::to_string(h) + e + "255" + e; A v{(double) w, (double) h}, img(w * h * 3);
  for (int r = 0; r < h; ++r) for (int q = 0; q < w * 3; ++q) { int b = (int) g.n(256); s += std::to_string(b) + (g.n(4) ? " " : e); img[(h - 1 - r) * w * 3 + q] = b; } v.insert(v.end(), img.begin(), img.end()); c.f = {{c.path, s}}; c.expect.arr = {v}; 
  c.needed = s.find_last_not_of(" \r\n") + 1; return c; }
Out rd_ppma(const std::string &p, bool d) { auto x = junk<unsigned char>(d, 3); unsigned w = d ? 9 : 0, h = d ? 3 : 0; int rc = dfm2::LoadImage_PPMAscii(w, h, x, p); sim::NoLib n; Out o; o.status = rc == 0; if (rc == 0) { if (x.size() != (size_t) w * h * 3) sim::violation("size", "%u x %u image, %zu bytes", w, h, x.size()); o.arr = {A{(double) w, (double) h}}; for (auto q : x) o.arr[0].push_back(q); } return o; }
Case mk_par(gen::Rng &g) { Case c; c.path = "/sim/p.txt"; std::string s; A v; c.mark.push_back({0, {0}}); int n = (int) g.n(20); for (int i = 0; i < n; ++i) { double x; s += num(g, x); v.push_back((float) x); if (i < n - 1 || g.n(3)) s += g.n(3) ? "\n" : " "; c.mark.push_back({s.size(), {v.size()}}); } c.f = {{c.path, s}}; c.expect.arr = {v}; c.full_arrays = 1; return c; }
Out rd_par(const std::string &p, bool d) { auto x = junk<float>(d, 3); bool ok = dfm2::ReadParam(x, p); sim::NoLib n; Out o; o.status = ok; if (ok) o.arr = {cp(x)}; return o; }
Case mk_any(gen::Rng &g) { Case c; c.path = "/sim/f.bin"; std::string s; size_t n = g.n(3) ? g.n(60) : g.n(30000); for (size_t i = 0; i < n; ++i) s += (char) g.n(256); c.f = {{c.path, s}}; c.expect.str = {s}; c.needed = s.size(); return c; }
Out rd_gfc(const std::string &p, bool d) { auto x = junk<char>(d, 3); bool ok = dfm2::GetFileContents(x, p); sim::NoLib n; Out o; o.status = ok; if (ok) { if (x.empty() || x.back() != 0) sim::violation("terminator", "not null terminated"); o.str = {std::string(x.data(), x.size() - 1)}; } return o; }
Out rd_load(const std::string &p, bool) { std::string s = dfm2::LoadFile(p); sim::NoLib n; Out o; o.str = {s}; return o; }
Case mk_mtl(gen::Rng &g) { Case c; c.path = "/sim/a.mtl"; std::string e = eolf(g), s; A v; c.mark.push_back({0, {0}}); auto mark = [&]() { c.mark.push_back({s.size(), {v.size()}}); }; int n = (int) g.n(5);
  auto f3 = [&](const char *k, size_t at, bool a1) { double q[3]; s += k; for (double &x : q) s += " " + num(g, x); s += e; for (int i = 0; i < 3; ++i) v[at + i] = (float) q[i]; v[at + 3] = a1 ? 1 : (float) q[2]; mark(); };
  if (!g.n(3)) { s += "# " + junk_comment(g) + e; mark(); }
  for (int i = 0; i < n; ++i) { s += "newmtl m" + std::to_string(i) + e; size_t b = v.size(); v.resize(b + 19, 0.); v[b] = i; v[b + 18] = -1; mark(); if (g.n(4)) f3("Ka", b + 5, true); if (g.n(4)) f3("Kd", b + 1, true); if (g.n(2)) f3("Ks", b + 9, true); if (g.n(2)) f3("Ke", b + 13, false);
    if (g.n(2)) { double x; s += "Ns " + num(g, x) + e; v[b + 17] = (float) x; mark(); } if (g.n(2)) { int q = (int) g.n(5); s += "illum " + std::to_string(q) + e; v[b + 18] = q; mark(); } if (!g.n(3)) { s += "Ni 1.5" + e; mark(); } if (!g.n(3)) { s += e; mark(); } }
  c.f = {{c.path, s}}; c.expect.arr = {v}; c.full_arrays = 0; return c; }
Out rd_mtl(const std::string &p, bool d) { std::vector<dfm2::MaterialWavefrontObj> m; if (d) { m.resize(3); m[0].Ns = 4; } dfm2::Read_WavefrontMaterial(p, m); sim::NoLib n; Out o; o.arr = {A()}; A &v = o.arr[0]; if (d && !sim::disk::exists(p)) return o;
  for (auto &x : m) { v.push_back(x.name_mtl.size() > 1 ? atof(x.name_mtl.c_str() + 1) : -7); for (auto *q : {x.Kd, x.Ka, x.Ks, x.Ke}) for (int i = 0; i < 4; ++i) v.push_back(q[i]); v.push_back(x.Ns); v.push_back(x.illum); } return o; }
Case mk_bvh(gen::Rng &g) { Case c; c.path = "/sim/m.bvh"; std::string e = eolf(g), s = "HIERARCHY" + e, tab = g.n(2) ? "\t" : "  "; A bone, chan; int nb = 0, nch = 0; const char *P[] = {"Xposition", "Yposition", "Zposition"}, *R[] = {"Zrotation", "Xrotation", "Yrotation"};
  struct Rec { static void joint(gen::Rng &g, std::string &s, A &bone, A &chan, int &nb, int &nch, int parent, int depth, const std::string &e, const std::string &tab, const char **P, const char **R) {
    std::string ind; for (int i = 0; i < depth; ++i) ind += tab; int me = nb++; bool end = depth > 0 && (depth > 4 || g.n(3) == 0); s += ind + (depth == 0 ? "ROOT hip" : end ? std::string("End Site") : "JOINT j" + std::to_string(me)) + e + ind + "{" + e;
    double o[3]; s += ind + tab + "OFFSET"; for (double &x : o) s += " " + num(g, x); s += e; bone.push_back(parent); for (double x : o) bone.push_back(x);
    if (!end) { int pos = depth == 0; s += ind + tab + "CHANNELS " + std::to_string(pos ? 6 : 3); if (pos) for (int i = 0; i < 3; ++i) { s += std::string(" ") + P[i]; chan.insert(chan.end(), {(double) me, (double) i, 0.}); } int ax[] = {2, 0, 1}; for (int i = 0; i < 3; ++i) { s += std::string(" ") + R[i]; chan.insert(chan.end(), {(double) me, (double) ax[i], 1.}); } s += e; nch += pos ? 6 : 3;
      int k = depth == 0 ? 1 + g.n(3) : g.n(3); for (int i = 0; i < k; ++i) joint(g, s, bone, chan, nb, nch, me, depth + 1, e, tab, P, R); }
    s += ind + "}" + e; } };
  Rec::joint(g, s, bone, chan, nb, nch, -1, 0, e, tab, P, R); if (!g.n(4)) s += e; int nf = (int) g.n(6); s += "MOTION" + e + "Frames: " + std::to_string(nf) + e + "Frame Time: 0.0333" + e; A fr;
  for (int f = 0; f < nf; ++f) { for (int i = 0; i < nch; ++i) { double x; s += num(g, x) + (g.n(9) ? " " : "\t"); fr.push_back(x); } s += e; }
  c.f = {{c.path, s}}; c.expect.arr = {bone, chan, fr}; c.full_arrays = 3; return c; }
Out rd_bvh(const std::string &p, bool d) { dfm2::BioVisionHierarchy b; if (d) { b.nframe = 0; b.frame_time = 3; b.bvh_header = "old"; b.bones.resize(2); } b.Open(p); sim::NoLib n; Out o; o.tol = 1e-9; o.arr = {A(), A(), b.frame_channel}; if (d && !sim::disk::exists(p)) { o.arr = {A(), A(), A()}; return o; }
  for (auto &x : b.bones) { o.arr[0].push_back(x.ibone_parent); const double *pm = x.invBindMat; for (int k = 0; k < 3; ++k) { double w = pm[k * 4 + 3]; double pw = x.ibone_parent >= 0 && x.ibone_parent < (int) b.bones.size() ? b.bones[x.ibone_parent].invBindMat[k * 4 + 3] : 0; o.arr[0].push_back(pw - w); } if (x.ibone_parent >= (int) b.bones.size()) sim::violation("bone-parent", "parent %d of %zu bones", x.ibone_parent, b.bones.size()); }
  for (auto &x : b.channels) o.arr[1].insert(o.arr[1].end(), {(double) x.ibone, (double) x.iaxis, (double) x.isrot}); if (b.frame_channel.size() != b.nframe * b.channels.size()) sim::violation("frame-size", "frames");
  if (!b.bones.empty() && b.nframe) { sim::Lib l; b.SetFrame((unsigned) b.nframe - 1); } return o; }
Case mk_cam(gen::Rng &g) { Case c; c.path = "/sim/c.txt"; int n = (int) g.n(5); std::string e = eolf(g), s = std::to_string(n) + e; A v; for (int i = 0; i < n; ++i) { s += std::to_string(i) + " cam" + std::to_string(i) + ".png" + e; for (int k = 0; k < 21; ++k) { double x; s += num(g, x) + (k % 3 == 2 ? e : " "); v.push_back((float) x); } } c.f = {{c.path, s}}; c.expect.arr = {v}; c.needed = s.find_last_not_of(" \r\n") + 1; return c; }
Out rd_cam(const std::string &p, bool d) { std::vector<dfm2::CCvCamera> m; if (d) m.resize(2); bool ok = dfm2::ReadCamera(m, p); sim::NoLib n; Out o; o.status = ok; if (ok) { o.arr = {A()}; for (auto &x : m) { for (float q : x.K) o.arr[0].push_back(q); for (float q : x.t) o.arr[0].push_back(q); for (float q : x.R) o.arr[0].push_back(q); } } return o; }

const Fmt MESH[] = {{"obj", LINE, mk_obj0, rd_obj}, {"obj-quad", LINE, mk_obj1, rd_objq}, {"obj2", LINE, mk_obj2, rd_obj2}, {"obj3", LINE, mk_obj3, rd_obj3}, {"wavefront", LINE, mk_obj4, rd_wav}, {"ply", COUNTED, mk_ply, rd_ply}, {"ply-pointers", COUNTED, mk_ply, rd_plyp},
  {"raw-triangles", COUNTED, mk_raw, rd_raw}, {"tetgen", COUNTED, mk_tet, rd_tet}, {"vtk", COUNTED, mk_vtk, rd_vtk}, {"nastran", LINE, mk_nas, rd_nas}};
const Fmt OTHER[] = {{"npy-2d-double", STATUS, mk_npy2<double>, rd_npy2<double>}, {"npy-2d-float", STATUS, mk_npy2<float>, rd_npy2<float>}, {"npy-1d", STATUS, mk_npy1, rd_npy1}, {"ppm-binary", STATUS, mk_ppmb, rd_ppmb}, {"ppm-ascii", STATUS, mk_ppma, rd_ppma},
  {"parameters", LINE, mk_par, rd_par}, {"file-contents", STATUS, mk_any, rd_gfc}, {"file-string", STATUS, mk_any, rd_load}, {"material", LINE, mk_mtl, rd_mtl}, {"motion", COUNTED, mk_bvh, rd_bvh}, {"cameras", STATUS, mk_cam, rd_cam}};
const size_t NM = sizeof MESH / sizeof *MESH, NO = sizeof OTHER / sizeof *OTHER;

// ------------------------------------------------------------------ running a reader
struct Quiet { std::streambuf *b; struct Null : std::streambuf { int overflow(int c) override { return c; } } n; Quiet() { b = std::cout.rdbuf(&n); } ~Quiet() { std::cout.rdbuf(b); } };
Out run(const Fmt &f, const std::string &path, int fill, int stk, bool dirty) {
  Quiet q; Out o; sim::alloc_fill(fill); sim::scribble_stack(stk); sim::alloc_cap(256u << 20); sim::step_budget(1500000000); int64_t live = sim::live_blocks();
  try { sim::Lib l; o = f.read(path, dirty); } catch (std::exception &e) { o.threw = true; o.what = typeid(e).name(); }
  sim::alloc_fill(0); sim::alloc_cap(0); 
  if (sim::disk::open_handles() || sim_stdio_open_count()) sim::violation("handle-leak", "%s: a file stays open", f.name);
  if (sim::live_blocks() != live) sim::violation("leak", "%s: %lld blocks stay allocated", f.name, (long long) (sim::live_blocks() - live));
  return o; }
void lay(const Case &c) { sim::disk::reset(); for (auto &f : c.f) sim::disk::put(f.path, f.data); }
bool head_equal(const A &a, const A &b, size_t n) { if (a.size() < n || b.size() < n) return false; for (size_t i = 0; i < n; ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
std::string show(const Out &o) { std::string s = o.threw ? "threw " + o.what : o.status ? "ok" : "failure reported"; for (auto &a : o.arr) s += " " + std::to_string(a.size()); return s; }
void expect_full(const Fmt &f, const Case &c, const Out &o, const char *when) {
  if (!(o == c.expect)) { std::string d; for (size_t i = 0; i < std::min(o.arr.size(), c.expect.arr.size()); ++i) for (size_t k = 0; k < std::min(o.arr[i].size(), c.expect.arr[i].size()); ++k) if (!(o.arr[i][k] == c.expect.arr[i][k]) && d.size() < 80) d += " [" + std::to_string(i) + "][" + std::to_string(k) + "] " + d2s(o.arr[i][k]) + " for " + d2s(c.expect.arr[i][k]);
    sim::violation((std::string("intact-file:") + f.name).c_str(), "%s: %s: read %s, file holds %s%s", f.name, when, show(o).c_str(), show(c.expect).c_str(), d.c_str()); } }
// the file breaks off after `k` bytes; clean: at a recoverable end of file, else by a read error
void check_short(const Fmt &f, const Case &c, const Out &o, size_t fi, size_t k, bool eio) {
  const std::string &d = c.f[fi].data; const char *N = f.name; std::string cls;
  if (f.kind == LINE) {
    size_t m = 0; while (m + 1 < c.mark.size() && c.mark[m + 1].end <= k) ++m;      // complete lines
    bool boundary = c.mark[m].end == k;
    if (o.threw) { if (boundary && !eio) sim::violation((std::string("throws:") + N).c_str(), "%s: file ends after a complete line (byte %zu): %s", N, k, o.what.c_str()); return; }
    if (!o.status) { if (!eio && (boundary || f.read != rd_par)) sim::violation((std::string("refused:") + N).c_str(), "%s: file ends after byte %zu", N, k); return; }
    size_t na = f.read == rd_mtl ? 0 : c.full_arrays; const Mark &a = c.mark[m], &b = c.mark[std::min(m + 1, c.mark.size() - 1)];
    if (f.read == rd_wav && c.expect.arr.size() == 8) na = 7;
    for (size_t j = 0; j < na; ++j) {
      if (!head_equal(o.arr[j], c.expect.arr[j], a.n[j])) sim::violation((std::string("lost-lines:") + N).c_str(), "%s: file breaks off at byte %zu of %zu: array %zu has %zu entries, complete lines hold %zu", N, k, d.size(), j, o.arr[j].size(), a.n[j]);
      size_t most = boundary ? a.n[j] : std::max(b.n[j], a.n[j]) ; size_t slack = boundary ? 0 : 8;
      if (o.arr[j].size() > most + slack) sim::violation((std::string("invented:") + N).c_str(), "%s: file breaks off at byte %zu: array %zu has %zu entries, at most %zu are in the file", N, k, j, o.arr[j].size(), most); }
    if (boundary && f.read == rd_mtl && o.arr[0].size() != c.mark[m].n[0]) sim::violation("lost-lines:material", "material file ends at byte %zu: %zu materials", k, o.arr[0].size() / 19);
    return; }
  if (f.kind == STATUS) {
    if (f.read == rd_gfc || f.read == rd_load) {
      if (o.threw || !o.status) { if (!eio) sim::violation((std::string("refused:") + N).c_str(), "%s: %zu bytes", N, k); return; }
      std::string got = o.str[0], want = d.substr(0, k);
      if (eio && k < d.size()) { if (!(f.read == rd_load && got.empty())) sim::violation((std::string("read-error-ignored:") + N).c_str(), "%s: read error after %zu of %zu bytes, success reported with %zu bytes", N, k, d.size(), got.size()); return; }
      if (got != want) sim::violation((std::string("contents:") + N).c_str(), "%s: %zu bytes delivered, %zu returned", N, k, got.size());
      return; }
    if (o.threw || !o.status) { if (k >= d.size() && !eio) sim::violation((std::string("refused:") + N).c_str(), "%s: complete file", N); return; }
    if (k < c.needed) { if (k == c.needed - 1 || k >= d.find_last_of(" \t\r\n", c.needed - 1) + 1) { if (!eio && f.read != rd_ppmb && f.read != rd_npy1 && f.read != rd_npy2<float> && f.read != rd_npy2<double>) return; }   // cut inside the last number of a text file
      sim::violation((std::string("short-file-accepted:") + N).c_str(), "%s: %zu of %zu bytes present, success reported (%s)", N, k, c.needed, show(o).c_str()); }
    if (!(o == c.expect)) sim::violation((std::string("contents:") + N).c_str(), "%s: %zu of %zu bytes present, wrong contents", N, k, d.size());
    return; }
  // COUNTED: everything or nothing
  if (o.threw) return;
  size_t rest = d.find_first_not_of(" \t\r\n", d.find_first_of(" \t\r\n", k)); bool tail_number = !eio && k < d.size() && k > 0 && !isspace((unsigned char) d[k - 1]) && (rest == std::string::npos || d[rest] == '#');   // the cut is inside the very last number
  if (o.empty(c.full_arrays)) { if (k >= d.size() && !eio) { bool e = true; for (size_t i = 0; i < c.full_arrays; ++i) e = e && c.expect.arr[i].empty(); if (!e) sim::violation((std::string("refused:") + N).c_str(), "%s: complete file", N); } return; }
  for (size_t j = 0; j < c.full_arrays; ++j) { if (o.arr[j].size() != c.expect.arr[j].size()) sim::violation((std::string("partial:") + N).c_str(), "%s: file %zu breaks off at byte %zu of %zu (%s): result %s, complete %s", N, fi, k, d.size(), eio ? "read error" : "end of file", show(o).c_str(), show(c.expect).c_str());
    size_t n = o.arr[j].size(), bad = 0; for (size_t i = 0; i < n; ++i) if (!Out::eq(o.arr[j][i], c.expect.arr[j][i], o.tol)) ++bad; if (bad > (tail_number ? 1 : 0)) sim::violation((std::string("garbled:") + N).c_str(), "%s: file %zu breaks off at byte %zu of %zu (%s): %zu wrong values in array %zu", N, fi, k, d.size(), eio ? "read error" : "end of file", bad, j); }
  if (f.read == rd_vtk && !o.arr[3].empty()) { size_t bad = 0; if (o.arr[3].size() != c.expect.arr[3].size()) bad = 9; else for (size_t i = 0; i < o.arr[3].size(); ++i) if (!(o.arr[3][i] == c.expect.arr[3][i])) ++bad; if (bad > (tail_number ? 1 : 0)) sim::violation("partial:vtk", "point values are incomplete: breaks off at byte %zu of %zu", k, d.size()); } }

bool first_hit;   // the disk error was met by the first of the two reads
Out twice(const Fmt &f, const Case &c, const sim::DiskFaults *df) {
  int p1 = 1 + (int) sim::choose(255), p2 = 1 + (int) sim::choose(255), s1 = (int) sim::choose(256), s2 = (int) sim::choose(256);
  if (df) sim::disk::faults(*df); else sim::disk::faults(sim::DiskFaults()); Out a = run(f, c.path, p1, s1, false); bool ea = first_hit = sim::disk::any_error_fired();
  if (df) sim::disk::faults(*df); else sim::disk::faults(sim::DiskFaults()); Out b = run(f, c.path, p2, s2, true); bool eb = sim::disk::any_error_fired();   // a read error past the last needed byte may or may not be met
  bool opened = true; for (auto &x : c.f) opened = opened && sim::disk::exists(x.path);
  if (df && df->open_fail) opened = false;
  sim::fault("memory_pattern"); sim::mix(a.hash()); sim::state(a.hash());
  if (opened && ea == eb && !(a == b)) sim::violation((std::string("depends-on-memory:") + f.name).c_str(), "%s: two reads of the same bytes give %s and %s", f.name, show(a).c_str(), show(b).c_str());
  if (!opened && !a.threw && a.status && !a.empty(9) && f.kind != STATUS) sim::violation((std::string("missing-file:") + f.name).c_str(), "%s: file cannot be opened, result %s", f.name, show(a).c_str());
  return a; }
std::string damage(const std::string &d, gen::Rng &g, size_t &at) {
  std::string s = d; if (s.empty()) return std::string(g.n(300), (char) g.n(256));
  int n = 1 + (int) g.n(3);
  for (int i = 0; i < n; ++i) { size_t p = g.n(2) ? g.n((uint32_t) s.size()) : g.n((uint32_t) std::min<size_t>(s.size(), 200)); at = p; static const char hot[] = "0123456789-+./e #{},:'()\n\r\tfvgmu\0\x93";
    switch (g.n(9)) { case 0: s[p] = (char) g.n(256); break; case 1: s[p] = hot[g.n(sizeof hot)]; break; case 2: s.insert(p, 1 + g.n(6), hot[g.n(sizeof hot)]); break; case 3: s.erase(p, 1 + g.n(12)); break; case 4: { size_t q = std::min<size_t>(s.size(), p + 1 + g.n(600)); for (size_t k = p; k < q; ++k) s[k] = 0; break; }
      case 5: s.insert(p, std::string(200 + g.n(400), hot[g.n(sizeof hot)])); break; case 6: s.insert(p, g.n(2) ? "99999999" : "-1"); break; case 7: { size_t q = g.n((uint32_t) s.size()); s.insert(p, s.substr(q, g.n(200))); break; } default: { size_t e = s.find('\n', p); if (e != std::string::npos) s.erase(e, 1); } }
    if (s.empty()) s = "x"; }
  return s; }

void broken_file(const Fmt &f) {
  gen::Rng g = gen::rng(); Case c = f.make(g); lay(c); sim::nontrivial(); sim::probe(f.name); sim::vtime(1);
  size_t fi = sim::choose((uint32_t) c.f.size()); size_t n = c.f[fi].data.size(); int mode = (int) sim::choose(8); sim::logf("%s: %zu file(s), file %zu has %zu bytes, mode %d", f.name, c.f.size(), fi, n, mode);
  auto cut = [&]() { return sim::chance(1, 3) ? n - std::min<size_t>(n, sim::choose(40)) : sim::chance(1, 4) && !c.mark.empty() && c.f.size() == 1 ? c.mark[sim::choose((uint32_t) c.mark.size())].end : sim::choose((uint32_t) n + 1); };
  if (mode == 0) { Out o = twice(f, c, nullptr); expect_full(f, c, o, "intact"); }
  else if (mode <= 3) { size_t k = cut(); sim::logf("ends after byte %zu", k); Case q = c; q.f[fi].data.resize(k); lay(q); sim::fault("truncated_file"); check_short(f, c, twice(f, q, nullptr), fi, k, false); }
  else if (mode == 4) { sim::DiskFaults df; size_t k = cut(), base = 0; for (size_t i = 0; i < fi; ++i) base += c.f[i].data.size(); df.eio_read_at = (int64_t) (base + k); df.chunked = sim::chance(1, 2); df.eintr = sim::chance(1, 3); sim::logf("read error after byte %zu", k); Out o = twice(f, c, &df); if (first_hit) check_short(f, c, o, fi, k, true); else expect_full(f, c, o, "read error never reached"); }
  else if (mode == 5) { sim::DiskFaults df; if (sim::chance(1, 2)) { df.open_fail = true; } else { sim::disk::reset(); for (size_t i = 0; i < c.f.size(); ++i) if (i != fi) sim::disk::put(c.f[i].path, c.f[i].data); sim::fault("missing_file"); } Out o = twice(f, c, &df); if (f.kind == STATUS && f.read != rd_load && o.status && !o.threw) sim::violation((std::string("missing-file:") + f.name).c_str(), "%s: file cannot be opened, success reported", f.name); if (f.read == rd_load && !o.threw && !o.str[0].empty()) sim::violation("missing-file:file-string", "contents from nowhere"); }
  else { size_t at = 0; Case q = c; q.f[fi].data = damage(c.f[fi].data, g, at); lay(q); sim::fault("damaged_bytes"); sim::logf("damaged near %zu", at); Out o = twice(f, q, nullptr);
    if (f.kind == LINE && f.read != rd_mtl && !o.threw && o.status) { size_t p = 0; while (p < c.f[0].data.size() && p < q.f[0].data.size() && c.f[0].data[p] == q.f[0].data[p]) ++p; size_t m = 0; while (m + 1 < c.mark.size() && c.mark[m + 1].end <= p) ++m; if (m && c.f[0].data[c.mark[m].end - 1] != '\n') --m;
      if (f.read == rd_par && m) --m;
      for (size_t j = 0; j < c.full_arrays; ++j) if (f.read != rd_nas || j == 0) if (!head_equal(o.arr[j], c.expect.arr[j], c.mark[m].n[j])) sim::violation((std::string("lost-lines:") + f.name).c_str(), "%s: the lines before the damage at byte %zu are not all there", f.name, p); } }
  // afterwards the intact file can be read
  if (sim::chance(1, 4)) { lay(c); Out o = twice(f, c, nullptr); expect_full(f, c, o, "after a failed read"); } }
void f01() { broken_file(MESH[sim::choose(NM)]); }
void f02() { broken_file(OTHER[sim::choose(NO)]); }
const sim::Scenario F01[] = {{"broken-mesh-file", 1, f01}}, F02[] = {{"broken-file", 1, f02}};

// ------------------------------------------------------------------ F03 delivery does not matter
void f03() {
  uint32_t w = sim::choose((uint32_t) (NM + NO)); const Fmt &f = w < NM ? MESH[w] : OTHER[w - NM]; gen::Rng g = gen::rng(); Case c = f.make(g); if (!c.f[0].data.empty() && sim::chance(1, 3) && f.kind == STATUS) {} lay(c);
  sim::DiskFaults df; df.chunked = true; df.eintr = sim::chance(1, 2); df.pipe = sim::chance(1, 3); sim::nontrivial(); sim::probe(f.name); sim::logf("%s in pieces", f.name); Out o = twice(f, c, &df); if (!(df.pipe && f.read == rd_gfc && !o.status)) expect_full(f, c, o, df.pipe ? "delivered through a pipe" : "delivered in pieces"); sim::vtime(sim::disk::ops()); sim::state(sim::hash_u64(sim::disk::ops(), o.hash())); }
const sim::Scenario F03[] = {{"delivered-in-pieces", 1, f03}};

// ------------------------------------------------------------------ writers
double q6(double v) { char b[64]; snprintf(b, 64, "%g", v); return strtod(b, nullptr); }     // what the default stream precision keeps
struct Wr { const char *name; const char *path; int status;   // 1: the writer reports success
  bool (*write)(const std::string &p, uint32_t seed); Out (*load)(const std::string &p, bool dirty); Out (*expect)(uint32_t seed); bool counted; };
struct WM { std::vector<double> xyz; std::vector<unsigned> tri; };
WM wm(uint32_t seed) { gen::Rng g(seed + 5); WM m; int nv = 1 + (int) g.n(20), nt = (int) g.n(16); for (int i = 0; i < nv * 3; ++i) { double v; num(g, v); m.xyz.push_back(g.n(3) ? v : g.r(-1e3, 1e3) * (g.n(4) ? 1 : 1e-6)); } for (int i = 0; i < nt * 3; ++i) m.tri.push_back(g.n(nv)); return m; }
A qa(const std::vector<double> &v) { A r; for (double x : v) r.push_back(q6(x)); return r; }
Out ex_mesh(uint32_t s) { WM m = wm(s); Out o; o.arr = {qa(m.xyz), cp(m.tri)}; return o; }
bool w_obj(const std::string &p, uint32_t s) { WM m = wm(s); dfm2::Write_Obj_UniformMesh(p, m.xyz.data(), m.xyz.size() / 3, m.tri.data(), m.tri.size() / 3, 3); return true; }
bool w_objj(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> ind{0}, el; for (size_t i = 0; i < m.tri.size() / 3; ++i) { for (int k = 0; k < 3; ++k) el.push_back(m.tri[i * 3 + k]); if (i % 2) el.push_back(m.tri[i * 3]); ind.push_back((int) el.size()); } dfm2::Write_Obj_ElemJArray(p, m.xyz, ind, el); return true; }
Out ex_objj(uint32_t s) { WM m = wm(s); Out o; A t; for (size_t i = 0; i < m.tri.size() / 3; ++i) { unsigned a = m.tri[i * 3], b = m.tri[i * 3 + 1], c = m.tri[i * 3 + 2]; t.insert(t.end(), {(double) a, (double) b, (double) c}); if (i % 2) t.insert(t.end(), {(double) a, (double) c, (double) a}); } o.arr = {qa(m.xyz), t}; return o; }
bool w_objf(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<unsigned> fl; for (size_t i = 0; i < m.tri.size() / 3; ++i) fl.push_back((unsigned) (i * 7 + s) % 3); dfm2::Write_Obj_TriFlag(p, m.xyz, m.tri, fl); return true; }
Out ex_objf(uint32_t s) { WM m = wm(s); Out o; A t; for (unsigned q = 0; q < 3; ++q) for (size_t i = 0; i < m.tri.size() / 3; ++i) if ((i * 7 + s) % 3 == q) for (int k = 0; k < 3; ++k) t.push_back(m.tri[i * 3 + k]); o.arr = {qa(m.xyz), t}; return o; }
bool w_objm(const std::string &p, uint32_t s) { std::vector<std::pair<std::vector<double>, std::vector<unsigned>>> v; for (uint32_t k = 0; k < 1 + s % 3; ++k) { WM m = wm(s + k); v.push_back({m.xyz, m.tri}); } dfm2::Write_Obj(p, v); return true; }
Out ex_objm(uint32_t s) { Out o; o.arr = {A(), A()}; for (uint32_t k = 0; k < 1 + s % 3; ++k) { WM m = wm(s + k); double b = o.arr[0].size() / 3; for (double x : qa(m.xyz)) o.arr[0].push_back(x); for (unsigned t : m.tri) o.arr[1].push_back(t + b); } return o; }
bool w_ply(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> t(m.tri.begin(), m.tri.end()); dfm2::Write_Ply(p, m.xyz, t); return true; }
bool w_plyp(const std::string &p, uint32_t s) { WM m = wm(s); dfm2::Write_Ply(p, (unsigned) m.xyz.size() / 3, m.xyz.data(), (unsigned) m.tri.size() / 3, m.tri.data()); return true; }
bool w_raw(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> t(m.tri.begin(), m.tri.end()); std::ofstream f(p); dfm2::Write_MeshTri3D(f, m.xyz, t, 3); return true; }
const int VT[] = {5, 9, 10, 12}, VN[] = {3, 4, 4, 8};
std::vector<int> vel(uint32_t s) { WM m = wm(s); int nn = VN[s % 4]; std::vector<int> e(m.tri.begin(), m.tri.end()); e.resize(e.size() / nn * nn); return e; }
bool w_vtk(const std::string &p, uint32_t s) { WM m = wm(s); auto e = vel(s); std::ofstream f(p); dfm2::WriteVTK_Points(f, "mesh", m.xyz.data(), (int) m.xyz.size() / 3, 3); dfm2::WriteVTK_Cells(f, VT[s % 4], e.data(), (int) e.size() / VN[s % 4]); int np = (int) m.xyz.size() / 3;
  if (s % 3) { f << "POINT_DATA " << np << std::endl; if (s % 3 == 1) dfm2::WriteVTK_Data_PointScalar(f, m.xyz.data(), np, 3); else dfm2::WriteVTK_Data_PointVec(f, m.xyz.data(), np, 3, 3); } return true; }
Out ex_vtk(uint32_t s) { WM m = wm(s); auto e = vel(s); Out o; A v; A x = qa(m.xyz); if (s % 3 == 1) for (size_t i = 0; i < x.size(); i += 3) v.push_back(x[i]); else if (s % 3 == 2) v = x; o.arr = {x, cp(e), e.empty() ? A() : A{(double) VT[s % 4]}, v}; return o; }
bool w_wav(const std::string &p, uint32_t s) { WM m = wm(s); gen::Rng g(s); std::vector<double> tx, nr; for (int i = 0; i < 8; ++i) tx.push_back(g.r(0, 1)); for (int i = 0; i < 9; ++i) nr.push_back(i % 3 == i / 3 ? 1 : 0); std::vector<unsigned> tt, tn; for (size_t i = 0; i < m.tri.size(); ++i) { tt.push_back(g.n(4)); tn.push_back(g.n(3)); } unsigned nt = (unsigned) m.tri.size() / 3; dfm2::Write_WavefrontObj(p, m.xyz, tx, nr, m.tri, tt, tn, {"ga", "gb"}, {0, nt / 4, nt / 2, nt}); return true; }
Out ex_wav(uint32_t s) { WM m = wm(s); gen::Rng g(s); A tx, nr; for (int i = 0; i < 8; ++i) tx.push_back(q6(g.r(0, 1))); for (int i = 0; i < 9; ++i) nr.push_back(i % 3 == i / 3 ? 1 : 0); A tt, tn, fi{0}; for (size_t i = 0; i < m.tri.size(); ++i) { tt.push_back(g.n(4)); tn.push_back(g.n(3)); if (i % 3 == 2) fi.push_back((double) i + 1); } double nt = (double) (m.tri.size() / 3); Out o; o.arr = {qa(m.xyz), tx, nr, fi, cp(m.tri), tt, tn, A{0, std::floor(nt / 4), std::floor(nt / 2), nt}}; o.str = {"default", "ga", "gb", ""}; return o; }
bool w_par(const std::string &p, uint32_t s) { WM m = wm(s); return dfm2::WriteParam(p, m.xyz); }
Out ex_par(uint32_t s) { WM m = wm(s); Out o; o.arr = {A()}; for (double x : m.xyz) o.arr[0].push_back((float) q6(x)); return o; }
bool w_parf(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<float> v(m.xyz.begin(), m.xyz.end()); return dfm2::WriteParam(p, v); }
Out ex_parf(uint32_t s) { WM m = wm(s); Out o; o.arr = {A()}; for (double x : m.xyz) o.arr[0].push_back((float) q6((float) x)); return o; }
void mk_cad(dfm2::CCad2D &cad, uint32_t s) { gen::Rng g(s); int n = 3 + (int) g.n(6); std::vector<double> xy; for (int i = 0; i < n; ++i) { xy.push_back(std::cos(6.28 * i / n) + g.r(-.1, .1)); xy.push_back(std::sin(6.28 * i / n) + g.r(-.1, .1)); } cad.AddPolygon(xy); }
bool w_dxf(const std::string &p, uint32_t s) { dfm2::CCad2D cad; { sim::NoLib n; mk_cad(cad, s); } return dfm2::WriteCAD_DXF(p, cad, 1.0 + s % 3); }
Out ld_dxf(const std::string &p, bool) { sim::NoLib nl; std::string l; Out o; o.arr = {A()}; int code = -1; std::string all = sim::disk::get(p); std::istringstream is(all); bool end = false; std::string prev; while (std::getline(is, l)) { if (l == "LINE") code = 0; if (l == "EOF") end = true; if (code >= 0) { int k = atoi(prev.c_str()); if (k == 10 || k == 20 || k == 11 || k == 21) { o.arr[0].push_back(atof(l.c_str())); prev.clear(); continue; } } prev = l; } o.status = end; return o; }
Out ex_dxf(uint32_t s) { dfm2::CCad2D cad; mk_cad(cad, s); Out o; o.arr = {A()}; double sc = 1.0 + s % 3; auto f6 = [](double v) { char b[64]; snprintf(b, 64, "%lf", v); return atof(b); };
  for (auto &fc : cad.topo.faces) for (unsigned il : fc.aIL) for (auto &ie : cad.topo.loops[il].aIE) { auto &e = cad.topo.edges[ie.first]; auto &a = cad.aVtx[e.iv0].pos, &b = cad.aVtx[e.iv1].pos; for (double v : {a.x, a.y, b.x, b.y}) o.arr[0].push_back(f6(v * sc)); } return o; }
std::string bvh_text(uint32_t s) { gen::Rng g(s); return mk_bvh(g).f[0].data; }
bool w_bvh(const std::string &p, uint32_t s) { dfm2::BioVisionHierarchy b; { sim::NoLib n; sim::disk::put("/sim/src.bvh", bvh_text(s)); } b.Open("/sim/src.bvh"); b.Save(p); return true; }
Out ex_bvh(uint32_t s) { gen::Rng g(s); Case c = mk_bvh(g); Out o; o = c.expect; for (double &x : o.arr[2]) x = q6(x); return o; }
void mk_cad3(dfm2::CCad3D &c, uint32_t s) { gen::Rng g(s); c.elen = 0.1; c.Initialize_Sphere(); for (uint32_t k = s % 3; k--;) dfm2::AddPointEdge(g.n((unsigned) c.aEdge.size()), g.r(.3, .7), c.aVertex, c.aEdge, c.aFace, c.elen); for (auto &v : c.aVertex) for (int k = 0; k < 3; ++k) v.pos.p[k] += g.r(-.01, .01); }
bool w_cad3(const std::string &p, uint32_t s) { dfm2::CCad3D c; { sim::NoLib n; mk_cad3(c, s); } std::ofstream f(p); c.WriteFile(f); return true; }
Out dump3(dfm2::CCad3D &c) { Out o; o.arr = {A(), A(), A()}; auto e6 = [](double v) { char b[64]; snprintf(b, 64, "%.6e", v); return strtod(b, nullptr); }; for (auto &v : c.aVertex) for (int k = 0; k < 3; ++k) { o.arr[0].push_back(e6(v.pos.p[k])); o.arr[0].push_back(e6(v.norm.p[k])); } for (auto &e : c.aEdge) o.arr[1].insert(o.arr[1].end(), {(double) e.iv0, (double) e.iv1, (double) e.is_sim, (double) e.inorm, e6(e.r0), e6(e.r1)}); for (auto &f : c.aFace) { o.arr[2].push_back((double) f.aIE.size()); for (auto &q : f.aIE) { o.arr[2].push_back(q.first); o.arr[2].push_back(q.second); } } return o; }
Out ld_cad3(const std::string &p, bool d) { dfm2::CCad3D c; c.elen = 0.1; if (d) c.Initialize_Sphere(); c.ReadFile(p); sim::NoLib n; return dump3(c); }
Out ex_cad3(uint32_t s) { dfm2::CCad3D c; mk_cad3(c, s); return dump3(c); }
// writers without a reader in the library: an independent parser of the format
std::vector<std::string> toks(const std::string &p) { std::string all = sim::disk::get(p); std::istringstream is(all); std::vector<std::string> v; std::string t; while (is >> t) v.push_back(t); return v; }
bool w_stl(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> t(m.tri.begin(), m.tri.end()); dfm2::Write_STL(p, m.xyz, t); return true; }
Out ld_stl(const std::string &p, bool) { sim::NoLib n; Out o; o.arr = {A()}; auto v = toks(p); bool closed = true; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "vertex" && i + 3 < v.size()) for (int k = 1; k < 4; ++k) o.arr[0].push_back(atof(v[i + k].c_str())); if (v[i] == "outer") closed = false; if (v[i] == "endloop") closed = true; } o.status = closed && !v.empty() && v.back() == "endsolid"; return o; }
Out ex_stl(uint32_t s) { WM m = wm(s); Out o; o.arr = {A()}; for (unsigned t : m.tri) for (int k = 0; k < 3; ++k) o.arr[0].push_back(q6(m.xyz[t * 3 + k])); return o; }
void vmix(uint32_t s, std::vector<int> &a, std::vector<int> &b, std::vector<int> &c) { WM m = wm(s); size_t n = m.tri.size(); for (size_t i = 0; i < n; ++i) (i % 3 == 0 ? a : i % 3 == 1 ? b : c).push_back((int) m.tri[i]); a.resize(a.size() / 4 * 4); b.resize(b.size() / 5 * 5); c.resize(c.size() / 6 * 6); }
bool w_vtkm(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> a, b, c; vmix(s, a, b, c); std::ofstream f(p); dfm2::WriteVTK_Points(f, "mesh", m.xyz.data(), (int) m.xyz.size() / 3, 3); dfm2::WriteVTK_Cells(f, a, b, c); return true; }
Out ld_vtkm(const std::string &p, bool) { sim::NoLib nl; Out o; o.arr = {A(), A(), A()}; o.status = 0; auto v = toks(p); size_t i = 0; while (i < v.size() && v[i] != "POINTS") ++i; if (i + 2 >= v.size()) return o; long np = atol(v[i + 1].c_str()); i += 3; for (long k = 0; k < np * 3 && i < v.size(); ++k) o.arr[0].push_back(atof(v[i++].c_str()));
  if (i + 2 >= v.size() || v[i] != "CELLS") return o; long ne = atol(v[i + 1].c_str()), nb = atol(v[i + 2].c_str()); i += 3; for (long k = 0; k < nb && i < v.size(); ++k) o.arr[1].push_back(atof(v[i++].c_str())); if (i + 1 >= v.size() || v[i] != "CELL_TYPES" || atol(v[i + 1].c_str()) != ne) return o; i += 2; for (long k = 0; k < ne && i < v.size(); ++k) o.arr[2].push_back(atof(v[i++].c_str())); o.status = (long) o.arr[2].size() == ne; return o; }
Out ex_vtkm(uint32_t s) { WM m = wm(s); std::vector<int> a, b, c; vmix(s, a, b, c); Out o; o.arr = {qa(m.xyz), A(), A()}; auto add = [&](std::vector<int> &e, size_t n, int ty) { for (size_t i = 0; i < e.size(); ++i) { if (i % n == 0) { o.arr[1].push_back((double) n); o.arr[2].push_back(ty); } o.arr[1].push_back(e[i]); } }; add(a, 4, 10); add(b, 5, 14); add(c, 6, 13); return o; }
bool w_vtkt(const std::string &p, uint32_t s) { WM m = wm(s); std::vector<int> t(m.tri.begin(), m.tri.end()), map; for (int i = 0; i < (int) m.xyz.size() / 3; ++i) map.push_back((i * 5 + (int) s % 3) % ((int) m.xyz.size() / 3)); dfm2::WriteVTK_MapTriScalar(p, "map", m.xyz, map, t, m.xyz, 3, (int) s % 3); return true; }
Out ex_vtkt(uint32_t s) { WM m = wm(s); A x, v; int n = (int) m.xyz.size() / 3; for (int i = 0; i < n; ++i) { int j = (i * 5 + (int) s % 3) % n; for (int k = 0; k < 3; ++k) x.push_back(q6(m.xyz[j * 3 + k])); v.push_back(q6(m.xyz[j * 3 + s % 3])); } Out o; o.arr = {x, cp(m.tri), m.tri.empty() ? A() : A{5.}, v}; return o; }
const Wr WR[] = {
  {"Write_STL", "/sim/w.stl", 0, w_stl, ld_stl, ex_stl, false}, {"WriteVTK_Cells mixed", "/sim/w.vtk", 0, w_vtkm, ld_vtkm, ex_vtkm, false}, {"WriteVTK_MapTriScalar", "/sim/w.vtk", 0, w_vtkt, rd_vtk, ex_vtkt, true},
  {"Write_Obj_UniformMesh", "/sim/w.obj", 0, w_obj, rd_obj, ex_mesh, false}, {"Write_Obj_ElemJArray", "/sim/w.obj", 0, w_objj, rd_obj3, ex_objj, false}, {"Write_Obj_TriFlag", "/sim/w.obj", 0, w_objf, rd_obj2, ex_objf, false}, {"Write_Obj", "/sim/w.obj", 0, w_objm, rd_obj, ex_objm, false}, {"Write_WavefrontObj", "/sim/w.obj", 0, w_wav, rd_wav, ex_wav, false},
  {"Write_Ply", "/sim/w.ply", 0, w_ply, rd_ply, ex_mesh, true}, {"Write_Ply pointers", "/sim/w.ply", 0, w_plyp, rd_plyp, ex_mesh, true}, {"Write_MeshTri3D", "/sim/w.tri", 0, w_raw, rd_raw, ex_mesh, true}, {"WriteVTK", "/sim/w.vtk", 0, w_vtk, rd_vtk, ex_vtk, true},
  {"BioVisionHierarchy::Save", "/sim/w.bvh", 0, w_bvh, rd_bvh, ex_bvh, true}, {"CCad3D::WriteFile", "/sim/w.cad", 0, w_cad3, ld_cad3, ex_cad3, true},
  {"WriteParam double", "/sim/w.txt", 1, w_par, rd_par, ex_par, false}, {"WriteParam float", "/sim/w.txt", 1, w_parf, rd_par, ex_parf, false}, {"WriteCAD_DXF", "/sim/w.dxf", 1, w_dxf, ld_dxf, ex_dxf, false}};
const size_t NW = sizeof WR / sizeof *WR;
bool same(const Out &o, const Out &e) { if (o.threw || !o.status || o.arr.size() < e.arr.size() || (!e.str.empty() && o.str != e.str)) return false; for (size_t i = 0; i < e.arr.size(); ++i) { if (o.arr[i].size() != e.arr[i].size()) return false; for (size_t k = 0; k < e.arr[i].size(); ++k) if (!(std::fabs(o.arr[i][k] - e.arr[i][k]) <= 1e-5 * (std::fabs(e.arr[i][k]) + 1e-3) + (e.arr[i].size() && 0))) return false; } return true; }
bool wrun(const Wr &w, uint32_t s) { Quiet q; int64_t live = sim::live_blocks(); bool ok = false; sim::step_budget(1500000000); try { sim::Lib l; ok = w.write(w.path, s); } catch (std::exception &e) { sim::violation((std::string("writer-throws:") + w.name).c_str(), "%s throws %s", w.name, typeid(e).name()); }
  if (sim::disk::open_handles() || sim_stdio_open_count()) sim::violation("handle-leak", "%s: a file stays open", w.name); if (sim::live_blocks() != live) sim::violation("leak", "%s: %lld blocks stay allocated", w.name, (long long) (sim::live_blocks() - live)); return ok; }
Out lrun(const Wr &w, bool dirty) { Fmt f{w.name, COUNTED, nullptr, w.load}; return run(f, w.path, 1 + (int) sim::choose(255), (int) sim::choose(256), dirty); }
sim::DiskFaults pieces() { sim::DiskFaults d; if (sim::chance(1, 2)) d.chunked = true; if (sim::chance(1, 3)) d.eintr = true; return d; }

// F04: a writer that reports success has put every byte on the disk
void f04() {
  std::vector<const Wr *> c; for (auto &w : WR) if (w.status) c.push_back(&w); const Wr &w = *c[sim::choose((uint32_t) c.size())]; uint32_t s = sim::choose(3000); sim::disk::reset(); bool ok = wrun(w, s); std::string full = sim::disk::get(w.path);
  if (!ok) sim::violation((std::string("refused:") + w.name).c_str(), "%s fails on a healthy disk", w.name); if (!same(lrun(w, false), w.expect(s))) sim::violation((std::string("contents:") + w.name).c_str(), "%s seed %u: file does not hold the data", w.name, s);
  for (int q = 0; q < 3; ++q) { sim::disk::reset(); if (sim::chance(1, 2)) sim::disk::put(w.path, std::string(sim::choose(4000), 'x')); sim::DiskFaults d = pieces(); int m = (int) sim::choose(5); int64_t k = sim::chance(1, 3) ? (int64_t) full.size() - (int64_t) std::min<size_t>(full.size(), sim::choose(30)) : (int64_t) sim::choose((uint32_t) full.size() + 2);
    if (m == 0) d.open_fail = true; else if (m == 1) d.close_fail = true; else if (m == 2) d.enospc_at = k; else if (m == 3) { d.eio_write_at = k; d.transient = sim::chance(1, 2); } sim::logf("%s seed %u fault %d at %lld of %zu", w.name, s, m, (long long) k, full.size());
    sim::disk::faults(d); bool r = wrun(w, s); bool err = sim::disk::any_error_fired(); sim::mix(r); sim::nontrivial(); sim::probe(w.name); sim::vtime(sim::disk::ops()); sim::state(sim::hash_u64(k * 8 + m, s));
    if (err && r) sim::violation((std::string("false-success:") + w.name).c_str(), "%s seed %u reports success, the disk reported an error (kind %d, byte %lld of %zu)", w.name, s, m, (long long) k, full.size());
    if (!err && !r) sim::violation((std::string("false-failure:") + w.name).c_str(), "%s seed %u reports failure without an error", w.name, s);
    if (r && sim::disk::get(w.path) != full) sim::violation((std::string("short-file:") + w.name).c_str(), "%s seed %u: success, file has %zu of %zu bytes", w.name, s, sim::disk::get(w.path).size(), full.size());
    sim::disk::faults(sim::DiskFaults()); if (!wrun(w, s) || sim::disk::get(w.path) != full) sim::violation((std::string("retry:") + w.name).c_str(), "%s seed %u: writing again after the fault does not give the file", w.name, s); } }
const sim::Scenario F04[] = {{"write-status", 1, f04}};

// F05: save / load
void f05_round() { const Wr &w = WR[sim::choose(NW)]; uint32_t s = sim::choose(20000); sim::disk::reset(); bool over = sim::chance(1, 3); if (over) wrun(w, s + 77); sim::disk::faults(pieces()); wrun(w, s); sim::disk::faults(pieces()); Out o = lrun(w, sim::chance(1, 2)), e = w.expect(s); sim::nontrivial(); sim::probe(w.name); sim::mix(o.hash()); sim::state(o.hash()); sim::vtime(1);
  sim::logf("%s seed %u", w.name, s); if (!same(o, e)) { std::string d; for (size_t i = 0; i < std::min(o.arr.size(), e.arr.size()); ++i) for (size_t k = 0; k < std::min(o.arr[i].size(), e.arr[i].size()); ++k) if (std::fabs(o.arr[i][k] - e.arr[i][k]) > 1e-5 * (std::fabs(e.arr[i][k]) + 1e-3) && d.size() < 90) d += " [" + std::to_string(i) + "][" + std::to_string(k) + "] " + d2s(o.arr[i][k]) + " for " + d2s(e.arr[i][k]);
    sim::violation((std::string("round-trip:") + w.name).c_str(), "%s seed %u: loaded %s, saved %s%s", w.name, s, show(o).c_str(), show(e).c_str(), d.c_str()); } }
void f05_crash() { const Wr &w = WR[sim::choose(NW)]; uint32_t s = sim::choose(20000); if (w.load == ld_dxf) return; sim::disk::reset(); if (sim::chance(1, 2)) wrun(w, s + 77); wrun(w, s); std::string full = sim::disk::get(w.path); if (sim::chance(1, 2)) wrun(w, s + 77);
  sim::DiskFaults d = pieces(); d.crash_at = sim::chance(1, 3) ? (int64_t) full.size() - (int64_t) std::min<size_t>(full.size(), sim::choose(30)) : (int64_t) sim::choose((uint32_t) full.size() + 1); if (w.load == rd_bvh) {} sim::disk::faults(d); wrun(w, s); bool crashed = sim::disk::crashed(); size_t k = (size_t) d.crash_at; sim::disk::faults(sim::DiskFaults()); sim::logf("%s seed %u power cut after byte %zu of %zu", w.name, s, k, full.size());
  Out e = w.expect(s), o = lrun(w, sim::chance(1, 2)); sim::nontrivial(); sim::probe(w.name); sim::mix(o.hash()); sim::state(sim::hash_u64(k, o.hash())); sim::vtime(1);
  if (!crashed) { if (!same(o, e)) sim::violation((std::string("round-trip:") + w.name).c_str(), "%s seed %u", w.name, s); return; }
  if (!o.threw && o.status) {
    if (w.counted) { bool em = o.empty(std::min<size_t>(3, o.arr.size())); bool last = full.find_first_not_of(" \t\r\n", full.find_first_of(" \t\r\n", k)) == std::string::npos; if (!em && !same(o, e)) { bool sz = true; size_t bad = 0; for (size_t i = 0; i < e.arr.size(); ++i) { bool opt = w.load == rd_vtk && i == 3 && o.arr[i].empty(); if (opt) continue; if (o.arr[i].size() != e.arr[i].size()) sz = false; else for (size_t q = 0; q < o.arr[i].size(); ++q) if (std::fabs(o.arr[i][q] - e.arr[i][q]) > 1e-5 * (std::fabs(e.arr[i][q]) + 1e-3)) ++bad; } if (!sz || bad > (last ? 1 : 0)) sim::violation((std::string("crash-partial:") + w.name).c_str(), "%s seed %u: power cut after byte %zu of %zu, loading gives %s, saved was %s (%zu wrong values)", w.name, s, k, full.size(), show(o).c_str(), show(e).c_str(), bad); } }
    else for (size_t i = 0; i < std::min<size_t>(2, e.arr.size()) && e.str.empty(); ++i) { size_t n = o.arr[i].size(); if (n > e.arr[i].size()) sim::violation((std::string("crash-invented:") + w.name).c_str(), "%s seed %u: power cut after byte %zu, array %zu has %zu entries of %zu", w.name, s, k, i, n, e.arr[i].size());
      for (size_t q = 0; q + 6 < n; ++q) if (std::fabs(o.arr[i][q] - e.arr[i][q]) > 1e-5 * (std::fabs(e.arr[i][q]) + 1e-3)) sim::violation((std::string("crash-garbled:") + w.name).c_str(), "%s seed %u: power cut after byte %zu of %zu: entry %zu of array %zu is wrong", w.name, s, k, full.size(), q, i); } }
  wrun(w, s); Out o2 = lrun(w, sim::chance(1, 2)); if (!same(o2, e)) sim::violation((std::string("round-trip-after-crash:") + w.name).c_str(), "%s seed %u: saving again after the crash", w.name, s); }
const sim::Scenario F05[] = {{"round-trip", 1, f05_round}, {"power-cut", 1, f05_crash}};
}
SIM_MAIN(SIM_TABLE("F01", F01), SIM_TABLE("F02", F02), SIM_TABLE("F03", F03), SIM_TABLE("F04", F04), SIM_TABLE("F05", F05))
