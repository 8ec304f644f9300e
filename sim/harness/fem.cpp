// S04: implicit time stepping (heat, linear solids, stiffness warping, tied solids, cloth). The simulator owns the clock
// (step sizes jump, stall and shrink), moves and releases supports between steps, keeps or replaces the matrix and the
// factorisation, stops and restores sessions and lets memory run out. Every step is judged against a dense textbook
#include "femgen.h"
namespace {
// ---- heat
void heat() {
  gen::Rng g = gen::rng(); Body b = sim::choose(2) ? body3(g) : body2(g); size_t np = b.np; double alpha = g.r(.1, 3), rho = g.r(.2, 3), source = sim::chance(1, 2) ? g.r(-2, 2) : 0; int fill = (int) sim::choose(3);
  Dense K = laplace(b, alpha), M = mass(b, 1, rho, false); VD f = load(b, 1, &source); double vol = measure(b); VD T(np), v(np, 0.); double amp = std::pow(10., sim::real(-2, 3)); for (double &t : T) t = g.r(-amp, amp);
  VI bc = supports(g, np, 1, sim::choose(3) ? 1 : 0); std::unique_ptr<Sys> own; auto fresh = [&] { return system_of(b, 1, fill); }; own = fresh(); Sys *s = own.get(); double mid = vol / b.ne() / alpha * rho; int steps = 1 + (int) sim::choose(8); Hush h;
  auto one = [&](double dt, double gamma, int how, double conv) {
    Got x = settle("heat", s, own, fresh, how, conv, bc, nullptr, np, [&](CMatrixSparse<double> &A, double *r) { if (b.d == 2) MergeLinSys_Diffusion_MeshTri2D(A, r, alpha, rho, source, dt, gamma, b.x.data(), np, b.el.data(), b.ne(), T.data(), v.data()); else MergeLinSys_Diffusion_MeshTet3D(A, r, alpha, rho, source, dt, gamma, b.x.data(), np, b.el.data(), b.ne(), T.data(), v.data()); });
    if (!x.done) return false; Dense A = M; A.add(K, gamma * dt); VD t(np); for (size_t i = 0; i < np; ++i) t[i] = T[i] + dt * v[i]; VD kt = K.mul(t), mv = M.mul(v), r(np); for (size_t i = 0; i < np; ++i) r[i] = f[i] - kt[i] - mv[i];
    check_step("heat", A, r, x.x, bc, conv, K.big() * maxabs(t) + M.big() * maxabs(v) + maxabs(f)); VD T0 = T, v0 = v, wT(np), wv(np); for (size_t i = 0; i < np; ++i) { wT[i] = T[i] + dt * (v[i] + gamma * x.x[i]); wv[i] = v[i] + x.x[i]; }
    XPlusAYBZ(T, np, bc, dt * gamma, x.x, dt, v); XPlusAY(v, np, bc, 1.0, x.x); check_update("heat", T, wT, T0, bc, maxabs(T0) + dt * (maxabs(v0) + maxabs(x.x))); check_update("heat rate", v, wv, v0, bc, maxabs(v0) + maxabs(x.x));
    bool any = false; for (int q : bc) any = any || q;
    if (!any) { double in = 0; VD m = M.mul(v); for (double q : m) in += q; double nb = norm(r), e = std::sqrt((double) np) * (1.02 * conv * nb + 1e-10 * (A.big() * norm(x.x) + nb)) + 1e-12 * np * (K.big() * maxabs(t) + M.big() * (maxabs(v0) + maxabs(x.x)) + maxabs(f)) + 1e-13; if (!(std::fabs(in - source * vol) <= e)) sim::violation("heat-not-conserved", "heat changes at the rate %.9g in an insulated body, sources give %.9g", in, source * vol); }
    return true; };
  for (int k = 0; k < steps; ++k) { if (sim::chance(1, 5)) { bc = supports(g, np, 1, sim::choose(3) ? 1 : 0); sim::fault("supports change"); } if (sim::chance(1, 5)) { for (size_t i = 0; i < np; ++i) if (bc[i]) T[i] = g.r(-amp, amp); sim::fault("boundary value moves"); }
    if (!(maxabs(T) < 1e12 && maxabs(v) < 1e12)) break; double gamma = sim::chance(1, 3) ? 1. : g.r(.5, 1); if (!one(clock_step(mid), gamma, (int) sim::choose(4), pick_conv())) break; sim::state(gen::hv(T, k)); }
  if (source == 0 && maxabs(T) < 1e9 && sim::chance(1, 3)) { // no more faults: every body with fixed temperature takes that temperature
    VI q(np, 0); double t0 = g.r(-amp, amp); size_t a = g.n((uint32_t) np); q[a] = 1; T[a] = t0; bc = q; double far = 0, L = 0; for (double t : T) far = std::max(far, std::fabs(t - t0)); for (double x : b.x) L = std::max(L, std::fabs(x)); v.assign(np, 0.); v[a] = 0; double dt = 1e4 * rho * L * L / alpha; int n = 0; double e = far; bool ok = true;
    for (; n < 40 && e > 1e-3 * far && ok; ++n) { ok = one(dt, 1., CG, 1e-10); sim::vtime((uint64_t) (dt * 1e6)); e = 0; for (double t : T) e = std::max(e, std::fabs(t - t0)); } if (ok && !(e <= 1e-3 * far)) sim::violation("no-equilibrium", "after %d large steps a temperature is still %.9g away from the fixed one (%.9g at first)", n, e, far); sim::probe("equilibrium"); }
  sim::nontrivial(); sim::mix(gen::hv(T, gen::hv(v, 1))); }
// ---- linear solids, Newmark's method
void newmark() {
  gen::Rng g = gen::rng(); Body b = sim::choose(2) ? body3(g) : body2(g); int d = b.d; size_t n = (size_t) b.np * d; double lambda = g.r(0, 10), myu = g.r(1, 10), rho = g.r(.2, 3), gr[3] = {0, 0, 0}, fr[3]; if (sim::chance(1, 2)) for (int k = 0; k < d; ++k) gr[k] = g.r(-5, 5); for (int k = 0; k < 3; ++k) fr[k] = gr[k] * rho; int fill = (int) sim::choose(3);
  Dense K = elastic(b, lambda, myu), M = mass(b, d, rho, false); VD f = load(b, d, fr), u(n), v(n), a(n, 0.); double amp = std::pow(10., sim::real(-3, 0)); for (double &x : u) x = g.r(-amp, amp); for (double &x : v) x = g.r(-amp, amp); VI bc = supports(g, b.np, d, (int) sim::choose(3));
  std::unique_ptr<Sys> own; auto fresh = [&] { return system_of(b, d, fill); }; own = fresh(); Sys *s = own.get(); double mid = std::sqrt(std::pow(measure(b) / b.ne(), 2. / d) * rho / (lambda + 2 * myu)); Hush h; int steps = 1 + (int) sim::choose(8);
  bool conserve = sim::chance(1, 3); if (conserve) { for (double &x : f) x = 0; for (int k = 0; k < 3; ++k) gr[k] = 0; for (size_t i = 0; i < n; ++i) if (bc[i]) u[i] = v[i] = 0; }
  auto energy = [&] { return .5 * dot(v, M.mul(v)) + .5 * dot(u, K.mul(u)); };
  auto momentum = [&](int k) { VD m = M.mul(v); double q = 0; for (size_t i = k; i < n; i += d) q += m[i]; return q; };
  auto one = [&](double dt, double gamma, double beta, int how, double conv) {
    Got x = settle("solid", s, own, fresh, how, conv, bc, nullptr, n, [&](CMatrixSparse<double> &A, double *r) { if (d == 2) MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(A, r, myu, lambda, rho, gr[0], gr[1], dt, gamma, beta, b.x.data(), b.np, b.el.data(), b.ne(), u.data(), v.data(), a.data()); else MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(A, r, myu, lambda, rho, gr, dt, gamma, beta, b.x.data(), b.np, b.el.data(), b.ne(), u.data(), v.data(), a.data()); });
    if (!x.done) return false; Dense A = M; A.add(K, beta * dt * dt); VD t(n); for (size_t i = 0; i < n; ++i) t[i] = u[i] + dt * v[i] + .5 * dt * dt * a[i]; VD kt = K.mul(t), ma = M.mul(a), r(n); for (size_t i = 0; i < n; ++i) r[i] = f[i] - kt[i] - ma[i];
    check_step("solid", A, r, x.x, bc, conv, K.big() * maxabs(t) + M.big() * maxabs(a) + maxabs(f)); VD u0 = u, v0 = v, a0 = a, wu(n), wv(n), wa(n); for (size_t i = 0; i < n; ++i) { wu[i] = u[i] + dt * v[i] + dt * dt * (.5 * a[i] + beta * x.x[i]); wv[i] = v[i] + dt * (a[i] + gamma * x.x[i]); wa[i] = a[i] + x.x[i]; }
    double p0[3]; for (int k = 0; k < d; ++k) p0[k] = momentum(k);
    XPlusAYBZCW(u, n, bc, dt, v, .5 * dt * dt, a, dt * dt * beta, x.x); XPlusAYBZ(v, n, bc, dt * gamma, x.x, dt, a); XPlusAY(a, n, bc, 1.0, x.x);
    double sa = maxabs(a0) + maxabs(x.x), sv = maxabs(v0) + dt * sa; check_update("displacement", u, wu, u0, bc, maxabs(u0) + dt * sv); check_update("velocity", v, wv, v0, bc, sv); check_update("acceleration", a, wa, a0, bc, sa);
    bool any = false; for (int q : bc) any = any || q;
    if (!any) for (int k = 0; k < d; ++k) { double m0 = 0, want; VD ma0 = M.mul(a0); for (size_t i = k; i < n; i += d) m0 += ma0[i]; double F = 0; for (size_t i = k; i < n; i += d) F += f[i]; want = p0[k] + dt * ((1 - gamma) * m0 + gamma * F); double nb = norm(r), e = dt * gamma * std::sqrt((double) n) * (1.02 * conv * nb + 1e-10 * (A.big() * norm(x.x) + nb)) + 1e-11 * M.big() * (norm(v0) + dt * norm(a0) + dt * norm(x.x)) + 1e-12 * n * dt * (K.big() * maxabs(t) + M.big() * maxabs(a0) + maxabs(f)) + 1e-13; if (!(std::fabs(momentum(k) - want) <= e)) sim::violation("momentum-not-conserved", "momentum %d is %.9g after a step of %.9g, forces and the momentum before give %.9g", k, momentum(k), dt, want); }
    return true; };
  if (conserve) { // consistent start: M a = f - K u on the free unknowns, by a step of length zero
    if (!one(0., .5, .25, CG, 1e-12)) return; auto left = [&] { VD q = K.mul(u), m = M.mul(a); for (size_t i = 0; i < n; ++i) q[i] = bc[i] ? 0. : q[i] + m[i]; return q; }; // what the solver leaves unbalanced does work
    double e0 = energy(); VD l0 = left(); for (int k = 0; k < steps; ++k) { double dt = clock_step(mid); VD u0 = u; if (!one(dt, .5, .25, (int) sim::choose(4), 1e-12)) break; double e1 = energy(), w = 0, du = 0; VD l1 = left(); for (size_t i = 0; i < n; ++i) { w += .5 * (l0[i] + l1[i]) * (u[i] - u0[i]); du += std::fabs(u[i] - u0[i]); } if (!(std::fabs(e1 - e0 - w) <= 1e-9 * (e0 + e1) + 1e-11 * du * (K.big() * (maxabs(u) + maxabs(u0)) + M.big() * maxabs(a)) + 1e-18)) sim::violation("energy-not-conserved", "step %d of %.9g: the energy went from %.12g to %.12g under the average-acceleration method", k, dt, e0, e1); e0 = e1; l0 = l1; sim::state(gen::hv(u, k)); } sim::probe("energy conserved"); }
  else for (int k = 0; k < steps; ++k) { if (sim::chance(1, 6)) { bc = supports(g, b.np, d, (int) sim::choose(3)); sim::fault("supports change"); } if (sim::chance(1, 6)) { for (size_t i = 0; i < n; ++i) if (bc[i]) u[i] += g.r(-amp, amp); sim::fault("boundary value moves"); } if (!(maxabs(u) < 1e9 && maxabs(v) < 1e9 && maxabs(a) < 1e9)) break;
      double gamma = g.r(.5, 1), beta = .25 * (gamma + .5) * (gamma + .5); if (!one(clock_step(mid), gamma, beta, (int) sim::choose(4), pick_conv())) break; sim::state(gen::hv(u, k)); }
  sim::nontrivial(); sim::mix(gen::hv(u, gen::hv(v, 2))); }
// ---- backward Euler: linear and with stiffness warping
VD rotations(gen::Rng &g, size_t np, int mode) { VD R(np * 9, 0.); double Q[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; for (size_t i = 0; i < np; ++i) { if (mode == 2 || (mode == 1 && !i)) { double q[4], s = 0; for (double &c : q) { c = g.r(-1, 1); s += c * c; } s = std::sqrt(s); for (double &c : q) c /= s; if (g.n(3) == 0) { double e = std::pow(10., g.r(-6, -1)); q[0] = 1; for (int k = 1; k < 4; ++k) q[k] *= e; s = 0; for (double c : q) s += c * c; s = std::sqrt(s); for (double &c : q) c /= s; } // hardly turned
    double w = q[0], x = q[1], y = q[2], z = q[3];
    double r[9] = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}; std::memcpy(Q, r, sizeof Q); } std::memcpy(&R[i * 9], Q, sizeof Q); } return R; }
void backward_euler() {
  gen::Rng g = gen::rng(); Body b = body3(g); size_t np = b.np, n = np * 3; double lambda = g.r(0, 10), myu = g.r(1, 10), rho = g.r(.2, 3), gr[3] = {0, 0, 0}, fr[3]; if (sim::chance(1, 2)) for (int k = 0; k < 3; ++k) gr[k] = g.r(-5, 5); for (int k = 0; k < 3; ++k) fr[k] = gr[k] * rho; int fill = (int) sim::choose(3);
  Dense M = mass(b, 3, rho, true), K0 = elastic(b, lambda, myu); VD f = load(b, 3, fr), u(n), v(n); double amp = std::pow(10., sim::real(-3, 0)); for (double &x : u) x = g.r(-amp, amp); for (double &x : v) x = g.r(-amp, amp); VI bc = supports(g, np, 3, (int) sim::choose(3));
  std::unique_ptr<Sys> own; auto fresh = [&] { return system_of(b, 3, fill); }; own = fresh(); Sys *s = own.get(); double mid = std::sqrt(std::pow(measure(b) / b.ne(), 2. / 3) * rho / (lambda + 2 * myu)); Hush h; int steps = 1 + (int) sim::choose(8); int warp = (int) sim::choose(4) - 1;
  if (warp == 1 && sim::chance(1, 2)) { // the rest shape, rotated as a whole, stays put
    VD R = rotations(g, np, 1); for (size_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) { double q = 0; for (int l = 0; l < 3; ++l) q += R[i * 9 + k * 3 + l] * b.x[i * 3 + l]; u[i * 3 + k] = q - b.x[i * 3 + k]; } VD z(n, 0.), r(n, 0.); double no[3] = {0, 0, 0}, dt = clock_step(mid); s->A.setZero(); MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(s->A, r.data(), myu, lambda, rho, no, dt, b.x.data(), (unsigned) np, b.el.data(), (unsigned) b.ne(), u.data(), z.data(), R);
    double big = K0.big() * (maxabs(u) + maxabs(b.x)) / dt; for (size_t i = 0; i < n; ++i) if (!(std::fabs(r[i]) <= 1e-10 * big)) sim::violation("rest-moves", "a rotated rest shape is pulled by %.9g at unknown %zu", r[i] * dt, i); sim::probe("rotated rest shape"); }
  for (int k = 0; k < steps; ++k) { if (sim::chance(1, 6)) { bc = supports(g, np, 3, (int) sim::choose(3)); sim::fault("supports change"); } if (!(maxabs(u) < 1e9 && maxabs(v) < 1e9)) break;
    double dt = clock_step(mid), conv = pick_conv(); VD R, rest(n, 0.); Dense K = K0; if (warp >= 0) { R = rotations(g, np, warp); K = elastic(b, lambda, myu, &R, &rest); }
    Got x = settle("backward Euler", s, own, fresh, (int) sim::choose(4), conv, bc, nullptr, n, [&](CMatrixSparse<double> &A, double *r) { if (warp >= 0) MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(A, r, myu, lambda, rho, gr, dt, b.x.data(), (unsigned) np, b.el.data(), (unsigned) b.ne(), u.data(), v.data(), R); else MergeLinSys_SolidLinear_BEuler_MeshTet3D(A, r, myu, lambda, rho, gr, dt, b.x.data(), (unsigned) np, b.el.data(), (unsigned) b.ne(), u.data(), v.data()); }, warp != 2);
    if (!x.done) break; Dense A = K; A.add(M, 1 / (dt * dt)); VD t(n); for (size_t i = 0; i < n; ++i) t[i] = u[i] + dt * v[i]; VD kt = K.mul(t), r(n); double scale = (K.big() * (maxabs(t) + (warp >= 0 ? maxabs(b.x) : 0)) + maxabs(f)) / dt; for (size_t i = 0; i < n; ++i) r[i] = (f[i] - kt[i] - rest[i]) / dt;
    if (warp >= 0) { VD y = A.mul(x.x); double nr = 0, nb = 0; for (size_t i = 0; i < n; ++i) if (!bc[i]) { nr += (r[i] - y[i]) * (r[i] - y[i]); nb += r[i] * r[i]; } nr = std::sqrt(nr); nb = std::sqrt(nb); if (!(nr <= 1.02 * conv * nb + 1e-10 * (A.big() * norm(x.x) + scale * std::sqrt((double) n)) + 2e-15)) sim::violation("step-wrong", "stiffness warping: the step misses its equation by %.9g of %.9g", nr, nb); for (size_t i = 0; i < n; ++i) if (bc[i] && x.x[i] != 0) sim::violation("fixed-value-moves", "stiffness warping: fixed unknown %zu is to change by %.9g", i, x.x[i]); }
    else check_step("backward Euler", A, r, x.x, bc, conv, scale);
    auto energy = [&] { return .5 * dot(v, M.mul(v)) + .5 * dot(u, K.mul(u)); }; bool plain = warp < 0 && gr[0] == 0 && gr[1] == 0 && gr[2] == 0 && conv < 1e-7; for (size_t i = 0; i < n; ++i) if (bc[i] && v[i] != 0) plain = false; double e0 = plain ? energy() : 0;
    VD u0 = u, v0 = v, wu(n), wv(n); for (size_t i = 0; i < n; ++i) { wu[i] = u[i] + dt * (v[i] + x.x[i]); wv[i] = v[i] + x.x[i]; } XPlusAYBZ(u, n, bc, dt, x.x, dt, v); XPlusAY(v, n, bc, 1.0, x.x); double sv = maxabs(v0) + maxabs(x.x); check_update("displacement", u, wu, u0, bc, maxabs(u0) + dt * sv); check_update("velocity", v, wv, v0, bc, sv);
    if (plain) { sim::probe("energy decays"); double e1 = energy(), w = 0, du = 0; VD q = K.mul(u), dv(n); for (size_t i = 0; i < n; ++i) dv[i] = (v[i] - v0[i]) / dt; VD m = M.mul(dv); for (size_t i = 0; i < n; ++i) { if (!bc[i]) w += (q[i] + m[i]) * (u[i] - u0[i]); du += std::fabs(u[i] - u0[i]); }
      if (!(e1 <= e0 + std::fabs(w) + 1e-9 * (e0 + e1) + 1e-11 * du * (K.big() * (maxabs(u) + maxabs(u0)) + M.big() * maxabs(dv)) + 1e-18)) sim::violation("energy-grows", "step %d of %.9g: the energy went from %.12g to %.12g under backward Euler", k, dt, e0, e1); }
    sim::state(gen::hv(u, k)); }
  sim::nontrivial(); sim::mix(gen::hv(u, gen::hv(v, 3))); }
// ---- equilibrium: static problems, unknowns tied together
void statics() {
  gen::Rng g = gen::rng(); Body b = sim::choose(2) ? body3(g) : body2(g); bool solid = sim::choose(2); int nd = solid ? b.d : 1; size_t n = (size_t) b.np * nd; double lambda = g.r(0, 10), myu = g.r(1, 10), alpha = g.r(.1, 3), rho = g.r(.2, 3), gr[3], src[3]; for (int k = 0; k < 3; ++k) { gr[k] = g.r(-3, 3); src[k] = solid ? gr[k] * rho : g.r(-2, 2); } int fill = (int) sim::choose(3); Hush h;
  Dense K = solid ? elastic(b, lambda, myu) : laplace(b, alpha); VD f = load(b, nd, src), u(n); for (double &x : u) x = g.r(-1, 1); VI bc(n, 0); // enough supports to hold it
  VU hold; for (int k = 0; k < b.d + 1; ++k) hold.push_back(b.el[k]); for (unsigned i : hold) for (int k = 0; k < nd; ++k) bc[i * nd + k] = 1; for (size_t i = 0; i < n; ++i) if (g.n(8) == 0) bc[i] = 1;
  VU tie; bool tied = sim::chance(1, 2); if (tied) { // a few free nodes follow one or two of them, unknown by unknown
    tie.assign(n, UINT_MAX); VU fr; for (unsigned i = 0; i < (unsigned) b.np; ++i) { bool any = false; for (int k = 0; k < nd; ++k) any = any || bc[i * nd + k]; if (!any) fr.push_back(i); } for (size_t i = fr.size(); i > 1; --i) std::swap(fr[i - 1], fr[g.n((uint32_t) i)]); size_t lead = fr.size() > 3 ? 1 + g.n(2) : 1, m = fr.size() > lead ? lead + 1 + g.n((uint32_t) std::min<size_t>(fr.size() - lead, 4)) : 0; if (m > fr.size()) m = fr.size(); if (!m) tied = false;
    for (size_t i = lead; i < m; ++i) { unsigned q = fr[g.n((uint32_t) lead)]; for (int k = 0; k < nd; ++k) { if (nd > 1 && g.n(3) == 0) continue; if (lead > 1 && g.n(3) == 0) q = fr[g.n((uint32_t) lead)]; tie[fr[i] * nd + k] = q * nd + k; u[fr[i] * nd + k] = u[q * nd + k]; } } }
  const VU *tp = tied ? &tie : nullptr; std::unique_ptr<Sys> own; auto fresh = [&] { return system_of(b, nd, fill, tp); }; own = fresh(); Sys *s = own.get(); int rounds = 1 + (int) sim::choose(3); double conv = pick_conv();
  for (int k = 0; k < rounds; ++k) { if (k && sim::chance(1, 2)) { for (size_t i = 0; i < n; ++i) if (bc[i]) u[i] = g.r(-1, 1); sim::fault("boundary value moves"); }
    Got x = settle("statics", s, own, fresh, tied ? (sim::choose(2) ? CG : BICG) : (int) sim::choose(4), conv, bc, tp, n, [&](CMatrixSparse<double> &A, double *r) { if (!solid) { if (b.d == 2) MergeLinSys_Poission_MeshTri2D(A, r, alpha, src[0], b.x.data(), b.np, b.el.data(), b.ne(), u.data()); else MergeLinSys_Poission_MeshTet3D(A, r, alpha, src[0], b.x.data(), b.np, b.el.data(), b.ne(), u.data()); } else if (b.d == 2) MergeLinSys_SolidLinear_Static_MeshTri2D(A, r, myu, lambda, rho, gr[0], gr[1], b.x.data(), b.np, b.el.data(), b.ne(), u.data()); else MergeLinSys_SolidLinear_Static_MeshTet3D(A, r, myu, lambda, rho, gr, b.x.data(), b.np, b.el.data(), b.ne(), u.data()); });
    if (!x.done) break; VD ku = K.mul(u), r(n); for (size_t i = 0; i < n; ++i) r[i] = f[i] - ku[i];
    if (tied) { Dense A(n); VD q(n, 0.); VI c = bc; auto own_of = [&](size_t i) { return tie[i] == UINT_MAX ? i : (size_t) tie[i]; }; for (size_t i = 0; i < n; ++i) if (!bc[i]) { q[own_of(i)] += r[i]; for (size_t j = 0; j < n; ++j) if (!bc[j]) A(own_of(i), own_of(j)) += K(i, j); } VD y = x.x; for (size_t i = 0; i < n; ++i) if (tie[i] != UINT_MAX) { c[i] = 1; y[i] = 0; } check_step("tied statics", A, q, y, c, conv, K.big() * maxabs(u) + maxabs(f)); sim::probe("tied"); }
    else check_step("statics", K, r, x.x, bc, conv, K.big() * maxabs(u) + maxabs(f));
    VD u0 = u; XPlusAY(u, n, bc, 1.0, x.x); if (tied) for (size_t i = 0; i < n; ++i) if (tie[i] != UINT_MAX) u[i] = u[tie[i]]; for (size_t i = 0; i < n; ++i) if (bc[i] && u[i] != u0[i]) sim::violation("fixed-value-moves", "fixed value %zu moved", i);
    if (!tied && conv < 1e-7) { // in equilibrium the supports carry exactly the load
      VD q = K.mul(u); for (int l = 0; l < nd; ++l) { double R = 0, L = 0, m = 0; for (size_t i = l; i < n; i += nd) { if (bc[i]) R += q[i] - f[i]; L += f[i]; m += std::fabs(q[i]) + std::fabs(f[i]); } if (!(std::fabs(R + L) <= 1e-5 * (m + norm(r)) + 1e-11 * n * K.big() * maxabs(u))) sim::violation("supports-do-not-carry-load", "load %.9g, supports %.9g", L, R); } }
    sim::state(gen::hv(u, k)); }
  sim::nontrivial(); sim::mix(gen::hv(u, 4)); }
// ---- cloth
struct Ground : CInput_Contact { int kind = 0; double penetrationNormal(double &nx, double &ny, double &nz, double px, double py, double pz) const override { if (!kind) { nx = ny = 0; nz = 1; return -100; } if (kind == 1) { nx = ny = 0; nz = 1; return -.2 - pz; } double c[3] = {.1, .5, -.6}; nx = px - c[0]; ny = py - c[1]; nz = pz - c[2]; double l = std::sqrt(nx * nx + ny * ny + nz * nz); nx /= l; ny /= l; nz /= l; return .3 - l; } };
// forces and stiffness of a cloth whose rest shape is flat
struct Cloth { VD X; VU tri, quad; double lambda, myu, bend;
  void eval(const VD &x, VD &grad, Dense &H) const { size_t n = x.size(); grad.assign(n, 0.); H = Dense(n);
    for (size_t t = 0; t < tri.size(); t += 3) { const unsigned *q = &tri[t]; double Dm[2][2], Ds[3][2]; for (int c = 0; c < 2; ++c) { for (int r = 0; r < 2; ++r) Dm[r][c] = X[q[c + 1] * 3 + r] - X[q[0] * 3 + r]; for (int r = 0; r < 3; ++r) Ds[r][c] = x[q[c + 1] * 3 + r] - x[q[0] * 3 + r]; }
      double det = Dm[0][0] * Dm[1][1] - Dm[0][1] * Dm[1][0], A = std::fabs(det) / 2, I[2][2] = {{Dm[1][1] / det, -Dm[0][1] / det}, {-Dm[1][0] / det, Dm[0][0] / det}}, B[3][2]; // B: gradients of the shape functions
      for (int c = 0; c < 2; ++c) { B[1][c] = I[0][c]; B[2][c] = I[1][c]; B[0][c] = -I[0][c] - I[1][c]; }
      double F[3][2] = {}, E[2][2], S[2][2]; for (int r = 0; r < 3; ++r) for (int c = 0; c < 2; ++c) F[r][c] = Ds[r][0] * I[0][c] + Ds[r][1] * I[1][c]; for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) { E[a][c] = -.5 * (a == c); for (int r = 0; r < 3; ++r) E[a][c] += .5 * F[r][a] * F[r][c]; } for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) S[a][c] = 2 * myu * E[a][c] + (a == c ? lambda * (E[0][0] + E[1][1]) : 0);
      for (int i = 0; i < 3; ++i) for (int r = 0; r < 3; ++r) for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) grad[q[i] * 3 + r] += A * F[r][a] * S[a][c] * B[i][c];
      // the geometric part uses the tensile part of the stress, in the components along the two edges
      double s[2][2] = {}, p[2][2]; for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) s[a][c] += I[a][k] * S[k][l] * I[c][l]; double m = (s[0][0] + s[1][1]) / 2, w = std::hypot((s[0][0] - s[1][1]) / 2, s[0][1]), hi = m + w, lo = m - w;
      if (lo >= 0) std::memcpy(p, s, sizeof p); else if (hi <= 0) std::memset(p, 0, sizeof p); else { double k = hi / (hi - lo); for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) p[a][c] = k * (s[a][c] - (a == c ? lo : 0)); }
      static const double N[3][2] = {{-1, -1}, {1, 0}, {0, 1}};
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double geo = 0; for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) geo += A * N[i][a] * p[a][c] * N[j][c];
        for (int r = 0; r < 3; ++r) for (int z = 0; z < 3; ++z) { double k = 0; // dE = sym(F^T dF), dF = e_z B_j
          double dE[2][2]; for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) dE[a][c] = .5 * (F[z][a] * B[j][c] + B[j][a] * F[z][c]); for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) k += A * F[r][a] * (2 * myu * dE[a][c] + (a == c ? lambda * (dE[0][0] + dE[1][1]) : 0)) * B[i][c]; H(q[i] * 3 + r, q[j] * 3 + z) += k + (r == z ? geo : 0); } } }
    for (size_t t = 0; t < quad.size(); t += 4) { const unsigned *q = &quad[t]; auto P = [&](int i, int k) { return X[q[i] * 3 + k]; }; double e[2] = {P(3, 0) - P(2, 0), P(3, 1) - P(2, 1)}, L2 = e[0] * e[0] + e[1] * e[1], hh[2], tt[2]; for (int i = 0; i < 2; ++i) { double w[2] = {P(i, 0) - P(2, 0), P(i, 1) - P(2, 1)}; hh[i] = std::fabs(e[0] * w[1] - e[1] * w[0]) / std::sqrt(L2); tt[i] = (e[0] * w[0] + e[1] * w[1]) / L2; }
      double A = (hh[0] + hh[1]) * std::sqrt(L2) / 2, K[4] = {-L2 / hh[0], -L2 / hh[1], 0, 0}; K[3] = -(K[0] * tt[0] + K[1] * tt[1]); K[2] = -(K[0] + K[1] + K[3]); double c = bend / (A * L2);
      for (int r = 0; r < 3; ++r) { double b = 0; for (int i = 0; i < 4; ++i) b += K[i] * x[q[i] * 3 + r]; for (int i = 0; i < 4; ++i) { grad[q[i] * 3 + r] += c * K[i] * b; for (int j = 0; j < 4; ++j) H(q[i] * 3 + r, q[j] * 3 + r) += c * K[i] * K[j]; } } } } };
void cloth() {
  gen::Rng g = gen::rng(); Cloth c; VI bc; int ndiv = 1 + (int) sim::choose(4); double size = std::pow(10., g.r(-.3, .3)); Hush h; SetClothShape_Square(c.X, bc, c.tri, c.quad, ndiv, size); size_t np = c.X.size() / 3, n = np * 3; c.lambda = g.r(0, 3); c.myu = g.r(.5, 5); c.bend = sim::chance(1, 4) ? 0. : std::pow(10., g.r(-4, -1));
  if (c.tri.size() != (size_t) ndiv * ndiv * 6 || bc.size() != n) sim::violation("cloth-setup-wrong", "%zu triangles, %zu flags for %zu points", c.tri.size() / 3, bc.size(), np);
  for (size_t i = 0; i < np; ++i) if (int q = (int) (c.X[i * 3] < size * 1e-6); q != bc[i * 3] || q != bc[i * 3 + 1] || q != bc[i * 3 + 2]) sim::violation("cloth-setup-wrong", "point %zu at x=%.9g has flags %d %d %d", i, c.X[i * 3], bc[i * 3], bc[i * 3 + 1], bc[i * 3 + 2]);
  bool flat = ndiv == 1 ? true : false; (void) flat; if (sim::choose(3)) bc = supports(g, np, 3, (int) sim::choose(3)); double mp = size * size * g.r(.3, 2) / np, gr[3] = {0, 0, 0}; if (sim::chance(1, 2)) for (double &k : gr) k = g.r(-10, 10); Ground gd; gd.kind = (int) sim::choose(3); double ks = 1000, cl = sim::choose(2) ? .02 : 0;
  VD R = rotations(g, 1, (int) sim::choose(3)), x(n), v(n, 0.), sh = {g.r(-1, 1), g.r(-1, 1), gd.kind ? 0. : g.r(-1, 1)}; for (size_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) { double q = sh[k]; for (int l = 0; l < 3; ++l) q += R[k * 3 + l] * c.X[i * 3 + l]; x[i * 3 + k] = q; }
  Body b; b.d = 3; b.nn = 3; b.np = (int) np; b.el = c.tri; VU pi, p; auto fresh = [&](int fill) { std::unique_ptr<Sys> s(new Sys); VU pi, p; JArray_PSuP_MeshElem(pi, p, c.quad.data(), c.quad.size() / 4, 4, np); JArray_Sort(pi, p); s->A.Initialize(np, 3, true); s->A.SetPattern(pi.data(), pi.size(), p.data(), p.size()); s->P.reset(new CPreconditionerILU<double>); if (fill) s->P->Initialize_ILUk(s->A, fill); else s->P->SetPattern0(s->A); return s; };
  int fill = (int) sim::choose(3); auto own = fresh(fill); VD grad; Dense H(n); double mid = .02;
  { c.eval(x, grad, H); double e = 0, dE; VD dW(n, 0.); AddWdW_Cloth(e, dW, x, c.X, c.tri, c.quad, c.lambda, c.myu, c.bend); (void) dE; double big = (H.big() + 1) * size; for (size_t i = 0; i < n; ++i) if (!(std::fabs(dW[i]) <= 1e-9 * big)) sim::violation("rest-moves", "a rigidly moved flat cloth is pulled by %.9g at unknown %zu", dW[i], i); if (!(std::fabs(e) <= 1e-9 * big * size)) sim::violation("rest-moves", "a rigidly moved flat cloth holds the energy %.9g", e); }
  if (sim::choose(4)) { double a = std::pow(10., g.r(-3, -1)) * size; for (size_t i = 0; i < n; ++i) { x[i] += g.r(-a, a); v[i] = g.r(-1, 1) * a * 10; } for (size_t i = 0; i < n; ++i) if (bc[i]) v[i] = 0; }
  int steps = 1 + (int) sim::choose(8);
  for (int k = 0; k < steps; ++k) { if (sim::chance(1, 6)) { bc = supports(g, np, 3, (int) sim::choose(3)); sim::fault("supports change"); } if (!(maxabs(x) < 1e3 && maxabs(v) < 1e3)) break; double dt = clock_step(mid); if (dt > 1) dt = 1;
    c.eval(x, grad, H); double W = 0, Wg; { VD dW(n, 0.); AddWdW_Cloth(W, dW, x, c.X, c.tri, c.quad, c.lambda, c.myu, c.bend); double big = maxabs(grad) + (H.big() + 1) * size; for (size_t i = 0; i < n; ++i) if (!(std::fabs(dW[i] - grad[i]) <= 1e-9 * big)) sim::violation("force-wrong", "the derivative of the energy at unknown %zu is %.9g, not %.9g", i, dW[i], grad[i]);
      // the energy agrees with its derivative along a random direction
      VD y = x, z = x, dir(n), t(n, 0.); for (double &q : dir) q = g.r(-1, 1); double ep = 1e-4 * size; for (size_t i = 0; i < n; ++i) { y[i] += ep * dir[i]; z[i] -= ep * dir[i]; } double w1 = 0, w2 = 0; AddWdW_Cloth(w1, t, y, c.X, c.tri, c.quad, c.lambda, c.myu, c.bend); AddWdW_Cloth(w2, t, z, c.X, c.tri, c.quad, c.lambda, c.myu, c.bend); double sl = (w1 - w2) / (2 * ep), want = dot(dW, dir); double cub = 0; { VD g1, g2; Dense H1(n), H2(n); c.eval(y, g1, H1); c.eval(z, g2, H2); cub = std::fabs(dot(g1, dir) + dot(g2, dir) - 2 * dot(grad, dir)); } if (!(std::fabs(sl - want) <= cub + 1e-6 * (std::fabs(want) + std::fabs(sl)) + 1e-9 * (std::fabs(w1) + std::fabs(w2)) / ep)) sim::violation("energy-wrong", "the energy changes at the rate %.9g along a direction in which its derivative is %.9g", sl, want);
      VD gg(n, 0.); Wg = AddWdW_Gravity(gg, x, gr, mp); double we = 0; for (size_t i = 0; i < n; ++i) { we -= mp * gr[i % 3] * x[i]; if (gg[i] != -mp * gr[i % 3]) sim::violation("force-wrong", "gravity at unknown %zu is %.9g", i, gg[i]); } if (!(std::fabs(Wg - we) <= 1e-11 * (std::fabs(we) + mp * n * maxabs(x) * 10))) sim::violation("energy-wrong", "gravity holds %.9g, not %.9g", Wg, we); }
    if (sim::chance(1, 6)) { // assembled at once: energy, forces and stiffness, from rest positions in the plane or in space
      VD X2; for (size_t i = 0; i < np; ++i) { X2.push_back(c.X[i * 3]); X2.push_back(c.X[i * 3 + 1]); } bool in = sim::choose(2); own->A.setZero(); VD dW(n, 0.); double W2 = MergeLinSys_Cloth(own->A, dW.data(), c.lambda, c.myu, c.bend, in ? X2.data() : c.X.data(), (unsigned) np, in ? 2 : 3, c.tri.data(), (unsigned) c.tri.size() / 3, c.quad.data(), (unsigned) c.quad.size() / 4, x.data());
      double big = maxabs(grad) + (H.big() + 1) * size; if (!(std::fabs(W2 - W) <= 1e-10 * (std::fabs(W) + big * size))) sim::violation("energy-wrong", "the assembled energy is %.9g, not %.9g", W2, W); Dense D = dense(own->A); double hb = H.big() + 1e-3; for (size_t i = 0; i < n; ++i) { if (!(std::fabs(dW[i] - grad[i]) <= 1e-9 * big)) sim::violation("force-wrong", "the assembled force at unknown %zu is %.9g, not %.9g", i, dW[i], grad[i]); for (size_t j = 0; j < n; ++j) if (!(std::fabs(D(i, j) - H(i, j)) <= 1e-8 * hb)) sim::violation("stiffness-wrong", "the stiffness between unknowns %zu and %zu is %.9g, not %.9g", i, j, D(i, j), H(i, j)); }
      own->A.setZero(); VD dC(n, 0.); double Wc = MergeLinSys_Contact(own->A, dC.data(), ks, cl, gd, x.data(), (int) np), want = 0; for (size_t i = 0; i < np; ++i) { double nn[3], pd = gd.penetrationNormal(nn[0], nn[1], nn[2], x[i * 3], x[i * 3 + 1], x[i * 3 + 2]) + cl; if (pd > 0) want += .5 * ks * pd * pd; } if (!(std::fabs(Wc - want) <= 1e-10 * (want + 1e-9))) sim::violation("energy-wrong", "contact holds %.9g, not %.9g", Wc, want); sim::probe("assembled"); }
    if (sim::chance(1, 6)) { // explicit half step
      VD w = v; for (double &q : w) q += g.r(-1, 1); VD w0 = w; UpdateIntermidiateVelocity(w, x, c.X, bc, c.tri, c.quad, dt, c.lambda, c.myu, c.bend, gr, mp); for (size_t i = 0; i < n; ++i) { double want = bc[i] ? 0. : w0[i] - .5 * dt / mp * (grad[i] - mp * gr[i % 3]); double e = 1e-9 * (1 + std::fabs(w0[i]) + .5 * dt / mp * (maxabs(grad) + H.big() * size) + dt * 10); if (!(std::fabs(w[i] - want) <= e) || (bc[i] && w[i] != 0)) sim::violation("half-step-wrong", "velocity %zu (flag %d) is %.9g, not %.9g", i, bc[i], w[i], want); } sim::probe("half step"); }
    Dense A = H; VD r(n); for (size_t i = 0; i < n; ++i) { A(i, i) += mp / (dt * dt); r[i] = -grad[i] + mp * gr[i % 3] + mp * v[i] / dt; } for (size_t i = 0; i < np; ++i) { double nn[3], pd = gd.penetrationNormal(nn[0], nn[1], nn[2], x[i * 3], x[i * 3 + 1], x[i * 3 + 2]) + cl; if (pd < 0) continue; sim::probe("contact"); for (int a = 0; a < 3; ++a) { r[i * 3 + a] += ks * pd * nn[a]; for (int q = 0; q < 3; ++q) A(i * 3 + a, i * 3 + q) += ks * nn[a] * nn[q]; } }
    bool ilu = sim::choose(2); VD x0 = x, v0 = v; auto go = [&](Sys &s, VD &x, VD &v) { if (ilu) StepTime_InternalDynamicsILU(x, v, s.A, *s.P, c.X, bc, c.tri, c.quad, dt, c.lambda, c.myu, c.bend, gr, mp, ks, cl, gd); else StepTime_InternalDynamics(x, v, s.A, c.X, bc, c.tri, c.quad, dt, c.lambda, c.myu, c.bend, gr, mp, ks, cl, gd); };
    if (maybe_oom("cloth", [&] { go(*own, x, v); })) { if (!same(x, x0) || !same(v, v0)) sim::violation("failed-step-acts", "positions or velocities changed although memory ran out"); sim::NoLib nl; if (sim::chance(1, 2)) own = fresh(fill); go(*own, x, v); }
    if (sim::chance(1, 4)) { sim::fault("restart"); auto s = fresh(fill); VD y = x0, w = v0; go(*s, y, w); if (!same(y, x) || !same(w, v)) sim::violation("restart-differs", "cloth: a step from the saved state gave another result"); }
    VD st(n); for (size_t i = 0; i < n; ++i) { if (bc[i]) { if (x[i] != x0[i]) sim::violation("fixed-value-moves", "cloth: fixed coordinate %zu went from %.17g to %.17g", i, x0[i], x[i]); if (v[i] != 0 && v[i] != v0[i]) sim::violation("fixed-value-moves", "cloth: the velocity of fixed coordinate %zu went from %.9g to %.9g", i, v0[i], v[i]); st[i] = 0; continue; } st[i] = v[i] * dt; if (!(std::fabs(x[i] - x0[i] - st[i]) <= 1e-12 * (1 + std::fabs(x0[i]) + std::fabs(st[i])))) sim::violation("update-wrong", "cloth: coordinate %zu moved by %.9g with velocity %.9g over %.9g", i, x[i] - x0[i], v[i], dt); }
    check_step("cloth", A, r, st, bc, 1e-4, (H.big() + 1) * (maxabs(x0) + size) + maxabs(grad) + mp * maxabs(v0) / dt + 10 * mp);
    bool any = false; for (int q : bc) any = any || q; bool free = !any; for (size_t i = 0; i < np && free; ++i) { double nn[3]; if (gd.penetrationNormal(nn[0], nn[1], nn[2], x0[i * 3], x0[i * 3 + 1], x0[i * 3 + 2]) + cl >= 0) free = false; }
    if (free) { sim::probe("free cloth"); for (int a = 0; a < 3; ++a) { double m0 = 0, m1 = 0; for (size_t i = a; i < n; i += 3) { m0 += mp * (v0[i] + dt * gr[a]); m1 += mp * v[i]; } double e = dt * std::sqrt((double) n) * (1.1e-4 * norm(r) + 1e-9 * A.big() * norm(st) + 1e-12 * n * ((H.big() + 1) * (maxabs(x0) + size) + mp * maxabs(v0) / dt)) + 1e-13; if (!(std::fabs(m1 - m0) <= e)) sim::violation("momentum-not-conserved", "momentum %d of a free cloth is %.9g, not %.9g", a, m1, m0); } }
    sim::state(gen::hv(x, k)); }
  sim::nontrivial(); sim::mix(gen::hv(x, gen::hv(v, 5))); }
const sim::Scenario S04[] = {{"heat", 3, heat}, {"newmark", 3, newmark}, {"backward euler", 3, backward_euler}, {"statics", 2, statics}, {"cloth", 4, cloth}};
}
SIM_MAIN(SIM_TABLE("S04", S04))
