/* C21: verifier/src/ntt_intervals.cpp compiled against the stand-in headers; all intervals of the windows, and all operations of the
 * domain on all pairs of small states compared with the underlying interval domain. */
extern "C++" {
#include "ntt_intervals.cpp"
}
#pragma GCC diagnostic ignored "-fpermissive"
extern "C" {
#include "common.h"
}
#undef Q
using D = ntt_verifier::ntt_interval_domain<clam::number_t, clam::varname_t>;
using I = ikos::interval_domain<clam::number_t, clam::varname_t>;
using Z = ikos::z_number; using IV = ikos::interval<Z>; using BD = ikos::bound<Z>; using VR = D::variable_t; using VC = D::variable_or_constant_t;
static i64 red1(i64 x) { i64 r = ((x % 4096) + 4096) % 4096; return 3 * r - (x - r) / 4096; }
static u64 cnt;
static D mk(const I &i) { D d; d += D::linear_constraint_system_t{ 0, std::make_shared<I>(i) }; return d; } /* the stand-in's constraint systems carry states */
static I raw(const D &d) { return *(I *)d.to_linear_constraint_system().st.get(); }
static std::string txt(const IV &i) { char b[100]; auto l = i.lb().number(), u = i.ub().number(); if (i.is_bottom()) return "bottom"; snprintf(b, 100, "[%s%ld,%s%ld]", l ? "" : "-oo:", l ? (long)l->v : 0, u ? "" : "oo:", u ? (long)u->v : 0); return b; }
static IV W2(Z(17), Z(23));
static void run1(i64 a, i64 b, i64 mn, i64 mx, int alias) {
  static I i0; i0.m.clear(); i0.set(VR(1), IV(Z(a), Z(b))); i0.set(VR(3), W2); if (!alias) i0.set(VR(2), IV(Z(-5), Z(5))); D d = mk(i0);
  int o = alias ? 1 : 2; CASE("intrinsic red", a, b, alias, 0); cnt++;
  try { d.intrinsic("red", { VC(VR(1)) }, { VR(o) }); } catch (...) { violation("op=red [%ld,%ld]: error raised", a, b); return; }
  IV r = d.at(VR(o)), w = IV(Z(mn), Z(mx));
  if (d.is_bottom()) { violation("op=red [%ld,%ld]: state becomes unreachable", a, b); return; }
  if (r != w) violation("op=red input [%ld,%ld]%s: output %s, the reduction spans [%ld,%ld]", a, b, alias ? " (same variable)" : "", txt(r).c_str(), mn, mx);
  if (d.at(VR(3)) != W2 || (!alias && d.at(VR(1)) != IV(Z(a), Z(b)))) violation("op=red [%ld,%ld]: another variable changed", a, b);
}
static const i64 CEN[] = { 0, 4096, -4096, 1 << 20, -(1 << 20), (i64)1 << 40, -((i64)1 << 40), 8796093022208LL, -8796093022208LL, 2147483648LL, -2147483648LL, 12289, -12289 };
#define NCEN 13
#define H (vf_thorough ? 9000 : 4500)
static void job_win(int j) { /* all subintervals [a,b], a in one residue class */
  int c = j / 8, k = j % 8; i64 lo = CEN[c] - (c ? 300 : H), hi = CEN[c] + (c ? 300 : H), a, b;
  for (a = lo + k; a <= hi; a += 8) { i64 mn = red1(a), mx = mn; for (b = a; b <= hi; b++) { i64 v = red1(b); if (v < mn) mn = v; if (v > mx) mx = v; if (c || vf_thorough || b - a < 40 || (b & 4095) < 3 || (b & 4095) > 4093 || (a & 4095) < 3 || (a & 4095) > 4093) run1(a, b, mn, mx, (a + b) & 1); } if (vf_stop()) return; }
  stat_add("intervals", cnt); cnt = 0;
}
static void job_wide(int j) {
  static i64 E[400]; int n = 0, p, q, k; for (k = 0; k < 46; k++) { E[n++] = (i64)1 << k; E[n++] = -((i64)1 << k); E[n++] = ((i64)1 << k) - 1; E[n++] = -((i64)1 << k) + 1; E[n++] = ((i64)3 << k) + 2047; E[n++] = -((i64)3 << k) - 2049; } E[n++] = 0; E[n++] = -75497472; E[n++] = 132089856;
  for (p = j; p < n; p += 8) for (q = 0; q < n; q++) if (E[p] <= E[q]) { i64 l = E[q] - E[p] < 4096 ? E[q] - E[p] : 4096, x, mx = red1(E[p]), mn = red1(E[q]); for (x = 0; x <= l; x++) { i64 v = red1(E[p] + x); if (v > mx) mx = v; v = red1(E[q] - x); if (v < mn) mn = v; } run1(E[p], E[q], mn, mx, 0); run1(E[p], E[q], mn, mx, 1); if (vf_stop()) return; }
  if (j == 0) { /* unbounded and unreachable inputs */
    BD P = BD::plus_infinity(), M = BD::minus_infinity(); int al; i64 vs[] = { 0, 1, -1, 4095, 4096, -4096, 12289, 1 << 20 };
    for (al = 0; al < 2; al++) for (k = 0; k < 17; k++) { D d; IV in = k == 16 ? IV::top() : k & 1 ? IV(M, BD(Z(vs[k / 2]))) : IV(BD(Z(vs[k / 2])), P); I i0; i0.set(VR(1), in); i0.set(VR(3), W2); if (!al) i0.set(VR(2), IV(Z(-5), Z(5))); D dd = mk(i0); d = dd;
      cnt++; d.intrinsic("red", { VC(VR(1)) }, { VR(al ? 1 : 2) });
      IV r = d.at(VR(al ? 1 : 2));
      if (d.is_bottom() || !r.is_top()) violation("op=red on the unbounded interval %s: output %s instead of unconstrained", txt(in).c_str(), txt(r).c_str());
      if (d.at(VR(3)) != W2 || (!al && d.at(VR(1)) != in)) violation("op=red on the unbounded interval %s: another variable changed", txt(in).c_str()); }
    { D d; d.set_to_bottom(); d.intrinsic("red", { VC(VR(1)) }, { VR(2) }); if (!d.is_bottom()) violation("op=red: an unreachable state becomes reachable"); cnt++; }
  }
  stat_add("intervals", cnt); cnt = 0;
}
/* ---- every other operation against the underlying domain ---- */
static std::vector<I> S;
static void states(void) { IV vals[] = { IV::top(), IV(Z(0), Z(5)), IV(Z(3), Z(9)), IV(Z(-4), Z(-4)), IV(BD(Z(2)), BD::plus_infinity()) }; for (auto &a : vals) for (auto &b : vals) { I s; s.set(VR(1), a); s.set(VR(2), b); S.push_back(s); } I b; b.set_to_bottom(); S.push_back(b); }
static void eq(const char *op, const I &got, const I &want) { cnt++; if (!got.same(want)) violation("op=%s of the domain differs from the interval domain's", op); }
static void job_ops(int j) {
  using namespace crab::domains; const I &s = S[j]; VR x(1), y(2), z(7); D::variable_vector_t vx{ x }, vz{ z };
#define MUT(name, call) { D d = mk(s); I i = s; d.call; i.call; eq(name, raw(d), i); }
  CASE("domain operations", j, 0, 0, 0);
  { D d = mk(s); eq("make_top", raw(d.make_top()), s.make_top()); eq("make_bottom", raw(d.make_bottom()), s.make_bottom()); cnt += 2; if (d.is_bottom() != s.is_bottom()) violation("op=is_bottom"); if (d.is_top() != s.is_top()) violation("op=is_top");
    if (d.at(x) != s.at(x) || d.at(y) != s.at(y) || d[x] != s.at(x) || d[y] != s.at(y)) violation("op=at/[] differ from the interval domain");
    for (int k = 0; k < 4; k++) if (d.entails(cst_t{ k }) != s.entails(cst_t{ k })) violation("op=entails");
    crab::crab_os o1, o2; d.write(o1); s.write(o2); if (o1.s != o2.s) violation("op=write"); if (d.to_linear_constraint_system().id != s.to_linear_constraint_system().id) violation("op=to_linear_constraint_system"); if (d.to_disjunctive_linear_constraint_system().id != s.to_disjunctive_linear_constraint_system().id) violation("op=to_disjunctive"); }
  MUT("set_to_top", set_to_top()) MUT("set_to_bottom", set_to_bottom()) MUT("forget", operator-=(x)) MUT("forget2", operator-=(y)) MUT("constraints", operator+=(csts_t{ 4 })) MUT("assign", assign(x, expr_t{ 3 })) MUT("weak_assign", weak_assign(y, expr_t{ 3 }))
  for (int o = 0; o < 7; o++) { MUT("apply arithmetic", apply((arith_operation_t)o, x, y, z)) MUT("apply arithmetic constant", apply((arith_operation_t)o, x, y, Z(5))) }
  for (int o = 0; o < 6; o++) { MUT("apply bitwise", apply((bitwise_operation_t)o, x, y, z)) MUT("apply bitwise constant", apply((bitwise_operation_t)o, z, x, Z(6))) }
  for (int o = 0; o < 3; o++) MUT("apply conversion", apply((int_conv_operation_t)o, x, y))
  MUT("select", select(x, cst_t{ 1 }, expr_t{ 2 }, expr_t{ 3 })) MUT("forget vector", forget(vx)) MUT("project", project(vx)) MUT("rename", rename(vx, vz)) MUT("expand", expand(x, z)) MUT("normalize", normalize()) MUT("minimize", minimize())
  for (auto &t : S) { D a = mk(s), b = mk(t); cnt++; if ((a <= b) != (s <= t)) violation("op=<= of the domain differs from the interval domain's");
    eq("join", raw((a | b)), s | t); eq("meet", raw((a & b)), s & t); eq("widening", raw((a || b)), s || t); eq("narrowing", raw((a && b)), s && t); crab::thresholds<Z> th{ 9 }; eq("widening with thresholds", raw(a.widening_thresholds(b, th)), s.widening_thresholds(t, th));
    { D c = a; c |= b; I i = s; i |= t; eq("join in place", raw(c), i); } { D c = a; c &= b; I i = s; i &= t; eq("meet in place", raw(c), i); } }
  { D d = mk(s); d.intrinsic("other", { VC(x) }, { y }); eq("unknown intrinsic", raw(d), s); }
  stat_add("domain_operations", cnt); cnt = 0;
}
int main(int argc, char **argv) {
  vf_init(argc, argv); vf_only = 0; states();
  sample("red on every [a,b] with -%d <= a <= b <= %d (quick: those shorter than 40 or with an end near a multiple of 4096)", H, H);
  run_jobs("windows", NCEN * 8, job_win); run_jobs("wide", 8, job_wide); run_jobs("operations", (int)S.size(), job_ops);
  return vf_finish();
}
