// Integer products for the solver. A query with products of two unknowns is hard for bit-blasting, above all when two
// computations of the same product have to be recognised as equal although they differ in width or in how their
// operands were computed. Interval analysis finds the products that are exact (do not wrap); each is replaced by a
// variable constrained by facts that hold for every product: equal operands give equal products, sign, zero, one, bounds,
// monotone. An over-approximation, so only "unsat" counts.
struct Itv {
  bool ok;
  i128 lo, hi;
};
static const i128 ITV_CAP = (i128)1 << 120;
static Itv itvFull(unsigned w) {
  if (w > 120) return {false, 0, 0};
  return {true, -((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1};
}
static Itv itvFit(i128 lo, i128 hi, unsigned w) {
  if (lo < -ITV_CAP || hi > ITV_CAP) return itvFull(w);
  Itv f = itvFull(w);
  if (f.ok && (lo < f.lo || hi > f.hi)) return f;
  return {true, lo, hi};
}
static bool mulItv(Itv a, Itv b, i128 &lo, i128 &hi) {
  if (!a.ok || !b.ok) return false;
  i128 v[4], x[2] = {a.lo, a.hi}, y[2] = {b.lo, b.hi};
  for (int i = 0; i < 4; i++)
    if (__builtin_mul_overflow(x[i / 2], y[i % 2], &v[i])) return false;
  lo = *std::min_element(v, v + 4);
  hi = *std::max_element(v, v + 4);
  return lo >= -ITV_CAP && hi <= ITV_CAP;
}
static unsigned itvBits(Itv i) { // signed width that holds the interval
  unsigned k = 1;
  while (i.lo < -((i128)1 << (k - 1)) || i.hi > ((i128)1 << (k - 1)) - 1) k++;
  return k;
}
static unordered_map<Ast, Itv> itvMemo;
static Itv itvOf(Ast x) {
  auto it = itvMemo.find(x);
  if (it != itvMemo.end()) return it->second;
  unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
  Itv r = itvFull(w);
  u128 c;
  if (getnum(x, c)) {
    if (w <= 128) {
      i128 v = sextw(c, w);
      r = itvFit(v, v, w);
      if (w > 120 && (v < -ITV_CAP || v > ITV_CAP)) r = {false, 0, 0};
    }
  } else if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, x);
    unsigned n = Z3_get_app_num_args(Z, ap);
    auto arg = [&](unsigned i) { return Z3_get_app_arg(Z, ap, i); };
    auto width = [&](Ast a) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a)); };
    switch (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap))) {
    case Z3_OP_ITE: {
      Itv a = itvOf(arg(1)), b = itvOf(arg(2));
      if (a.ok && b.ok) r = {true, std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
      break;
    }
    case Z3_OP_CONCAT: {
      Ast last = arg(n - 1);
      unsigned wl = width(last);
      if (wl > 120) break;
      bool zero = true, sext = true;
      Ast msb = Z3_simplify(Z, Z3_mk_extract(Z, wl - 1, wl - 1, last));
      for (unsigned i = 0; i + 1 < n; i++) {
        u128 k;
        zero = zero && getnum(arg(i), k) && k == 0;
        sext = sext && arg(i) == msb;
      }
      if (zero) {
        Itv a = itvOf(last);
        r = a.ok && a.lo >= 0 ? a : itvFit(0, ((i128)1 << wl) - 1, w);
      } else if (sext) r = itvOf(last);
      break;
    }
    case Z3_OP_SIGN_EXT: r = itvOf(arg(0)); break;
    case Z3_OP_ZERO_EXT: {
      Itv a = itvOf(arg(0));
      unsigned wl = width(arg(0));
      if (a.ok && a.lo >= 0) r = a;
      else if (wl <= 119) r = itvFit(0, ((i128)1 << wl) - 1, w);
      break;
    }
    case Z3_OP_EXTRACT: {
      if (Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, ap), 1) != 0) break;
      Itv a = itvOf(arg(0));
      if (a.ok) r = itvFit(a.lo, a.hi, w);
      break;
    }
    case Z3_OP_BADD: {
      i128 lo = 0, hi = 0;
      bool ok = true;
      for (unsigned i = 0; i < n && ok; i++) {
        Itv a = itvOf(arg(i));
        ok = a.ok;
        lo += a.lo, hi += a.hi;
        ok = ok && lo >= -ITV_CAP && hi <= ITV_CAP;
      }
      if (ok) r = itvFit(lo, hi, w);
      break;
    }
    case Z3_OP_BMUL: {
      i128 lo = 1, hi = 1;
      bool ok = true;
      for (unsigned i = 0; i < n && ok; i++) ok = mulItv({true, lo, hi}, itvOf(arg(i)), lo, hi);
      if (ok) r = itvFit(lo, hi, w);
      break;
    }
    case Z3_OP_BASHR: {
      u128 k;
      Itv a = itvOf(arg(0));
      if (a.ok && getnum(arg(1), k) && k < 120) r = {true, a.lo >> (int)k, a.hi >> (int)k};
      break;
    }
    default: break;
    }
  }
  itvMemo[x] = r;
  return r;
}
struct IProd {
  Ast p, a, b; // the variable and the operands, already rewritten
  unsigned w, ka, kb;
  bool exact;
};
struct IntRw {
  vector<IProd> ps;
  unordered_map<Ast, Ast> memo;
  static Ast sextTo(Ast x, unsigned from, unsigned to) {
    return to == from ? x : to > from ? Z3_mk_sign_ext(Z, to - from, x) : Z3_mk_extract(Z, to - 1, 0, x);
  }
  Ast rw(Ast x) {
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST) return x;
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    Z3_app ap = Z3_to_app(Z, x);
    unsigned n = Z3_get_app_num_args(Z, ap);
    if (!n) return memo[x] = x;
    Z3_func_decl d = Z3_get_app_decl(Z, ap);
    vector<Ast> as;
    bool changed = false;
    for (unsigned i = 0; i < n; i++) {
      Ast o = Z3_get_app_arg(Z, ap, i), r = rw(o);
      changed |= o != r;
      as.push_back(r);
    }
    if (Z3_get_decl_kind(Z, d) == Z3_OP_BMUL) {
      vector<unsigned> free;
      for (unsigned i = 0; i < n; i++)
        if (Z3_get_ast_kind(Z, Z3_get_app_arg(Z, ap, i)) != Z3_NUMERAL_AST) free.push_back(i);
      if (free.size() == 2) {
        unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
        Itv ia = itvOf(Z3_get_app_arg(Z, ap, free[0])), ib = itvOf(Z3_get_app_arg(Z, ap, free[1]));
        Ast a = as[free[0]], b = as[free[1]];
        i128 lo, hi;
        IProd q;
        bool fits = mulItv(ia, ib, lo, hi);
        if (fits) {
          Itv f = itvFull(w);
          fits = !f.ok || (lo >= f.lo && hi <= f.hi);
        }
        q.exact = fits;
        if (fits) {
          q.ka = std::min(w, itvBits(ia)), q.kb = std::min(w, itvBits(ib));
          q.w = std::min(w, q.ka + q.kb);
          q.a = sextTo(a, w, q.ka), q.b = sextTo(b, w, q.kb);
        } else q.w = q.ka = q.kb = w, q.a = a, q.b = b;
        q.p = Z3_mk_fresh_const(Z, "iprod", BV(q.w));
        ps.push_back(q);
        Ast r = sextTo(q.p, q.w, w);
        for (unsigned i = 0; i < n; i++)
          if (i != free[0] && i != free[1]) r = Z3_mk_bvmul(Z, as[i], r);
        return memo[x] = r;
      }
    }
    return memo[x] = changed ? Z3_update_term(Z, x, n, as.data()) : x;
  }
};
static bool hasIntProduct(const vector<Ast> &as) {
  vector<Ast> wl(as);
  std::unordered_set<Ast> seen;
  while (!wl.empty()) {
    Ast x = wl.back();
    wl.pop_back();
    if (Z3_get_ast_kind(Z, x) != Z3_APP_AST || !seen.insert(x).second) continue;
    Z3_app ap = Z3_to_app(Z, x);
    unsigned n = Z3_get_app_num_args(Z, ap), free = 0;
    for (unsigned i = 0; i < n; i++) {
      Ast a = Z3_get_app_arg(Z, ap, i);
      free += Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST;
      wl.push_back(a);
    }
    if (free >= 2 && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_BMUL) return true;
  }
  return false;
}
static bool unsatIntProducts(Z3_solver sv, const vector<Ast> &as) {
  IntRw R;
  vector<Ast> out;
  for (Ast a : as) out.push_back(R.rw(a));
  if (R.ps.empty() || R.ps.size() > 24) return false;
  Z3_solver_reset(Z, sv);
  auto put = [&](Ast a) { Z3_solver_assert(Z, sv, a); };
  auto And = [](std::initializer_list<Ast> l) { return Z3_mk_and(Z, l.size(), l.begin()); };
  auto Or = [](std::initializer_list<Ast> l) { return Z3_mk_or(Z, l.size(), l.begin()); };
  for (Ast a : out) put(a);
  auto eq = [](Ast a, unsigned wa, Ast b, unsigned wb) {
    unsigned w = std::max(wa, wb);
    return Z3_mk_eq(Z, IntRw::sextTo(a, wa, w), IntRw::sextTo(b, wb, w));
  };
  auto le = [](Ast a, unsigned wa, Ast b, unsigned wb) {
    unsigned w = std::max(wa, wb);
    return Z3_mk_bvsle(Z, IntRw::sextTo(a, wa, w), IntRw::sextTo(b, wb, w));
  };
  for (size_t i = 0; i < R.ps.size(); i++) {
    IProd &q = R.ps[i];
    Ast za = num(q.ka, 0), zb = num(q.kb, 0), z = num(q.w, 0);
    put(Z3_mk_implies(Z, Or({Z3_mk_eq(Z, q.a, za), Z3_mk_eq(Z, q.b, zb)}), Z3_mk_eq(Z, q.p, z)));
    if (q.ka > 1) put(Z3_mk_implies(Z, Z3_mk_eq(Z, q.a, num(q.ka, 1)), eq(q.p, q.w, q.b, q.kb)));
    if (q.kb > 1) put(Z3_mk_implies(Z, Z3_mk_eq(Z, q.b, num(q.kb, 1)), eq(q.p, q.w, q.a, q.ka)));
    if (q.exact) {
      Ast pa = Z3_mk_bvsle(Z, za, q.a), pb = Z3_mk_bvsle(Z, zb, q.b), na = Z3_mk_bvsle(Z, q.a, za), nb = Z3_mk_bvsle(Z, q.b, zb);
      put(Z3_mk_implies(Z, Or({And({pa, pb}), And({na, nb})}), Z3_mk_bvsle(Z, z, q.p)));
      put(Z3_mk_implies(Z, Or({And({pa, nb}), And({na, pb})}), Z3_mk_bvsle(Z, q.p, z)));
    }
    for (size_t j = 0; j < i; j++) {
      IProd &r = R.ps[j];
      if (q.exact != r.exact || (!q.exact && q.w != r.w)) continue;
      Ast same = eq(q.p, q.w, r.p, r.w);
      struct {
        Ast a, b, c, d;
        unsigned ka, kb, kc, kd;
      } m[2] = {{q.a, q.b, r.a, r.b, q.ka, q.kb, r.ka, r.kb}, {q.a, q.b, r.b, r.a, q.ka, q.kb, r.kb, r.ka}};
      for (auto &t : m) {
        put(Z3_mk_implies(Z, And({eq(t.a, t.ka, t.c, t.kc), eq(t.b, t.kb, t.d, t.kd)}), same));
        if (!q.exact) continue;
        // (a, b) against (c, d) with one operand the same
        struct {
          Ast s, s2, x, y;
          unsigned ks, ks2, kx, ky;
        } o[2] = {{t.a, t.c, t.b, t.d, t.ka, t.kc, t.kb, t.kd}, {t.b, t.d, t.a, t.c, t.kb, t.kd, t.ka, t.kc}};
        for (auto &u : o) {
          Ast zs = num(u.ks, 0), e = eq(u.s, u.ks, u.s2, u.ks2);
          Ast up = Z3_mk_bvsle(Z, zs, u.s), dn = Z3_mk_bvsle(Z, u.s, zs), xy = le(u.x, u.kx, u.y, u.ky), yx = le(u.y, u.ky, u.x, u.kx);
          put(Z3_mk_implies(Z, And({e, Or({And({up, xy}), And({dn, yx})})}), le(q.p, q.w, r.p, r.w)));
          put(Z3_mk_implies(Z, And({e, Or({And({up, yx}), And({dn, xy})})}), le(r.p, r.w, q.p, q.w)));
        }
      }
    }
  }
  Z3_lbool r = Z3_solver_check(Z, sv);
  if (r == Z3_L_TRUE) guessFrom(sv, as);
  return r == Z3_L_FALSE;
}
