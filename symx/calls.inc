  // ---------------------------------------------------------------- calls
  // Included inside struct Machine.  Everything that has a body in the bitcode is
  // executed; only the harness API, LLVM intrinsics, the allocator, panics and the
  // few libc functions below are modelled.
  string rdStr(uint64_t p, uint64_t n) {
    string r;
    for (uint64_t i = 0; i < n && i < 300; i++) {
      Obj *o = findObj(s, p + i);
      if (!o) break;
      r += (char)o->d->b[p + i - o->base];
    }
    return r;
  }
  void done(const Val &v) {
    setResult(v);
    advanceAfterCall();
  }
  void doneVoid() { advanceAfterCall(); }
  unsigned retBits(const CallBase *CB) { return typeBits(CB->getType()); }

  void freeObj(uint64_t p, int64_t size) {
    if (!p) return;
    auto it = s.mem.find(p);
    if (it == s.mem.end() || it->second.kind != HEAP) fail(s, "memory", "free of a pointer that is not a live heap block (double free?)");
    if (size >= 0 && (uint64_t)size != it->second.size) fail(s, "memory", "deallocation with a size that differs from the allocation");
    s.mem.erase(it);
  }
  uint64_t heap(uint64_t n, uint64_t align, uint8_t fill) {
    if (n > (1ull << 28)) incompl(s, "allocation over 256 MB");
    return allocObj(s, n, align, HEAP, fill);
  }
  Val loadByte(uint64_t a) { return loadScalar(s, a, 8, 1); }

  // float -> int saturating
  Val fpToIntSat(const Val &a, unsigned w, bool sgn) {
    if (!a.sym()) {
      double d = bitsToD(a);
      if (std::isnan(d)) return Val(w, (u128)0);
      double lo = sgn ? -std::ldexp(1.0, w - 1) : 0.0, hi = std::ldexp(1.0, sgn ? w - 1 : w);
      if (d >= hi) return Val(w, sgn ? (((u128)1) << (w - 1)) - 1 : maskw(~(u128)0, w));
      if (d <= lo) return Val(w, sgn ? ((u128)1) << (w - 1) : (u128)0);
      return Val(w, sgn ? (u128)(i128)d : (u128)d);
    }
    Ast x = toFP(a);
    Z3_sort so = fps(a.w);
    Ast lo = Z3_mk_fpa_numeral_double(Z, sgn ? -std::ldexp(1.0, w - 1) : 0.0, so),
        hi = Z3_mk_fpa_numeral_double(Z, std::ldexp(1.0, sgn ? w - 1 : w), so);
    Ast conv = sgn ? Z3_mk_fpa_to_sbv(Z, RTZ, x, w) : Z3_mk_fpa_to_ubv(Z, RTZ, x, w);
    Ast mx = num(w, sgn ? (((u128)1) << (w - 1)) - 1 : maskw(~(u128)0, w)), mn = num(w, sgn ? ((u128)1) << (w - 1) : (u128)0);
    Ast r = Z3_mk_ite(Z, Z3_mk_fpa_geq(Z, x, hi), mx, Z3_mk_ite(Z, Z3_mk_fpa_leq(Z, x, lo), mn, conv));
    r = Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, x), num(w, 0), r);
    return mkbv(w, r);
  }
  Val countZeros(const Val &a, bool lead) {
    unsigned w = a.w;
    if (!a.sym()) {
      unsigned n = 0;
      for (unsigned i = 0; i < w; i++) {
        unsigned b = lead ? w - 1 - i : i;
        if ((a.c >> b) & 1) break;
        n++;
      }
      return Val(w, (u128)n);
    }
    Ast r = num(w, w);
    for (unsigned i = 0; i < w; i++) {
      unsigned b = lead ? i : w - 1 - i; // last tested has priority
      unsigned val = lead ? w - 1 - b : b;
      Ast bit = Z3_mk_eq(Z, Z3_mk_extract(Z, b, b, astbv(a)), num(1, 1));
      r = Z3_mk_ite(Z, bit, num(w, val), r);
    }
    return mkbv(w, r);
  }
  Val popcnt(const Val &a) {
    if (!a.sym()) {
      unsigned n = 0;
      for (unsigned i = 0; i < a.w; i++) n += (unsigned)((a.c >> i) & 1);
      return Val(a.w, (u128)n);
    }
    Ast r = num(a.w, 0);
    for (unsigned i = 0; i < a.w; i++) {
      Ast b = Z3_mk_extract(Z, i, i, astbv(a));
      r = Z3_mk_bvadd(Z, r, a.w > 1 ? Z3_mk_zero_ext(Z, a.w - 1, b) : b);
    }
    return mkbv(a.w, r);
  }
  Val bswapV(const Val &a, bool bits) {
    unsigned u = bits ? 1 : 8, n = a.w / u;
    if (!a.sym()) {
      u128 r = 0;
      for (unsigned i = 0; i < n; i++) r |= maskw(a.c >> (i * u), u) << ((n - 1 - i) * u);
      return Val(a.w, r);
    }
    Ast e = nullptr;
    for (unsigned i = 0; i < n; i++) {
      Ast b = Z3_mk_extract(Z, i * u + u - 1, i * u, astbv(a));
      e = e ? Z3_mk_concat(Z, e, b) : b;
    }
    return mkbv(a.w, e);
  }
  Val withOverflow(const string &op, bool sgn, const Val &a, const Val &b) {
    unsigned w = a.w;
    Val r = mkagg(2);
    if (!a.sym() && !b.sym() && w <= 64) {
      i128 x = sgn ? sextw(a.c, w) : (i128)a.c, y = sgn ? sextw(b.c, w) : (i128)b.c;
      if (op == "mul" && !sgn) {
        u128 z = a.c * b.c;
        (*r.agg)[0] = Val(w, z);
        (*r.agg)[1] = Val(1, (u128)(z != maskw(z, w)));
        return r;
      }
      i128 z = op == "add" ? x + y : op == "sub" ? x - y : x * y;
      (*r.agg)[0] = Val(w, (u128)z);
      bool of = sgn ? z != sextw((u128)z, w) : (z < 0 || (u128)z != maskw((u128)z, w));
      (*r.agg)[1] = Val(1, (u128)of);
      return r;
    }
    Ast x = astbv(a), y = astbv(b), z, of;
    if (op == "mul") {
      z = Z3_mk_bvmul(Z, x, y);
      if (sgn && a.sym() && b.sym() && w <= 64) { // the exact product, so that it is recognised elsewhere
        Ast d = Z3_mk_bvmul(Z, Z3_mk_sign_ext(Z, w, x), Z3_mk_sign_ext(Z, w, y));
        i128 lo, hi;
        Itv f = itvFull(w);
        (*r.agg)[0] = mkbv(w, z);
        if (mulItv(itvOf(Z3_simplify(Z, x)), itvOf(Z3_simplify(Z, y)), lo, hi) && lo >= f.lo && hi <= f.hi) (*r.agg)[1] = Val(1, (u128)0);
        else {
          (*r.agg)[0] = mkbv(w, Z3_mk_extract(Z, w - 1, 0, d));
          (*r.agg)[1] = mkbool(Z3_mk_not(Z, Z3_mk_eq(Z, d, Z3_mk_sign_ext(Z, w, Z3_mk_extract(Z, w - 1, 0, d)))));
        }
        return r;
      }
      Ast ok = Z3_mk_bvmul_no_overflow(Z, x, y, sgn);
      if (sgn) ok = Z3_mk_and(Z, 2, (Ast[]){ok, Z3_mk_bvmul_no_underflow(Z, x, y)});
      of = Z3_mk_not(Z, ok);
    } else {
      Itv i = itvOf(Z3_simplify(Z, x)), j = itvOf(Z3_simplify(Z, y)), f = itvFull(w);
      i128 lo, hi;
      if (i.ok && j.ok && (sgn || (i.lo >= 0 && j.lo >= 0))) {
        lo = op == "add" ? i.lo + j.lo : i.lo - j.hi, hi = op == "add" ? i.hi + j.hi : i.hi - j.lo;
        if ((!f.ok || (lo >= f.lo && hi <= f.hi)) && (sgn || lo >= 0)) {
          (*r.agg)[0] = mkbv(w, op == "add" ? Z3_mk_bvadd(Z, x, y) : Z3_mk_bvsub(Z, x, y));
          (*r.agg)[1] = Val(1, (u128)0);
          return r;
        }
      }
      unsigned k = w + 1;
      Ast xe = sgn ? Z3_mk_sign_ext(Z, 1, x) : Z3_mk_zero_ext(Z, 1, x), ye = sgn ? Z3_mk_sign_ext(Z, 1, y) : Z3_mk_zero_ext(Z, 1, y);
      Ast ze = op == "add" ? Z3_mk_bvadd(Z, xe, ye) : Z3_mk_bvsub(Z, xe, ye);
      z = Z3_mk_extract(Z, w - 1, 0, ze);
      if (sgn) of = Z3_mk_not(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, k - 1, k - 1, ze), Z3_mk_extract(Z, k - 2, k - 2, ze)));
      else of = Z3_mk_eq(Z, Z3_mk_extract(Z, k - 1, k - 1, ze), num(1, 1));
    }
    (*r.agg)[0] = mkbv(w, z);
    (*r.agg)[1] = mkbool(of);
    return r;
  }
  Val satAS(const string &op, bool sgn, const Val &a, const Val &b) {
    unsigned w = a.w;
    Val r = withOverflow(op, sgn, a, b);
    Val sum = (*r.agg)[0], of = (*r.agg)[1];
    Val sat;
    if (!sgn) sat = Val(w, op == "add" ? maskw(~(u128)0, w) : (u128)0);
    else {
      // overflow direction is given by the sign of a
      Val neg = icmp(CmpInst::ICMP_SLT, a, Val(w, (u128)0));
      sat = selectV(neg, Val(w, ((u128)1) << (w - 1)), Val(w, (((u128)1) << (w - 1)) - 1));
    }
    return selectV(of, sat, sum);
  }
  Val funnel(const Val &a, const Val &b, const Val &c, bool left) {
    unsigned w = a.w;
    Val sh = c.sym() ? mkbv(w, Z3_mk_bvurem(Z, c.e, num(w, w))) : Val(w, c.c % w);
    if (!sh.sym()) {
      unsigned k = (unsigned)sh.c;
      if (k == 0) return left ? a : b;
      Val wa = Val(w, (u128)(left ? k : w - k)), wb = Val(w, (u128)(left ? w - k : k));
      return binop(Instruction::Or, binop(Instruction::Shl, a, wa), binop(Instruction::LShr, b, wb));
    }
    Ast cc = Z3_mk_concat(Z, astbv(a), astbv(b));
    Ast she = Z3_mk_zero_ext(Z, w, sh.e);
    if (left) return mkbv(w, Z3_mk_extract(Z, 2 * w - 1, w, Z3_mk_bvshl(Z, cc, she)));
    return mkbv(w, Z3_mk_extract(Z, w - 1, 0, Z3_mk_bvlshr(Z, cc, she)));
  }
  Val roundV(const Val &a, const string &k) {
    if (!a.sym()) {
      double d = bitsToD(a), r;
      if (k == "floor") r = std::floor(d);
      else if (k == "ceil") r = std::ceil(d);
      else if (k == "trunc") r = std::trunc(d);
      else if (k == "round") r = std::round(d);
      else if (k == "sqrt") return a.w == 32 ? dToBitsF(std::sqrt((float)d)) : dToBits(std::sqrt(d), 64);
      else r = std::nearbyint(d);
      return dToBits(r, a.w);
    }
    Ast x = toFP(a);
    if (k == "sqrt") return fromFP(a.w, Z3_mk_fpa_sqrt(Z, RNE, x));
    Ast rm = k == "floor" ? RTN : k == "ceil" ? RTP : k == "trunc" ? RTZ : k == "round" ? Z3_mk_fpa_round_nearest_ties_to_away(Z) : RNE;
    return fromFP(a.w, Z3_mk_fpa_round_to_integral(Z, rm, x));
  }

  [[noreturn]] void panicNow(const string &name, Inst &in, const CallBase *CB) {
    if (s.expect_panic) throw PathEnd{"panic-expected"};
    string msg = name;
    if (name == "core::panicking::panic" || name == "core::option::expect_failed" || name == "core::result::unwrap_failed") {
      const Val &p = ref(in.ops[0]), &n = ref(in.ops[1]);
      if (!p.sym() && !n.sym()) msg += ": " + rdStr((uint64_t)p.c, (uint64_t)n.c);
    } else if (name == "core::panicking::panic_fmt") {
      // fmt::Arguments holds a slice of string pieces; print the first that looks like one
      const Val &p = ref(in.ops[0]);
      if (!p.sym()) {
        if (Obj *o = findObj(s, (uint64_t)p.c)) {
          for (uint64_t off = 0; off + 16 <= o->size && off < 48; off += 8) {
            uint64_t pp, nn;
            memcpy(&pp, &o->d->b[off], 8);
            memcpy(&nn, &o->d->b[off + 8], 8);
            if (nn == 0 || nn > 16) continue;
            Obj *q = findObj(s, pp);
            if (!q || pp + 16 > q->base + q->size) continue;
            uint64_t sp, sn;
            memcpy(&sp, &q->d->b[pp - q->base], 8);
            memcpy(&sn, &q->d->b[pp - q->base + 8], 8);
            if (sn == 0 || sn > 400 || !findObj(s, sp)) continue;
            msg += ": " + rdStr(sp, sn);
            break;
          }
        }
      }
    }
    string kind = "panic";
    if (name.find("misaligned") != string::npos || name.find("nounwind") != string::npos || name.find("cannot_unwind") != string::npos ||
        name.find("cell::panic_already") != string::npos)
      kind = name.find("cell::") != string::npos ? "panic" : "memory";
    fail(s, kind, msg);
  }
  static bool isPanic(const string &n) {
    static const char *pre[] = {"core::panicking::", "std::panicking::begin_panic", "std::panicking::rust_panic", "core::option::expect_failed",
                                "core::option::unwrap_failed", "core::result::unwrap_failed", "alloc::raw_vec::capacity_overflow", "alloc::raw_vec::handle_error",
                                "alloc::alloc::handle_alloc_error", "core::str::slice_error_fail", "core::slice::index::slice_start_index",
                                "core::slice::index::slice_end_index", "core::slice::index::slice_index_order", "core::cell::panic_already",
                                "std::process::abort", "std::sys::unix::abort_internal", "core::str::traits::str_index_overflow_fail"};
    for (auto p : pre)
      if (n.rfind(p, 0) == 0) return true;
    return n == "rust_begin_unwind" || n == "__rust_start_panic" || n == "rust_panic" || n == "abort";
  }

  void doCall(Inst &in) {
    auto *CB = cast<CallBase>(in.I);
    if (CB->isInlineAsm()) {
      auto *A = cast<InlineAsm>(CB->getCalledOperand());
      if (A->getAsmString().empty() && CB->getType()->isVoidTy()) {
        doneVoid();
        return;
      }
      incompl(s, "inline assembly: " + A->getAsmString());
    }
    const Function *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (!F)
      if (auto *ga = dyn_cast<GlobalAlias>(CB->getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
    if (!F) {
      uint64_t a = conc(in.ops.back());
      auto it = faddr.find(a);
      if (it == faddr.end()) fail(s, "memory", "call through a pointer that is not a function");
      F = it->second;
    }
    callFn(F, in, CB);
  }
  void callFn(const Function *F, Inst &in, const CallBase *CB);
