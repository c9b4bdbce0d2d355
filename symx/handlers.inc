// Out-of-class parts of Machine: the callee table.
static Val vlane(const Val &v) { return v; }

enum HK {
  H_EXEC, H_PANIC, H_UNKNOWN, H_BITS, H_ASSUME, H_ASSERT, H_REACH, H_CONC, H_TRACE, H_EXPECT, H_NOP, H_MEMCPY, H_MEMSET,
  H_OVF, H_SAT, H_CTPOP, H_CTLZ, H_CTTZ, H_BSWAP, H_BITREV, H_FSHL, H_FSHR, H_MINMAX, H_ABS, H_EXPECTV, H_LLASSUME, H_TLS,
  H_FPSAT, H_FABS, H_ROUND, H_COPYSIGN, H_FMINMAX, H_FMA, H_PMOVMSKB, H_REDUCE, H_PTRMASK, H_OBJSIZE, H_LOADREL, H_TRAP,
  H_ALLOC, H_ALLOCZ, H_DEALLOC, H_REALLOC, H_MALLOC, H_CALLOC, H_FREE, H_CREALLOC, H_MEMALIGN, H_MEMCMP, H_BCMP, H_STRLEN, H_MEMCHR,
  H_NULL, H_SYSCALL, H_CLOCK, H_KEYCREATE, H_GETSPEC, H_SETSPEC, H_WRITE, H_ERRNO, H_ZERO, H_FMULADD, H_BLACKBOX, H_LEAK, H_SPAWN, H_JOIN, H_PREEMPT, H_YIELD
};
struct Callee {
  HK k;
  string name, op;
  bool sgn = false;
};
static Callee classify(const Function *F) {
  Callee c;
  string n = F->getName().str();
  c.name = n;
  auto has = [&](const char *p) { return n.rfind(p, 0) == 0; };
  if (has("llvm.")) {
    c.k = H_UNKNOWN;
    if (has("llvm.memcpy") || has("llvm.memmove")) c.k = H_MEMCPY;
    else if (has("llvm.memset")) c.k = H_MEMSET;
    else if (n.find(".with.overflow") != string::npos) {
      c.k = H_OVF;
      c.sgn = n[5] == 's';
      c.op = n.substr(6, 3);
    } else if (has("llvm.uadd.sat") || has("llvm.sadd.sat") || has("llvm.usub.sat") || has("llvm.ssub.sat")) {
      c.k = H_SAT;
      c.sgn = n[5] == 's';
      c.op = n.substr(6, 3);
    } else if (has("llvm.ctpop")) c.k = H_CTPOP;
    else if (has("llvm.ctlz")) c.k = H_CTLZ;
    else if (has("llvm.cttz")) c.k = H_CTTZ;
    else if (has("llvm.bswap")) c.k = H_BSWAP;
    else if (has("llvm.bitreverse")) c.k = H_BITREV;
    else if (has("llvm.fshl")) c.k = H_FSHL;
    else if (has("llvm.fshr")) c.k = H_FSHR;
    else if (has("llvm.umin") || has("llvm.umax") || has("llvm.smin") || has("llvm.smax")) {
      c.k = H_MINMAX;
      c.op = n.substr(5, 4);
    } else if (has("llvm.abs")) c.k = H_ABS;
    else if (has("llvm.expect")) c.k = H_EXPECTV;
    else if (has("llvm.assume")) c.k = H_LLASSUME;
    else if (has("llvm.threadlocal.address")) c.k = H_EXPECTV;
    else if (has("llvm.lifetime") || has("llvm.dbg") || has("llvm.experimental.noalias") || has("llvm.invariant") || has("llvm.donothing") ||
             has("llvm.prefetch") || has("llvm.va_") || has("llvm.sideeffect"))
      c.k = H_NOP;
    else if (has("llvm.x86.sse2.pause")) c.k = H_YIELD;
    else if (has("llvm.fptosi.sat") || has("llvm.fptoui.sat")) {
      c.k = H_FPSAT;
      c.sgn = has("llvm.fptosi");
    } else if (has("llvm.fabs")) c.k = H_FABS;
    else if (has("llvm.floor") || has("llvm.ceil") || has("llvm.trunc") || has("llvm.rint") || has("llvm.round.") || has("llvm.nearbyint") ||
             has("llvm.roundeven") || has("llvm.sqrt")) {
      c.k = H_ROUND;
      c.op = n.substr(5, n.find('.', 5) - 5);
    } else if (has("llvm.copysign")) c.k = H_COPYSIGN;
    else if (has("llvm.minnum") || has("llvm.maxnum")) {
      c.k = H_FMINMAX;
      c.sgn = has("llvm.maxnum");
    } else if (has("llvm.fma.")) c.k = H_FMA;
    else if (has("llvm.fmuladd")) c.k = H_FMULADD;
    else if (has("llvm.x86.sse2.pmovmskb")) c.k = H_PMOVMSKB;
    else if (has("llvm.vector.reduce.")) {
      c.k = H_REDUCE;
      c.op = n.substr(19, n.find('.', 19) - 19);
    } else if (has("llvm.ptrmask")) c.k = H_PTRMASK;
    else if (has("llvm.objectsize")) c.k = H_OBJSIZE;
    else if (has("llvm.load.relative")) c.k = H_LOADREL;
    else if (has("llvm.trap") || has("llvm.debugtrap") || has("llvm.ubsantrap")) c.k = H_TRAP;
    return c;
  }
  static const map<string, HK> exact = {
      {"sym_bits", H_BITS}, {"sym_assume", H_ASSUME}, {"sym_assert", H_ASSERT}, {"sym_reach", H_REACH}, {"sym_conc", H_CONC},
      {"sym_trace", H_TRACE}, {"sym_expect_panic", H_EXPECT}, {"sym_live_heap", H_LEAK},
      {"sym_spawn", H_SPAWN}, {"sym_join", H_JOIN}, {"sym_preempt", H_PREEMPT},
      {"__rust_alloc", H_ALLOC}, {"__rdl_alloc", H_ALLOC}, {"__rust_alloc_zeroed", H_ALLOCZ}, {"__rdl_alloc_zeroed", H_ALLOCZ},
      {"__rust_dealloc", H_DEALLOC}, {"__rdl_dealloc", H_DEALLOC}, {"__rust_realloc", H_REALLOC}, {"__rdl_realloc", H_REALLOC},
      {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_CREALLOC}, {"free", H_FREE}, {"posix_memalign", H_MEMALIGN},
      {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"strlen", H_STRLEN}, {"memchr", H_MEMCHR},
      {"getenv", H_NULL}, {"syscall", H_SYSCALL}, {"clock_gettime", H_CLOCK}, {"pthread_key_create", H_KEYCREATE},
      {"pthread_getspecific", H_GETSPEC}, {"pthread_setspecific", H_SETSPEC}, {"pthread_key_delete", H_ZERO}, {"__cxa_thread_atexit_impl", H_ZERO}, {"write", H_WRITE},
      {"writev", H_WRITE}, {"__errno_location", H_ERRNO}, {"sched_yield", H_YIELD}, {"abort", H_PANIC},
  };
  auto it = exact.find(n);
  if (it != exact.end()) {
    c.k = it->second;
    return c;
  }
  c.name = demname(F);
  if (Machine::isPanic(c.name)) c.k = H_PANIC;
  else if (F->isDeclaration()) c.k = H_UNKNOWN;
  else c.k = H_EXEC;
  return c;
}

void Machine::callFn(const Function *F, Inst &in, const CallBase *CB) {
  static unordered_map<const Function *, Callee> cache;
  auto ci = cache.find(F);
  if (ci == cache.end()) ci = cache.emplace(F, classify(F)).first;
  const Callee &c = ci->second;
  auto A = [&](unsigned i) -> const Val & { return ref(in.ops[i]); };
  auto N = [&](unsigned i) -> uint64_t { return conc(in.ops[i]); };
  switch (c.k) {
  case H_EXEC: {
    vector<Val> args;
    unsigned n = CB->arg_size();
    args.reserve(n);
    for (unsigned i = 0; i < n; i++) args.push_back(get(in.ops[i]));
    s.ncalls++;
    pushCall(F, args);
    return;
  }
  case H_PANIC: panicNow(c.name, in, CB);
  case H_TRAP: panicNow("llvm.trap", in, CB);
  case H_UNKNOWN: incompl(s, "call of unmodelled function " + c.name);

  // ---- harness API
  case H_BITS: {
    unsigned w = (unsigned)N(0);
    unsigned pos = s.inputs.size();
    if (OPT_concrete) {
      uint64_t v = pos < OPT_vals.size() ? OPT_vals[pos] : 0;
      auto key = std::make_pair(pos, w);
      if (!symidx.count(key)) {
        symidx[key] = symvars.size();
        symvars.push_back({w, nullptr});
      }
      s.inputs.push_back(symidx[key]);
      done(Val(64, maskw(v, w)));
      return;
    }
    auto key = std::make_pair(pos, w);
    auto f = symidx.find(key);
    unsigned id;
    if (f == symidx.end()) {
      id = symvars.size();
      string nm = "in" + std::to_string(pos) + "_" + std::to_string(w);
      Ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), BV(w));
      symvars.push_back({w, a});
      symidx[key] = id;
      symIdByAst[a] = id;
    } else
      id = f->second;
    s.inputs.push_back(id);
    Ast a = symvars[id].a;
    done(Val(64, w < 64 ? Z3_mk_zero_ext(Z, 64 - w, a) : a));
    return;
  }
  case H_ASSUME: {
    Val v = A(0);
    if (!v.sym()) {
      if (!(v.c & 1)) throw PathEnd{"assume"};
      doneVoid();
      return;
    }
    Ast cnd = v.w == 1 ? v.e : Z3_simplify(Z, Z3_mk_not(Z, Z3_mk_eq(Z, v.e, num(v.w, 0))));
    if (evalBool(s, cnd) != 1) {
      QRes q = query(s, cnd, branchLimit());
      if (q.sat == 0) throw PathEnd{"assume"};
      if (q.sat < 0) {
        if (s.spec > MAXSPEC) incompl(s, "solver unknown (assume)");
        s.spec++;
      } else {
        s.model = merged(s, q);
        s.spec = 0;
      }
    }
    addPC(s, cnd);
    doneVoid();
    return;
  }
  case H_ASSERT: {
    Val v = A(0);
    uint64_t mp = N(1), mn = N(2);
    string msg = rdStr(mp, mn);
    st.asserts++;
    assertmsgs[msg]++;
    if (!v.sym()) {
      if (!(v.c & 1)) fail(s, "assert", msg);
      doneVoid();
      return;
    }
    Ast cnd = v.w == 1 ? v.e : Z3_simplify(Z, Z3_mk_not(Z, Z3_mk_eq(Z, v.e, num(v.w, 0))));
    st.asserts_solver++;
    QRes q = query(s, mkNot(cnd));
    if (q.sat == 1) {
      auto m = merged(s, q);
      report(s, "assert", msg, *m);
      st.paths_err++;
      // go on with the assertion assumed, if that is possible
      QRes q2 = query(s, cnd);
      if (q2.sat != 1) throw PathEnd{"violation"};
      s.model = merged(s, q2);
      s.spec = 0;
    } else if (q.sat < 0)
      incomplete["solver unknown (assert): " + msg]++;
    addPC(s, cnd);
    if (!s.spec && evalBool(s, cnd) != 1) {
      QRes q2 = query(s, cnd);
      if (q2.sat != 1) throw PathEnd{"violation"};
      s.model = merged(s, q2);
    }
    doneVoid();
    return;
  }
  case H_REACH: {
    uint64_t mp = N(0), mn = N(1);
    if (!s.spec) reach[rdStr(mp, mn)]++;
    doneVoid();
    return;
  }
  case H_CONC: {
    uint64_t v = N(0);
    done(Val(64, (u128)v));
    return;
  }
  case H_TRACE:
    s.trace.push_back(A(0));
    doneVoid();
    return;
  case H_EXPECT: {
    s.expect_panic = N(0) & 1;
    doneVoid();
    return;
  }
  case H_LEAK: { // number of live heap blocks
    uint64_t n = 0;
    for (auto &o : s.mem)
      if (o.second.kind == HEAP) n++;
    done(Val(64, (u128)n));
    return;
  }

  // ---- threads
  case H_SPAWN: { // (function, argument) -> thread number
    uint64_t f = N(0);
    auto it = faddr.find(f);
    if (it == faddr.end()) fail(s, "memory", "thread starts at a pointer that is not a function");
    if (s.thr.empty()) s.thr.resize(1);
    vector<Val> args{A(1)};
    vector<Frame> mine;
    mine.swap(s.stack);
    pushCall(it->second, args);
    mine.swap(s.stack);
    s.thr.emplace_back();
    s.thr.back().stack.swap(mine);
    done(Val(64, (u128)(s.thr.size() - 1)));
    return;
  }
  case H_JOIN: {
    uint64_t t = N(0);
    doneVoid();
    if (t >= s.thr.size() || t == s.cur) fail(s, "memory", "join of no thread");
    if (s.thr[t].done) return;
    s.thr[s.cur].join = (int)t;
    int n = nextThread();
    if (n < 0) fail(s, "deadlock", "no thread can go on");
    switchTo(n);
    return;
  }
  case H_PREEMPT: { // (point, which other thread)
    Val at = A(0);
    s.pre.push_back({at, N(1)});
    doneVoid();
    return;
  }
  case H_YIELD:
    if (!CB->getType()->isVoidTy()) done(zeroVal(CB->getType()));
    else doneVoid();
    yieldThread();
    return;

  // ---- intrinsics
  case H_NOP:
    if (!CB->getType()->isVoidTy()) done(zeroVal(CB->getType()));
    else doneVoid();
    return;
  case H_MEMCPY: {
    uint64_t n = N(2);
    if (n) {
      uint64_t d = N(0), sr = N(1);
      memCopy(s, d, sr, n);
    }
    if (!CB->getType()->isVoidTy()) done(A(0));
    else doneVoid();
    return;
  }
  case H_MEMSET: {
    uint64_t n = N(2);
    if (n) {
      uint64_t d = N(0);
      Val v = A(1);
      Obj *o = access(s, d, n, true, "memset");
      if (!v.sym()) {
        Data &dd = o->wr();
        clearSym(dd, d - o->base, n);
        memset(&dd.b[d - o->base], (int)(v.c & 0xff), n);
      } else {
        Val b = v.w == 8 ? v : mkbv(8, Z3_mk_extract(Z, 7, 0, v.e));
        for (uint64_t i = 0; i < n; i++) storeScalar(s, d + i, b, 1);
      }
    }
    if (!CB->getType()->isVoidTy()) done(A(0));
    else doneVoid();
    return;
  }
  case H_OVF: {
    if (A(0).agg) incompl(s, "vector overflow intrinsic");
    done(withOverflow(c.op, c.sgn, A(0), A(1)));
    return;
  }
  case H_SAT:
    done(lanes2(A(0), A(1), [&](const Val &a, const Val &b) { return satAS(c.op, c.sgn, a, b); }));
    return;
  case H_CTPOP: done(lanes(A(0), [&](const Val &a) { return popcnt(a); })); return;
  case H_CTLZ: done(lanes(A(0), [&](const Val &a) { return countZeros(a, true); })); return;
  case H_CTTZ: done(lanes(A(0), [&](const Val &a) { return countZeros(a, false); })); return;
  case H_BSWAP: done(lanes(A(0), [&](const Val &a) { return bswapV(a, false); })); return;
  case H_BITREV: done(lanes(A(0), [&](const Val &a) { return bswapV(a, true); })); return;
  case H_FSHL:
  case H_FSHR: {
    if (A(0).agg) {
      Val x = A(0), y = A(1), z = A(2), r = mkagg(x.agg->size());
      for (size_t i = 0; i < x.agg->size(); i++) (*r.agg)[i] = funnel((*x.agg)[i], (*y.agg)[i], (*z.agg)[i], c.k == H_FSHL);
      done(r);
    } else
      done(funnel(A(0), A(1), A(2), c.k == H_FSHL));
    return;
  }
  case H_MINMAX: {
    auto p = c.op == "umin" ? CmpInst::ICMP_ULT : c.op == "umax" ? CmpInst::ICMP_UGT : c.op == "smin" ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
    done(lanes2(A(0), A(1), [&](const Val &a, const Val &b) { return selectV(icmp(p, a, b), a, b); }));
    return;
  }
  case H_ABS:
    done(lanes(A(0), [&](const Val &a) {
      return selectV(icmp(CmpInst::ICMP_SLT, a, Val(a.w, (u128)0)), binop(Instruction::Sub, Val(a.w, (u128)0), a), a);
    }));
    return;
  case H_EXPECTV: done(get(in.ops[0])); return;
  case H_LLASSUME: {
    const Val &v = A(0);
    if (!v.sym() && !(v.c & 1)) fail(s, "ub", "llvm.assume violated");
    doneVoid();
    return;
  }
  case H_FPSAT: {
    unsigned w = typeBits(CB->getType()->getScalarType());
    done(lanes(A(0), [&](const Val &a) { return fpToIntSat(a, w, c.sgn); }));
    return;
  }
  case H_FABS:
    done(lanes(A(0), [&](const Val &a) {
      u128 m = (((u128)1) << (a.w - 1)) - 1;
      return a.sym() ? mkbv(a.w, Z3_mk_bvand(Z, a.e, num(a.w, m))) : Val(a.w, a.c & m);
    }));
    return;
  case H_COPYSIGN:
    done(lanes2(A(0), A(1), [&](const Val &a, const Val &b) {
      u128 sb = ((u128)1) << (a.w - 1);
      return binop(Instruction::Or, binop(Instruction::And, a, Val(a.w, sb - 1)), binop(Instruction::And, b, Val(a.w, sb)));
    }));
    return;
  case H_ROUND: done(lanes(A(0), [&](const Val &a) { return roundV(a, c.op); })); return;
  case H_FMINMAX:
    done(lanes2(A(0), A(1), [&](const Val &a, const Val &b) {
      Val an = fcmp(CmpInst::FCMP_UNO, a, a), bn = fcmp(CmpInst::FCMP_UNO, b, b);
      Val pick = fcmp(c.sgn ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b);
      return selectV(an, b, selectV(bn, a, selectV(pick, a, b)));
    }));
    return;
  case H_FMA:
  case H_FMULADD: {
    Val a = A(0), b = A(1), d = A(2);
    if (!a.sym() && !b.sym() && !d.sym()) {
      if (c.k == H_FMA) done(a.w == 32 ? dToBitsF(fmaf((float)bitsToD(a), (float)bitsToD(b), (float)bitsToD(d))) : dToBits(fma(bitsToD(a), bitsToD(b), bitsToD(d)), 64));
      else done(binop(Instruction::FAdd, binop(Instruction::FMul, a, b), d));
    } else if (c.k == H_FMA) done(fromFP(a.w, Z3_mk_fpa_fma(Z, RNE, toFP(a), toFP(b), toFP(d))));
    else done(binop(Instruction::FAdd, binop(Instruction::FMul, a, b), d));
    return;
  }
  case H_PMOVMSKB: {
    Val v = A(0);
    Val r = mkagg(v.agg->size());
    for (size_t i = 0; i < v.agg->size(); i++) (*r.agg)[i] = icmp(CmpInst::ICMP_SLT, (*v.agg)[i], Val(8, (u128)0));
    Val fl = flatten(r);
    done(fl.sym() ? mkbv(32, Z3_mk_zero_ext(Z, 32 - fl.w, fl.e)) : Val(32, fl.c));
    return;
  }
  case H_REDUCE: {
    Val v = A(0);
    if (!v.agg) incompl(s, c.name);
    Val r = (*v.agg)[0];
    for (size_t i = 1; i < v.agg->size(); i++) {
      const Val &x = (*v.agg)[i];
      if (c.op == "add") r = binop(Instruction::Add, r, x);
      else if (c.op == "mul") r = binop(Instruction::Mul, r, x);
      else if (c.op == "or") r = binop(Instruction::Or, r, x);
      else if (c.op == "and") r = binop(Instruction::And, r, x);
      else if (c.op == "xor") r = binop(Instruction::Xor, r, x);
      else if (c.op == "umax") r = selectV(icmp(CmpInst::ICMP_UGT, r, x), r, x);
      else if (c.op == "umin") r = selectV(icmp(CmpInst::ICMP_ULT, r, x), r, x);
      else if (c.op == "smax") r = selectV(icmp(CmpInst::ICMP_SGT, r, x), r, x);
      else if (c.op == "smin") r = selectV(icmp(CmpInst::ICMP_SLT, r, x), r, x);
      else incompl(s, c.name);
    }
    done(r);
    return;
  }
  case H_PTRMASK: done(binop(Instruction::And, A(0), A(1))); return;
  case H_OBJSIZE: done(Val(retBits(CB), N(1) ? (u128)0 : ~(u128)0)); return;
  case H_LOADREL: {
    uint64_t p = N(0), o = N(1);
    Val v = loadScalar(s, p + o, 32, 4);
    done(Val(64, (u128)(p + (uint64_t)(int64_t)sextw(v.c, 32))));
    return;
  }
  case H_TLS: done(get(in.ops[0])); return;

  // ---- allocator
  case H_ALLOC: done(Val(64, (u128)heap(N(0), N(1), 0xA5))); return;
  case H_ALLOCZ: done(Val(64, (u128)heap(N(0), N(1), 0))); return;
  case H_DEALLOC: {
    uint64_t p = N(0), n = N(1);
    freeObj(p, (int64_t)n);
    doneVoid();
    return;
  }
  case H_REALLOC:
  case H_CREALLOC: {
    uint64_t p = N(0), on, al, nn;
    if (c.k == H_REALLOC) on = N(1), al = N(2), nn = N(3);
    else {
      nn = N(1);
      al = 16;
      if (!p) {
        done(Val(64, (u128)heap(nn, al, 0xA5)));
        return;
      }
      auto it = s.mem.find(p);
      if (it == s.mem.end()) fail(s, "memory", "realloc of a pointer that is not a live heap block");
      on = it->second.size;
    }
    uint64_t q = heap(nn, al, 0xA5);
    memCopy(s, q, p, std::min(on, nn));
    freeObj(p, (int64_t)on);
    done(Val(64, (u128)q));
    return;
  }
  case H_MALLOC: done(Val(64, (u128)heap(N(0), 16, 0xA5))); return;
  case H_CALLOC: done(Val(64, (u128)heap(N(0) * N(1), 16, 0))); return;
  case H_FREE:
    freeObj(N(0), -1);
    doneVoid();
    return;
  case H_MEMALIGN: {
    uint64_t pp = N(0), al = N(1), n = N(2);
    storeScalar(s, pp, Val(64, (u128)heap(n, al, 0xA5)), 8);
    done(Val(32, (u128)0));
    return;
  }

  // ---- libc
  case H_MEMCMP:
  case H_BCMP: {
    uint64_t n = N(2);
    if (!n) {
      done(Val(32, (u128)0));
      return;
    }
    uint64_t a = N(0), b = N(1);
    access(s, a, n, false, "memcmp");
    access(s, b, n, false, "memcmp");
    Val r(32, (u128)0);
    for (uint64_t i = n; i-- > 0;) {
      Val x = loadByte(a + i), y = loadByte(b + i);
      Val eq = icmp(CmpInst::ICMP_EQ, x, y);
      Val ne;
      if (c.k == H_BCMP) ne = Val(32, (u128)1);
      else ne = selectV(icmp(CmpInst::ICMP_ULT, x, y), Val(32, ~(u128)0), Val(32, (u128)1));
      r = selectV(eq, r, ne);
    }
    done(r);
    return;
  }
  case H_STRLEN: {
    uint64_t p = N(0), n = 0;
    while (true) {
      Val b = loadByte(p + n);
      if (b.sym()) incompl(s, "strlen of symbolic data");
      if (!b.c) break;
      n++;
    }
    done(Val(64, (u128)n));
    return;
  }
  case H_MEMCHR: {
    uint64_t p = N(0), ch = N(1) & 0xff, n = N(2);
    for (uint64_t i = 0; i < n; i++) {
      Val b = loadByte(p + i);
      if (b.sym()) incompl(s, "memchr of symbolic data");
      if (b.c == ch) {
        done(Val(64, (u128)(p + i)));
        return;
      }
    }
    done(Val(64, (u128)0));
    return;
  }
  case H_NULL: done(Val(retBits(CB), (u128)0)); return;
  case H_ZERO: done(Val(retBits(CB), (u128)0)); return;
  case H_SYSCALL: {
    uint64_t nr = N(0);
    if (nr == 318) { // getrandom: fixed hash seeds
      uint64_t b = N(1), n = N(2);
      for (uint64_t i = 0; i < n; i++) storeScalar(s, b + i, Val(8, (u128)((i * 37 + 11) & 0xff)), 1);
      done(Val(64, (u128)n));
      return;
    }
    if (nr == 202) { // futex: report success, after the other threads had their turn
      done(Val(64, (u128)0));
      yieldThread();
      return;
    }
    incompl(s, "system call " + std::to_string(nr));
  }
  case H_CLOCK: {
    uint64_t p = N(1);
    s.clock += 1;
    storeScalar(s, p, Val(64, (u128)(s.clock / 1000)), 8);
    storeScalar(s, p + 8, Val(64, (u128)(s.clock % 1000) * 1000000), 8);
    done(Val(32, (u128)0));
    return;
  }
  case H_KEYCREATE: {
    storeScalar(s, N(0), Val(32, (u128)s.nextkey++), 4);
    done(Val(32, (u128)0));
    return;
  }
  case H_GETSPEC: {
    uint64_t k = N(0);
    done(Val(64, (u128)(s.tls.count(k) ? s.tls[k] : 0)));
    return;
  }
  case H_SETSPEC: {
    uint64_t k = N(0), v = N(1);
    s.tls[k] = v;
    done(Val(32, (u128)0));
    return;
  }
  case H_WRITE: {
    const Val &n = A(2);
    done(n.w == 64 ? n : Val(retBits(CB), (u128)1));
    return;
  }
  case H_ERRNO: {
    static const uint64_t ERRNO = 0x3f000000ull;
    if (!s.mem.count(ERRNO)) {
      Obj o;
      o.base = ERRNO;
      o.size = 8;
      o.kind = EXTRA;
      o.d = std::make_shared<Data>();
      o.d->b.assign(8, 0);
      s.mem.emplace(ERRNO, o);
    }
    done(Val(64, (u128)ERRNO));
    return;
  }
  default: break;
  }
  incompl(s, "unhandled callee " + c.name);
}
