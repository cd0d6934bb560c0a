// The interpreter: included by ksym.cc.
typedef std::function<void(State &, const DInst &, const CallInfo &, std::vector<Val> &, Val *)> Builtin;
static std::vector<Builtin> builtins;
static std::map<std::string, long long> params;
static std::vector<DFunc *> initSeq;
static bool g_jumped;
static std::unordered_map<uint64_t, uint64_t> typeidOf;

static inline const Val &getv(State &s, const Frame &fr, int32_t op) {
  return op >= 0 ? s.regs[fr.base + op] : fr.f->consts[~op];
}
static std::string whereOf(State &s) {
  std::string o;
  int n = 0;
  for (int i = (int)s.frames.size() - 1; i >= 0 && n < 8; --i) {
    auto &fr = s.frames[i];
    const Instruction *I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : nullptr;
    std::string nm = llvm::demangle(fr.f->name);
    if (nm.size() > 90) nm = nm.substr(0, 87) + "...";
    o += (n ? " <- " : "") + nm;
    if (I && I->getDebugLoc()) {
      auto *L = I->getDebugLoc().get();
      o += "@" + L->getFilename().str() + ":" + std::to_string(L->getLine());
    }
    ++n;
  }
  return o;
}
static void inputsOf(State &s, const Model &m, std::vector<std::pair<std::string, uint64_t>> *out) {
  P.newEval();
  for (auto &p : s.inputs) out->push_back({strTab[p.first], (uint64_t)P.eval(p.second, m)});
}
static bool dependsOnUndef(State &s) {
  for (auto *e : s.cs)
    for (size_t i = 0; i < e->vs->w.size(); ++i)
      for (uint64_t b = e->vs->w[i]; b; b &= b - 1)
        if (P.vars[i * 64 + __builtin_ctzll(b)].undef) return true;
  return false;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m, Expr *cond = nullptr) {
  std::string key = kind + "|" + msg;
  int &n = violKey[key];
  if (++n > 2) return;
  Violation v;
  v.kind = kind; v.msg = msg;
  v.trace = whereOf(s);
  v.where = v.trace.substr(0, v.trace.find(" <- "));
  inputsOf(s, m, &v.inputs);
  v.undefDependent = dependsOnUndef(s);
  if (cond)
    for (size_t i = 0; i < cond->vs->w.size(); ++i)
      for (uint64_t b = cond->vs->w[i]; b; b &= b - 1)
        if (P.vars[i * 64 + __builtin_ctzll(b)].undef) v.undefDependent = true;
  viols.push_back(v);
  for (auto &k : knownMsgs) if (k == msg) return;   // a listed finding does not end the search
  SH->viol++;
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) {
  report(s, kind, msg, s.model);
  throw PathEnd{2};
}
static void addCs(State &s, Expr *c) {
  if (c->op == O_CONST) { if (!c->c) throw PathEnd{1}; return; }
  if (c->op == O_AND && c->width == 1) { addCs(s, c->k[0]); addCs(s, c->k[1]); return; }
  for (auto *e : s.cs) if (e == c) return;
  s.cs.push_back(c);
}
static u128 evalM(State &s, Expr *e) { P.newEval(); return P.eval(e, s.model); }
static int known(State &s, Expr *c, Expr *nc) {
  for (auto *e : s.cs) { if (e == c) return 1; if (e == nc) return 0; }
  return -1;
}
static void unknownQuery(State &s) {
  ++nUnknown;
  if (unknowns.size() < 5) unknowns.push_back("solver gave up (" + S.lastReason + ") at " + whereOf(s));
}
// Splits on cond.  Returns the side taken by s; *other gets the other side if feasible.
static bool decide(State &s, Expr *c, State **other) {
  *other = nullptr;
  if (c->op == O_CONST) return c->c != 0;
  ++nBranchSym;
  Expr *nc = P.notE(c);
  int k = known(s, c, nc);
  if (k >= 0) return k;
  bool v = evalM(s, c) != 0;
  Expr *mine = v ? c : nc, *theirs = v ? nc : c;
  Model m2 = s.model;
  Sat r = S.check(s.cs, theirs, &m2);
  if (r == UNKNOWN) { unknownQuery(s); addCs(s, mine); return v; }
  if (r == UNSAT) return v;
  ++nForks;
  State *o = new State(s);
  ++nStates;
  addCs(*o, theirs);
  o->model = m2;
  o->forks++;
  addCs(s, mine);
  s.forks++;
  *other = o;
  return v;
}
// Conversion of an integer whose value lies in 0..fpTab on this path.
static Expr *fpTable(State &s, Expr *a, Op op, int w) {
  if (a->width < 2 || a->width > 64) return nullptr;
  uint64_t top = fpTab;
  if (a->hi <= top) top = a->hi;
  else {
    if ((uint64_t)evalM(s, a) > top) return nullptr;
    Model m2 = s.model;
    if (S.check(s.cs, P.bin(O_ULT, P.cst(top, a->width), a), &m2) != UNSAT) return nullptr;
  }
  Expr *r = P.un(op, P.cst(top, a->width), w);
  for (uint64_t k = top; k-- > 0;) r = P.ite(P.bin(O_EQ, a, P.cst(k, a->width)), P.un(op, P.cst(k, a->width), w), r);
  return r;
}
static void donate() {
  if (work.empty() || maxProc <= 1) return;
  if (SH->active.load() >= maxProc) return;
  double t = now();
  if (t - lastDonate < 0.02) return;
  int a = SH->active.fetch_add(1);
  if (a >= maxProc) { SH->active--; return; }
  lastDonate = t;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  if (p == 0) {
    State *mine = work.front();
    work.assign(1, mine);
    nInst = nPaths = nInfeasible = nForks = nChecks = nChecksSolver = nBranchSym = nUnknown = nStates = 0;
    covers.clear(); checkMsgs.clear(); viols.clear(); samples.clear(); errors.clear(); violKey.clear();
    S.st = SolverStats();
    for (auto &q : dfOf) { q.second->execInst = 0; q.second->executed = false; }
    lastDonate = now();
    throw std::string("child");   // unwind to explore(), which continues with the donated state
  }
  delete work.front();
  work.erase(work.begin());
}
static void pushOther(State *o) { work.push_back(o); }

// Concretise e in s: other values are explored by re-executing the instruction.
static uint64_t concretize(State &s, const Val &v, int w) {
  if (!v.e) return v.c;
  Expr *e = v.e;
  if (e->op == O_CONST) return (uint64_t)e->c;
  u128 val = evalM(s, e);
  Expr *eq = P.bin(O_EQ, e, P.cst(val, e->width));
  if (eq->op == O_CONST) return (uint64_t)val;
  State *o;
  bool side = decide(s, eq, &o);
  if (o) pushOther(o);
  if (!side) { // cannot happen: the model satisfies eq
    throw EngineError{"concretize: model disagrees"};
  }
  return (uint64_t)val;
}

static bool validAddr(State &s, uint64_t addr, uint64_t n) {
  uint64_t id = addr >> OFFBITS, off = addr & OFFMASK;
  if (id == 0 || id >= FUNC_BASE) return false;
  const Obj *o = s.mem.get(id);
  return o && !o->freed && off + n <= o->size;
}
static std::string descAddr(State &s, uint64_t addr, uint64_t n, const char *what) {
  uint64_t id = addr >> OFFBITS, off = addr & OFFMASK;
  const Obj *o = id < FUNC_BASE ? s.mem.get(id) : nullptr;
  std::string b = std::string(what) + " of " + std::to_string(n) + " bytes ";
  if (id == 0) return b + "through a null or wild pointer";
  if (!o) return b + "through a wild pointer";
  if (o->freed) return b + "of freed or out-of-scope memory";
  return b + "out of bounds (offset " + std::to_string((int64_t)off) + " of an object of " + std::to_string(o->size) + " bytes)";
}
static Val loadAt(State &s, uint64_t addr, int w) {
  int n = (w + 7) / 8;
  if (!validAddr(s, addr, n)) fail(s, "memory", descAddr(s, addr, n, "read"));
  uint64_t id = addr >> OFFBITS, off = addr & OFFMASK;
  const Obj *o = s.mem.get(id);
  bool conc = o->allConc;
  if (!conc) { conc = true; for (int i = 0; i < n; ++i) if (o->st[off + i]) { conc = false; break; } }
  if (conc) {
    if (n <= 8) {
      Val v; memcpy(&v.c, &o->data[off], n);
      if (w < 64) v.c &= (1ULL << w) - 1;
      return v;
    }
    u128 x = 0; memcpy(&x, &o->data[off], n);
    return cv(x, w);
  }
  bool un = false;
  for (int i = 0; i < n; ++i) if (o->st[off + i] == B_UNINIT) un = true;
  if (un) {
    Obj *wo = s.mem.wget(id);
    if (wo->sym.empty()) wo->sym.assign(wo->size, SymByte{nullptr, 0});
    // one variable for a completely uninitialised scalar, bytes otherwise
    bool all = true;
    for (int i = 0; i < n; ++i) if (wo->st[off + i] != B_UNINIT) all = false;
    if (all) {
      std::string nm = "undef!" + std::to_string(s.undefs++) + "!" + std::to_string(n);
      Expr *&ve = varIntern[nm];
      if (!ve) ve = P.var(nm, n * 8, false, true);
      for (int i = 0; i < n; ++i) { wo->sym[off + i] = {ve, (uint32_t)i}; wo->st[off + i] = B_SYM; }
    } else
      for (int i = 0; i < n; ++i)
        if (wo->st[off + i] == B_UNINIT) {
          std::string nm = "undef!" + std::to_string(s.undefs++) + "!1";
          Expr *&ve = varIntern[nm];
          if (!ve) ve = P.var(nm, 8, false, true);
          wo->sym[off + i] = {ve, 0}; wo->st[off + i] = B_SYM;
        }
    o = wo;
  }
  // whole expression?
  if (o->st[off] == B_SYM && o->sym[off].idx == 0 && o->sym[off].e->width == n * 8) {
    Expr *e0 = o->sym[off].e;
    bool all = true;
    for (int i = 1; i < n && all; ++i) all = o->st[off + i] == B_SYM && o->sym[off + i].e == e0 && o->sym[off + i].idx == (unsigned)i;
    if (all) return mkVal(w < n * 8 ? P.trunc(e0, w) : e0);
  }
  Expr *r = nullptr;
  for (int i = n - 1; i >= 0; --i) {
    Expr *b = o->st[off + i] == B_CONC ? P.cst(o->data[off + i], 8) : P.extract(o->sym[off + i].e, o->sym[off + i].idx * 8, 8);
    r = r ? P.concat(r, b) : b;
  }
  return mkVal(w < n * 8 ? P.trunc(r, w) : r);
}
static void storeAt(State &s, uint64_t addr, const Val &v, int w) {
  int n = (w + 7) / 8;
  if (!validAddr(s, addr, n)) fail(s, "memory", descAddr(s, addr, n, "write"));
  uint64_t id = addr >> OFFBITS, off = addr & OFFMASK;
  Obj *o = s.mem.wget(id);
  if (o->kind == K_CONST) fail(s, "memory", "write to constant memory");
  if (!v.e) {
    memcpy(&o->data[off], &v.c, n);
    if (!o->allConc) memset(&o->st[off], B_CONC, n);
    return;
  }
  Expr *e = P.zext(v.e, n * 8);
  if (e->op == O_CONST) {
    u128 x = e->c; memcpy(&o->data[off], &x, n);
    if (!o->allConc) memset(&o->st[off], B_CONC, n);
    return;
  }
  s.mem.needState(o);
  if (o->sym.empty()) o->sym.assign(o->size, SymByte{nullptr, 0});
  for (int i = 0; i < n; ++i) { o->sym[off + i] = {e, (uint32_t)i}; o->st[off + i] = B_SYM; }
}
static bool iteLeaves(Expr *e, std::vector<uint64_t> &out, unsigned lim) {
  if (e->op == O_CONST) { out.push_back((uint64_t)e->c); return out.size() <= lim; }
  if (e->op == O_ITE) return iteLeaves(e->k[1], out, lim) && iteLeaves(e->k[2], out, lim);
  return false;
}
// A symbolic address: pin it down to one object first, reporting what falls outside.
static uint64_t pinAddr(State &s, Expr *a, uint64_t n, const char *what) {
  uint64_t m = (uint64_t)evalM(s, a);
  if (!validAddr(s, m, n)) {
    // the current model leads outside every object: that is a violation on this model
    report(s, "memory", descAddr(s, m, n, what), s.model);
    uint64_t id = m >> OFFBITS;
    (void)id;
    throw PathEnd{2};
  }
  const Obj *o = s.mem.get(m >> OFFBITS);
  uint64_t base = m & ~OFFMASK;
  Expr *in = P.bin(O_ULE, P.bin(O_SUB, a, P.cst(base, 64)), P.cst(o->size - n, 64));
  State *oth;
  bool side = decide(s, in, &oth);
  if (oth) pushOther(oth);
  if (!side) throw EngineError{"pinAddr"};
  return base;
}
static Val iteLoad(State &s, Expr *a, int64_t off, int w) {
  if (a->op == O_CONST) return loadAt(s, (uint64_t)a->c + off, w);
  Val x = iteLoad(s, a->k[1], off, w), y = iteLoad(s, a->k[2], off, w);
  return mkVal(P.ite(a->k[0], ex(x, w), ex(y, w)));
}
static Val doLoad(State &s, const Val &a, int64_t off, int w) {
  if (!a.e) return loadAt(s, a.c + off, w);
  int n = (w + 7) / 8;
  std::vector<uint64_t> lv;
  if (iteLeaves(a.e, lv, 16)) {
    bool ok = true;
    for (auto l : lv) ok &= validAddr(s, l + off, n);
    if (ok) return iteLoad(s, a.e, off, w);
  }
  Expr *ad = P.bin(O_ADD, a.e, P.cst(off, 64));
  uint64_t base = pinAddr(s, ad, n, "read");
  const Obj *o = s.mem.get(base >> OFFBITS);
  if (o->size <= 1024 && (o->kind == K_CONST || o->size / n <= 8)) {
    Expr *r = nullptr;
    bool ok = true;
    uint64_t step = n;
    // the address must be a multiple of n inside the object for the table form
    Expr *rel = P.bin(O_SUB, ad, P.cst(base, 64));
    Expr *al = P.bin(O_EQ, P.bin(O_UREM, rel, P.cst(n, 64)), P.cst(0, 64));
    if (!(al->op == O_CONST && al->c)) {
      Model mm = s.model;
      ok = S.check(s.cs, P.notE(al), &mm) == UNSAT;
    }
    if (ok) {
      for (uint64_t x = 0; x + n <= o->size; x += step) {
        Val v = loadAt(s, base + x, w);
        Expr *ve = ex(v, w);
        r = r ? P.ite(P.bin(O_EQ, rel, P.cst(x, 64)), ve, r) : ve;
      }
      return mkVal(r);
    }
  }
  uint64_t c = concretize(s, mkVal(ad), 64);
  return loadAt(s, c, w);
}
static void doStore(State &s, const Val &a, int64_t off, const Val &v, int w) {
  if (!a.e) { storeAt(s, a.c + off, v, w); return; }
  int n = (w + 7) / 8;
  std::vector<uint64_t> lv;
  if (iteLeaves(a.e, lv, 8)) {
    bool ok = true;
    for (auto l : lv) ok &= validAddr(s, l + off, n);
    if (ok) {
      std::sort(lv.begin(), lv.end());
      lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
      for (auto l : lv) {
        Expr *c = P.bin(O_EQ, a.e, P.cst(l, 64));
        Val old = loadAt(s, l + off, w);
        storeAt(s, l + off, mkVal(P.ite(c, ex(v, w), ex(old, w))), w);
      }
      return;
    }
  }
  Expr *ad = P.bin(O_ADD, a.e, P.cst(off, 64));
  pinAddr(s, ad, n, "write");
  uint64_t c = concretize(s, mkVal(ad), 64);
  storeAt(s, c, v, w);
}
static uint64_t newObj(State &s, uint64_t size, ObjKind k, bool zero) {
  if (size >= OFFMASK) fail(s, "memory", "allocation of " + std::to_string(size) + " bytes");
  return s.mem.alloc(size, k, zero) << OFFBITS;
}
static std::string readCStr(State &s, uint64_t a) {
  std::string r;
  for (;;) {
    Val v = loadAt(s, a++, 8);
    if (v.e) throw EngineError{"symbolic string argument to a ksym_ function"};
    if (!v.c) return r;
    r += (char)v.c;
  }
}
static void copyBytes(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  if (!validAddr(s, src, n)) fail(s, "memory", descAddr(s, src, n, "read (memcpy)"));
  if (!validAddr(s, d, n)) fail(s, "memory", descAddr(s, d, n, "write (memcpy)"));
  const Obj *so = s.mem.get(src >> OFFBITS);
  uint64_t so_ = src & OFFMASK, do_ = d & OFFMASK;
  Obj *dd = s.mem.wget(d >> OFFBITS);
  so = s.mem.get(src >> OFFBITS);
  if (dd->kind == K_CONST) fail(s, "memory", "write to constant memory");
  bool conc = so->allConc;
  if (!conc) { conc = true; for (uint64_t i = 0; i < n; ++i) if (so->st[so_ + i]) { conc = false; break; } }
  if (conc) {
    memmove(&dd->data[do_], &so->data[so_], n);
    if (!dd->allConc) memset(&dd->st[do_], B_CONC, n);
    return;
  }
  s.mem.needState(dd);
  if (!so->sym.empty() && dd->sym.empty()) dd->sym.assign(dd->size, SymByte{nullptr, 0});
  memmove(&dd->data[do_], &so->data[so_], n);
  memmove(&dd->st[do_], &so->st[so_], n);
  if (!so->sym.empty()) memmove(&dd->sym[do_], &so->sym[so_], n * sizeof(SymByte));
}
static void freeObj(State &s, uint64_t addr, int kindMask) {
  uint64_t id = addr >> OFFBITS;
  const Obj *o = id && id < FUNC_BASE ? s.mem.get(id) : nullptr;
  if (!o || (addr & OFFMASK) || !(o->kind == K_MALLOC || o->kind == K_NEW || o->kind == K_NEWA)) fail(s, "memory", "free/delete of a pointer that was not allocated");
  if (o->freed) fail(s, "memory", "double free");
  if (!((1 << o->kind) & kindMask)) fail(s, "memory", "mismatched allocation and deallocation functions");
  s.mem.drop(id);
  s.heapLive--;
}

// ------------------------------------------------------------------ control
static void takeEdge(State &s, Frame &fr, uint32_t ei) {
  const Edge &e = fr.f->edges[ei];
  size_t n = e.copies.size();
  if (n == 1) { s.regs[fr.base + e.copies[0].second] = getv(s, fr, e.copies[0].first); }
  else if (n) {
    static std::vector<Val> tmp;
    tmp.clear();
    for (auto &c : e.copies) tmp.push_back(getv(s, fr, c.first));
    for (size_t i = 0; i < n; ++i) s.regs[fr.base + e.copies[i].second] = tmp[i];
  }
  fr.pc = e.target;
}
static void popFrame(State &s) {
  Frame &fr = s.frames.back();
  for (auto id : fr.allocas) s.mem.drop(id);
  s.regs.resize(fr.base);
  s.frames.pop_back();
}
static void pushFrame(State &s, DFunc *f, const std::vector<Val> &args) {
  if (!f->decoded) { if (f->F->isDeclaration()) throw EngineError{"call of external function " + llvm::demangle(f->name) + " at " + whereOf(s)}; Decoder(*f).decode(); }
  if (s.frames.size() >= maxDepth) fail(s, "recursion", "call depth exceeds " + std::to_string(maxDepth));
  f->executed = true;
  Frame fr;
  fr.f = f; fr.pc = 0; fr.base = s.regs.size();
  s.regs.resize(fr.base + f->nslots);
  if ((int)args.size() < f->nargs) throw EngineError{"too few arguments for " + f->name};
  for (int i = 0; i < f->nargs; ++i) s.regs[fr.base + i] = args[i];
  s.frames.push_back(fr);
}
static void returnTo(State &s, const Val *rv, int n) {
  if (s.frames.empty()) return;
  Frame &fr = s.frames.back();
  const DInst &d = fr.f->code[fr.pc];
  const CallInfo &ci = fr.f->calls[d.x];
  for (int i = 0; i < ci.retSlots && i < n; ++i) s.regs[fr.base + d.dst + i] = rv[i];
  if (ci.isInvoke) takeEdge(s, fr, ci.normalEdge); else fr.pc++;
}
static ExcInfo *excOf(State &s, uint64_t a) { for (auto &e : s.excs) if (e.addr == a) return &e; return nullptr; }
static uint64_t ld64(State &s, uint64_t a) { Val v = loadAt(s, a, 64); if (v.e) throw EngineError{"symbolic type information"}; return v.c; }
static bool tiMatch(State &s, uint64_t thrown, uint64_t want, int64_t *adj, int depth = 0) {
  if (thrown == want) return true;
  if (depth > 10) return false;
  uint64_t vp = ld64(s, thrown) & ~OFFMASK;
  if (vp == tiSiVt) return tiMatch(s, ld64(s, thrown + 16), want, adj, depth + 1);
  if (vp == tiVmiVt) {
    uint64_t cnt = ld64(s, thrown + 16) >> 32;
    for (uint64_t i = 0; i < cnt; ++i) {
      uint64_t b = ld64(s, thrown + 24 + 16 * i);
      int64_t of = (int64_t)ld64(s, thrown + 32 + 16 * i);
      int64_t a2 = *adj + (of >> 8);
      if (tiMatch(s, b, want, &a2, depth + 1)) { if (of & 1) throw EngineError{"virtual base in exception type"}; *adj = a2; return true; }
    }
  }
  return false;
}
static uint64_t typeId(uint64_t ti) {
  auto it = typeidOf.find(ti);
  if (it != typeidOf.end()) return it->second;
  uint64_t n = (ti >> OFFBITS) + 1;   // stable across processes
  return typeidOf[ti] = n;
}
// 0 no match, 1 catch, 2 cleanup
static int lpadMatch(State &s, const LPad &lp, uint64_t tinfo, uint64_t *sel) {
  for (auto &c : lp.clauses) {
    if (c.filter) {
      bool in = false;
      for (auto t : c.tis) { int64_t a = 0; if (t == 0 || tiMatch(s, tinfo, t, &a)) in = true; }
      if (!in) { *sel = (uint64_t)-1 & 0xffffffff; return 1; }
      continue;
    }
    int64_t a = 0;
    if (c.tis[0] == 0 || tiMatch(s, tinfo, c.tis[0], &a)) { *sel = typeId(c.tis[0]); return 1; }
  }
  if (lp.cleanup) { *sel = 0; return 2; }
  return 0;
}
static std::string tiName(State &s, uint64_t ti) { return llvm::demangle("_ZTS" + readCStr(s, ld64(s, ti + 8))); }
static void unwind(State &s, uint64_t exc, bool fromResume) {
  ExcInfo *ei = excOf(s, exc);
  if (!ei) throw EngineError{"unknown exception object"};
  // phase 1: is there a handler at all?
  bool found = false;
  int start = (int)s.frames.size() - 1 - (fromResume ? 1 : 0);
  for (int i = start; i >= 0 && !found; --i) {
    Frame &fr = s.frames[i];
    const DInst &d = fr.f->code[fr.pc];
    if (d.op != D_CALL) continue;
    const CallInfo &ci = fr.f->calls[d.x];
    uint64_t sel;
    if (ci.isInvoke && lpadMatch(s, fr.f->lpads[ci.lpad], ei->tinfo, &sel) == 1) found = true;
  }
  if (!found) fail(s, "exception", "uncaught exception " + tiName(s, ei->tinfo));
  if (fromResume) popFrame(s);
  for (;;) {
    Frame &fr = s.frames.back();
    const DInst &d = fr.f->code[fr.pc];
    if (d.op == D_CALL) {
      const CallInfo &ci = fr.f->calls[d.x];
      uint64_t sel;
      if (ci.isInvoke && lpadMatch(s, fr.f->lpads[ci.lpad], ei->tinfo, &sel)) {
        s.curExc = exc; s.curSel = sel;
        takeEdge(s, fr, ci.unwindEdge);
        g_jumped = true;
        return;
      }
    }
    popFrame(s);
  }
}

static void sampleOf(State &s) {
  if ((int)samples.size() >= maxSamples) {
    // deterministic reservoir
    uint64_t h = ExprPool::mix(0x1234567, nPaths);
    if (h % (nPaths + 1) >= (uint64_t)maxSamples) return;
  }
  Sample sm;
  inputsOf(s, s.model, &sm.inputs);
  P.newEval();
  for (auto &n : s.notes) {
    uint64_t v = n.v.e ? (uint64_t)P.eval(n.v.e, s.model) : n.v.c;
    sm.notes.push_back({strTab[n.tag], {n.isF, v}});
  }
  for (auto c : s.covers) sm.covers.push_back(strTab[c]);
  sm.undef = s.undefs > 0 && dependsOnUndef(s);
  for (auto &n : s.notes)
    if (n.v.e)
      for (size_t i = 0; i < n.v.e->vs->w.size(); ++i)
        for (uint64_t b = n.v.e->vs->w[i]; b; b &= b - 1)
          if (P.vars[i * 64 + __builtin_ctzll(b)].undef) sm.undef = true;
  if ((int)samples.size() < maxSamples) samples.push_back(sm);
  else samples[ExprPool::mix(0x9876, nPaths) % maxSamples] = sm;
}

static inline uint64_t m64(int w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
static inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static bool icmpC(unsigned p, uint64_t a, uint64_t b, int w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
    case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
    case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
    case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
  }
  abort();
}
static Expr *icmpE(unsigned p, Expr *a, Expr *b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return P.bin(O_EQ, a, b);
    case CmpInst::ICMP_NE: return P.notE(P.bin(O_EQ, a, b));
    case CmpInst::ICMP_UGT: return P.bin(O_ULT, b, a);
    case CmpInst::ICMP_UGE: return P.bin(O_ULE, b, a);
    case CmpInst::ICMP_ULT: return P.bin(O_ULT, a, b);
    case CmpInst::ICMP_ULE: return P.bin(O_ULE, a, b);
    case CmpInst::ICMP_SGT: return P.bin(O_SLT, b, a);
    case CmpInst::ICMP_SGE: return P.bin(O_SLE, b, a);
    case CmpInst::ICMP_SLT: return P.bin(O_SLT, a, b);
    case CmpInst::ICMP_SLE: return P.bin(O_SLE, a, b);
  }
  abort();
}
static Expr *fcmpE(unsigned p, Expr *a, Expr *b) {
  Expr *uno = P.bin(O_FUNO, a, b);
  auto orU = [&](Expr *x) { return P.bin(O_OR, uno, x); };
  auto EQ = [&] { return P.bin(O_FEQ, a, b); };
  auto LT = [&](Expr *x, Expr *y) { return P.bin(O_FLT, x, y); };
  auto LE = [&](Expr *x, Expr *y) { return P.bin(O_FLE, x, y); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return P.F();
    case CmpInst::FCMP_TRUE: return P.T();
    case CmpInst::FCMP_OEQ: return EQ();
    case CmpInst::FCMP_OGT: return LT(b, a);
    case CmpInst::FCMP_OGE: return LE(b, a);
    case CmpInst::FCMP_OLT: return LT(a, b);
    case CmpInst::FCMP_OLE: return LE(a, b);
    case CmpInst::FCMP_ONE: return P.bin(O_AND, P.notE(uno), P.notE(EQ()));
    case CmpInst::FCMP_ORD: return P.notE(uno);
    case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_UEQ: return orU(EQ());
    case CmpInst::FCMP_UGT: return orU(LT(b, a));
    case CmpInst::FCMP_UGE: return orU(LE(b, a));
    case CmpInst::FCMP_ULT: return orU(LT(a, b));
    case CmpInst::FCMP_ULE: return orU(LE(a, b));
    case CmpInst::FCMP_UNE: return P.notE(EQ());
  }
  abort();
}

static void run(State &s) {
  for (;;) {
    if (s.frames.empty()) throw PathEnd{0};
    Frame &fr = s.frames.back();
    DFunc *f = fr.f;
    const DInst &d = f->code[fr.pc];
    ++nInst; ++s.steps; ++f->execInst;
    if ((nInst & 0xfff) == 0) {
      if (s.steps > maxSteps) fail(s, "steps", "path exceeds " + std::to_string(maxSteps) + " instructions");
      if ((nInst & 0xffff) == 0) {
        if (now() > deadline) { truncated = true; throw PathEnd{4}; }
        if (SH->viol.load() >= 12) throw PathEnd{4};
      }
    }
    switch (d.op) {
      case D_NOP: fr.pc++; break;
      case D_COPY: s.regs[fr.base + d.dst] = getv(s, fr, d.a); fr.pc++; break;
      case D_BIN: {
        const Val &a = getv(s, fr, d.a), &b = getv(s, fr, d.b);
        Val r;
        int w = d.w;
        bool div = d.sub == O_UDIV || d.sub == O_SDIV || d.sub == O_UREM || d.sub == O_SREM;
        if (!a.e && !b.e && w <= 64) {
          uint64_t x = a.c, y = b.c;
          if (div && y == 0) fail(s, "arith", "integer division by zero");
          switch (d.sub) {
            case O_ADD: r.c = (x + y) & m64(w); break;
            case O_SUB: r.c = (x - y) & m64(w); break;
            case O_MUL: r.c = (x * y) & m64(w); break;
            case O_AND: r.c = x & y; break;
            case O_OR: r.c = x | y; break;
            case O_XOR: r.c = x ^ y; break;
            default: { u128 k[2] = {x, y}; bool ok; r.c = (uint64_t)fold((Op)d.sub, w, 0, w, k, &ok); }
          }
        } else {
          Expr *ea = ex(a, w), *eb = ex(b, w);
          if (div) {
            Expr *z = P.bin(O_EQ, eb, P.cst(0, w));
            State *o;
            bool side = decide(s, z, &o);
            if (o) pushOther(o);
            if (side) fail(s, "arith", "integer division by zero");
          }
          r = mkVal(P.bin((Op)d.sub, ea, eb));
        }
        Frame &f2 = s.frames.back();
        s.regs[f2.base + d.dst] = r; f2.pc++;
        break;
      }
      case D_FREM: {
        const Val &a = getv(s, fr, d.a), &b = getv(s, fr, d.b);
        if (a.e || b.e) throw EngineError{"symbolic frem"};
        Val r;
        r.c = d.w == 32 ? f2bits(fmodf(bits2f(a.c), bits2f(b.c))) : d2bits(fmod(bits2d(a.c), bits2d(b.c)));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_ICMP: {
        const Val &a = getv(s, fr, d.a), &b = getv(s, fr, d.b);
        Val r;
        if (!a.e && !b.e && d.w <= 64) r.c = icmpC(d.sub, a.c, b.c, d.w);
        else r = mkVal(icmpE(d.sub, ex(a, d.w), ex(b, d.w)));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_FCMP: {
        const Val &a = getv(s, fr, d.a), &b = getv(s, fr, d.b);
        s.regs[fr.base + d.dst] = mkVal(fcmpE(d.sub, ex(a, d.w), ex(b, d.w))); fr.pc++;
        break;
      }
      case D_SELECT: {
        const Val &a = getv(s, fr, d.a);
        Val r;
        if (!a.e) r = a.c ? getv(s, fr, d.b) : getv(s, fr, d.c);
        else r = mkVal(P.ite(a.e, ex(getv(s, fr, d.b), d.w), ex(getv(s, fr, d.c), d.w)));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_TRUNC: {
        const Val &a = getv(s, fr, d.a);
        Val r;
        if (!a.e) r.c = a.c & m64(d.w2); else r = mkVal(P.trunc(a.e, d.w2));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_ZEXT: {
        const Val &a = getv(s, fr, d.a);
        Val r;
        if (!a.e && d.w2 <= 64) r = a; else r = mkVal(P.zext(ex(a, d.w), d.w2));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_SEXT: {
        const Val &a = getv(s, fr, d.a);
        Val r;
        if (!a.e && d.w2 <= 64) r.c = (uint64_t)sx(a.c, d.w) & m64(d.w2); else r = mkVal(P.sext(ex(a, d.w), d.w2));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_UN: {
        const Val &a = getv(s, fr, d.a);
        if (!a.e && (d.sub == O_FPTOSI || d.sub == O_FPTOUI)) {
          double x = d.w == 32 ? bits2f(a.c) : bits2d(a.c);
          double lo = d.sub == O_FPTOUI ? -1.0 : -ldexp(1.0, d.w2 - 1) - (d.w2 < 53 ? 1.0 : 0.0), hi = ldexp(1.0, d.sub == O_FPTOUI ? d.w2 : d.w2 - 1);
          if (!(x > lo && x < hi) && !(d.sub == O_FPTOSI && x == -ldexp(1.0, d.w2 - 1))) fail(s, "arith", "float to integer conversion out of range");
        }
        if (fpTab && a.e && (d.sub == O_UITOFP || d.sub == O_SITOFP) && !a.e->lv) {
          Expr *t = fpTable(s, a.e, (Op)d.sub, d.w2);
          if (t) { s.regs[fr.base + d.dst] = mkVal(t); fr.pc++; break; }
        }
        s.regs[fr.base + d.dst] = mkVal(P.un((Op)d.sub, ex(a, d.w), d.w2)); fr.pc++;
        break;
      }
      case D_CONCAT: {
        const Val &a = getv(s, fr, d.a), &b = getv(s, fr, d.b);
        s.regs[fr.base + d.dst] = mkVal(P.concat(ex(a, d.w), ex(b, d.w2))); fr.pc++;
        break;
      }
      case D_EXTRACT: {
        const Val &a = getv(s, fr, d.a);
        s.regs[fr.base + d.dst] = mkVal(P.extract(ex(a, d.w), d.x, d.w2)); fr.pc++;
        break;
      }
      case D_GEP: {
        const Val &a = getv(s, fr, d.a);
        uint64_t off = d.imm;
        Expr *e = a.e;
        if (!e) off += a.c;
        for (uint32_t i = d.x; i < d.y; ++i) {
          const GepIdx &g = f->geps[i];
          const Val &v = getv(s, fr, g.op);
          if (!v.e) off += (uint64_t)(sx(v.c, g.w) * g.scale);
          else {
            Expr *t = P.bin(O_MUL, P.sext(v.e, 64), P.cst((u128)(uint64_t)g.scale, 64));
            e = e ? P.bin(O_ADD, e, t) : t;
          }
        }
        Val r;
        if (!e) r.c = off; else r = mkVal(P.bin(O_ADD, e, P.cst(off, 64)));
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_LOAD: {
        Val a = getv(s, fr, d.a);
        Val r = doLoad(s, a, d.imm, d.w);
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_STORE: {
        Val a = getv(s, fr, d.a), b = getv(s, fr, d.b);
        doStore(s, a, d.imm, b, d.w);
        fr.pc++;
        break;
      }
      case D_ALLOCA: {
        uint64_t n = concretize(s, getv(s, fr, d.a), d.w);
        uint64_t a = newObj(s, n * d.imm, K_STACK, false);
        fr.allocas.push_back(a >> OFFBITS);
        Val r; r.c = a;
        s.regs[fr.base + d.dst] = r; fr.pc++;
        break;
      }
      case D_BR: takeEdge(s, fr, d.x); break;
      case D_CBR: {
        const Val &a = getv(s, fr, d.a);
        if (!a.e) { takeEdge(s, fr, (a.c & 1) ? d.x : d.y); break; }
        State *o;
        bool side = decide(s, a.e, &o);
        takeEdge(s, fr, side ? d.x : d.y);
        if (o) { takeEdge(*o, o->frames.back(), side ? d.y : d.x); pushOther(o); donate(); }
        break;
      }
      case D_SWITCH: {
        const SwitchInfo &si = f->switches[d.x];
        Val a = getv(s, fr, d.a);
        if (!a.e) {
          uint32_t t = si.def;
          for (auto &c : si.cases) if (c.first == a.c) { t = c.second; break; }
          takeEdge(s, fr, t);
          break;
        }
        // group cases per target edge
        uint64_t mv = (uint64_t)evalM(s, a.e);
        uint32_t t = si.def;
        for (auto &c : si.cases) if (c.first == mv) { t = c.second; break; }
        Expr *cond = P.F();
        if (t == si.def) {
          cond = P.T();
          for (auto &c : si.cases) if (c.second != t) cond = P.bin(O_AND, cond, P.notE(P.bin(O_EQ, a.e, P.cst(c.first, d.w))));
        } else
          for (auto &c : si.cases) if (c.second == t) cond = P.bin(O_OR, cond, P.bin(O_EQ, a.e, P.cst(c.first, d.w)));
        State *o;
        bool side = decide(s, cond, &o);
        if (o) pushOther(o);   // re-executes the switch with this target excluded
        if (!side) throw EngineError{"switch"};
        takeEdge(s, fr, t);
        if (o) donate();
        break;
      }
      case D_RET: {
        static std::vector<Val> rv;
        rv.clear();
        for (uint32_t i = d.x; i < d.y; ++i) rv.push_back(getv(s, fr, f->geps[i].op));
        popFrame(s);
        if (s.frames.empty()) throw PathEnd{0};
        returnTo(s, rv.data(), rv.size());
        break;
      }
      case D_CALL: {
        const CallInfo &ci0 = f->calls[d.x];
        DFunc *df;
        if (ci0.callee) {
          CallInfo &ci = const_cast<CallInfo &>(ci0);
          if (!ci.df) ci.df = getDF(ci.callee);
          df = ci.df;
        } else {
          uint64_t a = concretize(s, getv(s, fr, ci0.calleeOp), 64);
          uint64_t id = a >> OFFBITS;
          if (id < FUNC_BASE || id - FUNC_BASE >= funcs.size() || (a & OFFMASK)) fail(s, "memory", "call through a wild function pointer");
          df = funcs[id - FUNC_BASE];
        }
        static std::vector<Val> args;
        args.clear();
        for (auto o : ci0.args) args.push_back(getv(s, fr, o));
        if (df->builtin >= 0) {
          Val ret[4];
          g_jumped = false;
          std::vector<Val> a2(args);
          builtins[df->builtin](s, d, ci0, a2, ret);
          if (!g_jumped) returnTo(s, ret, 4);
          break;
        }
        std::vector<uint64_t> tmp;
        for (auto &b : ci0.byval) {
          uint64_t src = concretize(s, args[b.first], 64);
          uint64_t na = newObj(s, b.second, K_STACK, false);
          copyBytes(s, na, src, b.second);
          Val v; v.c = na; args[b.first] = v;
          tmp.push_back(na >> OFFBITS);
        }
        uint64_t va = 0;
        if (df->F->isVarArg() && !df->decoded && !df->F->isDeclaration()) Decoder(*df).decode();
        if (df->F->isVarArg() && (int)args.size() > df->nargs) {
          va = newObj(s, 8 * (args.size() - df->nargs), K_STACK, true);
          for (size_t i = df->nargs; i < args.size(); ++i) {
            int w = i < ci0.argW.size() ? ci0.argW[i] : 64;
            if (w > 64) throw EngineError{"wide variadic argument"};
            storeAt(s, va + 8 * (i - df->nargs), args[i], w);
          }
          tmp.push_back(va >> OFFBITS);
        }
        pushFrame(s, df, args);
        s.frames.back().va = va;
        for (auto t : tmp) s.frames.back().allocas.push_back(t);
        break;
      }
      case D_LPAD: {
        Val a, b; a.c = s.curExc; b.c = s.curSel;
        s.regs[fr.base + d.dst] = a; s.regs[fr.base + d.dst + 1] = b;
        fr.pc++;
        break;
      }
      case D_RESUME: {
        Val a = getv(s, fr, d.a);
        if (a.e) throw EngineError{"symbolic resume"};
        g_jumped = false;
        unwind(s, a.c, true);
        break;
      }
      case D_UNREACHABLE: fail(s, "unreachable", "unreachable code reached"); break;
      case D_RMW: {
        Val a = getv(s, fr, d.a), b = getv(s, fr, d.b);
        Val old = doLoad(s, a, 0, d.w);
        Val nv = d.sub == O_CONST ? b : mkVal(P.bin((Op)d.sub, ex(old, d.w), ex(b, d.w)));
        doStore(s, a, 0, nv, d.w);
        s.regs[fr.base + d.dst] = old; fr.pc++;
        break;
      }
      case D_CMPXCHG: {
        Val a = getv(s, fr, d.a), b = getv(s, fr, d.b), c = getv(s, fr, d.c);
        Val old = doLoad(s, a, 0, d.w);
        Expr *eq = P.bin(O_EQ, ex(old, d.w), ex(b, d.w));
        doStore(s, a, 0, mkVal(P.ite(eq, ex(c, d.w), ex(old, d.w))), d.w);
        s.regs[fr.base + d.dst] = old; s.regs[fr.base + d.dst + 1] = mkVal(eq); fr.pc++;
        break;
      }
      case D_UNSUPPORTED: throw EngineError{strTab[d.x] + " at " + whereOf(s)};
      default: throw EngineError{"bad op"};
    }
  }
}

static void explore() {
  while (!work.empty()) {
    State *s = work.back();
    work.pop_back();
    bool child = false;
    try {
      try { run(*s); }
      catch (PathEnd &p) {
        if (p.kind == 0 || p.kind == 3) {
          ++nPaths; SH->paths++;
          for (auto c : s->covers) covers[strTab[c]]++;
          sampleOf(*s);
        } else if (p.kind == 1) ++nInfeasible;
        else if (p.kind == 2) { ++nPaths; SH->paths++; for (auto c : s->covers) covers[strTab[c]]++; }
        else if (p.kind == 4) { for (auto *w : work) delete w; work.clear(); }
      } catch (EngineError &e) {
        if (errors.size() < 5) errors.push_back(e.what);
        SH->err++;
      } catch (Unsupported &e) {
        if (errors.size() < 5) errors.push_back("solver: " + e.what);
        SH->err++;
      }
    } catch (std::string &) { child = true; }
    if (child) { continue; }   // this process now owns only the donated state (s stays with the parent)
    delete s;
    if (SH->viol.load() >= 12 || SH->err.load() >= 20) { for (auto *w : work) delete w; work.clear(); }
  }
}

// ------------------------------------------------------------------ module set-up and builtins
static void storeConst(State &s, uint64_t addr, const Constant *C) {
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->getElementByteSize() == 1) { StringRef r = CD->getRawDataValues(); Obj *o = s.mem.wget(addr >> OFFBITS); memcpy(&o->data[addr & OFFMASK], r.data(), r.size()); return; }
  }
  std::vector<Leaf> ls; leaves(C->getType(), 0, ls);
  std::vector<Val> vs; constVals(C, vs);
  for (size_t i = 0; i < ls.size(); ++i) storeAt(s, addr + ls[i].off, vs[i], widthOf(ls[i].T));
}
static void setupModule(State &s, const std::string &entry) {
  for (auto &F : *M) {
    DFunc *d = getDF(&F);
    gaddr[&F] = (FUNC_BASE + funcs.size()) << OFFBITS;
    funcs.push_back(d);
  }
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration() && sz < 64) sz = 64;
    uint64_t a = s.mem.alloc(sz, K_GLOBAL, true) << OFFBITS;
    gaddr[&G] = a;
    if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") tiBaseVt = a;
    if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") tiSiVt = a;
    if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") tiVmiVt = a;
    if (G.getName() == "_ZTVN10__cxxabiv119__pointer_type_infoE") tiPtrVt = a;
  }
  for (auto &G : M->globals())
    if (G.hasInitializer()) {
      try { storeConst(s, gaddr[&G], G.getInitializer()); }
      catch (EngineError &e) { /* reported when the global is used */ }
      if (G.isConstant()) s.mem.wget(gaddr[&G] >> OFFBITS)->kind = K_CONST;
    }
  std::vector<std::pair<int, const Function *>> ctors;
  if (auto *GC = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
      for (auto &o : CA->operands()) {
        auto *CS = cast<ConstantStruct>(o);
        if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))
          ctors.push_back({(int)cast<ConstantInt>(CS->getOperand(0))->getSExtValue(), F});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    pushFrame(s, getDF(c.second), {});
    try { run(s); } catch (PathEnd &p) { if (p.kind != 0) throw EngineError{"global constructor failed"}; }
  }
  s.steps = 0;
  s.heapLive = 0;
  Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) throw EngineError{"no entry function " + entry};
  pushFrame(s, getDF(E), {});
}

static void B(const std::string &n, Builtin f) { builtins.push_back(f); builtinIdx[n] = builtins.size() - 1; }
static uint64_t C(State &s, const Val &v) { return concretize(s, v, 64); }
static Val V(uint64_t c) { Val v; v.c = c; return v; }

static Val memCmp(State &s, uint64_t a, uint64_t b, uint64_t n, bool onlyEq) {
  if (n && !validAddr(s, a, n)) fail(s, "memory", descAddr(s, a, n, "read (memcmp)"));
  if (n && !validAddr(s, b, n)) fail(s, "memory", descAddr(s, b, n, "read (memcmp)"));
  std::vector<std::pair<Val, Val>> v;
  for (uint64_t i = 0; i < n; ++i) {
    Val x = loadAt(s, a + i, 8), y = loadAt(s, b + i, 8);
    if (!x.e && !y.e) {
      if (x.c == y.c) continue;
      v.push_back({x, y});
      break;
    }
    v.push_back({x, y});
  }
  Expr *r = P.cst(0, 32);
  for (int i = (int)v.size() - 1; i >= 0; --i) {
    Expr *x = ex(v[i].first, 8), *y = ex(v[i].second, 8);
    Expr *ne = onlyEq ? P.cst(1, 32) : P.ite(P.bin(O_ULT, x, y), P.cst(0xffffffff, 32), P.cst(1, 32));
    r = P.ite(P.bin(O_EQ, x, y), r, ne);
  }
  return mkVal(r);
}

static void initBuiltins() {
#define BI(name, ...) B(name, [](State &s, const DInst &d, const CallInfo &ci, std::vector<Val> &a, Val *r) { (void)s; (void)d; (void)ci; (void)a; (void)r; __VA_ARGS__ })
  // ---- harness interface
  BI("ksym_sym", {   // (name, width, lo, hi, isfloat)
    std::string nm = readCStr(s, C(s, a[0]));
    int w = a[1].c; uint64_t lo = a[2].c, hi = a[3].c; bool fl = a[4].c;
    if (a[1].e || a[2].e || a[3].e) throw EngineError{"symbolic bounds for " + nm};
    int k = s.nameCount[nm]++;
    if (k) nm += "#" + std::to_string(k);
    if (lo == hi && !fl) { s.inputs.push_back({intern(nm), P.cst(lo, 64)}); r[0] = V(lo); return; }
    int vw = w;
    if (!fl) { vw = hi ? 64 - __builtin_clzll(hi) : 1; if (vw > w) throw EngineError{"range wider than type for " + nm}; }
    std::string key = nm + "|" + std::to_string(vw) + "|" + std::to_string(lo) + "|" + std::to_string(hi) + "|" + std::to_string(fl);
    Expr *&ve = varIntern[key];
    if (!ve) { ve = P.var(nm, vw, fl, false); if (!fl) { ve->lo = lo; ve->hi = hi; } }
    s.inputs.push_back({intern(nm), ve});
    if (s.model.size() <= ve->aux) s.model.resize(ve->aux + 1, 0);
    s.model[ve->aux] = fl ? 0 : lo;
    if (!fl) {
      // raw comparisons: the simplifier already trusts the declared range
      if (lo) s.cs.push_back(P.raw(O_ULE, 1, 0, P.cst(lo, vw), ve));
      if (hi != m64(vw)) s.cs.push_back(P.raw(O_ULE, 1, 0, ve, P.cst(hi, vw)));
    }
    r[0] = mkVal(fl ? P.zext(ve, 64) : P.zext(ve, 64));
  });
  BI("ksym_assume", {
    if (!a[0].e) { if (!(a[0].c & 0xff)) throw PathEnd{1}; return; }
    Expr *c = P.notE(P.bin(O_EQ, a[0].e, P.cst(0, a[0].e->width)));
    if (c->op == O_CONST) { if (!c->c) throw PathEnd{1}; return; }
    if (evalM(s, c) == 0) {
      Model m2 = s.model;
      Sat q = S.check(s.cs, c, &m2);
      if (q == UNKNOWN) { unknownQuery(s); throw PathEnd{1}; }
      if (q == UNSAT) throw PathEnd{1};
      s.model = m2;
    }
    addCs(s, c);
  });
  BI("ksym_check", {
    std::string msg = readCStr(s, C(s, a[1]));
    ++nChecks;
    checkMsgs[msg]++;
    if (!a[0].e) { if (!(a[0].c & 0xff)) fail(s, "check", msg); return; }
    Expr *c = P.notE(P.bin(O_EQ, a[0].e, P.cst(0, a[0].e->width)));
    if (c->op == O_CONST) { if (!c->c) fail(s, "check", msg); return; }
    ++nChecksSolver;
    Expr *nc = P.notE(c);
    if (known(s, c, nc) == 1) return;
    Model m2 = s.model;
    if (evalM(s, c) == 0) {
      report(s, "check", msg, s.model, c);
      Sat q = S.check(s.cs, c, &m2);
      if (q != SAT) throw PathEnd{2};
      s.model = m2;
      addCs(s, c);
      return;
    }
    Sat q = S.check(s.cs, nc, &m2);
    if (q == UNKNOWN) { unknownQuery(s); return; }
    if (q == SAT) { report(s, "check", msg, m2, c); addCs(s, c); }
  });
  BI("ksym_cover", { s.covers.insert(intern(readCStr(s, C(s, a[0])))); });
  BI("ksym_note", { s.notes.push_back({intern(readCStr(s, C(s, a[0]))), a[1], 64, false}); });
  BI("ksym_note_f", { s.notes.push_back({intern(readCStr(s, C(s, a[0]))), a[1], 64, true}); });
  BI("ksym_concretize", { r[0] = V(concretize(s, a[0], 64)); });
  BI("ksym_heap_live", { r[0] = V((uint64_t)s.heapLive); });
  BI("ksym_discard", { throw PathEnd{1}; });
  BI("ksym_param", { auto it = params.find(readCStr(s, C(s, a[0]))); r[0] = it == params.end() ? a[1] : V((uint64_t)it->second); });
  BI("ksym_symbolic_mode", { r[0] = V(1); });
  BI("ksym_fail", { fail(s, "check", readCStr(s, C(s, a[0]))); });
  BI("ksym_unsupported", { throw EngineError{"model: " + readCStr(s, C(s, a[0])) + " at " + whereOf(s)}; });
  BI("ksym_violation", { fail(s, readCStr(s, C(s, a[0])), readCStr(s, C(s, a[1]))); });
  BI("ksym_opaque", { r[0] = a[0]; });
  // a number as text: 16 bytes 0x80..0x8f, never equal to a byte of the formats
  BI("ksym_tok_put", {
    uint64_t p = C(s, a[1]);
    for (int i = 0; i < 16; ++i) {
      if (!a[0].e) storeAt(s, p + i, V(0x80 | (uint64_t)((a[0].c >> (4 * i)) & 15)), 8);
      else storeAt(s, p + i, mkVal(P.concat(P.cst(8, 4), P.raw(O_EXTRACT, 4, 4 * i, a[0].e, nullptr, nullptr, 0))), 8);
    }
    r[0] = V(0); });
  BI("ksym_tok_get", {
    uint64_t p = C(s, a[0]);
    Expr *x = nullptr;
    for (int i = 15; i >= 0; --i) {
      Val b = loadAt(s, p + i, 8);
      Expr *n = P.extract(b.e ? b.e : P.cst(b.c, 8), 0, 4);
      x = x ? P.concat(x, n) : n;
    }
    r[0] = mkVal(x); });
  BI("ksym_is_symbolic", { r[0] = V(a[0].e ? 1 : 0); });
  BI("ksym_strtod", {
    std::string t = readCStr(s, C(s, a[0]));
    r[0] = V(d2bits(a[1].c ? (double)strtof(t.c_str(), 0) : strtod(t.c_str(), 0))); });
  BI("ksym_fmt_double", {
    char buf[512]; double v = bits2d(a[0].c); int fl = (int)a[1].c & (4 | 256), pr = (int)a[2].c;
    if (pr < 0 || pr > 40) throw EngineError{"stream precision"};
    int n = fl == 4 ? snprintf(buf, sizeof buf, "%.*f", pr, v) : fl == 256 ? snprintf(buf, sizeof buf, "%.*e", pr, v) : snprintf(buf, sizeof buf, "%.*g", pr, v);
    if (n > 390) throw EngineError{"long number"};
    uint64_t p = C(s, a[3]);
    for (int i = 0; i < n; ++i) storeAt(s, p + i, V((unsigned char)buf[i]), 8);
    r[0] = V(n); });
  BI("llvm.va_start", {
    uint64_t p = C(s, a[0]);
    storeAt(s, p, V(48), 32); storeAt(s, p + 4, V(176), 32);   // registers used up: every argument is in memory
    storeAt(s, p + 8, V(s.frames.back().va), 64); storeAt(s, p + 16, V(0), 64); });
  BI("llvm.va_end", {});
  BI("llvm.va_copy", { copyBytes(s, C(s, a[0]), C(s, a[1]), 24); });
  // run fn(arg), returning its result or the status passed to exit()
  BI("ksym_run", {
    uint64_t id = C(s, a[0]) >> OFFBITS;
    if (id < FUNC_BASE || id - FUNC_BASE >= funcs.size()) fail(s, "memory", "bad function pointer");
    std::vector<Val> av{a[1]};
    pushFrame(s, funcs[id - FUNC_BASE], av);
    g_jumped = true;
  });
  auto doExit = [](State &s, Val code) {
    for (;;) {
      if (s.frames.empty()) throw PathEnd{3};
      Frame &fr = s.frames.back();
      const DInst &d = fr.f->code[fr.pc];
      if (d.op == D_CALL && fr.f->calls[d.x].callee && fr.f->calls[d.x].callee->getName() == "ksym_run") break;
      popFrame(s);
    }
    returnTo(s, &code, 1);
    g_jumped = true;
  };
  B("exit", [doExit](State &s, const DInst &, const CallInfo &, std::vector<Val> &a, Val *) { doExit(s, a[0]); });
  B("_exit", [doExit](State &s, const DInst &, const CallInfo &, std::vector<Val> &a, Val *) { doExit(s, a[0]); });
  // ---- memory
  for (const char *n : {"malloc"}) BI(n, { uint64_t z = C(s, a[0]); r[0] = V(newObj(s, z, K_MALLOC, false)); s.heapLive++; });
  BI("calloc", { uint64_t z = C(s, a[0]) * C(s, a[1]); r[0] = V(newObj(s, z, K_MALLOC, true)); s.heapLive++; });
  for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) BI(n, { uint64_t z = C(s, a[0]); r[0] = V(newObj(s, z, K_NEW, false)); s.heapLive++; });
  for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t"}) BI(n, { uint64_t z = C(s, a[0]); r[0] = V(newObj(s, z, K_NEWA, false)); s.heapLive++; });
  BI("free", { uint64_t p = C(s, a[0]); if (p) freeObj(s, p, 1 << K_MALLOC); });
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}) BI(n, { uint64_t p = C(s, a[0]); if (p) freeObj(s, p, 1 << K_NEW); });
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) BI(n, { uint64_t p = C(s, a[0]); if (p) freeObj(s, p, 1 << K_NEWA); });
  for (const char *n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"})
    BI(n, { uint64_t n = C(s, a[2]); uint64_t dp = n ? C(s, a[0]) : 0, sp = n ? C(s, a[1]) : 0; copyBytes(s, dp, sp, n); r[0] = a[0]; });
  for (const char *n : {"llvm.memset", "llvm.memset.inline", "memset"})
    BI(n, {
      uint64_t n = C(s, a[2]);
      if (n) {
        uint64_t dp = C(s, a[0]);
        if (!validAddr(s, dp, n)) fail(s, "memory", descAddr(s, dp, n, "write (memset)"));
        Val b = a[1].e ? mkVal(P.trunc(a[1].e, 8)) : V(a[1].c & 0xff);
        if (!b.e) {
          Obj *o = s.mem.wget(dp >> OFFBITS);
          if (o->kind == K_CONST) fail(s, "memory", "write to constant memory");
          memset(&o->data[dp & OFFMASK], b.c, n);
          if (!o->allConc) memset(&o->st[dp & OFFMASK], B_CONC, n);
        } else for (uint64_t i = 0; i < n; ++i) storeAt(s, dp + i, b, 8);
      }
      r[0] = a[0];
    });
  BI("memcmp", { uint64_t n = C(s, a[2]); r[0] = n ? memCmp(s, C(s, a[0]), C(s, a[1]), n, false) : V(0); });
  BI("bcmp", { uint64_t n = C(s, a[2]); r[0] = n ? memCmp(s, C(s, a[0]), C(s, a[1]), n, true) : V(0); });
  BI("llvm.stacksave", { r[0] = V(0); });
  BI("llvm.stackrestore", {});
  BI("llvm.objectsize", { r[0] = V(a[1].c ? 0 : ~0ULL); });
  BI("llvm.is.constant", { r[0] = V(0); });
  BI("llvm.threadlocal.address", { r[0] = a[0]; });
  BI("llvm.ptrmask", { r[0] = mkVal(P.bin(O_AND, ex(a[0], 64), ex(a[1], 64))); });
  // ---- failures
  BI("__assert_fail", { fail(s, "assert", "assertion failed: " + readCStr(s, C(s, a[0]))); });
  BI("abort", { fail(s, "abort", "abort() called"); });
  BI("_ZSt9terminatev", { fail(s, "abort", "std::terminate() called"); });
  BI("llvm.trap", { fail(s, "abort", "trap"); });
  BI("llvm.ubsantrap", { fail(s, "abort", "trap"); });
  BI("__cxa_pure_virtual", { fail(s, "abort", "pure virtual call"); });
  BI("_ZSt21__glibcxx_assert_failPKciS0_S0_", { fail(s, "assert", "libstdc++ assertion: " + readCStr(s, C(s, a[3]))); });
  // ---- runtime
  BI("__cxa_atexit", { r[0] = V(0); });
  BI("atexit", { r[0] = V(0); });
  BI("__cxa_guard_acquire", { Val v = loadAt(s, C(s, a[0]), 8); r[0] = V(v.c ? 0 : 1); });
  BI("__cxa_guard_release", { storeAt(s, C(s, a[0]), V(1), 8); });
  BI("__cxa_guard_abort", {});
  BI("__cxa_allocate_exception", { r[0] = V(newObj(s, C(s, a[0]) + 64, K_EXC, true)); s.excs.push_back({r[0].c, 0, 0, 0, false}); });
  BI("__cxa_free_exception", {});
  BI("__cxa_throw", {
    ExcInfo *e = excOf(s, a[0].c);
    if (!e) throw EngineError{"throw of unknown object"};
    e->tinfo = a[1].c; e->dtor = a[2].c;
    unwind(s, a[0].c, false);
  });
  BI("__cxa_begin_catch", {
    uint64_t x = a[0].c;
    ExcInfo *e = excOf(s, x);
    if (!e) throw EngineError{"begin_catch of unknown object"};
    e->handlers++; e->rethrown = false;
    s.caught.push_back(x);
    r[0] = a[0];
  });
  BI("__cxa_get_exception_ptr", { r[0] = a[0]; });
  BI("__cxa_end_catch", {
    if (s.caught.empty()) return;
    uint64_t x = s.caught.back();
    s.caught.pop_back();
    ExcInfo *e = excOf(s, x);
    e->handlers--;
    if (e->handlers == 0 && !e->rethrown && e->dtor) {
      uint64_t id = e->dtor >> OFFBITS;
      e->dtor = 0;
      std::vector<Val> av{V(x)};
      DFunc *df = funcs[id - FUNC_BASE];
      pushFrame(s, df, av);
      g_jumped = true;
    }
  });
  BI("__cxa_rethrow", {
    if (s.caught.empty()) fail(s, "abort", "rethrow without exception");
    uint64_t x = s.caught.back();
    excOf(s, x)->rethrown = true;
    unwind(s, x, false);
  });
  BI("llvm.eh.typeid.for", { r[0] = V(typeId(a[0].c)); });
  BI("_ZSt18uncaught_exceptionv", { r[0] = V(0); });
  BI("_ZSt19uncaught_exceptionsv", { r[0] = V(0); });
  // ---- integer intrinsics
#define W int w = ci.retW[0]
#define EA ex(a[0], w)
#define EB ex(a[1], w)
  BI("llvm.umin", { W; r[0] = mkVal(P.ite(P.bin(O_ULT, EA, EB), EA, EB)); });
  BI("llvm.umax", { W; r[0] = mkVal(P.ite(P.bin(O_ULT, EA, EB), EB, EA)); });
  BI("llvm.smin", { W; r[0] = mkVal(P.ite(P.bin(O_SLT, EA, EB), EA, EB)); });
  BI("llvm.smax", { W; r[0] = mkVal(P.ite(P.bin(O_SLT, EA, EB), EB, EA)); });
  BI("llvm.abs", { W; r[0] = mkVal(P.ite(P.bin(O_SLT, EA, P.cst(0, w)), P.bin(O_SUB, P.cst(0, w), EA), EA)); });
  BI("llvm.usub.sat", { W; r[0] = mkVal(P.ite(P.bin(O_ULT, EA, EB), P.cst(0, w), P.bin(O_SUB, EA, EB))); });
  BI("llvm.uadd.sat", { W; Expr *t = P.bin(O_ADD, EA, EB); r[0] = mkVal(P.ite(P.bin(O_ULT, t, EA), P.cst(maskw(w), w), t)); });
  BI("llvm.uadd.with.overflow", { W; Expr *t = P.bin(O_ADD, EA, EB); r[0] = mkVal(t); r[1] = mkVal(P.bin(O_ULT, t, EA)); });
  BI("llvm.usub.with.overflow", { W; r[0] = mkVal(P.bin(O_SUB, EA, EB)); r[1] = mkVal(P.bin(O_ULT, EA, EB)); });
  BI("llvm.umul.with.overflow", {
    W; Expr *t = P.bin(O_MUL, P.zext(EA, 2 * w), P.zext(EB, 2 * w));
    r[0] = mkVal(P.trunc(t, w)); r[1] = mkVal(P.notE(P.bin(O_EQ, P.extract(t, w, w), P.cst(0, w)))); });
  BI("llvm.sadd.with.overflow", {
    W; Expr *t = P.bin(O_ADD, P.sext(EA, w + 1), P.sext(EB, w + 1));
    r[0] = mkVal(P.trunc(t, w)); r[1] = mkVal(P.notE(P.bin(O_EQ, t, P.sext(P.trunc(t, w), w + 1)))); });
  BI("llvm.ssub.with.overflow", {
    W; Expr *t = P.bin(O_SUB, P.sext(EA, w + 1), P.sext(EB, w + 1));
    r[0] = mkVal(P.trunc(t, w)); r[1] = mkVal(P.notE(P.bin(O_EQ, t, P.sext(P.trunc(t, w), w + 1)))); });
  BI("llvm.smul.with.overflow", {
    W; Expr *t = P.bin(O_MUL, P.sext(EA, 2 * w), P.sext(EB, 2 * w));
    r[0] = mkVal(P.trunc(t, w)); r[1] = mkVal(P.notE(P.bin(O_EQ, t, P.sext(P.trunc(t, w), 2 * w)))); });
  BI("llvm.ctlz", { W; if (a[0].e) { Expr *x = EA; Expr *res = P.cst(w, w); for (int i = 0; i < w; ++i) res = P.ite(P.bin(O_EQ, P.extract(x, i, 1), P.cst(1, 1)), P.cst(w - 1 - i, w), res); r[0] = mkVal(res); } else { int n = 0; for (int i = w - 1; i >= 0 && !((a[0].c >> i) & 1); --i) ++n; r[0] = V(n); } });
  BI("llvm.cttz", { W; if (a[0].e) { Expr *x = EA; Expr *res = P.cst(w, w); for (int i = w - 1; i >= 0; --i) res = P.ite(P.bin(O_EQ, P.extract(x, i, 1), P.cst(1, 1)), P.cst(i, w), res); r[0] = mkVal(res); } else { int n = 0; for (int i = 0; i < w && !((a[0].c >> i) & 1); ++i) ++n; r[0] = V(n); } });
  BI("llvm.ctpop", { W; Expr *x = EA; Expr *res = P.cst(0, w); for (int i = 0; i < w; ++i) res = P.bin(O_ADD, res, P.zext(P.extract(x, i, 1), w)); r[0] = mkVal(res); });
  BI("llvm.bswap", { W; Expr *x = EA, *res = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = P.extract(x, i, 8); res = res ? P.concat(res, b) : b; } r[0] = mkVal(res); });
  BI("llvm.fshl", { W; if (a[2].e) throw EngineError{"symbolic funnel shift"}; int k = a[2].c % w; r[0] = k ? mkVal(P.bin(O_OR, P.bin(O_SHL, EA, P.cst(k, w)), P.bin(O_LSHR, EB, P.cst(w - k, w)))) : a[0]; });
  BI("llvm.fshr", { W; if (a[2].e) throw EngineError{"symbolic funnel shift"}; int k = a[2].c % w; r[0] = k ? mkVal(P.bin(O_OR, P.bin(O_SHL, EA, P.cst(w - k, w)), P.bin(O_LSHR, EB, P.cst(k, w)))) : a[1]; });
  // ---- floating point
#define FUN(nm, op) BI(nm, { W; r[0] = mkVal(P.un(op, EA, w)); })
  for (const char *n : {"llvm.fabs", "fabs", "fabsf"}) FUN(n, O_FABS);
  for (const char *n : {"llvm.floor", "floor", "floorf"}) FUN(n, O_FFLOOR);
  for (const char *n : {"llvm.ceil", "ceil", "ceilf"}) FUN(n, O_FCEIL);
  for (const char *n : {"llvm.trunc", "trunc", "truncf"}) FUN(n, O_FTRUNC);
  for (const char *n : {"llvm.rint", "llvm.nearbyint", "rint", "rintf", "nearbyint"}) FUN(n, O_FRNE);
  for (const char *n : {"llvm.sqrt", "sqrt", "sqrtf"}) FUN(n, O_FSQRT);
  for (const char *n : {"llvm.fmuladd", "llvm.fma"}) BI(n, { W; r[0] = mkVal(P.bin(O_FADD, P.bin(O_FMUL, EA, EB), ex(a[2], w))); });
  for (const char *n : {"llvm.minnum", "fmin", "fminf"}) BI(n, { W; r[0] = mkVal(P.ite(P.bin(O_FLT, EB, EA), EB, P.ite(P.bin(O_FEQ, EA, EA), EA, EB))); });
  for (const char *n : {"llvm.maxnum", "fmax", "fmaxf"}) BI(n, { W; r[0] = mkVal(P.ite(P.bin(O_FLT, EA, EB), EB, P.ite(P.bin(O_FEQ, EA, EA), EA, EB))); });
  BI("llvm.copysign", { W; r[0] = mkVal(P.bin(O_OR, P.bin(O_AND, EA, P.cst(maskw(w) >> 1, w)), P.bin(O_AND, EB, P.cst((u128)1 << (w - 1), w)))); });
  for (const char *n : {"llvm.round", "round", "roundf"}) BI(n, {
    W; // half away from zero
    if (!a[0].e) { r[0] = w == 32 ? V(f2bits(roundf(bits2f(a[0].c)))) : V(d2bits(round(bits2d(a[0].c)))); return; }
    Expr *x = EA, *ax = P.un(O_FABS, x, w), *fl = P.un(O_FFLOOR, ax, w);
    Expr *half = P.cst(w == 32 ? (u128)f2bits(0.5f) : (u128)d2bits(0.5), w), *one = P.cst(w == 32 ? (u128)f2bits(1.f) : (u128)d2bits(1.), w);
    Expr *df = P.bin(O_FSUB, ax, fl);
    Expr *m = P.ite(P.bin(O_FLE, half, df), P.bin(O_FADD, fl, one), fl);
    r[0] = mkVal(P.bin(O_OR, m, P.bin(O_AND, x, P.cst((u128)1 << (w - 1), w)))); });
#define UFN(nm, ix) BI(nm, { W; if (w == 32) { Expr *t = P.un(O_FPEXT, EA, 64); r[0] = mkVal(P.un(O_FPTRUNC, P.un(O_UF, t, 64, ix), 32)); } else r[0] = mkVal(P.un(O_UF, EA, 64, ix)); })
  for (const char *n : {"exp2", "llvm.exp2", "exp2f"}) UFN(n, UF_EXP2);
  for (const char *n : {"log2", "llvm.log2", "log2f"}) UFN(n, UF_LOG2);
  for (const char *n : {"exp", "llvm.exp", "expf"}) UFN(n, UF_EXP);
  for (const char *n : {"log", "llvm.log", "logf"}) UFN(n, UF_LOG);
  for (const char *n : {"log10", "llvm.log10"}) UFN(n, UF_LOG10);
  for (const char *n : {"pow", "llvm.pow"}) BI(n, {
    W;
    if (w != 64) throw EngineError{"powf"};
    if (!a[0].e && !a[1].e) { r[0] = V(d2bits(pow(bits2d(a[0].c), bits2d(a[1].c)))); return; }
    if (!a[0].e && bits2d(a[0].c) == 2.0) { r[0] = mkVal(P.un(O_UF, EB, 64, UF_EXP2)); return; }
    if (!a[1].e && bits2d(a[1].c) == 1.0) { r[0] = a[0]; return; }
    if (!a[1].e && bits2d(a[1].c) == 2.0) { r[0] = mkVal(P.bin(O_FMUL, EA, EA)); return; }
    throw EngineError{"symbolic pow"}; });
  for (const char *n : {"ldexp", "llvm.ldexp"}) BI(n, {
    W;
    if (!a[0].e && !a[1].e) { r[0] = V(d2bits(ldexp(bits2d(a[0].c), (int)a[1].c))); return; }
    if (w == 64 && !a[0].e && bits2d(a[0].c) == 1.0) { r[0] = mkVal(P.un(O_UF, P.un(O_SITOFP, ex(a[1], 32), 64), 64, UF_EXP2)); return; }
    throw EngineError{"symbolic ldexp"}; });
#define CONC1(nm) BI(#nm, { if (a[0].e) throw EngineError{"symbolic " #nm}; r[0] = V(d2bits(nm(bits2d(a[0].c)))); })
#define CONC2(nm) BI(#nm, { if (a[0].e || a[1].e) throw EngineError{"symbolic " #nm}; r[0] = V(d2bits(nm(bits2d(a[0].c), bits2d(a[1].c)))); })
  CONC1(log1p); CONC1(expm1); CONC1(cbrt); CONC1(sin); CONC1(cos); CONC1(tan); CONC1(atan); CONC1(erf); CONC1(tgamma); CONC1(lgamma);
  CONC2(hypot); CONC2(fmod); CONC2(nextafter); CONC2(atan2); CONC2(remainder);
  for (const char *n : {"fdim"}) BI(n, { W; r[0] = mkVal(P.ite(P.bin(O_FLE, EA, EB), P.cst(0, w), P.bin(O_FSUB, EA, EB))); });
  BI("fma", { W; if (a[0].e || a[1].e || a[2].e) throw EngineError{"symbolic fma"}; (void)w; r[0] = V(d2bits(fma(bits2d(a[0].c), bits2d(a[1].c), bits2d(a[2].c)))); });
  BI("nextafterf", { if (a[0].e || a[1].e) throw EngineError{"symbolic nextafterf"}; r[0] = V(f2bits(nextafterf(bits2f(a[0].c), bits2f(a[1].c)))); });
  BI("fmodf", { if (a[0].e || a[1].e) throw EngineError{"symbolic fmodf"}; r[0] = V(f2bits(fmodf(bits2f(a[0].c), bits2f(a[1].c)))); });
  BI("modf", { if (a[0].e) throw EngineError{"symbolic modf"}; double ip, fr = modf(bits2d(a[0].c), &ip); storeAt(s, C(s, a[1]), V(d2bits(ip)), 64); r[0] = V(d2bits(fr)); });
  BI("frexp", { if (a[0].e) throw EngineError{"symbolic frexp"}; int ei; double fr = frexp(bits2d(a[0].c), &ei); storeAt(s, C(s, a[1]), V((uint32_t)ei), 32); r[0] = V(d2bits(fr)); });
  BI("llvm.is.fpclass", {
    int w = ci.argW[0]; uint64_t m = a[1].c;
    Expr *x = ex(a[0], w);
    Expr *res = P.F();
    Expr *nan = P.bin(O_FUNO, x, x);
    Expr *ab = P.un(O_FABS, x, w);
    Expr *inf = P.cst(w == 32 ? (u128)f2bits(INFINITY) : (u128)d2bits(INFINITY), w);
    Expr *isinf = P.bin(O_FEQ, ab, inf);
    if ((m & 3) == 3) res = P.bin(O_OR, res, nan);
    if ((m & 0x204) == 0x204) res = P.bin(O_OR, res, isinf);
    if ((m & 0x1f8) == 0x1f8) res = P.bin(O_OR, res, P.bin(O_AND, P.notE(nan), P.notE(isinf)));
    if (m != 3 && m != 0x204 && m != 0x1f8 && m != 0x207 && m != 0x1fb && m != 0x3fc) throw EngineError{"fpclass test"};
    r[0] = mkVal(res); });
}
