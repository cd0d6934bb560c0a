// Symbolic memory: numbered objects, byte-granular contents, copy-on-write.
#pragma once
#include "expr.h"
#include <memory>

enum ByteState : uint8_t { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };
enum ObjKind : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_EXC };

struct SymByte { Expr *e; uint32_t idx; };

struct Obj {
  uint32_t rc = 1;
  uint32_t size = 0;
  ObjKind kind = K_GLOBAL;
  bool freed = false;
  bool allConc = true;            // no byte is symbolic or uninitialised
  std::vector<uint8_t> data, st;  // st empty when allConc
  std::vector<SymByte> sym;       // empty until needed
  Obj *clone() const {
    Obj *o = new Obj(*this);
    o->rc = 1;
    return o;
  }
};

static const int OFFBITS = 24;
static const uint64_t OFFMASK = (1ULL << OFFBITS) - 1;
static const uint64_t FUNC_BASE = 1ULL << 36;  // object ids of functions

struct Chunk {
  uint32_t rc = 1;
  Obj *o[64];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk &c) : rc(1) {
    memcpy(o, c.o, sizeof o);
    for (auto *p : o) if (p) p->rc++;
  }
  ~Chunk() { for (auto *p : o) if (p && --p->rc == 0) delete p; }
};

struct Memory {
  std::vector<Chunk *> chunks;
  uint64_t next = 1;
  Memory() {}
  Memory(const Memory &m) : chunks(m.chunks), next(m.next) { for (auto *c : chunks) c->rc++; }
  Memory &operator=(const Memory &) = delete;
  ~Memory() { for (auto *c : chunks) if (--c->rc == 0) delete c; }
  uint64_t alloc(uint64_t size, ObjKind k, bool zero) {
    uint64_t id = next++;
    size_t ci = id >> 6;
    while (chunks.size() <= ci) chunks.push_back(new Chunk());
    Obj *o = new Obj();
    o->size = size; o->kind = k;
    o->data.assign(size, 0);
    if (!zero && size) { o->allConc = false; o->st.assign(size, B_UNINIT); }
    wchunk(ci)->o[id & 63] = o;
    return id;
  }
  Chunk *wchunk(size_t ci) {
    Chunk *&c = chunks[ci];
    if (c->rc > 1) { c->rc--; c = new Chunk(*c); }
    return c;
  }
  const Obj *get(uint64_t id) const {
    size_t ci = id >> 6;
    if (ci >= chunks.size()) return nullptr;
    return chunks[ci]->o[id & 63];
  }
  Obj *wget(uint64_t id) {
    Chunk *c = wchunk(id >> 6);
    Obj *&o = c->o[id & 63];
    if (o->rc > 1) { o->rc--; o = o->clone(); }
    return o;
  }
  void drop(uint64_t id) {  // forget contents, keep a tombstone
    Chunk *c = wchunk(id >> 6);
    Obj *&o = c->o[id & 63];
    Obj *t = new Obj();
    t->size = o->size; t->kind = o->kind; t->freed = true;
    if (--o->rc == 0) delete o;
    o = t;
  }
  void needState(Obj *o) {
    if (o->allConc) { o->allConc = false; o->st.assign(o->size, B_CONC); }
  }
};
