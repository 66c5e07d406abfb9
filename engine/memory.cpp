#include "machine.h"
#include <cstdlib>
Obj* objNew(u64 base, u64 size, u8 flags, u8 fill) {
  Obj* o = (Obj*)malloc(sizeof(Obj));
  o->refs = 0; o->flags = flags; o->nsym = 0; o->base = base; o->size = size; o->sym = nullptr; o->what = "";
  o->data = (u8*)malloc(size ? size : 1); memset(o->data, fill, size);
  return o;
}
void objRelease(Obj* o) { if (--o->refs == 0) { free(o->data); free(o->sym); free(o); } }
static void chunkRelease(Chunk* c) { if (c && --c->refs == 0) { for (auto* o : c->o) if (o) objRelease(o); delete c; } }
Mem::Mem(const Mem& m) : nextHeap(m.nextHeap), nextStack(m.nextStack) {
  for (int r = 0; r < 2; r++) { reg[r] = m.reg[r]; for (auto* c : reg[r]) if (c) c->refs++; }
}
Mem::~Mem() { for (int r = 0; r < 2; r++) for (auto* c : reg[r]) chunkRelease(c); }
void Mem::setSlot(unsigned r, u64 id, Obj* o) {
  auto& v = reg[r];
  if ((id >> 6) >= v.size()) v.resize((id >> 6) + 1, nullptr);
  Chunk*& c = v[id >> 6];
  if (!c) { c = new Chunk; c->refs = 1; memset(c->o, 0, sizeof c->o); }
  else if (c->refs > 1) { Chunk* n = new Chunk(*c); n->refs = 1; for (auto* x : n->o) if (x) x->refs++; c->refs--; c = n; }
  Obj* old = c->o[id & 63];
  if (o) o->refs++;
  c->o[id & 63] = o;
  if (old) objRelease(old);
}
static u64 slots(u64 size) { return (size >> GRAN) + 1; }
Obj* Mem::writable(Obj* o) {
  u64 id = o->base >> GRAN; unsigned r = 0; if (id >= STACK_ID) { id -= STACK_ID; r = 1; }
  u64 n = slots(o->size);
  Chunk* c = reg[r][id >> 6];
  if (o->refs == n && c->refs == 1) { bool shared = false; if (n > 1) for (u64 i = 0; i < n; i++) if (reg[r][(id + i) >> 6]->refs > 1) shared = true; if (!shared) return o; }
  // COW
  Obj* q = (Obj*)malloc(sizeof(Obj)); *q = *o; q->refs = 0;
  q->data = (u8*)malloc(o->size ? o->size : 1); memcpy(q->data, o->data, o->size);
  q->sym = nullptr;
  if (o->nsym) { q->sym = (Expr**)malloc(o->size * sizeof(Expr*)); memcpy(q->sym, o->sym, o->size * sizeof(Expr*)); }
  for (u64 i = 0; i < n; i++) setSlot(r, id + i, q);
  return q;
}
Obj* Mem::alloc(u64 size, u8 flags, u8 fill) {
  u64 n = slots(size); unsigned r = (flags & OF_STACK) ? 1 : 0;
  u64 id; if (r) { id = nextStack; nextStack += n; } else { id = nextHeap; nextHeap += n; }
  u64 base = ((r ? STACK_ID : 0) + id) << GRAN;
  Obj* o = objNew(base, size, flags, fill);
  for (u64 i = 0; i < n; i++) setSlot(r, id + i, o);
  return o;
}
void Mem::freeHeap(Obj* o) {
  o = writable(o);
  o->flags |= OF_FREED;
  u64 id = o->base >> GRAN;
  Obj* t = objNew(o->base, 0, o->flags, 0); t->what = o->what;
  u64 n = slots(o->size);
  t->size = 0;
  for (u64 i = 0; i < n; i++) setSlot(0, id + i, t);
}
void Mem::popStack(u64 top) {
  for (u64 id = nextStack; id-- > top;) setSlot(1, id, nullptr);
  nextStack = top;
}
State::State(const State& o) : frames(o.frames), mem(o.mem), pc(o.pc), model(o.model), ninst(o.ninst), limit(o.limit), depth(o.depth), id(o.id), valForks(o.valForks),
  obs(o.obs), arrays(o.arrays), nameCount(o.nameCount), reach(o.reach), same(o.same) { for (auto* f : frames) f->refs++; }
State::~State() { for (auto* f : frames) if (--f->refs == 0) delete f; }
