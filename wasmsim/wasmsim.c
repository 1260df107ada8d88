/*
 * wasmsim: a small deterministic WebAssembly engine exposing the part of the
 * (Elrond fork of the) Wasmer C API which /repo/wasmer binds through cgo.
 *
 * The shipped engine (libwasmer_linux_amd64.so) is not available in this
 * sandbox; this file is its stand-in inside the simulator.  It interprets the
 * WebAssembly MVP (integers only), meters gas per basic block with the opcode
 * cost table, implements runtime breakpoints, code caching (the opcode costs
 * are baked into the cached code, as in the original) and, on top of that,
 * gives the simulator a trace of everything contracts did, seams to inject
 * engine faults, and accounting of live / misused instances.
 */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>

#define OPCODE_COUNT 448
#define PAGE 65536u
#define MAX_PAGES 1024u          /* 64 MiB per instance */
#define MAX_STACK 131072u        /* value slots per wasmer_instance_call */
#define MAX_FRAMES 4096u

enum { OK = 1, ERR = 2 };
enum { T_I32 = 0x7f, T_I64 = 0x7e, T_F32 = 0x7d, T_F64 = 0x7c, T_ANY = 0 };
enum { BRK_OUT_OF_GAS = 4 };

typedef struct { const uint8_t *bytes; uint32_t bytes_len; } byte_array;
typedef union { int32_t I32; int64_t I64; float F32; double F64; } wvalue;
typedef struct { uint32_t tag; wvalue value; } wvalue_t;

typedef struct {
  void (*func)(void *);
  uint32_t np; uint8_t p[32];
  uint32_t nr; uint8_t r;
} import_func;

typedef struct {
  byte_array module_name, import_name;
  uint32_t tag;
  import_func *func;
} import_t;

typedef struct {
  uint64_t gas_limit, unmetered_locals;
  bool opcode_trace, metering, breakpoints;
} options_t;

/* ------------------------------------------------------------------ module */
typedef struct { uint32_t np, nr; uint8_t p[32]; uint8_t r; } ftype;
typedef struct { uint16_t op, x; uint32_t y; uint64_t imm; } ins;
typedef struct { uint32_t type; ins *code; uint32_t ncode; uint32_t nlocals; } func_t;
typedef struct { char *module, *name; uint32_t type; int slot; } imp_t;
typedef struct { char *name; uint32_t len; uint8_t kind; uint32_t idx; } exp_t;
typedef struct { uint8_t type, mut; uint64_t init; } global_t;
typedef struct { uint32_t off, n; uint32_t *funcs; } elem_t;
typedef struct { uint32_t off, n; const uint8_t *bytes; } data_t;

typedef struct {
  int refs;
  uint64_t hash; uint64_t costhash; uint64_t unmetered; uint32_t costs[OPCODE_COUNT]; bool metering;
  uint8_t *bytes; uint32_t nbytes;
  ftype *types; uint32_t ntypes;
  imp_t *imps; uint32_t nimps;
  func_t *funcs; uint32_t nfuncs;           /* own functions */
  global_t *globals; uint32_t nglobals;
  exp_t *exps; uint32_t nexps;
  elem_t *elems; uint32_t nelems;
  data_t *datas; uint32_t ndatas;
  uint32_t table_size; bool has_table;
  uint32_t mem_min, mem_max; bool has_mem;
  int64_t start;
} module_t;

typedef struct { int refs; uint8_t *data; uint32_t pages, maxpages; } mem_t;

typedef struct stk { struct stk *next; bool busy; uint64_t *slots; } stk;

struct inst;
typedef struct { void *data; struct inst *inst; } ctx_t;

typedef struct inst {
  uint64_t magic;
  ctx_t ctx;
  uint32_t id;
  module_t *m;
  mem_t *mem;
  uint64_t *globals;
  uint32_t *table;
  uint64_t points, limit, brk, inithash;
  bool use_brk;
  stk *stacks;
  struct inst *nextdead;
} inst_t;

#define ALIVE 0x57534c4956454e21ull
#define DEAD  0x5753444541444e21ull

/* -------------------------------------------------------------- global state */
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static uint32_t g_costs[OPCODE_COUNT];
static char g_err[512];
typedef struct { char *name; import_func f; } gimport;
static gimport *g_imports; static uint32_t g_nimports;
#define MODCACHE 96
static module_t *g_mods[MODCACHE]; static uint32_t g_modnext;
static uint32_t g_nextid = 1;
static int64_t g_live;
static uint64_t g_misuse;
static inst_t *g_dead_head, *g_dead_tail; static uint32_t g_ndead;

/* ------------------------------------------------------------------- tracing */
/* One event is 16 u64 words: kind, instance, a, b, c, args[11] */
#define EVW 20
enum { EV_NEW = 1, EV_DESTROY, EV_ENTER, EV_EXIT, EV_IMPORT, EV_IMPORT_END };
static int g_trace_on;
static uint64_t *g_tr; static uint64_t g_ntr, g_captr;
static uint64_t *ev(uint64_t kind, uint64_t instid) {
  if (g_ntr == g_captr) {
    g_captr = g_captr ? g_captr * 2 : 4096;
    g_tr = realloc(g_tr, g_captr * EVW * 8);
  }
  uint64_t *e = g_tr + g_ntr++ * EVW;
  memset(e, 0, EVW * 8);
  e[0] = kind; e[1] = instid;
  return e;
}

/* -------------------------------------------------------------------- faults */
/* countdown n>0: the n-th operation of that kind from now fails */
enum { F_INSTANTIATE = 0, F_CACHE, F_FROMCACHE, F_GROW, F_CALL, F_IMPORT_OOG, F_N };
static int64_t g_fault[F_N]; static uint64_t g_fired[F_N]; static uint64_t g_seen[F_N];
static bool fault(int k) {
  g_seen[k]++;
  if (g_fault[k] > 0 && --g_fault[k] == 0) { g_fired[k]++; return true; }
  return false;
}
void wasmsim_set_fault(int k, int64_t n) { if (k >= 0 && k < F_N) g_fault[k] = n; }
uint64_t wasmsim_fired(int k) { return g_fired[k]; }
uint64_t wasmsim_seen(int k) { return g_seen[k]; }
void wasmsim_reset(void) {
  pthread_mutex_lock(&lock);
  for (int i = 0; i < F_N; i++) g_fault[i] = 0, g_fired[i] = 0, g_seen[i] = 0;
  g_ntr = 0; g_misuse = 0; g_nextid = 1;
  pthread_mutex_unlock(&lock);
}
void wasmsim_trace(int on) { g_trace_on = on; }
uint64_t wasmsim_trace_len(void) { return g_ntr; }
uint64_t *wasmsim_trace_data(void) { return g_tr; }
static void memclear(void);
void wasmsim_trace_clear(void) { g_ntr = 0; memclear(); }
int64_t wasmsim_live(void) { return g_live; }
uint64_t wasmsim_misuse(void) { return g_misuse; }
uint32_t wasmsim_ev_words(void) { return EVW; }

/* memory images: every distinct 64 KiB page seen is kept once; an image is a list of pages */
static int g_mem_on;
typedef struct { uint64_t h; uint8_t *data; int64_t next; } page_t;
static page_t *g_pg; static uint64_t g_npg, g_cappg;
#define PGB 4096
static int64_t g_pgb[PGB];
static uint32_t *g_img; static uint64_t g_nimg, g_capimg;   /* flat: count, ids... */
static uint64_t pagehash(const uint8_t *p) {
  uint64_t a = 1, b = 2, c = 3, d = 4; const uint64_t *q = (const uint64_t *)p;
  for (uint32_t i = 0; i < PAGE / 8; i += 4) {
    a = (a ^ q[i]) * 0x9E3779B97F4A7C15ull; b = (b ^ q[i + 1]) * 0xC2B2AE3D27D4EB4Full;
    c = (c ^ q[i + 2]) * 0x165667B19E3779F9ull; d = (d ^ q[i + 3]) * 0x27D4EB2F165667C5ull;
    a ^= a >> 29; b ^= b >> 31; c ^= c >> 30; d ^= d >> 32;
  }
  a ^= b * 3 ^ c * 5 ^ d * 7; return a ^ (a >> 32);
}
static uint32_t intern(const uint8_t *p) {
  uint64_t h = pagehash(p); int64_t *bk = &g_pgb[h % PGB];
  for (int64_t i = *bk - 1; i >= 0; i = g_pg[i].next) if (g_pg[i].h == h && !memcmp(g_pg[i].data, p, PAGE)) return (uint32_t)i;
  if (g_npg == g_cappg) { g_cappg = g_cappg ? g_cappg * 2 : 64; g_pg = realloc(g_pg, g_cappg * sizeof(page_t)); }
  uint8_t *d = malloc(PAGE); memcpy(d, p, PAGE);
  g_pg[g_npg] = (page_t){h, d, *bk - 1}; *bk = (int64_t)g_npg + 1;
  return (uint32_t)g_npg++;
}
static uint64_t memimage(mem_t *m) {           /* 0: not recorded */
  if (!g_mem_on || !m || m->pages > 128 || g_npg > 12000) return 0;
  if (g_nimg + m->pages + 2 > g_capimg) { g_capimg = (g_nimg + m->pages + 2) * 2; g_img = realloc(g_img, g_capimg * 4); }
  if (!g_nimg) g_img[g_nimg++] = 0;
  uint64_t at = g_nimg; g_img[g_nimg++] = m->pages;
  for (uint32_t i = 0; i < m->pages; i++) g_img[g_nimg++] = intern(m->data + (uint64_t)i * PAGE);
  return at;
}
static void memclear(void) {
  for (uint64_t i = 0; i < g_npg; i++) free(g_pg[i].data);
  g_npg = 0; g_nimg = 0; memset(g_pgb, 0, sizeof g_pgb);
}
static uint64_t fnv(const uint8_t *p, uint64_t n);
uint64_t wasmsim_hash(const uint8_t *p, uint64_t n) { return fnv(p, n); }
void wasmsim_memtrace(int on) { g_mem_on = on; }
uint32_t wasmsim_mem_pages(uint64_t img) { return img ? g_img[img] : 0; }
uint32_t wasmsim_mem_page_id(uint64_t img, uint32_t i) { return g_img[img + 1 + i]; }
const uint8_t *wasmsim_page(uint32_t id) { return g_pg[id].data; }

static void seterr(const char *s) { snprintf(g_err, sizeof g_err, "%s", s); }

/* -------------------------------------------------------------------- parser */
typedef struct { const uint8_t *p, *e; bool bad; } rd;
static uint8_t r8(rd *r) { if (r->p >= r->e) { r->bad = true; return 0; } return *r->p++; }
static uint64_t rleb(rd *r, int bits) {
  uint64_t v = 0; int sh = 0;
  for (;;) {
    uint8_t b = r8(r);
    if (r->bad) return 0;
    v |= (uint64_t)(b & 0x7f) << sh; sh += 7;
    if (!(b & 0x80)) break;
    if (sh >= bits + 6) { r->bad = true; return 0; }
  }
  return v;
}
static uint32_t ru32(rd *r) { uint64_t v = rleb(r, 32); if (v > 0xffffffffull) r->bad = true; return (uint32_t)v; }
static int64_t rsleb(rd *r, int bits) {
  int64_t v = 0; int sh = 0; uint8_t b;
  do {
    b = r8(r);
    if (r->bad) return 0;
    if (sh < 64) v |= (int64_t)((uint64_t)(b & 0x7f) << sh);
    sh += 7;
    if (sh > bits + 7) { r->bad = true; return 0; }
  } while (b & 0x80);
  if (sh < 64 && (b & 0x40)) v |= -((int64_t)1 << sh);
  return v;
}
static char *rname(rd *r, uint32_t *len) {
  uint32_t n = ru32(r);
  if (r->bad || n > (uint64_t)(r->e - r->p)) { r->bad = true; return NULL; }
  char *s = malloc(n + 1); memcpy(s, r->p, n); s[n] = 0; r->p += n; *len = n;
  return s;
}
static bool valtype_ok(uint8_t t) { return t == T_I32 || t == T_I64; }

/* ------------------------------------------------------- function compilation */
enum { I_METER = 0x200, I_BR, I_BRIF, I_BRZ, I_JMP, I_BRTABLE, I_RET, I_CALLIMP, I_CALLOWN };

typedef struct {
  uint8_t kind;            /* 0 block, 1 loop, 2 if, 3 func */
  uint8_t rt; bool has_r;
  uint32_t height; bool dead, entered_dead;
  uint32_t startpc;
  uint32_t *fix; uint32_t nfix;      /* instructions whose .y is the end pc */
  uint32_t elsefix; bool has_else;
} ctl;

typedef struct {
  module_t *m; rd r; ins *c; uint32_t n, cap;
  uint8_t st[4096]; uint32_t sp;
  ctl ct[512]; uint32_t nct;
  uint64_t cost;
  uint8_t *locals; uint32_t nloc;
  bool bad;
} cc;

static uint32_t emit(cc *c, uint16_t op, uint16_t x, uint32_t y, uint64_t imm) {
  if (c->n == c->cap) { c->cap = c->cap ? c->cap * 2 : 64; c->c = realloc(c->c, c->cap * sizeof(ins)); }
  c->c[c->n] = (ins){op, x, y, imm};
  return c->n++;
}
static ctl *top(cc *c) { return &c->ct[c->nct - 1]; }
static void push(cc *c, uint8_t t) { if (c->sp >= sizeof c->st) { c->bad = true; return; } c->st[c->sp++] = t; }
static uint8_t pop(cc *c, uint8_t want) {
  ctl *t = top(c);
  if (c->sp == t->height) { if (t->dead) return want; c->bad = true; return want; }
  uint8_t g = c->st[--c->sp];
  if (want != T_ANY && g != T_ANY && g != want) c->bad = true;
  return g;
}
static void flush_cost(cc *c) { if (c->m->metering && c->cost) emit(c, I_METER, 0, 0, c->cost); c->cost = 0; }
static void addfix(ctl *t, uint32_t pc) { t->fix = realloc(t->fix, (t->nfix + 1) * 4); t->fix[t->nfix++] = pc; }
static uint32_t label_arity(ctl *t) { return t->kind == 1 ? 0 : (t->has_r ? 1 : 0); }
static void branch_to(cc *c, uint32_t depth, uint16_t op) {
  if (depth >= c->nct) { c->bad = true; return; }
  ctl *t = &c->ct[c->nct - 1 - depth];
  uint32_t pc = emit(c, op, (uint16_t)label_arity(t), 0, t->height);
  if (t->kind == 1) c->c[pc].y = t->startpc; else addfix(t, pc);
}
static int opidx(uint8_t b) {
  switch (b) {
    case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: return b;
    case 0x0b: return 6; case 0x0c: return 7; case 0x0d: return 8; case 0x0e: return 9;
    case 0x0f: return 10; case 0x10: return 11; case 0x11: return 12;
    case 0x1a: return 13; case 0x1b: return 14;
    case 0x20: return 16; case 0x21: return 17; case 0x22: return 18; case 0x23: return 19; case 0x24: return 20;
  }
  if (b >= 0x28 && b <= 0x42) return 21 + (b - 0x28);
  if (b >= 0x45 && b <= 0xc4) return 53 + (b - 0x45);
  return -1;
}


static bool compile_func(module_t *m, func_t *f, const uint8_t *p, uint32_t n) {
  cc *c = calloc(1, sizeof(cc));
  c->m = m; c->r.p = p; c->r.e = p + n;
  ftype *ft = &m->types[f->type];
  uint32_t groups = ru32(&c->r); uint64_t total = ft->np;
  c->locals = malloc(ft->np + 1);
  memcpy(c->locals, ft->p, ft->np);
  for (uint32_t i = 0; i < groups && !c->r.bad; i++) {
    uint32_t k = ru32(&c->r); uint8_t t = r8(&c->r);
    if (!valtype_ok(t) || total - ft->np + k > 4000) { c->bad = true; break; }
    c->locals = realloc(c->locals, total + k + 1);
    memset(c->locals + total, t, k); total += k;
  }
  c->nloc = (uint32_t)total;
  f->nlocals = c->nloc - ft->np;
  if (f->nlocals > m->unmetered) c->cost += (uint64_t)m->costs[447] * (f->nlocals - m->unmetered);
  c->ct[0] = (ctl){.kind = 3, .rt = ft->r, .has_r = ft->nr == 1}; c->nct = 1;

  while (c->nct > 0 && !c->bad && !c->r.bad) {
    if (c->r.p >= c->r.e) { c->bad = true; break; }
    uint8_t op = r8(&c->r);
    int ix = opidx(op);
    if (ix < 0) { c->bad = true; break; }
    bool dead = top(c)->dead;
    /* dead code is type-checked but not emitted; nothing is charged for it */
    uint32_t mark = c->n; uint64_t costmark = c->cost;
    if (!dead) c->cost += m->costs[ix];
    switch (op) {
      case 0x00: flush_cost(c); emit(c, 0, 0, 0, 0); top(c)->dead = true; c->sp = top(c)->height; break;
      case 0x01: break;
      case 0x02: case 0x03: case 0x04: {
        uint8_t bt = r8(&c->r);
        if (bt != 0x40 && !valtype_ok(bt)) { c->bad = true; break; }
        if (op == 0x04) pop(c, T_I32);
        flush_cost(c);
        if (c->nct >= 512) { c->bad = true; break; }
        ctl t = {.kind = op == 0x02 ? 0 : op == 0x03 ? 1 : 2, .rt = bt, .has_r = bt != 0x40, .height = c->sp, .entered_dead = dead, .dead = dead};
        if (op == 0x04) t.elsefix = emit(c, I_BRZ, 0, 0, 0);
        t.startpc = c->n;
        c->ct[c->nct++] = t;
        break;
      }
      case 0x05: {
        ctl *t = top(c);
        if (t->kind != 2 || t->has_else) { c->bad = true; break; }
        if (t->has_r) pop(c, t->rt);
        if (c->sp != t->height) c->bad = true;
        flush_cost(c);
        addfix(t, emit(c, I_JMP, 0, 0, 0));
        c->c[t->elsefix].y = c->n;
        t->has_else = true; t->dead = t->entered_dead; c->sp = t->height;
        if (dead && !t->dead) mark = c->n; /* keep what was emitted above */
        break;
      }
      case 0x0b: {
        ctl *t = top(c);
        if (t->has_r) pop(c, t->rt);
        if (c->sp != t->height) c->bad = true;
        if (t->kind == 2 && !t->has_else) { if (t->has_r) c->bad = true; }
        flush_cost(c);
        ctl done = *t; c->nct--;
        if (done.kind == 2 && !done.has_else) c->c[done.elsefix].y = c->n;
        for (uint32_t i = 0; i < done.nfix; i++) c->c[done.fix[i]].y = c->n;
        free(done.fix);
        if (c->nct == 0) { emit(c, I_RET, done.has_r, 0, 0); }
        else { if (done.has_r) push(c, done.rt); }
        mark = c->n;
        dead = false;
        if (c->nct > 0 && top(c)->dead) dead = true;
        break;
      }
      case 0x0c: {
        uint32_t d = ru32(&c->r);
        if (d >= c->nct) { c->bad = true; break; }
        ctl *t = &c->ct[c->nct - 1 - d];
        if (label_arity(t)) pop(c, t->rt);
        flush_cost(c); branch_to(c, d, I_BR); top(c)->dead = true; c->sp = top(c)->height; break;
      }
      case 0x0d: {
        uint32_t d = ru32(&c->r);
        if (d >= c->nct) { c->bad = true; break; }
        ctl *t = &c->ct[c->nct - 1 - d];
        pop(c, T_I32);
        if (label_arity(t)) { pop(c, t->rt); push(c, t->rt); }
        flush_cost(c); branch_to(c, d, I_BRIF); break;
      }
      case 0x0e: {
        uint32_t k = ru32(&c->r);
        if (k > 100000) { c->bad = true; break; }
        pop(c, T_I32);
        flush_cost(c);
        emit(c, I_BRTABLE, 0, k, 0);
        for (uint32_t i = 0; i <= k && !c->bad && !c->r.bad; i++) {
          uint32_t d = ru32(&c->r);
          if (d >= c->nct) { c->bad = true; break; }
          branch_to(c, d, I_BR);
          ctl *t = &c->ct[c->nct - 1 - d];
          if (label_arity(t) && i == k) pop(c, t->rt);
        }
        top(c)->dead = true; c->sp = top(c)->height; break;
      }
      case 0x0f:
        if (c->ct[0].has_r) pop(c, c->ct[0].rt);
        flush_cost(c); emit(c, I_RET, c->ct[0].has_r, 0, 0); top(c)->dead = true; c->sp = top(c)->height; break;
      case 0x10: {
        uint32_t fi = ru32(&c->r);
        if (fi >= m->nimps + m->nfuncs) { c->bad = true; break; }
        ftype *t = &m->types[fi < m->nimps ? m->imps[fi].type : m->funcs[fi - m->nimps].type];
        for (uint32_t i = t->np; i > 0; i--) pop(c, t->p[i - 1]);
        if (t->nr) push(c, t->r);
        flush_cost(c);
        if (fi < m->nimps) emit(c, I_CALLIMP, 0, fi, 0); else emit(c, I_CALLOWN, 0, fi - m->nimps, 0);
        break;
      }
      case 0x11: {
        uint32_t ti = ru32(&c->r); uint8_t z = r8(&c->r);
        if (ti >= m->ntypes || z != 0 || !m->has_table) { c->bad = true; break; }
        pop(c, T_I32);
        ftype *t = &m->types[ti];
        for (uint32_t i = t->np; i > 0; i--) pop(c, t->p[i - 1]);
        if (t->nr) push(c, t->r);
        flush_cost(c); emit(c, 0x11, 0, ti, 0); break;
      }
      case 0x1a: pop(c, T_ANY); emit(c, 0x1a, 0, 0, 0); break;
      case 0x1b: {
        pop(c, T_I32); uint8_t a = pop(c, T_ANY); uint8_t b = pop(c, T_ANY);
        if (a != T_ANY && b != T_ANY && a != b) c->bad = true;
        push(c, a != T_ANY ? a : b); emit(c, 0x1b, 0, 0, 0); break;
      }
      case 0x20: case 0x21: case 0x22: {
        uint32_t l = ru32(&c->r);
        if (l >= c->nloc) { c->bad = true; break; }
        if (op == 0x20) push(c, c->locals[l]);
        else if (op == 0x21) pop(c, c->locals[l]);
        else { pop(c, c->locals[l]); push(c, c->locals[l]); }
        emit(c, op, 0, l, 0); break;
      }
      case 0x23: case 0x24: {
        uint32_t g = ru32(&c->r);
        if (g >= m->nglobals) { c->bad = true; break; }
        if (op == 0x23) push(c, m->globals[g].type);
        else { if (!m->globals[g].mut) c->bad = true; pop(c, m->globals[g].type); }
        emit(c, op, 0, g, 0); break;
      }
      case 0x41: { int64_t v = rsleb(&c->r, 32); push(c, T_I32); emit(c, 0x41, 0, 0, (uint32_t)v); break; }
      case 0x42: { int64_t v = rsleb(&c->r, 64); push(c, T_I64); emit(c, 0x41, 0, 0, (uint64_t)v); break; }
      case 0x3f: case 0x40: {
        if (r8(&c->r) != 0 || !m->has_mem) { c->bad = true; break; }
        if (op == 0x40) pop(c, T_I32);
        push(c, T_I32); emit(c, op, 0, 0, 0); break;
      }
      default:
        if (op >= 0x28 && op <= 0x3e) {
          if (op == 0x2a || op == 0x2b || op == 0x38 || op == 0x39 || !m->has_mem) { c->bad = true; break; }
          ru32(&c->r); uint32_t off = ru32(&c->r);
          if (op < 0x36) { pop(c, T_I32); push(c, (op == 0x28 || (op >= 0x2c && op <= 0x2f)) ? T_I32 : T_I64); }
          else { pop(c, (op == 0x36 || op == 0x3a || op == 0x3b) ? T_I32 : T_I64); pop(c, T_I32); }
          emit(c, op, 0, off, 0); break;
        }
        if (op == 0x45) { pop(c, T_I32); push(c, T_I32); }
        else if (op >= 0x46 && op <= 0x4f) { pop(c, T_I32); pop(c, T_I32); push(c, T_I32); }
        else if (op == 0x50) { pop(c, T_I64); push(c, T_I32); }
        else if (op >= 0x51 && op <= 0x5a) { pop(c, T_I64); pop(c, T_I64); push(c, T_I32); }
        else if (op >= 0x67 && op <= 0x69) { pop(c, T_I32); push(c, T_I32); }
        else if (op >= 0x6a && op <= 0x78) { pop(c, T_I32); pop(c, T_I32); push(c, T_I32); }
        else if (op >= 0x79 && op <= 0x7b) { pop(c, T_I64); push(c, T_I64); }
        else if (op >= 0x7c && op <= 0x8a) { pop(c, T_I64); pop(c, T_I64); push(c, T_I64); }
        else if (op == 0xa7) { pop(c, T_I64); push(c, T_I32); }
        else if (op == 0xac || op == 0xad) { pop(c, T_I32); push(c, T_I64); }
        else if (op == 0xc0 || op == 0xc1) { pop(c, T_I32); push(c, T_I32); }
        else if (op >= 0xc2 && op <= 0xc4) { pop(c, T_I64); push(c, T_I64); }
        else { c->bad = true; break; }     /* floating point is not allowed */
        emit(c, op, 0, 0, 0);
    }
    if (dead && op != 0x02 && op != 0x03 && op != 0x04 && op != 0x05) { if (op != 0x0b) { c->n = mark; c->cost = costmark; } }
  }
  bool good = !c->bad && !c->r.bad && c->r.p == c->r.e;
  /* an unclosed control frame keeps its fix list */
  for (uint32_t i = 0; i < c->nct; i++) if (!good) free(c->ct[i].fix);
  if (good) { f->code = realloc(c->c, (c->n ? c->n : 1) * sizeof(ins)); f->ncode = c->n; }
  else free(c->c);
  free(c->locals); free(c);
  return good;
}

/* -------------------------------------------------------------- module parsing */
static void module_free(module_t *m) {
  if (!m) return;
  for (uint32_t i = 0; i < m->nimps; i++) { free(m->imps[i].module); free(m->imps[i].name); }
  for (uint32_t i = 0; i < m->nfuncs; i++) free(m->funcs[i].code);
  for (uint32_t i = 0; i < m->nexps; i++) free(m->exps[i].name);
  for (uint32_t i = 0; i < m->nelems; i++) free(m->elems[i].funcs);
  free(m->types); free(m->imps); free(m->funcs); free(m->globals); free(m->exps);
  free(m->elems); free(m->datas); free(m->bytes); free(m);
}
static uint64_t const_expr(rd *r, module_t *m) {
  uint64_t v = 0; uint8_t op = r8(r);
  if (op == 0x41) v = (uint32_t)rsleb(r, 32);
  else if (op == 0x42) v = (uint64_t)rsleb(r, 64);
  else if (op == 0x23) { uint32_t g = ru32(r); if (g < m->nglobals) v = m->globals[g].init; else r->bad = true; }
  else r->bad = true;
  if (r8(r) != 0x0b) r->bad = true;
  return v;
}
static int find_import(const char *name) {
  for (uint32_t i = 0; i < g_nimports; i++) if (!strcmp(g_imports[i].name, name)) return (int)i;
  return -1;
}

static module_t *parse(const uint8_t *bytes, uint32_t n, uint64_t unmetered, const uint32_t *costs, bool metering) {
  if (n < 8 || memcmp(bytes, "\0asm\1\0\0\0", 8)) { seterr("compile error: bad magic"); return NULL; }
  module_t *m = calloc(1, sizeof *m);
  m->refs = 1; m->start = -1; m->unmetered = unmetered; m->metering = metering;
  memcpy(m->costs, costs, sizeof m->costs);
  m->bytes = malloc(n); memcpy(m->bytes, bytes, n); m->nbytes = n;
  rd r = {m->bytes + 8, m->bytes + n, false};
  uint32_t *ftypes = NULL, nft = 0; bool bad = false; uint32_t ncode = 0;
  const uint8_t *codep[1] = {0}; (void)codep;
  rd code = {0};
  while (r.p < r.e && !r.bad && !bad) {
    uint8_t id = r8(&r); uint32_t sz = ru32(&r);
    if (r.bad || sz > (uint64_t)(r.e - r.p)) { bad = true; break; }
    rd s = {r.p, r.p + sz, false}; r.p += sz;
    if (id == 0) continue;
    if (id == 1) {
      m->ntypes = ru32(&s); if (m->ntypes > 100000) { bad = true; break; }
      m->types = calloc(m->ntypes + 1, sizeof(ftype));
      for (uint32_t i = 0; i < m->ntypes && !s.bad; i++) {
        if (r8(&s) != 0x60) { bad = true; break; }
        ftype *t = &m->types[i];
        t->np = ru32(&s); if (t->np > 32) { bad = true; break; }
        for (uint32_t k = 0; k < t->np; k++) { t->p[k] = r8(&s); if (!valtype_ok(t->p[k])) bad = true; }
        t->nr = ru32(&s); if (t->nr > 1) { bad = true; break; }
        if (t->nr) { t->r = r8(&s); if (!valtype_ok(t->r)) bad = true; }
      }
    } else if (id == 2) {
      m->nimps = ru32(&s); if (m->nimps > 10000) { bad = true; break; }
      m->imps = calloc(m->nimps + 1, sizeof(imp_t));
      for (uint32_t i = 0; i < m->nimps && !s.bad; i++) {
        uint32_t l; m->imps[i].module = rname(&s, &l); m->imps[i].name = rname(&s, &l);
        if (r8(&s) != 0) { bad = true; break; }
        m->imps[i].type = ru32(&s);
        if (s.bad || m->imps[i].type >= m->ntypes) { bad = true; break; }
        int k = find_import(m->imps[i].name);
        if (k < 0) { snprintf(g_err, sizeof g_err, "link error: import not found: %.100s", m->imps[i].name); bad = true; break; }
        m->imps[i].slot = k;
        ftype *t = &m->types[m->imps[i].type]; import_func *f = &g_imports[k].f;
        if (t->np != f->np || t->nr != f->nr) bad = true;
        else { for (uint32_t q = 0; q < t->np; q++) if ((t->p[q] == T_I64) != (f->p[q] == 1)) bad = true;
               if (t->nr && (t->r == T_I64) != (f->r == 1)) bad = true; }
        if (bad) { snprintf(g_err, sizeof g_err, "link error: incorrect import signature: %.100s", m->imps[i].name); break; }
      }
    } else if (id == 3) {
      nft = ru32(&s); if (nft > 100000) { bad = true; break; }
      ftypes = calloc(nft + 1, 4);
      for (uint32_t i = 0; i < nft; i++) { ftypes[i] = ru32(&s); if (ftypes[i] >= m->ntypes) bad = true; }
    } else if (id == 4) {
      uint32_t k = ru32(&s); if (k > 1) { bad = true; break; }
      if (k) { if (r8(&s) != 0x70) { bad = true; break; } uint8_t fl = r8(&s); m->table_size = ru32(&s); if (fl & 1) ru32(&s); m->has_table = true; if (m->table_size > 1000000) bad = true; }
    } else if (id == 5) {
      uint32_t k = ru32(&s); if (k > 1) { bad = true; break; }
      if (k) { uint8_t fl = r8(&s); m->mem_min = ru32(&s); m->mem_max = MAX_PAGES; if (fl & 1) { uint32_t mx = ru32(&s); if (mx < m->mem_max) m->mem_max = mx; } m->has_mem = true; if (m->mem_min > MAX_PAGES) bad = true; }
    } else if (id == 6) {
      uint32_t k = ru32(&s); if (k > 100000) { bad = true; break; }
      m->globals = calloc(k + 1, sizeof(global_t));
      for (uint32_t i = 0; i < k && !s.bad; i++) {
        uint8_t t = r8(&s), mu = r8(&s);
        if (!valtype_ok(t)) { bad = true; break; }
        uint64_t v = const_expr(&s, m);
        m->globals[m->nglobals++] = (global_t){t, mu, v};
      }
    } else if (id == 7) {
      uint32_t k = ru32(&s); if (k > 100000) { bad = true; break; }
      m->exps = calloc(k + 1, sizeof(exp_t));
      for (uint32_t i = 0; i < k && !s.bad; i++) {
        exp_t *e = &m->exps[m->nexps];
        e->name = rname(&s, &e->len); if (!e->name) break;
        m->nexps++;
        e->kind = r8(&s); e->idx = ru32(&s);
      }
    } else if (id == 8) {
      m->start = ru32(&s);
    } else if (id == 9) {
      uint32_t k = ru32(&s); if (k > 100000) { bad = true; break; }
      m->elems = calloc(k + 1, sizeof(elem_t));
      for (uint32_t i = 0; i < k && !s.bad; i++) {
        if (ru32(&s) != 0) { bad = true; break; }
        elem_t *e = &m->elems[m->nelems++];
        e->off = (uint32_t)const_expr(&s, m); e->n = ru32(&s);
        if (e->n > 1000000) { e->n = 0; bad = true; break; }
        e->funcs = calloc(e->n + 1, 4);
        for (uint32_t q = 0; q < e->n; q++) e->funcs[q] = ru32(&s);
      }
    } else if (id == 10) {
      ncode = ru32(&s); code = s;
      s.p = s.e;
    } else if (id == 11) {
      uint32_t k = ru32(&s); if (k > 100000) { bad = true; break; }
      m->datas = calloc(k + 1, sizeof(data_t));
      for (uint32_t i = 0; i < k && !s.bad; i++) {
        if (ru32(&s) != 0) { bad = true; break; }
        data_t *d = &m->datas[m->ndatas++];
        d->off = (uint32_t)const_expr(&s, m); d->n = ru32(&s);
        if (d->n > (uint64_t)(s.e - s.p)) { bad = true; break; }
        d->bytes = s.p; s.p += d->n;
      }
    } else if (id == 12) { ru32(&s); }
    else bad = true;
    if (s.bad || s.p != s.e) bad = true;
  }
  if (r.bad) bad = true;
  if (!bad && ncode != nft) bad = true;
  if (!bad) {
    m->nfuncs = nft; m->funcs = calloc(nft + 1, sizeof(func_t));
    for (uint32_t i = 0; i < nft; i++) m->funcs[i].type = ftypes[i];
    for (uint32_t i = 0; i < m->nexps && !bad; i++) {
      exp_t *e = &m->exps[i];
      if (e->kind == 0 && e->idx >= m->nimps + m->nfuncs) bad = true;
      if (e->kind == 2 && (!m->has_mem || e->idx)) bad = true;
      if (e->kind == 3 && e->idx >= m->nglobals) bad = true;
      if (e->kind > 3) bad = true;
      for (uint32_t j = 0; j < i; j++) if (!strcmp(m->exps[j].name, e->name)) bad = true;
    }
    for (uint32_t i = 0; i < m->nelems && !bad; i++) {
      if (!m->has_table || (uint64_t)m->elems[i].off + m->elems[i].n > m->table_size) bad = true;
      for (uint32_t q = 0; q < m->elems[i].n; q++) if (m->elems[i].funcs[q] >= m->nimps + m->nfuncs) bad = true;
    }
    for (uint32_t i = 0; i < m->ndatas && !bad; i++)
      if (!m->has_mem || (uint64_t)m->datas[i].off + m->datas[i].n > (uint64_t)m->mem_min * PAGE) bad = true;
    if (m->start >= 0 && m->start >= (int64_t)(m->nimps + m->nfuncs)) bad = true;
    for (uint32_t i = 0; i < nft && !bad; i++) {
      uint32_t sz = ru32(&code);
      if (code.bad || sz > (uint64_t)(code.e - code.p)) { bad = true; break; }
      if (!compile_func(m, &m->funcs[i], code.p, sz)) { bad = true; snprintf(g_err, sizeof g_err, "compile error: function %u does not validate", i); break; }
      code.p += sz;
    }
    if (!bad && nft && code.p != code.e) bad = true;
  }
  free(ftypes);
  if (bad) { if (!g_err[0]) seterr("compile error: malformed module"); module_free(m); return NULL; }
  return m;
}

static uint64_t fnv(const uint8_t *p, uint64_t n) {
  uint64_t h = 1469598103934665603ull;
  for (uint64_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}
static void module_unref(module_t *m) { if (--m->refs == 0) module_free(m); }
static module_t *get_module(const uint8_t *bytes, uint32_t n, uint64_t unmetered, const uint32_t *costs, bool metering) {
  uint64_t h = fnv(bytes, n);
  for (int i = 0; i < MODCACHE; i++) {
    module_t *m = g_mods[i];
    if (m && m->hash == h && m->nbytes == n && m->unmetered == unmetered && m->metering == metering &&
        !memcmp(m->costs, costs, sizeof m->costs) && !memcmp(m->bytes, bytes, n)) { m->refs++; return m; }
  }
  g_err[0] = 0;
  module_t *m = parse(bytes, n, unmetered, costs, metering);
  if (!m) return NULL;
  m->hash = h; m->costhash = fnv((const uint8_t *)m->costs, sizeof m->costs) ^ (m->unmetered * 0x9E3779B97F4A7C15ull);
  uint32_t k = g_modnext++ % MODCACHE;
  if (g_mods[k]) module_unref(g_mods[k]);
  g_mods[k] = m; m->refs++;
  return m;
}

/* ---------------------------------------------------------------- execution */
static void mem_unref(mem_t *m) { if (m && --m->refs == 0) { free(m->data); free(m); } }
static bool mem_grow(mem_t *m, uint32_t delta) {
  if (fault(F_GROW)) return false;
  if ((uint64_t)m->pages + delta > m->maxpages) return false;
  if (!delta) return true;
  uint8_t *d = realloc(m->data, (uint64_t)(m->pages + delta) * PAGE + 16);
  if (!d) return false;
  memset(d + (uint64_t)m->pages * PAGE, 0, (uint64_t)delta * PAGE);
  m->data = d; m->pages += delta;
  return true;
}
typedef uint64_t u;
static u callimport(void (*fn)(void *), void *c, uint32_t n, u *a) {
  switch (n) {
#define F(...) ((u(*)(void *, ##__VA_ARGS__))fn)
    case 0: return F()(c);
    case 1: return F(u)(c, a[0]);
    case 2: return F(u, u)(c, a[0], a[1]);
    case 3: return F(u, u, u)(c, a[0], a[1], a[2]);
    case 4: return F(u, u, u, u)(c, a[0], a[1], a[2], a[3]);
    case 5: return F(u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4]);
    case 6: return F(u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5]);
    case 7: return F(u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    case 8: return F(u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    case 9: return F(u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
    case 10: return F(u, u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
    case 11: return F(u, u, u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
    case 12: return F(u, u, u, u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    case 13: return F(u, u, u, u, u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    case 14: return F(u, u, u, u, u, u, u, u, u, u, u, u, u, u)(c, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]);
#undef F
  }
  return 0;
}

typedef struct { func_t *f; uint32_t pc; uint64_t *fp, *ob; } frame;
static const char *trapmsg;
#define TRAP(msg) do { trapmsg = msg; goto trap; } while (0)

/* runs own function fi with its arguments at st[0..]; leaves the result in st[0] */
static bool run(inst_t *in, uint32_t fi, uint64_t *st) {
  module_t *m = in->m;
  uint64_t *lim = st + MAX_STACK - 64;
  frame *fr = malloc(sizeof(frame) * 64); uint32_t cfr = 64, nfr = 0;
  func_t *f = &m->funcs[fi];
  ftype *ft = &m->types[f->type];
  uint64_t *fp = st, *sp = st + ft->np, *ob;
  for (uint32_t i = 0; i < f->nlocals; i++) *sp++ = 0;
  ob = sp;
  ins *code = f->code; uint32_t pc = 0;
  mem_t *mem = in->mem;
  for (;;) {
    ins *i = &code[pc++];
    switch (i->op) {
      case I_METER:
        in->points += i->imm;
        if (in->points > in->limit) { in->brk = BRK_OUT_OF_GAS; TRAP("out of gas"); }
        break;
      case 0x00: TRAP("unreachable");
      case I_BR: do_branch: {
        if (i->x) { uint64_t v = sp[-1]; sp = ob + i->imm; *sp++ = v; } else sp = ob + i->imm;
        pc = i->y; break;
      }
      case I_BRIF: if ((uint32_t) * --sp) goto do_branch; break;
      case I_BRZ: if (!(uint32_t) * --sp) pc = i->y; break;
      case I_JMP: pc = i->y; break;
      case I_BRTABLE: { uint32_t k = (uint32_t) * --sp; if (k > i->y) k = i->y; pc += k; break; }
      case I_RET: {
        uint64_t v = i->x ? sp[-1] : 0;
        sp = fp; if (i->x) *sp++ = v;
        if (nfr == 0) { free(fr); return true; }
        nfr--; f = fr[nfr].f; pc = fr[nfr].pc; fp = fr[nfr].fp; ob = fr[nfr].ob; code = f->code;
        break;
      }
      uint32_t callee;
      case 0x11: {
        uint32_t k = (uint32_t) * --sp;
        if (k >= m->table_size || in->table[k] == 0xffffffffu) TRAP("undefined table element");
        callee = in->table[k];
        uint32_t ty = callee < m->nimps ? m->imps[callee].type : m->funcs[callee - m->nimps].type;
        if (memcmp(&m->types[ty], &m->types[i->y], sizeof(ftype))) TRAP("indirect call type mismatch");
        if (callee < m->nimps) goto do_import;
        callee -= m->nimps; goto do_own;
      }
      case I_CALLIMP: callee = i->y;
      do_import: {
        imp_t *im = &m->imps[callee]; ftype *t = &m->types[im->type];
        sp -= t->np;
        uint64_t id = in->id; uint64_t *e;
        if (g_trace_on) { e = ev(EV_IMPORT, id); e[2] = (u)im->slot; e[3] = in->points; e[4] = t->np; for (uint32_t q = 0; q < t->np && q < EVW - 6; q++) e[6 + q] = sp[q]; e[5] = memimage(in->mem); }
        if (fault(F_IMPORT_OOG)) { in->points = in->limit; }
        u r = callimport(g_imports[im->slot].f.func, &in->ctx, t->np, sp);
        if (t->nr) { if (t->r == T_I32) r = (uint32_t)r; *sp++ = r; } else r = 0;
        if (g_trace_on) { e = ev(EV_IMPORT_END, id); e[2] = (u)im->slot; e[3] = in->points; e[4] = r; e[5] = in->brk; e[6] = memimage(in->mem); }
        if (in->use_brk && in->brk) TRAP("runtime breakpoint reached");
        break;
      }
      case I_CALLOWN: callee = i->y;
      do_own: {
        func_t *g = &m->funcs[callee]; ftype *t = &m->types[g->type];
        if (nfr >= MAX_FRAMES || sp + g->nlocals + 4096 > lim) TRAP("call stack exhausted");
        if (nfr == cfr) { cfr *= 2; fr = realloc(fr, sizeof(frame) * cfr); }
        fr[nfr++] = (frame){f, pc, fp, ob};
        fp = sp - t->np;
        for (uint32_t q = 0; q < g->nlocals; q++) *sp++ = 0;
        ob = sp; f = g; code = g->code; pc = 0;
        break;
      }
      case 0x1a: sp--; break;
      case 0x1b: sp -= 2; if (!(uint32_t)sp[1]) sp[-1] = sp[0]; break;
      case 0x20: *sp++ = fp[i->y]; break;
      case 0x21: fp[i->y] = *--sp; break;
      case 0x22: fp[i->y] = sp[-1]; break;
      case 0x23: *sp++ = in->globals[i->y]; break;
      case 0x24: in->globals[i->y] = *--sp; break;
      case 0x41: *sp++ = i->imm; break;
      case 0x3f: *sp++ = mem->pages; break;
      case 0x40: { uint32_t old = mem->pages; sp[-1] = mem_grow(mem, (uint32_t)sp[-1]) ? old : 0xffffffffu; break; }
#define LD(ty, cast) { uint64_t a = (uint32_t)sp[-1] + (uint64_t)i->y; if (a + sizeof(ty) > (uint64_t)mem->pages * PAGE) TRAP("out of bounds memory access"); ty v; memcpy(&v, mem->data + a, sizeof v); sp[-1] = (uint64_t)(cast)v; break; }
      case 0x28: LD(uint32_t, uint32_t)
      case 0x29: LD(uint64_t, uint64_t)
      case 0x2c: LD(int8_t, uint32_t)
      case 0x2d: LD(uint8_t, uint32_t)
      case 0x2e: LD(int16_t, uint32_t)
      case 0x2f: LD(uint16_t, uint32_t)
      case 0x30: LD(int8_t, int64_t)
      case 0x31: LD(uint8_t, uint64_t)
      case 0x32: LD(int16_t, int64_t)
      case 0x33: LD(uint16_t, uint64_t)
      case 0x34: LD(int32_t, int64_t)
      case 0x35: LD(uint32_t, uint64_t)
#define ST(ty) { uint64_t a = (uint32_t)sp[-2] + (uint64_t)i->y; if (a + sizeof(ty) > (uint64_t)mem->pages * PAGE) TRAP("out of bounds memory access"); ty v = (ty)sp[-1]; memcpy(mem->data + a, &v, sizeof v); sp -= 2; break; }
      case 0x36: ST(uint32_t)
      case 0x37: ST(uint64_t)
      case 0x3a: ST(uint8_t)
      case 0x3b: ST(uint16_t)
      case 0x3c: ST(uint8_t)
      case 0x3d: ST(uint16_t)
      case 0x3e: ST(uint32_t)
#define A32 ((uint32_t)sp[-2])
#define B32 ((uint32_t)sp[-1])
#define S32A ((int32_t)A32)
#define S32B ((int32_t)B32)
#define R32(x) { uint32_t v = (uint32_t)(x); sp--; sp[-1] = v; break; }
#define A64 (sp[-2])
#define B64 (sp[-1])
#define S64A ((int64_t)A64)
#define S64B ((int64_t)B64)
#define R64(x) { uint64_t v = (uint64_t)(x); sp--; sp[-1] = v; break; }
      case 0x45: sp[-1] = !(uint32_t)sp[-1]; break;
      case 0x46: R32(A32 == B32)
      case 0x47: R32(A32 != B32)
      case 0x48: R32(S32A < S32B)
      case 0x49: R32(A32 < B32)
      case 0x4a: R32(S32A > S32B)
      case 0x4b: R32(A32 > B32)
      case 0x4c: R32(S32A <= S32B)
      case 0x4d: R32(A32 <= B32)
      case 0x4e: R32(S32A >= S32B)
      case 0x4f: R32(A32 >= B32)
      case 0x50: sp[-1] = !sp[-1]; break;
      case 0x51: R32(A64 == B64)
      case 0x52: R32(A64 != B64)
      case 0x53: R32(S64A < S64B)
      case 0x54: R32(A64 < B64)
      case 0x55: R32(S64A > S64B)
      case 0x56: R32(A64 > B64)
      case 0x57: R32(S64A <= S64B)
      case 0x58: R32(A64 <= B64)
      case 0x59: R32(S64A >= S64B)
      case 0x5a: R32(A64 >= B64)
      case 0x67: sp[-1] = (uint32_t)sp[-1] ? (uint32_t)__builtin_clz((uint32_t)sp[-1]) : 32; break;
      case 0x68: sp[-1] = (uint32_t)sp[-1] ? (uint32_t)__builtin_ctz((uint32_t)sp[-1]) : 32; break;
      case 0x69: sp[-1] = (uint32_t)__builtin_popcount((uint32_t)sp[-1]); break;
      case 0x6a: R32(A32 + B32)
      case 0x6b: R32(A32 - B32)
      case 0x6c: R32(A32 * B32)
      case 0x6d: if (!B32) TRAP("integer divide by zero"); if (A32 == 0x80000000u && B32 == 0xffffffffu) TRAP("integer overflow"); R32(S32A / S32B)
      case 0x6e: if (!B32) TRAP("integer divide by zero"); R32(A32 / B32)
      case 0x6f: if (!B32) TRAP("integer divide by zero"); R32(B32 == 0xffffffffu ? 0 : S32A % S32B)
      case 0x70: if (!B32) TRAP("integer divide by zero"); R32(A32 % B32)
      case 0x71: R32(A32 & B32)
      case 0x72: R32(A32 | B32)
      case 0x73: R32(A32 ^ B32)
      case 0x74: R32(A32 << (B32 & 31))
      case 0x75: R32(S32A >> (B32 & 31))
      case 0x76: R32(A32 >> (B32 & 31))
      case 0x77: R32((A32 << (B32 & 31)) | (A32 >> ((32 - (B32 & 31)) & 31)))
      case 0x78: R32((A32 >> (B32 & 31)) | (A32 << ((32 - (B32 & 31)) & 31)))
      case 0x79: sp[-1] = sp[-1] ? (uint64_t)__builtin_clzll(sp[-1]) : 64; break;
      case 0x7a: sp[-1] = sp[-1] ? (uint64_t)__builtin_ctzll(sp[-1]) : 64; break;
      case 0x7b: sp[-1] = (uint64_t)__builtin_popcountll(sp[-1]); break;
      case 0x7c: R64(A64 + B64)
      case 0x7d: R64(A64 - B64)
      case 0x7e: R64(A64 * B64)
      case 0x7f: if (!B64) TRAP("integer divide by zero"); if (A64 == 1ull << 63 && S64B == -1) TRAP("integer overflow"); R64(S64A / S64B)
      case 0x80: if (!B64) TRAP("integer divide by zero"); R64(A64 / B64)
      case 0x81: if (!B64) TRAP("integer divide by zero"); R64(S64B == -1 ? 0 : S64A % S64B)
      case 0x82: if (!B64) TRAP("integer divide by zero"); R64(A64 % B64)
      case 0x83: R64(A64 & B64)
      case 0x84: R64(A64 | B64)
      case 0x85: R64(A64 ^ B64)
      case 0x86: R64(A64 << (B64 & 63))
      case 0x87: R64(S64A >> (B64 & 63))
      case 0x88: R64(A64 >> (B64 & 63))
      case 0x89: R64((A64 << (B64 & 63)) | (A64 >> ((64 - (B64 & 63)) & 63)))
      case 0x8a: R64((A64 >> (B64 & 63)) | (A64 << ((64 - (B64 & 63)) & 63)))
      case 0xa7: sp[-1] = (uint32_t)sp[-1]; break;
      case 0xac: sp[-1] = (uint64_t)(int64_t)(int32_t)sp[-1]; break;
      case 0xad: sp[-1] = (uint32_t)sp[-1]; break;
      case 0xc0: sp[-1] = (uint32_t)(int32_t)(int8_t)sp[-1]; break;
      case 0xc1: sp[-1] = (uint32_t)(int32_t)(int16_t)sp[-1]; break;
      case 0xc2: sp[-1] = (uint64_t)(int64_t)(int8_t)sp[-1]; break;
      case 0xc3: sp[-1] = (uint64_t)(int64_t)(int16_t)sp[-1]; break;
      case 0xc4: sp[-1] = (uint64_t)(int64_t)(int32_t)sp[-1]; break;
      default: TRAP("bad instruction");
    }
  }
trap:
  free(fr);
  return false;
}

/* ------------------------------------------------------------------ C API */
void wasmer_set_opcode_costs(const uint32_t *p) { memcpy(g_costs, p, sizeof g_costs); }
uint32_t wasmsim_ncosts(void) { return OPCODE_COUNT; }
void wasmsim_get_costs(uint32_t *p) { memcpy(p, g_costs, sizeof g_costs); }

void *wasmer_import_func_new(void (*func)(void *), const uint32_t *params, unsigned np, const uint32_t *returns, unsigned nr) {
  import_func *f = calloc(1, sizeof *f);
  f->func = func; f->np = np; f->nr = nr;
  for (unsigned i = 0; i < np && i < 32; i++) f->p[i] = (uint8_t)params[i];
  if (nr) f->r = (uint8_t)returns[0];
  return f;
}
void wasmer_import_func_destroy(void *f) { free(f); }

static int cmpimp(const void *a, const void *b) { return strcmp(((const gimport *)a)->name, ((const gimport *)b)->name); }
int wasmer_import_object_cache_from_imports(import_t *imports, unsigned n) {
  pthread_mutex_lock(&lock);
  for (int i = 0; i < MODCACHE; i++) if (g_mods[i]) { module_unref(g_mods[i]); g_mods[i] = NULL; }
  g_imports = calloc(n + 1, sizeof(gimport)); g_nimports = n;
  for (unsigned i = 0; i < n; i++) {
    g_imports[i].name = strndup((const char *)imports[i].import_name.bytes, imports[i].import_name.bytes_len);
    g_imports[i].f = *imports[i].func;
  }
  qsort(g_imports, n, sizeof(gimport), cmpimp);
  pthread_mutex_unlock(&lock);
  return OK;
}
uint32_t wasmsim_nimports(void) { return g_nimports; }
const char *wasmsim_import_name(uint32_t i) { return i < g_nimports ? g_imports[i].name : ""; }

static bool alive(const inst_t *in) {
  if (in && in->magic == ALIVE) return true;
  __sync_fetch_and_add(&g_misuse, 1);
  return false;
}

/* what a contract can tell about the instance it starts in: memory and globals */
static uint64_t statehash(inst_t *in) {
  uint64_t h = in->mem ? in->mem->pages : 0;
  if (in->mem) for (uint32_t i = 0; i < in->mem->pages; i++) h = (h ^ pagehash(in->mem->data + (uint64_t)i * PAGE)) * 0x100000001b3ull;
  for (uint32_t i = 0; i < in->m->nglobals; i++) h = (h ^ in->globals[i]) * 0x100000001b3ull;
  return h;
}
static int instantiate(inst_t **out, module_t *m, const options_t *o) {
  inst_t *in = calloc(1, sizeof *in);
  in->magic = ALIVE; in->m = m; in->ctx.inst = in;
  in->limit = o->gas_limit; in->use_brk = o->breakpoints;
  if (m->has_mem) {
    in->mem = calloc(1, sizeof(mem_t)); in->mem->refs = 1; in->mem->pages = m->mem_min; in->mem->maxpages = m->mem_max;
    in->mem->data = calloc((uint64_t)m->mem_min * PAGE + 16, 1);
    for (uint32_t i = 0; i < m->ndatas; i++) memcpy(in->mem->data + m->datas[i].off, m->datas[i].bytes, m->datas[i].n);
  }
  in->globals = calloc(m->nglobals + 1, 8);
  for (uint32_t i = 0; i < m->nglobals; i++) in->globals[i] = m->globals[i].init;
  in->table = malloc(4 * (uint64_t)(m->table_size + 1));
  memset(in->table, 0xff, 4 * (uint64_t)(m->table_size + 1));
  for (uint32_t i = 0; i < m->nelems; i++) memcpy(in->table + m->elems[i].off, m->elems[i].funcs, 4 * (uint64_t)m->elems[i].n);
  in->id = g_nextid++;
  if (g_mem_on) in->inithash = statehash(in);
  g_live++;
  if (g_trace_on) { uint64_t *e = ev(EV_NEW, in->id); e[2] = m->hash; e[3] = in->limit; e[4] = m->costhash; }
  *out = in;
  return OK;
}

int wasmer_instantiate_with_options(inst_t **out, uint8_t *bytes, uint32_t n, const options_t *o) {
  pthread_mutex_lock(&lock);
  int rc = ERR;
  if (fault(F_INSTANTIATE)) seterr("injected: instantiation failed");
  else {
    module_t *m = get_module(bytes, n, o->unmetered_locals, g_costs, o->metering);
    if (m) rc = instantiate(out, m, o);
  }
  pthread_mutex_unlock(&lock);
  return rc;
}

#define HDR (8 + 8 + 8 + 8 + OPCODE_COUNT * 4 + 8)
int wasmer_instance_cache(inst_t *in, const uint8_t **bytes, uint32_t *len) {
  if (!alive(in)) return ERR;
  if (fault(F_CACHE)) { seterr("injected: cache failed"); return ERR; }
  module_t *m = in->m;
  uint32_t n = HDR + m->nbytes; uint8_t *b = malloc(n);
  memcpy(b, "WASMSIM1", 8); memcpy(b + 8, &m->unmetered, 8);
  uint64_t fl = m->metering, l = m->nbytes; memcpy(b + 16, &fl, 8); memcpy(b + 24, &l, 8);
  memcpy(b + 32, m->costs, OPCODE_COUNT * 4); memcpy(b + HDR, m->bytes, m->nbytes);
  uint64_t h = fnv(b, HDR - 8) ^ fnv(m->bytes, m->nbytes);
  memcpy(b + HDR - 8, &h, 8);
  *bytes = b; *len = n;
  return OK;
}
int wasmer_instance_from_cache(inst_t **out, uint8_t *b, uint32_t n, const options_t *o) {
  pthread_mutex_lock(&lock);
  int rc = ERR;
  if (fault(F_FROMCACHE)) seterr("injected: cached code rejected");
  else if (n < HDR || memcmp(b, "WASMSIM1", 8)) seterr("cached code: bad format");
  else {
    uint64_t un, fl, l, h; uint32_t costs[OPCODE_COUNT];
    memcpy(&un, b + 8, 8); memcpy(&fl, b + 16, 8); memcpy(&l, b + 24, 8); memcpy(&h, b + HDR - 8, 8);
    memcpy(costs, b + 32, sizeof costs);
    if (l + HDR != n || h != (fnv(b, HDR - 8) ^ fnv(b + HDR, n - HDR))) seterr("cached code: corrupted");
    else { module_t *m = get_module(b + HDR, (uint32_t)l, un, costs, fl != 0); if (m) rc = instantiate(out, m, o); }
  }
  pthread_mutex_unlock(&lock);
  return rc;
}

void wasmer_instance_destroy(inst_t *in) {
  pthread_mutex_lock(&lock);
  if (alive(in)) {
    if (g_trace_on) ev(EV_DESTROY, in->id);
    in->magic = DEAD; g_live--;
    for (stk *s = in->stacks; s;) { stk *nx = s->next; free(s->slots); free(s); s = nx; }
    in->stacks = NULL;
    mem_unref(in->mem); in->mem = NULL;
    free(in->globals); free(in->table); in->globals = NULL; in->table = NULL;
    module_unref(in->m); in->m = NULL;
    /* the shell stays for a while, so that use after destruction is seen */
    if (g_dead_tail) g_dead_tail->nextdead = in; else g_dead_head = in;
    g_dead_tail = in;
    if (++g_ndead > 20000) { inst_t *x = g_dead_head; g_dead_head = x->nextdead; g_ndead--; free(x); }
  }
  pthread_mutex_unlock(&lock);
}

int wasmer_instance_call(inst_t *in, const char *name, const wvalue_t *params, uint32_t np, wvalue_t *results, uint32_t nr) {
  if (!alive(in)) { seterr("instance destroyed"); return ERR; }
  module_t *m = in->m; exp_t *e = NULL;
  for (uint32_t i = 0; i < m->nexps; i++) if (m->exps[i].kind == 0 && !strcmp(m->exps[i].name, name)) { e = &m->exps[i]; break; }
  if (!e || e->idx < m->nimps) { seterr("exported function not found"); return ERR; }
  func_t *f = &m->funcs[e->idx - m->nimps]; ftype *t = &m->types[f->type];
  if (t->np != np || t->nr != nr) { seterr("argument count mismatch"); return ERR; }
  stk *s;
  for (s = in->stacks; s && s->busy; s = s->next);
  if (!s) { s = calloc(1, sizeof *s); s->slots = malloc(MAX_STACK * 8); s->next = in->stacks; in->stacks = s; }
  s->busy = true;
  for (uint32_t i = 0; i < np; i++) s->slots[i] = t->p[i] == T_I32 ? (uint32_t)params[i].value.I32 : (uint64_t)params[i].value.I64;
  uint32_t id = in->id;
  if (g_trace_on) {
    uint64_t *x = ev(EV_ENTER, id); size_t l = strlen(name), cap = 8 * (EVW - 7) - 1;
    x[2] = m->hash; x[3] = in->points; x[4] = in->limit; x[5] = m->costhash; memcpy(&x[6], name, l < cap ? l : cap);
    x[EVW - 1] = g_mem_on && in->inithash ? statehash(in) == in->inithash : 1;
  }
  bool ok;
  if (fault(F_CALL)) { trapmsg = "injected: engine trap"; ok = false; }
  else ok = run(in, e->idx - m->nimps, s->slots);
  if (g_trace_on) { uint64_t *x = ev(EV_EXIT, id); x[2] = ok; x[3] = in->points; x[4] = in->brk; }
  s->busy = false;
  if (!ok) { snprintf(g_err, sizeof g_err, "wasm trap: %s", trapmsg); return ERR; }
  if (nr) { results[0].tag = t->r == T_I64; if (t->r == T_I32) results[0].value.I32 = (int32_t)s->slots[0]; else results[0].value.I64 = (int64_t)s->slots[0]; }
  return OK;
}

uint64_t wasmer_instance_get_points_used(inst_t *in) { return alive(in) ? in->points : 0; }
void wasmer_instance_set_points_used(inst_t *in, uint64_t p) { if (alive(in)) in->points = p; }
void wasmer_instance_set_points_limit(inst_t *in, uint64_t l) { if (alive(in)) in->limit = l; }
void wasmer_instance_set_runtime_breakpoint_value(inst_t *in, uint64_t v) { if (alive(in)) in->brk = v; }
uint64_t wasmer_instance_get_runtime_breakpoint_value(inst_t *in) { return alive(in) ? in->brk : 0; }
bool wasmer_instance_is_function_imported(inst_t *in, const char *name) {
  if (!alive(in)) return false;
  for (uint32_t i = 0; i < in->m->nimps; i++) if (!strcmp(in->m->imps[i].name, name)) return true;
  return false;
}
const void *wasmer_instance_context_get(inst_t *in) { alive(in); return &in->ctx; }
void *wasmer_instance_context_data_get(const ctx_t *c) { alive(c->inst); return c->data; }
void wasmer_instance_context_data_set(inst_t *in, void *d) { if (alive(in)) in->ctx.data = d; }
const void *wasmer_instance_context_memory(const ctx_t *c, uint32_t idx) { (void)idx; return alive(c->inst) ? c->inst->mem : NULL; }

typedef struct { inst_t *in; module_t *m; } exports_t;
typedef struct { inst_t *in; exp_t *e; func_t *f; } export_h;
typedef struct { uint32_t n; export_h h[]; } exports_list;
void wasmer_instance_exports(inst_t *in, exports_list **out) {
  if (!alive(in)) { *out = calloc(1, sizeof(exports_list)); return; }
  module_t *m = in->m;
  exports_list *l = calloc(1, sizeof *l + m->nexps * sizeof(export_h));
  l->n = m->nexps;
  for (uint32_t i = 0; i < m->nexps; i++) l->h[i] = (export_h){in, &m->exps[i], NULL};
  *out = l;
}
void wasmer_exports_destroy(exports_list *l) { free(l); }
int wasmer_exports_len(exports_list *l) { return (int)l->n; }
export_h *wasmer_exports_get(exports_list *l, int i) { return &l->h[i]; }
uint32_t wasmer_export_kind(export_h *h) { static const uint8_t k[] = {0, 3, 2, 1}; return k[h->e->kind]; }
byte_array wasmer_export_name(export_h *h) { return (byte_array){(const uint8_t *)h->e->name, h->e->len}; }
const void *wasmer_export_to_func(const export_h *h) { return h; }
int wasmer_export_to_memory(const export_h *h, mem_t **out) { *out = h->in->mem; if (h->in->mem) h->in->mem->refs++; return OK; }
static ftype *eft(const export_h *h) { module_t *m = h->in->m; uint32_t i = h->e->idx; return &m->types[i < m->nimps ? m->imps[i].type : m->funcs[i - m->nimps].type]; }
int wasmer_export_func_params_arity(const export_h *h, uint32_t *r) { *r = eft(h)->np; return OK; }
int wasmer_export_func_returns_arity(const export_h *h, uint32_t *r) { *r = eft(h)->nr; return OK; }
int wasmer_export_func_params(const export_h *h, uint32_t *p, uint32_t n) { ftype *t = eft(h); if (n != t->np) return ERR; for (uint32_t i = 0; i < n; i++) p[i] = t->p[i] == T_I64; return OK; }

int wasmer_last_error_length(void) { return g_err[0] ? (int)strlen(g_err) + 1 : 0; }
int wasmer_last_error_message(char *b, int n) { int l = (int)strlen(g_err) + 1; if (n < l) return -1; memcpy(b, g_err, l); return l; }

uint8_t *wasmer_memory_data(const mem_t *m) { return m->data; }
uint32_t wasmer_memory_data_length(mem_t *m) { return m->pages * PAGE; }
int wasmer_memory_grow(mem_t *m, uint32_t d) { if (mem_grow(m, d)) return OK; seterr("memory grow failed"); return ERR; }
void wasmer_memory_destroy(mem_t *m) { pthread_mutex_lock(&lock); mem_unref(m); pthread_mutex_unlock(&lock); }
