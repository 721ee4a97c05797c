// ThreadSanitizer instrumentation hooks: every memory access of library code comes here.
#include "internal.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <string>

std::vector<char *> REDZONES; uint8_t *REDZ;
LibInfo LIB; uint8_t *CONF, *CONF_P; volatile int *CONF_GEN; bool TRACK = true;
u64 world_hash();

static inline u64 mix2(u64 a, u64 v) { u64 h = (a * 0x9e3779b97f4a7c15ull) ^ (v * 0xc2b2ae3d27d4eb4full) ^ (v >> 29); h ^= h >> 31; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

// ---- incremental hash of the library's data
static std::vector<u64> contrib; static std::vector<uint8_t> dirty; static std::vector<uint32_t> dirtyl, touchedl; static u64 memh;
static std::vector<u64> accm, wrm; static std::vector<uint32_t> acctouch;

void mem_reset() {
  size_t n = (LIB.hi - LIB.lo + 7) / 8;
  if (contrib.size() != n) { contrib.assign(n, 0); dirty.assign(n, 0); accm.assign(n * 8, 0); wrm.assign(n * 8, 0); }
  for (auto g : touchedl) contrib[g] = 0;
  for (auto g : dirtyl) dirty[g] = 0;
  touchedl.clear(); dirtyl.clear(); memh = 0;
  for (auto b : acctouch) accm[b] = wrm[b] = 0;
  acctouch.clear();
}
static inline void mark(size_t off, size_t n) {
  for (size_t g = off / 8; g <= (off + n - 1) / 8; g++) if (!dirty[g]) { dirty[g] = 1; dirtyl.push_back(g); }
}
u64 fingerprint() {
  for (auto g : dirtyl) {
    dirty[g] = 0;
    u64 v = *(u64 *)(LIB.lo + g * 8ull);
    if (!contrib[g]) touchedl.push_back(g);
    u64 c = mix2(g + 1, v) | 1;
    memh ^= contrib[g] ^ c; contrib[g] = c;
  }
  dirtyl.clear();
  return mix2(memh, world_hash());
}

static inline u64 rd(const void *p, int n) { u64 v = 0; memcpy(&v, p, n > 8 ? 8 : n); return v; }
extern "C" bool spin_changed(Thr *t) {
  if (!t->last_addr || t->yieldcall) return W.steps > t->yield_step;
  return rd(t->last_addr, t->last_size) != t->last_val;
}
static void track(size_t off, size_t n, bool wr) {
  Thr *c = cur();
  u64 bit = 1ull << ((c->id * 2 + (c->depth > 0)) & 63);
  for (size_t b = off; b < off + n; b++) {
    if (!accm[b] && !wrm[b]) acctouch.push_back(b);
    accm[b] |= bit; if (wr) wrm[b] |= bit;
    if (wrm[b] && (accm[b] & (accm[b] - 1)) && !CONF[b]) { CONF[b] = 1; __sync_fetch_and_add(CONF_GEN, 1); }
  }
}
// called just before library code touches [p, p+n)
static inline void access(const void *p, size_t n, bool wr, bool atomic) {
  size_t off = (const char *)p - LIB.lo;
  if (off >= (size_t)(LIB.hi - LIB.lo) || !RUNNING) return;
  if (REDZ && (REDZ[off] || REDZ[off + n - 1])) { fail("CRASH", "memory beyond a static array is used (data offset %#zx)", off); return; }
  bool conf = false;
  for (size_t b = off; b < off + n; b++) if (CONF_P[b]) { conf = true; break; }
  if (conf && LIVE > 1) {
    Thr *c = cur();
    if (!wr || atomic) {
      // busy waiting: the same address with the same value again and again
      if (c->last_addr == p && c->last_size == (int)n && rd(p, n) == c->last_val) { if (++c->same >= 5) { if (c->nowait == c->depth + 1) fail("C21", "monitor_broadcast_signal waits for another thread"); c->yielding = true; if (VERBOSE) printf("  T%d spins at +%#lx value %lx\n", c->id, (long)off, c->last_val); } }
      else { c->same = 0; }
      point();
      if (c->last_addr != p || c->last_val != rd(p, n)) c->same = 0;
      c->last_addr = p; c->last_size = n; c->last_val = rd(p, n); c->yielding = false;
    } else { point(); c->same = 0; c->last_addr = nullptr; }
  }
  if (LIVE <= 1 && (!wr || atomic)) {   // alone: waiting for a value that nobody can change
    Thr *c = cur();
    if (c->last_addr == p && c->last_val == rd(p, n)) { if (++c->same > 3000) fail("HANG", "deadlock: T%d spins for ever at data offset %#zx%s", c->id, off, c->depth ? " (in a signal handler)" : ""); }
    else { c->same = 0; c->last_addr = p; c->last_size = n; c->last_val = rd(p, n); }
  }
  if (LIVE > 1 || W.proc > 0) track(off, n, wr);   // the child of a fork finds what the other threads had written
  if (conf && (!wr || atomic)) { mixh(off); mixh(rd(p, n)); if (n > 8) for (size_t i = 8; i < n; i += 8) mixh(rd((char *)p + i, n - i > 8 ? 8 : n - i)); }
  if (wr) mark(off, n);
}
void note_write(const void *p, size_t n) { size_t off = (const char *)p - LIB.lo; if (off < (size_t)(LIB.hi - LIB.lo) && n) mark(off, n); }

// the system reads or writes memory it was given
void sys_touch(const void *p, size_t n, bool wr) { if (p && n) access(p, n, wr, false); }

#define RW(n) EXPORT void __tsan_read##n(void *p) { access(p, n, false, false); } EXPORT void __tsan_write##n(void *p) { access(p, n, true, false); } \
  EXPORT void __tsan_unaligned_read##n(void *p) { access(p, n, false, false); } EXPORT void __tsan_unaligned_write##n(void *p) { access(p, n, true, false); } \
  EXPORT void __tsan_volatile_read##n(void *p) { access(p, n, false, false); } EXPORT void __tsan_volatile_write##n(void *p) { access(p, n, true, false); } \
  EXPORT void __tsan_read##n##_pc(void *p, void *) { access(p, n, false, false); } EXPORT void __tsan_write##n##_pc(void *p, void *) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false, false); }
EXPORT void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true, false); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void *, void *) {}
EXPORT void __tsan_vptr_read(void *) {}

#define ATOM(bits, T) \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int) { access((void *)p, sizeof(T), false, true); return *p; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, false); *p = v; } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = o + v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = o - v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = o & v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = o | v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = o ^ v; return o; } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { access((void *)p, sizeof(T), true, true); T o = *p; *p = ~(o & v); return o; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *)p, sizeof(T), true, true); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---- data objects of the library: a block write may not run from one into the next
#include <elf.h>
#include <link.h>
#include <dlfcn.h>
#include <map>
static std::map<size_t, std::pair<size_t, std::string>> OBJ;   // offset -> size, name
void load_objects(const char *file) {
  FILE *f = fopen(file, "rb"); if (!f) return;
  std::vector<char> b; char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
  fclose(f);
  struct link_map *lm; if (dlinfo(LIB.handle, RTLD_DI_LINKMAP, &lm)) return;
  Elf64_Ehdr *h = (Elf64_Ehdr *)b.data(); Elf64_Shdr *sh = (Elf64_Shdr *)(b.data() + h->e_shoff);
  for (int i = 0; i < h->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    Elf64_Sym *s = (Elf64_Sym *)(b.data() + sh[i].sh_offset); const char *str = b.data() + sh[sh[i].sh_link].sh_offset;
    for (size_t n = sh[i].sh_size / sizeof *s; n--; s++) if (ELF64_ST_TYPE(s->st_info) == STT_OBJECT && s->st_size) {
      char *a = (char *)lm->l_addr + s->st_value; if (a >= LIB.lo && a < LIB.hi) OBJ[a - LIB.lo] = {s->st_size, str + s->st_name};
    }
  }
}
static void bounds(const void *p, size_t n, const char *what) {
  if (!n || !RUNNING) return;
  size_t off = (const char *)p - LIB.lo; if (off >= (size_t)(LIB.hi - LIB.lo)) return;
  auto it = OBJ.upper_bound(off); if (it == OBJ.begin()) return; --it;
  size_t end = it->first + it->second.first;
  if (off < end ? off + n > end : n > 8) fail("CRASH", "%s of %zu bytes runs over the end of %s", what, n, it->second.second.c_str());
}

// block memory functions, in pieces so that they can be interrupted in the middle
static inline bool inlib(const void *p) { return (size_t)((const char *)p - LIB.lo) < (size_t)(LIB.hi - LIB.lo); }
EXPORT void *sim_memset(void *d, int c, size_t n) {
  if (!inlib(d) || !RUNNING) return memset(d, c, n);
  char *p = (char *)d; bounds(d, n, "memset");
  for (size_t i = 0; i < n;) { size_t k = 8 - ((u64)(p + i) & 7); if (k > n - i) k = n - i; access(p + i, k, true, false); memset(p + i, c, k); i += k; }
  return d;
}
EXPORT void *sim_memcpy(void *d, const void *s, size_t n) {
  if (!RUNNING || (!inlib(d) && !inlib(s))) return memcpy(d, s, n);
  char *p = (char *)d; const char *q = (const char *)s; bounds(d, n, "memcpy"); bounds(s, n, "memcpy");
  for (size_t i = 0; i < n; i += 8) { size_t k = n - i < 8 ? n - i : 8; if (inlib(q + i)) access(q + i, k, false, false); if (inlib(p + i)) access(p + i, k, true, false); memcpy(p + i, q + i, k); }
  return d;
}
EXPORT void *sim_memmove(void *d, const void *s, size_t n) { if (inlib(s) && n) access(s, n, false, false); bounds(d, n, "memmove"); bounds(s, n, "memmove"); if (inlib(d) && n) access(d, n, true, false); return memmove(d, s, n); }
EXPORT char *sim_strncpy(char *d, const char *s, size_t n) { bounds(d, n, "strncpy"); if (inlib(d) && n) access(d, n, true, false); return strncpy(d, s, n); }
EXPORT char *sim_strcpy(char *d, const char *s) { bounds(d, strlen(s) + 1, "strcpy"); if (inlib(d)) access(d, strlen(s) + 1, true, false); return strcpy(d, s); }
// sigset functions may be applied to library data
EXPORT int sim_sigemptyset(sigset_t *s) { if (inlib(s)) access(s, sizeof *s, true, false); return sigemptyset(s); }
EXPORT int sim_sigfillset(sigset_t *s) { if (inlib(s)) access(s, sizeof *s, true, false); return sigfillset(s); }
EXPORT int sim_sigaddset(sigset_t *s, int g) { if (inlib(s)) access(s, 8, true, true); return sigaddset(s, g); }
EXPORT int sim_sigismember(const sigset_t *s, int g) { if (inlib(s)) access(s, 8, false, true); return sigismember(s, g); }
EXPORT int sim_sigdelset(sigset_t *s, int g) { if (inlib(s)) access(s, 8, true, true); return sigdelset(s, g); }

// -fsanitize=bounds,object-size
EXPORT void __ubsan_handle_out_of_bounds(void *, unsigned long i) { fail("CRASH", "array index %ld is out of bounds", (long)i); }
EXPORT void __ubsan_handle_out_of_bounds_abort(void *, unsigned long i) { fail("CRASH", "array index %ld is out of bounds", (long)i); }
EXPORT void __ubsan_handle_type_mismatch_v1(void *, unsigned long p) { fail("CRASH", "access to %#lx, outside of its object", p); }
EXPORT void __ubsan_handle_type_mismatch_v1_abort(void *, unsigned long p) { fail("CRASH", "access to %#lx, outside of its object", p); }
