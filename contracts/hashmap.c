/* The hash map used by the ddebug filter, the function tables and the probes.
 * Text under proof: src/interflop-stdlib/hashmap/vfc_hashmap.c, verbatim. Each operation is
 * proved from every state that satisfies the representation invariant INV at a given capacity,
 * and INV is proved to be established by create and preserved, including across the growth to
 * the next capacity; so the contracts hold after any history within the capacities checked. The
 * content of a map is the set of the pairs (key, value) inserted and not removed; values are distinct,
 * a key may come with several values (two names with the same hash). */
#include "vf.h"
#include <stdlib.h>
#include "interflop/interflop_stdlib.h"
#ifndef CAP
#define CAP 8
#endif
interflop_malloc_t interflop_malloc;
interflop_free_t interflop_free;
interflop_calloc_t interflop_calloc;
static void *std_malloc(size_t n) { return malloc(n); }
static void *std_calloc(size_t n, size_t s) { return calloc(n, s); }
/* freed(p): how often the witness pointer was freed */
static void *watch;
static unsigned freed, frees;
static void vf_free(void *p) {
  frees++;
  if (p == watch)
    freed++;
#ifdef VF_REALFREE
  free(p);
#endif
}
/* calloc, for the table grown to: zeroed memory of the size asked, which must be enough */
static uint64_t fresh[4 * CAP];
static unsigned allocs;
static void *vf_calloc(size_t n, size_t size) {
  allocs++;
#if !defined VF_NATIVE && !defined VF_GROW
  VF_STOP();
#endif
  POST(n * size <= sizeof fresh, "insert: grows by doubling");
#ifdef VF_NATIVE
  return calloc(n, size);
#else
  for (size_t i = 0; i < 4 * CAP; i++)
    fresh[i] = 0;
  return fresh;
#endif
}
#include "interflop/hashmap/vfc_hashmap.c"

static uint64_t in_v[CAP], in_k[CAP];
VF_INPUT(uint64_t, q); /* a key, any: what the map answers for it */
VF_INPUT(uint64_t, qv); /* a value, any */
VF_INPUT(uint64_t, key);
VF_INPUT(uint64_t, val);
VF_INPUT(uint8_t, slot);
static ISize_t items[2 * CAP];
static struct vfc_hashmap_st the_map;
static bool live(uint64_t v) { return v != 0 && v != 1; }
/* the answers the map owes, from the abstract content */
static bool has(uint64_t *it, size_t cap, uint64_t k) {
  bool r = false;
  for (size_t i = 0; i < cap; i++)
    if (live(it[2 * i]) && it[2 * i + 1] == k)
      r = true;
  return r;
}
static bool pair(uint64_t *it, size_t cap, uint64_t k, uint64_t v) {
  bool r = false;
  for (size_t i = 0; i < cap; i++)
    if (live(it[2 * i]) && it[2 * i + 1] == k && it[2 * i] == v)
      r = true;
  return r;
}
static size_t with_key(uint64_t *it, size_t cap, uint64_t k) {
  size_t n = 0;
  for (size_t i = 0; i < cap; i++)
    n += live(it[2 * i]) && it[2 * i + 1] == k;
  return n;
}
static size_t count(uint64_t *it, size_t cap, bool dead) {
  size_t n = 0;
  for (size_t i = 0; i < cap; i++)
    n += dead ? it[2 * i] == 1 : live(it[2 * i]);
  return n;
}
/* INV, for the witness slot w: bookkeeping; a free slot remains; every element is found from the
 * slot its key hashes to before any free slot; values are distinct */
static bool inv_at(struct vfc_hashmap_st *m, size_t cap, size_t nbits, size_t w) {
  uint64_t *it = m->items;
  if (m->capacity != cap || m->mask != cap - 1 || m->nbits != nbits)
    return false;
  size_t n = count(it, cap, false), d = count(it, cap, true);
  if (m->nitems != n || m->n_deleted_items != d || n + d >= cap)
    return false;
  if (!live(it[2 * w]))
    return true;
  uint64_t k = it[2 * w + 1], v = it[2 * w];
  (void)k;
  size_t i = (cap - 1) & (73u * k);
  bool ok = true, found = false;
#ifndef VF_COMP /* not needed there: an invariant of the callee */
  for (size_t s = 0; s < cap; s++) {
    if (i == w)
      found = true;
    if (!found && it[2 * i] == 0)
      ok = false;
    i = (cap - 1) & (i + 5009);
  }
#endif
  for (size_t j = 0; j < cap; j++)
    if (j != w && live(it[2 * j]) && it[2 * j] == v)
      ok = false;
  return ok;
}
static size_t log2_(size_t c) { return c == 8 ? 3 : c == 16 ? 4 : c == 32 ? 5 : c == 64 ? 6 : 7; }
/* the growth rule keeps the map below 85 % between operations */
static bool inv(struct vfc_hashmap_st *m, size_t cap) {
  bool ok = !(m->nitems + m->n_deleted_items >= (double)cap * 0.85);
  for (size_t w = 0; w < cap; w++)
    ok = ok && inv_at(m, cap, log2_(cap), w);
  return ok;
}
static uint64_t old_items[2 * CAP];
/* Keys and values are only compared for equality and (keys) hashed to a slot: enough low bits for
 * every slot of the grown table and enough high ones for every element give every pattern of
 * equalities and slots that a map of this size can show. */
#define KEYBITS (CAP <= 8 ? 4 : CAP <= 16 ? 5 : 6)
#define VALBITS (CAP <= 8 ? 4 : CAP <= 16 ? 5 : 6)
#define HIGH (CAP <= 8 ? 3 : CAP <= 16 ? 4 : 5)
static uint64_t mkkey(uint16_t b) { return (b & ((1u << KEYBITS) - 1)) | (uint64_t)(b >> KEYBITS & ((1u << HIGH) - 1)) << 40; }
static uint64_t mkval(uint16_t b) { return (b & ((1u << VALBITS) - 1)) | (uint64_t)(b >> VALBITS & 1) << 40; }
static bool winv(struct vfc_hashmap_st *m, size_t cap);
static void start(void) {
  interflop_malloc = std_malloc;
  interflop_calloc = vf_calloc;
  interflop_free = vf_free;
#ifdef VF_NATIVE
  VF_GET(q); VF_GET(qv); VF_GET(key); VF_GET(val);
#endif
  VF_RANGE(slot, 0, 2 * CAP - 1);
  the_map.capacity = CAP;
  the_map.mask = CAP - 1;
  the_map.nbits = log2_(CAP);
  the_map.items = items;
  watch = (void *)items;
  freed = frees = 0;
#ifdef VF_NATIVE
  /* any sequence of insertions and removals leads to a state within INV */
  extern void vf_range(const char *, void *, size_t, unsigned long long, unsigned long long);
  uint8_t n;
  vf_range("in_n", &n, 1, 0, CAP - 2);
  memset(items, 0, sizeof items);
  the_map.nitems = the_map.n_deleted_items = 0;
  for (int i = 0; i < n; i++) {
    char nm[16];
    uint64_t k, v;
    uint8_t dead;
    sprintf(nm, "in_k[%d]", i);
    vf_range(nm, &k, 8, 0, 40 * 8);
    k = k / 8 | (k & 7) << 40;
    sprintf(nm, "in_v[%d]", i);
    vf_range(nm, &v, 8, 2, 127 * 8);
    v = v / 8 | (v & 7) << 40;
    if (!live(v)) continue;
    sprintf(nm, "in_d[%d]", i);
    vf_range(nm, &dead, 1, 0, 5);
    size_t at = (CAP - 1) & (73u * k);
    bool dup = false;
    for (int j = 0; j < CAP; j++)
      if (live(items[2 * j]) && items[2 * j] == v)
        dup = true;
    if (dup)
      continue;
    while (live(items[2 * at]))
      at = (CAP - 1) & (at + 5009);
    items[2 * at] = v;
    items[2 * at + 1] = k;
    if (dead == 0)
      items[2 * at] = 1;
  }
  the_map.nitems = count(items, CAP, false);
  the_map.n_deleted_items = count(items, CAP, true);
  if (vf_searching()) {
    if (in_q % 3) { in_q = in_q % 41 | (in_q >> 32 & 7) << 40; vf_record("in_q", &in_q, 8); }
    if (in_key % 3) { in_key = in_key % 41 | (in_key >> 32 & 7) << 40; vf_record("in_key", &in_key, 8); }
    if (in_qv % 3) { in_qv = in_qv % 5 == 0 ? in_val : 2 + in_qv % 100; vf_record("in_qv", &in_qv, 8); }
    if (in_val % 3) { in_val = 2 + in_val % 100; vf_record("in_val", &in_val, 8); }
  }
#else
  for (int i = 0; i < CAP; i++) {
    uint16_t v, k;
    items[2 * i] = in_v[i] = mkval(v);
    items[2 * i + 1] = in_k[i] = mkkey(k);
  }
  uint16_t q, k, v, qv;
  in_q = mkkey(q);
  in_qv = mkval(qv);
  in_key = mkkey(k);
  in_val = mkval(v);
  uint8_t n, d;
  the_map.nitems = n;
  the_map.n_deleted_items = d;
#endif
#ifdef VF_WEAK
  VF_ASSUME(winv(&the_map, CAP));
#else
  VF_ASSUME(inv(&the_map, CAP));
#endif
  for (size_t i = 0; i < 2 * CAP; i++)
    old_items[i] = items[i];
}
static bool hasval(uint64_t *it, size_t cap, uint64_t v) {
  bool r = false;
  for (size_t i = 0; i < cap; i++)
    if (live(it[2 * i]) && it[2 * i] == v)
      r = true;
  return r;
}
/* INV without the 85 % rule, which holds again only after the growth */
static bool winv(struct vfc_hashmap_st *m, size_t cap) {
  bool ok = true;
  for (size_t w = 0; w < cap; w++)
    ok = ok && inv_at(m, cap, log2_(cap), w);
  return ok;
}
#ifndef VF_NATIVE
/* The contract of hashmap_add_member, for its callers (h_add proves it): a new pair added to a table
 * within winv keeps it within winv, takes one slot that held no element, and the content of the
 * table is what it was plus the pair. In the old table the slot is any such slot; the content of
 * the table being built is tracked as the list of pairs added to it (winv being what the contract
 * gives), and its memory is left unknown. */
static bool first_done, building;
static uint64_t gv[2 * CAP];
static size_t gn;
static bool gq_has;
int stub_add(vfc_hashmap_t m, ISize_t key, void *item) {
  uint64_t v = (uint64_t)item;
  if (!live(v))
    return -1;
  if (m->items == items) {
    bool same = true;
    for (size_t i = 0; i < 2 * CAP; i++)
      same = same && items[i] == old_items[i];
    POST(same && !first_done && m->capacity == CAP && m->mask == CAP - 1 && m->nbits == log2_(CAP) && !hasval(items, CAP, v) &&
             m->nitems + m->n_deleted_items + 1 < CAP, "a new pair is added to the map, which has room");
    first_done = true;
    uint8_t w;
    VF_ASSUME(w < CAP && !live(items[2 * w]));
    m->nitems++;
    m->n_deleted_items -= items[2 * w] == 1;
    items[2 * w] = v;
    items[2 * w + 1] = key;
    return 1;
  }
  POST(m->items == fresh && m->capacity == 2 * CAP && m->mask == 2 * CAP - 1 && m->nbits == log2_(2 * CAP) && m->nitems == gn && m->n_deleted_items == 0, "a pair is added to the grown table");
  if (!building) {
    bool zero = true;
    for (size_t i = 0; i < 4 * CAP; i++)
      zero = zero && fresh[i] == 0;
    POST(zero, "the grown table starts empty");
    building = true;
  }
  bool isnew = true;
  for (size_t i = 0; i < CAP; i++)
    if (i < gn && gv[i] == v)
      isnew = false;
  POST(isnew && gn + 1 <= CAP, "a new pair is added to the grown table, which has room");
  gv[gn] = v;
  gn++;
  m->nitems++;
  if (key == in_q && v == in_qv)
    gq_has = true;
  for (size_t i = 0; i < 4 * CAP; i++) {
    uint64_t u;
    fresh[i] = u;
  }
  return 1;
}
#endif
void h_add(void) {
  start();
  VF_ASSUME(live(in_val) && !hasval(items, CAP, in_val) && the_map.nitems + the_map.n_deleted_items + 1 < CAP);
  size_t n0 = the_map.nitems, d0 = the_map.n_deleted_items;
  hashmap_add_member(&the_map, in_key, (void *)in_val);
  POST(the_map.nitems == n0 + 1 && (the_map.n_deleted_items == d0 || the_map.n_deleted_items + 1 == d0), "add: one more");
  POST(the_map.items == items && inv_at(&the_map, CAP, log2_(CAP), in_slot % CAP), "add: invariant");
  POST(pair(items, CAP, in_q, in_qv) == (pair(old_items, CAP, in_q, in_qv) || (in_q == in_key && in_qv == in_val)), "add: the content");
  size_t w = in_slot % CAP;
  POST((items[2 * w] == old_items[2 * w] && items[2 * w + 1] == old_items[2 * w + 1]) ||
           (!live(old_items[2 * w]) && items[2 * w] == in_val && items[2 * w + 1] == in_key), "add: one free slot is taken");
  POST(hasval(items, CAP, in_qv) == (hasval(old_items, CAP, in_qv) || in_qv == in_val), "add: the values");
  VF_REACH();
}
void h_add_mark(void) {
  start();
  VF_ASSUME(!live(in_val));
  size_t n0 = the_map.nitems, d0 = the_map.n_deleted_items;
  hashmap_add_member(&the_map, in_key, (void *)in_val);
  POST(the_map.nitems == n0 && the_map.n_deleted_items == d0 && the_map.items == items, "add: the marks are not elements");
  for (size_t i = 0; i < 2 * CAP; i++)
    POST(items[i] == old_items[i], "add: the marks are not elements");
  VF_REACH();
}
#define UNCHANGED()                                                                                 \
  for (size_t i = 0; i < 2 * CAP; i++)                                                              \
    POST(items[i] == old_items[i], "asking does not change the map");
void h_have(void) {
  start();
  char r = vfc_hashmap_have(&the_map, in_q);
  POST((r != 0) == has(old_items, CAP, in_q), "have: exactly the keys inserted and not removed");
  POST(vfc_hashmap_num_items(&the_map) == count(old_items, CAP, false), "the number of items is that of the elements");
  UNCHANGED()
  VF_REACH();
}
void h_get(void) {
  start();
  void *r = vfc_hashmap_get(&the_map, in_q);
  POST(r == NULL ? !has(old_items, CAP, in_q) : pair(old_items, CAP, in_q, (uint64_t)r), "get: the value inserted under the key, or NULL");
  UNCHANGED()
  VF_REACH();
}
void h_insert(void) {
  start();
  VF_ASSUME(live(in_val));
  bool again = pair(old_items, CAP, in_key, in_val);
  /* the values are addresses of distinct objects: a value belongs to one key; the same pair may come
   * again (a filter file, an address seen again) while nothing was removed */
  bool other = false;
  for (size_t i = 0; i < CAP; i++)
    if (live(old_items[2 * i]) && old_items[2 * i] == in_val && old_items[2 * i + 1] != in_key)
      other = true;
  VF_ASSUME(!other && (!again || the_map.n_deleted_items == 0));
#ifdef VF_GROW
  VF_ASSUME(!again); /* the same pair again: no growth */
#endif
  size_t n0 = the_map.nitems;
  vfc_hashmap_insert(&the_map, in_key, (void *)in_val);
  size_t cap = the_map.capacity;
  POST(cap == CAP || cap == 2 * CAP, "grows by doubling");
  bool grown = cap == 2 * CAP;
  bool whas = (in_q == in_key && in_qv == in_val) || pair(old_items, CAP, in_q, in_qv);
#ifdef VF_NATIVE
  {
    uint64_t g = (uint64_t)vfc_hashmap_get(&the_map, in_q);
    bool known = in_q == in_key || has(old_items, CAP, in_q);
    POST((vfc_hashmap_have(&the_map, in_q) != 0) == known &&
             (known ? pair(old_items, CAP, in_q, g) || (in_q == in_key && g == in_val) : g == 0),
         "insert: the key now has its value, every other key is as before");
  }
#endif
  POST(vfc_hashmap_num_items(&the_map) == n0 + !again, "insert: one more item, unless it was there");
#ifndef VF_GROW
  if (grown)
    VF_STOP();
#else
  if (!grown)
    VF_STOP();
#endif
  if (!grown) {
    POST(pair(items, CAP, in_q, in_qv) == whas, "insert: the content");
    POST(in_slot >= CAP || inv_at(&the_map, CAP, log2_(CAP), in_slot), "insert: invariant");
    POST(the_map.nitems + the_map.n_deleted_items < CAP * 0.85, "insert: room is left");
  } else {
#ifdef VF_COMP
    POST(!live(in_qv) || gq_has == whas, "insert: the content, after growth");
    POST(the_map.items == fresh && the_map.mask == 2 * CAP - 1 && the_map.nbits == log2_(2 * CAP) && the_map.nitems == gn &&
             the_map.n_deleted_items == 0 && gn < 2 * CAP * 0.85, "insert: invariant after growth");
#else
    POST(pair(the_map.items, 2 * CAP, in_q, in_qv) == whas, "insert: the content, after growth");
    POST(inv_at(&the_map, 2 * CAP, log2_(2 * CAP), in_slot), "insert: invariant after growth");
    POST(the_map.nitems + the_map.n_deleted_items < 2 * CAP * 0.85, "insert: room is left");
#endif
    POST(freed == 1 && frees == 1, "insert: the old table is freed once");
  }
  VF_REACH();
#ifdef VF_NATIVE
  if (grown) free(the_map.items);
#endif
}
void h_remove(void) {
  start();
  bool present = has(old_items, CAP, in_key);
  size_t n0 = the_map.nitems;
  vfc_hashmap_remove(&the_map, in_key);
  POST(with_key(items, CAP, in_q) == with_key(old_items, CAP, in_q) - (present && in_q == in_key),
       "remove: the key is gone (one of its values, if it has several), every other key is as before");
  POST(in_q == in_key ? !pair(items, CAP, in_q, in_qv) || pair(old_items, CAP, in_q, in_qv)
                      : pair(items, CAP, in_q, in_qv) == pair(old_items, CAP, in_q, in_qv), "remove: the content");
#ifdef VF_NATIVE
  POST((vfc_hashmap_have(&the_map, in_q) != 0) == has(items, CAP, in_q), "remove: what is left is found");
#endif
  POST(vfc_hashmap_num_items(&the_map) == n0 - present, "remove: one item less, if it was there");
  POST(in_slot >= CAP || inv_at(&the_map, CAP, log2_(CAP), in_slot), "remove: invariant");
  VF_REACH();
}
void h_create(void) {
  interflop_malloc = std_malloc;
  interflop_calloc = std_calloc;
  interflop_free = vf_free;
  VF_GET(q);
  vfc_hashmap_t m = vfc_hashmap_create();
  VF_ASSUME(m != NULL && m->items != NULL);
  POST(inv(m, 8), "create: invariant");
  POST(vfc_hashmap_num_items(m) == 0 && !vfc_hashmap_have(m, in_q) && vfc_hashmap_get(m, in_q) == NULL, "create: empty");
  watch = m->items;
  freed = frees = 0;
  vfc_hashmap_destroy(m);
  POST(freed == 1 && frees == 2, "destroy: the table and the map are freed, once");
  VF_REACH();
}
void h_free(void) {
  start();
  watch = (void *)in_val;
  VF_ASSUME(in_val != 0);
  bool in = false;
  for (size_t i = 0; i < CAP; i++)
    if (live(old_items[2 * i]) && old_items[2 * i] == in_val)
      in = true;
  freed = frees = 0;
  vfc_hashmap_free(&the_map);
  POST(freed == in, "free: every element is freed, once, and nothing else");
  POST(frees == count(old_items, CAP, false), "free: as many as elements");
  VF_REACH();
}
VF_INPUT(uint8_t, c);
/* the key of a name: the same for the same name (31-polynomial of its bytes), whatever its place in memory */
#define NAME 6
void h_str(void) {
  char s[NAME + 1];
  for (int i = 0; i < NAME; i++) {
    VF_GET(c);
    s[i] = (char)in_c;
  }
  s[NAME] = 0;
  size_t w = 0;
  for (int i = 0; i < NAME && s[i]; i++)
    w = w * 31 + (unsigned char)s[i];
  POST(vfc_hashmap_str_function(s) == w, "the key of a name is the polynomial of its characters");
  VF_REACH();
}
