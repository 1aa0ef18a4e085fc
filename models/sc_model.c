/* Models of the libsc services t8code uses (binary-only here): integer powers, memory pools, arrays, allocation. */
#include <sc.h>
#include <sc_containers.h>
#include <sc_functions.h>
#include <string.h>
void *vp_alloc (size_t);
int sc_intpow (int base, int exp) { int r = 1; for (int i = 0; i < exp; i++) r *= base; return r; }
int64_t sc_intpow64 (int64_t base, int exp) { int64_t r = 1; for (int i = 0; i < exp; i++) r *= base; return r; }
uint64_t sc_intpow64u (uint64_t base, int exp) { uint64_t r = 1; for (int i = 0; i < exp; i++) r *= base; return r; }
sc_mempool_t *sc_mempool_new (size_t elem_size)
{
  sc_mempool_t *p = (sc_mempool_t *) malloc (sizeof (sc_mempool_t));
  p->elem_size = elem_size; p->elem_count = 0; p->zero_and_persist = 0;
  p->mstamp.elem_size = elem_size;
  p->freed.elem_size = sizeof (void *); p->freed.elem_count = 0; p->freed.byte_alloc = 0; p->freed.array = 0;
  return p;
}
void sc_mempool_destroy (sc_mempool_t *p) { free (p); }
void *sc_mstamp_alloc (sc_mstamp_t *m) { return malloc (m->elem_size); }
#define L4(n) n, n, n, n
#define L16(n) L4 (n), L4 (n), L4 (n), L4 (n)
#define L64(n) L16 (n), L16 (n), L16 (n), L16 (n)
const int sc_log2_lookup_table[256] = { -1, 0, 1, 1, L4 (2), L4 (3), L4 (3), L16 (4), L16 (5), L16 (5), L64 (6), L64 (7), L64 (7) };
/* dynamic arrays: growth to the next power of two, contents preserved; qsort and bsearch by their contracts */
static size_t vp_round2 (size_t n) { size_t r = 1; while (r < n) r <<= 1; return r; }
void sc_array_init (sc_array_t *a, size_t s) { a->elem_size = s; a->elem_count = 0; a->byte_alloc = 0; a->array = 0; }
void sc_array_init_count (sc_array_t *a, size_t s, size_t n)
{
  a->elem_size = s; a->elem_count = n; a->byte_alloc = (ssize_t) (s * n); a->array = n ? (char *) malloc (s * n) : 0;
}
void sc_array_init_size (sc_array_t *a, size_t s, size_t n) { sc_array_init_count (a, s, n); }
void sc_array_init_view (sc_array_t *v, sc_array_t *a, size_t off, size_t len)
{
  v->elem_size = a->elem_size; v->elem_count = len; v->byte_alloc = -(ssize_t) (len * a->elem_size + 1); v->array = a->array + off * a->elem_size;
}
void sc_array_init_data (sc_array_t *v, void *base, size_t s, size_t n)
{
  v->elem_size = s; v->elem_count = n; v->byte_alloc = -(ssize_t) (n * s + 1); v->array = (char *) base;
}
sc_array_t *sc_array_new (size_t s) { sc_array_t *a = (sc_array_t *) malloc (sizeof (sc_array_t)); sc_array_init (a, s); return a; }
sc_array_t *sc_array_new_count (size_t s, size_t n) { sc_array_t *a = (sc_array_t *) malloc (sizeof (sc_array_t)); sc_array_init_count (a, s, n); return a; }
sc_array_t *sc_array_new_view (sc_array_t *b, size_t off, size_t len) { sc_array_t *a = (sc_array_t *) malloc (sizeof (sc_array_t)); sc_array_init_view (a, b, off, len); return a; }
sc_array_t *sc_array_new_data (void *b, size_t s, size_t n) { sc_array_t *a = (sc_array_t *) malloc (sizeof (sc_array_t)); sc_array_init_data (a, b, s, n); return a; }
void sc_array_reset (sc_array_t *a) { if (a->byte_alloc > 0) free (a->array); a->elem_count = 0; a->byte_alloc = 0; a->array = 0; }
void sc_array_truncate (sc_array_t *a) { a->elem_count = 0; }
void sc_array_rewind (sc_array_t *a, size_t n) { a->elem_count = n; }
void sc_array_destroy (sc_array_t *a) { if (a->byte_alloc > 0) free (a->array); free (a); }
void sc_array_destroy_null (sc_array_t **a) { sc_array_destroy (*a); *a = 0; }
void sc_array_memset (sc_array_t *a, int c) { memset (a->array, c, a->elem_size * a->elem_count); }
void sc_array_resize (sc_array_t *a, size_t n)
{
  if (a->byte_alloc < 0) { a->elem_count = n; return; } /* view */
  const size_t old = a->elem_count * a->elem_size, nw = n * a->elem_size;
  if (n == 0) { sc_array_reset (a); return; }
  a->elem_count = n;
  if (nw > (size_t) a->byte_alloc) {
    const size_t cap = vp_round2 (nw);
    char *p = (char *) malloc (cap);
    for (size_t i = 0; i < old; i++) p[i] = a->array[i];
    if (a->byte_alloc > 0) free (a->array);
    a->array = p; a->byte_alloc = (ssize_t) cap;
  }
}
void sc_array_copy (sc_array_t *d, sc_array_t *s) { sc_array_resize (d, s->elem_count); for (size_t i = 0; i < s->elem_count * s->elem_size; i++) d->array[i] = s->array[i]; }
void sc_array_copy_into (sc_array_t *d, size_t off, sc_array_t *s)
{
  for (size_t i = 0; i < s->elem_count * s->elem_size; i++) d->array[off * s->elem_size + i] = s->array[i];
}
void sc_array_sort (sc_array_t *a, int (*cmp) (const void *, const void *))
{
  const size_t z = a->elem_size;
  for (size_t i = 1; i < a->elem_count; i++)
    for (size_t j = i; j > 0 && cmp (a->array + (j - 1) * z, a->array + j * z) > 0; j--)
      for (size_t k = 0; k < z; k++) { char t = a->array[(j - 1) * z + k]; a->array[(j - 1) * z + k] = a->array[j * z + k]; a->array[j * z + k] = t; }
}
int sc_array_is_sorted (sc_array_t *a, int (*cmp) (const void *, const void *))
{
  for (size_t i = 1; i < a->elem_count; i++) if (cmp (a->array + (i - 1) * a->elem_size, a->array + i * a->elem_size) > 0) return 0;
  return 1;
}
int sc_array_is_equal (sc_array_t *a, sc_array_t *b)
{
  if (a->elem_size != b->elem_size || a->elem_count != b->elem_count) return 0;
  for (size_t i = 0; i < a->elem_count * a->elem_size; i++) if (a->array[i] != b->array[i]) return 0;
  return 1;
}
ssize_t sc_array_bsearch (sc_array_t *a, const void *key, int (*cmp) (const void *, const void *))
{
  size_t lo = 0, hi = a->elem_count;
  while (lo < hi) {
    const size_t m = (lo + hi) / 2;
    const int c = cmp (key, a->array + m * a->elem_size);
    if (c == 0) return (ssize_t) m;
    if (c < 0) hi = m; else lo = m + 1;
  }
  return -1;
}
