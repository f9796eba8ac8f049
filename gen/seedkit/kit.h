/* allocation hooks that count live blocks, fail on demand and keep a header so foreign blocks are recognised */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <metaresc.h>
#define KMAGIC 0x5eedb10c5eedb10cULL
typedef struct { uint64_t magic, size; } khdr_t;
static int k_always;
#define KGUARD 16
static long k_over;
static void k_seal (khdr_t * h) { memset ((char*)(h + 1) + h->size, 0x5a, KGUARD); }
static void k_test (khdr_t * h) { for (int i = 0; i < KGUARD; ++i) if (((unsigned char*)(h + 1))[h->size + i] != 0x5a) { ++k_over; break; } }
static long k_live, k_left = -1, k_fails, k_bad, k_count;
static int k_fail (void) { ++k_count; if (k_left < 0) return 0; if (k_left == 0) { ++k_fails; if (!k_always) k_left = -1; return 1; } --k_left; return 0; }
static void * k_calloc (const char * f, const char * fn, int l, size_t n, size_t s)
{
  if (k_fail ()) return NULL;
  khdr_t * h = calloc (1, sizeof (*h) + n * s + KGUARD);
  if (!h) return NULL;
  h->magic = KMAGIC; h->size = n * s; ++k_live; k_seal (h);
  return h + 1;
}
static void * k_realloc (const char * f, const char * fn, int l, void * p, size_t s)
{
  if (k_fail ()) return NULL;
  khdr_t * o = p ? (khdr_t *) p - 1 : NULL;
  if (o && o->magic != KMAGIC) { ++k_bad; return NULL; }
  khdr_t * h = malloc (sizeof (*h) + s + KGUARD);
  if (!h) return NULL;
  memset (h, 0xa5, sizeof (*h) + s);
  h->magic = KMAGIC; h->size = s; ++k_live; k_seal (h);
  if (o) { k_test (o); memcpy (h + 1, o + 1, o->size < s ? o->size : s); memset (o, 0xdd, sizeof (*o) + o->size); o->magic = 0; free (o); --k_live; }
  return h + 1;
}
static void k_free (const char * f, const char * fn, int l, void * p)
{
  if (!p) return;
  khdr_t * h = (khdr_t *) p - 1;
  if (h->magic != KMAGIC) { ++k_bad; return; }
  k_test (h); memset (h, 0xdd, sizeof (*h) + h->size); h->magic = 0; --k_live; free (h);
}
static void k_on (void) { mr_conf.mr_mem.calloc = (void*)k_calloc; mr_conf.mr_mem.realloc = (void*)k_realloc; mr_conf.mr_mem.free = (void*)k_free; }
#define CHECK(c) do { if (!(c)) { printf ("FAILED line %d: %s\n", __LINE__, #c); exit (1); } } while (0)
