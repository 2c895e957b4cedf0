/* Independent reference of the documented random number source: dSFMT-19937 (Saito & Matsumoto),
   written from the published recurrence with plain 64-bit arithmetic, and Marsaglia-Bray normals
   (Ripley, Stochastic Simulation, p. 84). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

#define N 191
#define POS1 117
#define SL1 19
static const uint64_t MSK1 = 0x000ffafffffffb3fULL, MSK2 = 0x000ffdfffc90fffdULL;
static const uint64_t FIX1 = 0x90014964b32f4329ULL, FIX2 = 0x3b8d12ac548a7c7aULL;
static const uint64_t PCV1 = 0x3d84e1ac0dc82880ULL, PCV2 = 1ULL;

typedef struct { uint64_t s[2 * (N + 1)]; int idx; } R;

R *ref_new(void) { return calloc(1, sizeof(R)); }
void ref_free(R *r) { free(r); }

static void finish(R *r, const uint32_t *p);

/* the published initialisation by an array of keys */
void ref_seed_array(R *r, const uint32_t *key, int len)
{
  enum { S = 4 * (N + 1), LAG = 11, MID = (S - LAG) / 2 };
  uint32_t p[S], x;
  int count = len + 1 > S ? len + 1 : S;
  for (int i = 0; i < S; i++) p[i] = 0x8b8b8b8bu;
  for (int n = 0; n < count; n++) {
    int i = n % S;
    x = p[i] ^ p[(i + MID) % S] ^ p[(i + S - 1) % S];
    x = (x ^ (x >> 27)) * 1664525u;
    p[(i + MID) % S] += x;
    x += n == 0 ? (uint32_t)len : n <= len ? key[n - 1] + (uint32_t)i : (uint32_t)i;
    p[(i + MID + LAG) % S] += x;
    p[i] = x;
  }
  for (int n = count; n < count + S; n++) {
    int i = n % S;
    x = p[i] + p[(i + MID) % S] + p[(i + S - 1) % S];
    x = (x ^ (x >> 27)) * 1566083941u;
    p[(i + MID) % S] ^= x;
    x -= (uint32_t)i;
    p[(i + MID + LAG) % S] ^= x;
    p[i] = x;
  }
  finish(r, p);
}

void ref_seed(R *r, uint32_t seed)
{
  uint32_t p[4 * (N + 1)];
  p[0] = seed;
  for (int i = 1; i < 4 * (N + 1); i++)
    p[i] = 1812433253u * (p[i - 1] ^ (p[i - 1] >> 30)) + (uint32_t)i;
  finish(r, p);
}

static void finish(R *r, const uint32_t *p)
{
  for (int i = 0; i < 2 * (N + 1); i++)
    r->s[i] = (uint64_t)p[2 * i] | ((uint64_t)p[2 * i + 1] << 32);
  for (int i = 0; i < 2 * N; i++)
    r->s[i] = (r->s[i] & 0x000FFFFFFFFFFFFFULL) | 0x3FF0000000000000ULL;
  uint64_t inner = ((r->s[2 * N] ^ FIX1) & PCV1) ^ ((r->s[2 * N + 1] ^ FIX2) & PCV2);
  for (int i = 32; i > 0; i >>= 1) inner ^= inner >> i;
  if ((inner & 1) == 0) r->s[2 * N + 1] ^= 1; /* PCV2 & 1 == 1 */
  r->idx = 2 * N;
}

static void regen(R *r)
{
  uint64_t l0 = r->s[2 * N], l1 = r->s[2 * N + 1];
  for (int i = 0; i < N; i++) {
    int j = (i + POS1) % N;
    uint64_t t0 = r->s[2 * i], t1 = r->s[2 * i + 1];
    uint64_t b0 = r->s[2 * j], b1 = r->s[2 * j + 1];
    uint64_t n0 = (t0 << SL1) ^ (l1 >> 32) ^ (l1 << 32) ^ b0;
    uint64_t n1 = (t1 << SL1) ^ (l0 >> 32) ^ (l0 << 32) ^ b1;
    r->s[2 * i] = (n0 >> 12) ^ (n0 & MSK1) ^ t0;
    r->s[2 * i + 1] = (n1 >> 12) ^ (n1 & MSK2) ^ t1;
    l0 = n0; l1 = n1;
  }
  r->s[2 * N] = l0; r->s[2 * N + 1] = l1;
  r->idx = 0;
}

static uint64_t raw(R *r) { if (r->idx >= 2 * N) regen(r); return r->s[r->idx++]; }
static double asd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

uint32_t ref_u32(R *r) { return (uint32_t)raw(r); }
double ref_unif(R *r) { return asd(raw(r)) - 1.0; }
double ref_c1o2(R *r) { return asd(raw(r)); }
double ref_o0c1(R *r) { return 2.0 - asd(raw(r)); }
double ref_unif_open(R *r) { return asd(raw(r) | 1) - 1.0; }

static double gg(double x)
{
  const double a = 17.49731196, b = 2.36785163, c = 2.15787544;
  double ax = fabs(x), v = a * exp(-x * x / 2.0);
  if (ax < 1.0) v -= 2.0 * b * (3.0 - x * x) + c * (1.5 - ax);
  else if (ax < 1.5) v -= b * (3.0 - ax) * (3.0 - ax) + c * (1.5 - ax);
  else v -= b * (3.0 - ax) * (3.0 - ax);
  return v;
}

double ref_norm(R *r)
{
  double u = ref_unif(r), x;
  if (u < 0.8638) {
    double a = ref_unif(r), b = ref_unif(r), c = ref_unif(r);
    return 2.0 * (a + b + c) - 3.0;
  }
  if (u < 0.9745) {
    double a = ref_unif(r), b = ref_unif(r);
    return 1.5 * (a + b - 1.0);
  }
  if (u < 0.9973002039) {
    double v;
    do { double a = ref_unif(r); v = ref_unif(r); x = 6.0 * a - 3.0; } while (0.358 * v > gg(x));
    return x;
  }
  for (;;) {
    double v1, v2, w;
    do { v1 = 2.0 * ref_unif(r) - 1.0; v2 = 2.0 * ref_unif(r) - 1.0; w = v1 * v1 + v2 * v2; } while (w >= 1.0);
    double c = sqrt((9.0 - 2.0 * log(w)) / w);
    if (fabs(c * v1) > 3.0) return c * v1;
    if (fabs(c * v2) > 3.0) return c * v2;
  }
}

void ref_fill_norm(R *r, double *out, long n) { for (long i = 0; i < n; i++) out[i] = ref_norm(r); }
void ref_fill_unif(R *r, double *out, long n) { for (long i = 0; i < n; i++) out[i] = ref_unif(r); }
void ref_fill_kind(R *r, int kind, double *out, long n)
{ for (long i = 0; i < n; i++) out[i] = kind == 0 ? ref_c1o2(r) : kind == 1 ? ref_unif(r) : kind == 2 ? ref_o0c1(r) : ref_unif_open(r); }
