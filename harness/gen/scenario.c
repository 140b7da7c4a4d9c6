// Uses the library of scenario.rs through its generated header only; a model in C says what has to come out.
#include SCENARIO_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <math.h>
#include <ctype.h>

static uint64_t rs;
static uint32_t rnd(uint32_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)((rs >> 20) % n); }
static unsigned long long steps, checks, kinds[64];
static char const * what = "start";
#define FAIL(...) do { fprintf(stdout, "VIOL scenario after %llu steps, in %s: ", steps, what); fprintf(stdout, __VA_ARGS__); fprintf(stdout, "\n"); fflush(stdout); exit(3); } while (0)
#define CHECK(c) do { checks++; if (!(c)) FAIL("%s (line %d)", #c, __LINE__); } while (0)

// ---- callbacks of the C side, with their own ledger
typedef struct { uint32_t magic; uint32_t k; int refs; unsigned long long calls; } Env;
static int envs_live;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static Env * env_new(uint32_t k) { Env * e = (Env *) malloc(sizeof *e); e->magic = 0xE17E; e->k = k; e->refs = 1; e->calls = 0; envs_live++; return e; }
static void env_check(Env * e) { if (e->magic != 0xE17E) FAIL("a callback was used with an environment that is gone or was never one"); }
static uint32_t hook_call(void * p, uint32_t x) { pthread_mutex_lock(&mx); Env * e = (Env *) p; env_check(e); e->calls++; uint32_t r = x * 3 + e->k; pthread_mutex_unlock(&mx); return r; }
static void hook_retain(void * p) { pthread_mutex_lock(&mx); Env * e = (Env *) p; env_check(e); e->refs++; pthread_mutex_unlock(&mx); }
static void hook_release(void * p) { pthread_mutex_lock(&mx); Env * e = (Env *) p; env_check(e); if (--e->refs == 0) { e->magic = 0; envs_live--; free(e); } pthread_mutex_unlock(&mx); }
static bool filter_call(void * p, uint32_t x) { Env * e = (Env *) p; env_check(e); e->calls++; return x % (e->k + 1) == 0; }
static void env_free(void * p) { Env * e = (Env *) p; env_check(e); if (e->refs != 1) FAIL("released twice"); e->refs = 0; e->magic = 0; envs_live--; free(e); }

typedef struct { char names[64][24]; size_t n; size_t at; size_t stop; size_t total; } Model;
static void each_cb(void * p, size_t i, size_t len) { Model * m = (Model *) p; CHECK(i == m->at && i < m->n && len == strlen(m->names[i])); m->at++; m->total += len; }
static bool each_name_cb(void * p, char const * s) { Model * m = (Model *) p; CHECK(m->at < m->n && strcmp(s, m->names[m->at]) == 0); return ++m->at < m->stop; }
static uint64_t nested_cb(uint32_t x);
static int nest_depth;

// ---- the objects alive on this side
typedef struct { Store_t * s; Model m; Env * hook; Env * filter; } St;
typedef struct { Vec_int32_t v; slice_boxed_int32_t b; int boxed; int32_t * want; size_t n; } Ints;
typedef struct { char * s; char want[80]; } Str;
typedef struct { BoxDynFnMut0_int32_t f; int32_t n; } Cnt;
typedef struct { ArcDynFn1_int32_int32_t f; int32_t k; int refs; } Add;
typedef struct { Vec_uint8_t t; unsigned char want[512]; size_t n; } Txt;
#define MAX 6
static St * st[MAX]; static Ints * in[MAX]; static Str * sr[MAX]; static Cnt * cn[MAX]; static Add * ad[MAX]; static Txt * tx[MAX];
static long long objects_expected(void) { long long n = 0; for (int i = 0; i < MAX; i++) { if (st[i]) n += 1 + (long long) st[i]->m.n; if (cn[i]) n++; if (ad[i]) n++; } return n; }

static void rnd_name(char * b) { size_t n = rnd(20); for (size_t i = 0; i < n; i++) b[i] = (char) ('!' + rnd(90)); b[n] = 0; }
static Point_t rnd_point(void) { Point_t p; memset(&p, 0, sizeof p); p.x = (double) rnd(1000) / 4 - 100; p.y = (double) rnd(1000) / 8; p.tag = (uint8_t) rnd(256); return p; }

static void ints_check(Ints * x) {
    int64_t s = 0; for (size_t i = 0; i < x->n; i++) s += x->want[i];
    if (x->boxed) { CHECK(x->b.len == x->n && (x->n == 0 || memcmp(x->b.ptr, x->want, 4 * x->n) == 0)); CHECK(boxed_ints_sum(&x->b) == s); }
    else { CHECK(x->v.len == x->n && x->v.cap >= x->n && (x->n == 0 || memcmp(x->v.ptr, x->want, 4 * x->n) == 0)); CHECK(ints_sum(&x->v) == s); }
}
static void store_check(St * x) {
    CHECK(store_len(x->s) == x->m.n);
    x->m.at = 0; x->m.total = 0;
    RefDynFnMut2_void_size_size_t cb; cb.env_ptr = &x->m; cb.call = each_cb;
    store_each(x->s, cb); CHECK(x->m.at == x->m.n);
    x->m.at = 0; x->m.stop = rnd(8) + 1;
    size_t k = store_each_name(x->s, &x->m, each_name_cb);
    CHECK(k == (x->m.n < x->m.stop ? x->m.n : x->m.stop));
}

static void step(void) {
    uint32_t op = rnd(26), i = rnd(MAX), j = rnd(MAX);
    steps++; kinds[op]++;
    switch (op) {
    case 0: what = "store_new"; if (!st[i]) { st[i] = (St *) calloc(1, sizeof(St)); st[i]->s = store_new(); CHECK(st[i]->s); store_check(st[i]); } break;
    case 1: what = "store_free"; if (!st[i]) { store_free(NULL); break; }
        if (rnd(3) == 0) { int before = envs_live; int mine = (st[i]->hook && st[i]->hook->refs == 1) + (st[i]->filter != NULL); store_free(st[i]->s); CHECK(envs_live == before - mine); free(st[i]); st[i] = NULL; } break;
    case 2: case 3: what = "store_add"; if (st[i] && st[i]->m.n < 64) { char b[24]; rnd_name(b); strcpy(st[i]->m.names[st[i]->m.n++], b); CHECK(store_add(st[i]->s, b) == st[i]->m.n); memset(b, 'Z', sizeof b - 1); store_check(st[i]); } break;
    case 4: what = "store_remove"; if (st[i]) { size_t k = rnd((uint32_t) st[i]->m.n + 2); char * s = store_remove(st[i]->s, k);
        if (k < st[i]->m.n) { CHECK(s && strcmp(s, st[i]->m.names[k]) == 0); memmove(st[i]->m.names[k], st[i]->m.names[k + 1], (st[i]->m.n - k - 1) * 24); st[i]->m.n--; } else CHECK(!s);
        str_free(s); store_check(st[i]); } break;
    case 5: what = "store_names"; if (st[i]) { Vec_char_ptr_t v = store_names(st[i]->s); CHECK(v.len == st[i]->m.n); for (size_t k = 0; k < v.len; k++) CHECK(strcmp(v.ptr[k], st[i]->m.names[k]) == 0); names_free(v); } break;
    case 6: what = "store_set_hook"; if (st[i]) { Env * e = env_new(rnd(1000)); ArcDynFn1_uint32_uint32_t f; f.env_ptr = e; f.call = hook_call; f.release = hook_release; f.retain = hook_retain;
        int before = envs_live - (st[i]->hook ? 1 : 0); store_set_hook(st[i]->s, f); st[i]->hook = e; CHECK(envs_live == before); } break;
    case 7: what = "store_call_hook"; if (st[i]) { uint32_t x = rnd(100000); uint32_t r = store_call_hook(st[i]->s, x); CHECK(r == (st[i]->hook ? x * 3 + st[i]->hook->k : x)); } break;
    case 8: what = "store_take_hook"; if (st[i]) { Tuple2_bool_ArcDynFn1_uint32_uint32_t t = store_take_hook(st[i]->s); CHECK(t._0 == (st[i]->hook != NULL));
        if (t._0) { CHECK(t._1.env_ptr == st[i]->hook && t._1.call == hook_call && t._1.retain == hook_retain && t._1.release == hook_release); CHECK(st[i]->hook->refs == 1); t._1.retain(t._1.env_ptr); CHECK(t._1.call(t._1.env_ptr, 7) == 21 + st[i]->hook->k); t._1.release(t._1.env_ptr); t._1.release(t._1.env_ptr); st[i]->hook = NULL; } } break;
    case 9: what = "store_call_hook_threads"; if (st[i] && st[i]->hook && rnd(6) == 0) { uint32_t n = 1 + rnd(4); uint64_t w = 0; for (uint32_t k = 0; k < n; k++) for (uint32_t q = 0; q < 20; q++) w += (k * 100 + q) * 3 + st[i]->hook->k;
        CHECK(store_call_hook_threads(st[i]->s, n) == w); CHECK(st[i]->hook->refs == 1); } break;
    case 10: what = "store_set_filter"; if (st[i]) { Env * e = env_new(rnd(5)); BoxDynFnMut1_bool_uint32_t f; f.env_ptr = e; f.call = filter_call; f.free = env_free; int before = envs_live - (st[i]->filter ? 1 : 0); store_set_filter(st[i]->s, f); st[i]->filter = e; CHECK(envs_live == before); } break;
    case 11: what = "store_filter_count"; if (st[i]) { uint32_t n = rnd(50), w = 0; for (uint32_t q = 0; q < n; q++) w += !st[i]->filter || q % (st[i]->filter->k + 1) == 0; CHECK(store_filter_count(st[i]->s, n) == w); } break;
    case 12: what = "store_clear_filter"; if (st[i]) { int before = envs_live - (st[i]->filter ? 1 : 0); store_clear_filter(st[i]->s); st[i]->filter = NULL; CHECK(envs_live == before); } break;
    case 13: what = "ints_new"; if (!in[i]) { size_t n = rnd(10); int32_t f = (int32_t) rnd(1u << 31); in[i] = (Ints *) calloc(1, sizeof(Ints)); in[i]->want = (int32_t *) malloc(4 * 4096); in[i]->n = n; for (size_t k = 0; k < n; k++) in[i]->want[k] = (int32_t) ((uint32_t) f + (uint32_t) k); in[i]->v = ints_new(n, f); ints_check(in[i]); } break;
    case 14: what = "ints_push"; if (in[i] && !in[i]->boxed && in[i]->n < 4000) for (uint32_t k = rnd(9); k--;) { int32_t x = (int32_t) rnd(1u << 31) * (rnd(2) ? 1 : -1); ints_push(&in[i]->v, x); in[i]->want[in[i]->n++] = x; ints_check(in[i]); } break;
    case 15: what = "ints_clone"; if (in[i] && !in[i]->boxed && !in[j]) { Vec_int32_t v = ints_clone(&in[i]->v); CHECK(v.len == in[i]->n && (v.len == 0 || v.ptr != in[i]->v.ptr)); in[j] = (Ints *) calloc(1, sizeof(Ints)); in[j]->want = (int32_t *) malloc(4 * 4096); in[j]->n = in[i]->n; memcpy(in[j]->want, in[i]->want, 4 * in[i]->n); in[j]->v = v; ints_check(in[i]); ints_check(in[j]); } break;
    case 16: what = "ints_into_boxed / boxed_into_ints"; if (in[i]) { if (in[i]->boxed) in[i]->v = boxed_into_ints(in[i]->b); else in[i]->b = ints_into_boxed(in[i]->v); in[i]->boxed ^= 1; ints_check(in[i]); } break;
    case 17: what = "ints_free"; if (in[i]) { ints_check(in[i]); if (in[i]->boxed) boxed_ints_free(in[i]->b); else ints_free(in[i]->v); free(in[i]->want); free(in[i]); in[i] = NULL; } break;
    case 18: what = "concat"; if (!sr[i]) { char a[24], b[24]; rnd_name(a); rnd_name(b); sr[i] = (Str *) calloc(1, sizeof(Str)); strcpy(sr[i]->want, a); strcat(sr[i]->want, b); sr[i]->s = concat(a, b); memset(a, 'Q', 23); CHECK(strcmp(sr[i]->s, sr[i]->want) == 0); CHECK(str_len(sr[i]->s) == strlen(sr[i]->want)); }
        else { CHECK(strcmp(sr[i]->s, sr[i]->want) == 0); str_free(sr[i]->s); free(sr[i]); sr[i] = NULL; str_free(NULL); } break;
    case 19: what = "text"; if (!tx[i]) { tx[i] = (Txt *) calloc(1, sizeof(Txt)); slice_ref_uint8_t s = { (uint8_t const *) "h\xc3\xa9", 3 }; tx[i]->n = 3; memcpy(tx[i]->want, s.ptr, 3); tx[i]->t = text_new(s); }
        else if (tx[i]->n < 480 && rnd(4)) { char b[24]; rnd_name(b); slice_ref_uint8_t s = { (uint8_t const *) b, strlen(b) }; text_append(&tx[i]->t, s); memcpy(tx[i]->want + tx[i]->n, b, s.len); tx[i]->n += s.len; CHECK(tx[i]->t.len == tx[i]->n && tx[i]->t.cap >= tx[i]->n && memcmp(tx[i]->t.ptr, tx[i]->want, tx[i]->n) == 0); }
        else { text_free(tx[i]->t); free(tx[i]); tx[i] = NULL; } break;
    case 20: what = "utf8_upper"; { char b[24]; rnd_name(b); slice_ref_uint8_t s = { (uint8_t const *) b, strlen(b) }; slice_boxed_uint8_t u = utf8_upper(s); CHECK(u.len == s.len); for (size_t k = 0; k < u.len; k++) CHECK(u.ptr[k] == (uint8_t) toupper(b[k])); utf8_free(u); } break;
    case 21: what = "counter"; if (!cn[i]) { cn[i] = (Cnt *) calloc(1, sizeof(Cnt)); cn[i]->n = (int32_t) rnd(1000); cn[i]->f = counter_new(cn[i]->n); }
        else if (rnd(3)) { int32_t r = cn[i]->f.call(cn[i]->f.env_ptr); CHECK(r == ++cn[i]->n); }
        else { if (rnd(2)) cn[i]->f.free(cn[i]->f.env_ptr); else counter_free(cn[i]->f); free(cn[i]); cn[i] = NULL; } break;
    case 22: what = "adder"; if (!ad[i]) { ad[i] = (Add *) calloc(1, sizeof(Add)); ad[i]->k = (int32_t) rnd(1000); ad[i]->refs = 1; ad[i]->f = adder_new(ad[i]->k); }
        else switch (rnd(4)) { case 0: CHECK(ad[i]->f.call(ad[i]->f.env_ptr, 5) == 5 + ad[i]->k); break;
            case 1: ad[i]->f.retain(ad[i]->f.env_ptr); ad[i]->refs++; break;
            case 2: ad[i]->f.retain(ad[i]->f.env_ptr); CHECK(adder_twice(ad[i]->f, 1) == 1 + 2 * ad[i]->k); break;
            default: ad[i]->f.release(ad[i]->f.env_ptr); if (!--ad[i]->refs) { free(ad[i]); ad[i] = NULL; } }
        break;
    case 23: what = "points"; { Point_t p[8]; size_t n = rnd(9); Point_t s; memset(&s, 0, sizeof s); size_t mx_ = 0; for (size_t k = 0; k < n; k++) { p[k] = rnd_point(); s.x += p[k].x; s.y += p[k].y; s.tag ^= p[k].tag; if (p[k].x > p[mx_].x) mx_ = k; }
        slice_ref_Point_t r = { n ? p : (Point_t const *) 8, n }; slice_mut_Point_t w = { n ? p : (Point_t *) 8, n };
        Point_t g = points_sum(r); CHECK(g.x == s.x && g.y == s.y && g.tag == s.tag); CHECK(points_max(r) == (n ? &p[mx_] : NULL));
        Point_t q[8]; memcpy(q, p, sizeof q); points_scale(w, 2.0); for (size_t k = 0; k < n; k++) CHECK(p[k].x == q[k].x * 2 && p[k].y == q[k].y * 2 && p[k].tag == q[k].tag);
        Point_t a = rnd_point(), b = rnd_point(), a0 = a, b0 = b; CHECK(swap_points(&a, &b) && a.x == b0.x && b.y == a0.y && a.tag == b0.tag); CHECK(!swap_points(&a, NULL)); } break;
    case 24: what = "apply"; { int64_t a = (int64_t) rnd(1u << 31) << rnd(32), b = (int64_t) rnd(1u << 31) << rnd(32); Point_t p = rnd_point(); Op_t o = (Op_t) (rnd(3) == 0 ? OP_ADD : rnd(2) ? OP_MUL : OP_MAX);
        op_result_t r = apply(o, a, b, p); int64_t w = 0; bool ok = o == OP_ADD ? !__builtin_add_overflow(a, b, &w) : o == OP_MUL ? !__builtin_mul_overflow(a, b, &w) : (w = a > b ? a : b, true);
        CHECK(r.op == o && r.value._0 == ok && (!ok || r.value._1 == w) && r.points._0.x == p.x && r.points._0.tag == p.tag && r.points._1.x == p.x * 2 && r.points._1.tag == 0);
        int32_t out = 77, x = (int32_t) rnd(1000), y = (int32_t) rnd(3); bool d = try_div(x, y, &out); CHECK(d == (y != 0) && out == (y ? x / y : 77)); } break;
    case 25: what = "nested"; nest_depth = (int) rnd(6); { int d = nest_depth; CHECK(nested(nested_cb, 5) == 5 + 2 * (uint64_t) d + 1); } break;
    }
    CHECK(live_objects() == objects_expected());
}
static uint64_t nested_cb(uint32_t x) { return nest_depth-- > 0 ? nested(nested_cb, x) + 1 : x; }

int main(int argc, char ** argv) {
    rs = strtoull(argv[1], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    unsigned long long n = strtoull(argv[2], NULL, 10);
    // warm up what Rust's runtime keeps (thread machinery, stdio)
    { Store_t * s = store_new(); Env * e = env_new(1); ArcDynFn1_uint32_uint32_t f; f.env_ptr = e; f.call = hook_call; f.release = hook_release; f.retain = hook_retain; store_set_hook(s, f); store_call_hook_threads(s, 2); store_free(s); }
    int64_t a0 = live_allocations(), b0 = live_bytes();
    for (unsigned long long k = 0; k < n; k++) step();
    what = "the end";
    for (int i = 0; i < MAX; i++) {
        if (st[i]) { store_check(st[i]); store_free(st[i]->s); free(st[i]); st[i] = NULL; }
        if (in[i]) { ints_check(in[i]); if (in[i]->boxed) boxed_ints_free(in[i]->b); else ints_free(in[i]->v); free(in[i]->want); free(in[i]); }
        if (sr[i]) { str_free(sr[i]->s); free(sr[i]); }
        if (tx[i]) { text_free(tx[i]->t); free(tx[i]); }
        if (cn[i]) { cn[i]->f.free(cn[i]->f.env_ptr); free(cn[i]); cn[i] = NULL; }
        if (ad[i]) { while (ad[i]->refs--) ad[i]->f.release(ad[i]->f.env_ptr); free(ad[i]); ad[i] = NULL; }
    }
    CHECK(live_objects() == 0);
    CHECK(envs_live == 0);
    if (live_allocations() != a0 || live_bytes() != b0) FAIL("%lld allocations (%lld bytes) of the library are left over", (long long) (live_allocations() - a0), (long long) (live_bytes() - b0));
    printf("STATS %llu %llu", steps, checks);
    for (int k = 0; k < 26; k++) printf(" %llu", kinds[k]);
    printf("\n");
    return 0;
}
