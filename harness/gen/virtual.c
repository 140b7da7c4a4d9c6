// Virtual objects, futures and executors on both sides of the boundary, through the generated header only; models in C say what has to come out.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include VIRTUAL_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unistd.h>
#include <sched.h>

typedef VirtualPtr__Erased_ptr_MeterVTable_t Meter;
typedef VirtualPtr__Erased_ptr_MachineVTable_t Machine;
typedef VirtualPtr__Erased_ptr_StaysVTable_t Stays;
typedef VirtualPtr__Erased_ptr_FfiFutureVTable_t Fut;
typedef VirtualPtr__Erased_ptr_FfiFutureExecutorVTable_t Exe;
typedef VirtualPtr__Erased_ptr_DropGlueVTable_t Glue;

static uint64_t rs;
static uint32_t rnd(uint32_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)((rs >> 20) % n); }
static unsigned long long steps, checks, kinds[64];
static char const * what = "start";
#define FAIL(...) do { fprintf(stdout, "VIOL virtual objects after %llu steps, in %s: ", steps, what); fprintf(stdout, __VA_ARGS__); fprintf(stdout, "\n"); fflush(stdout); _exit(3); } while (0)
#define CHECK(c) do { __atomic_add_fetch(&checks, 1, __ATOMIC_RELAXED); if (!(c)) FAIL("%s (line %d)", #c, __LINE__); } while (0)
#define ALIVE(p, m) do { if ((p)->magic != (m)) FAIL("a method ran on an object that is gone or was never one (line %d)", __LINE__); } while (0)
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
#define LOCK pthread_mutex_lock(&mx)
#define UNLOCK pthread_mutex_unlock(&mx)
static int threads_running;
static void go(void * (*f)(void *), void * a) { pthread_t t; LOCK; threads_running++; UNLOCK; if (pthread_create(&t, NULL, f, a)) FAIL("no thread"); pthread_detach(t); }
static void gone(void) { LOCK; threads_running--; UNLOCK; }

// ---- meters of the C side
typedef struct { uint32_t magic, k; int refs; uint64_t sum; } CM;
static int cms;
static CM * cm(Erased_t const * p) { CM * m = (CM *) p; LOCK; int ok = m->magic == 0xC0C0A; UNLOCK; if (!ok) FAIL("a method ran on a meter that is gone or was never one"); return m; }
static Meter cm_new(uint32_t k, uint64_t sum, bool own);
static void cm_release(Erased_t * p) { CM * m = cm(p); LOCK; int r = --m->refs; if (r == 0) { m->magic = 0; cms--; } UNLOCK; if (r == 0) free(m); }
static Erased_t * cm_retain(Erased_t const * p) { CM * m = cm(p); LOCK; m->refs++; UNLOCK; return (Erased_t *) m; }
static Erased_t * cm_copy(Erased_t const * p) { CM * m = cm(p); LOCK; uint64_t s = m->sum; UNLOCK; return cm_new(m->k, s, true).ptr; }
static uint64_t cm_put(Erased_t const * p, uint32_t x) { CM * m = cm(p); LOCK; uint64_t s = m->sum += (uint64_t) x + m->k; UNLOCK; return s; }
static uint64_t cm_total(Erased_t const * p) { CM * m = cm(p); LOCK; uint64_t s = m->sum; UNLOCK; return s; }
static Reading_t model_reading(uint32_t k, Reading_t r, float s) { Reading_t o; memset(&o, 0, sizeof o); o.a = r.a + k; o.b = r.b * (double) s; o.c = (uint8_t) ~r.c; for (int i = 0; i < 5; i++) o.d.idx[i] = r.d.idx[4 - i]; return o; }
static bool same(Reading_t a, Reading_t b) { return a.a == b.a && a.b == b.b && a.c == b.c && memcmp(&a.d, &b.d, sizeof a.d) == 0; }
static Reading_t cm_reading(Erased_t const * p, Reading_t r, float s) { return model_reading(cm(p)->k, r, s); }
static void cm_each(Erased_t const * p, uint32_t n, RefDynFnMut1_void_uint64_t f) { CM * m = cm(p); for (uint32_t i = 0; i < n; i++) f.call(f.env_ptr, (uint64_t) i * m->k); }
static size_t cm_fill(Erased_t const * p, slice_mut_uint64_t o) { CM * m = cm(p); for (size_t i = 0; i < o.len; i++) o.ptr[i] = i ^ m->k; return o.len; }
static char * cm_label(Erased_t const * p, char const * s) { CM * m = cm(p); char b[64]; if (m->k % 5 == 0) return NULL; snprintf(b, sizeof b, "%u%s", m->k, s); return text_copy(b); }
static bool cm_try_div(Erased_t const * p, int64_t by, int64_t * out) { CM * m = cm(p); if (!by) return false; *out = (int64_t) m->k / by; return true; }
static Meter cm_new(uint32_t k, uint64_t sum, bool own) {
    CM * m = (CM *) malloc(sizeof *m); m->magic = 0xC0C0A; m->k = k; m->refs = 1; m->sum = sum; LOCK; cms++; UNLOCK;
    Meter v; v.ptr = (Erased_t *) m; v.vtable.release_vptr = cm_release; v.vtable.retain_vptr = own ? cm_copy : cm_retain; v.vtable.put = cm_put; v.vtable.total = cm_total; v.vtable.reading = cm_reading; v.vtable.each = cm_each; v.vtable.fill = cm_fill; v.vtable.label = cm_label; v.vtable.try_div = cm_try_div;
    return v;
}

// ---- what a handle stands for
enum { SHARED, OWN, CSHARED, COWN, WARC, WBOX };
typedef struct Node { int kind, refs; uint32_t k; uint64_t sum; struct Node * in; } Node;
static long long n_objects, n_cms;
static Node * node(int kind, uint32_t k, uint64_t sum, Node * in) { Node * n = (Node *) calloc(1, sizeof *n); n->kind = kind; n->refs = 1; n->k = k; n->sum = sum; n->in = in; if (kind == CSHARED || kind == COWN) n_cms++; else n_objects++; return n; }
static Node * node_clone(Node * n) { switch (n->kind) { case OWN: case COWN: return node(n->kind, n->k, n->sum, NULL); case WBOX: return node(WBOX, 0, 0, node_clone(n->in)); default: n->refs++; return n; } }
static void node_drop(Node * n) { if (--n->refs) return; if (n->in) node_drop(n->in); if (n->kind == CSHARED || n->kind == COWN) n_cms--; else n_objects--; free(n); }
static Node * leaf(Node * n) { while (n->in) n = n->in; return n; }
static bool clones_share(Node * n) { while (n->kind == WBOX) n = n->in; return n->kind != OWN && n->kind != COWN; }

#define MAX 8
static struct { Meter v; Node * n; } ms[MAX];
typedef struct { Shelf_t * s; Node * n[16]; size_t len; } Sh;
static Sh sh[3];
static uint64_t got[32]; static uint32_t n_got;
static void on_each(void * e, uint64_t x) { CHECK(e == (void *) got); if (n_got < 32) got[n_got] = x; n_got++; }
static Reading_t rnd_reading(void) { Reading_t r; memset(&r, 0, sizeof r); r.a = ((uint64_t) rnd(1u << 31) << 33) | rnd(1u << 31); r.b = (double) rnd(100000) / 16 - 900; r.c = (uint8_t) rnd(256); for (int i = 0; i < 5; i++) r.d.idx[i] = (uint16_t) rnd(65536); return r; }

static void use_meter(Meter const * v, Node * n) {
    Node * l = leaf(n); bool direct = rnd(2);
    switch (rnd(7)) {
    case 0: { uint32_t x = rnd(2) ? rnd(1000) : 0xffffffffu; uint64_t w = l->sum += (uint64_t) x + l->k; uint64_t r = direct ? v->vtable.put(v->ptr, x) : meter_put(v, x); CHECK(r == w); break; }
    case 1: CHECK((direct ? v->vtable.total(v->ptr) : meter_total(v)) == l->sum); break;
    case 2: { Reading_t r = rnd_reading(); float s = (float) rnd(64) / 4; CHECK(same(direct ? v->vtable.reading(v->ptr, r, s) : meter_reading(v, r, s), model_reading(l->k, r, s))); break; }
    case 3: { RefDynFnMut1_void_uint64_t f; f.env_ptr = got; f.call = on_each; n_got = 0; uint32_t u = rnd(30); if (direct) v->vtable.each(v->ptr, u, f); else meter_each(v, u, f); CHECK(n_got == u); for (uint32_t i = 0; i < u; i++) CHECK(got[i] == (uint64_t) i * l->k); break; }
    case 4: { uint64_t b[12]; size_t k = rnd(10); for (int i = 0; i < 12; i++) b[i] = 0x5a5a; slice_mut_uint64_t o; o.ptr = b + 1; o.len = k; CHECK((direct ? v->vtable.fill(v->ptr, o) : meter_fill(v, o)) == k); CHECK(b[0] == 0x5a5a && b[k + 1] == 0x5a5a); for (size_t i = 0; i < k; i++) CHECK(b[i + 1] == (i ^ l->k)); break; }
    case 5: { char w[64]; char const * s = rnd(2) ? "" : "suf\xc3\xa9"; snprintf(w, sizeof w, "%u%s", l->k, s); char * g = direct ? v->vtable.label(v->ptr, s) : meter_label(v, s); CHECK((g == NULL) == (l->k % 5 == 0)); CHECK(!g || strcmp(g, w) == 0); text_free(g); break; }
    case 6: { int64_t by = (int64_t) rnd(5) - 2, o = -777; bool r = direct ? v->vtable.try_div(v->ptr, by, &o) : meter_try_div(v, by, &o); CHECK(r == (by != 0)); CHECK(o == (by ? (int64_t) l->k / by : -777)); break; }
    }
}

static void step_dyn(uint32_t op) {
    uint32_t i = rnd(MAX), j = rnd(MAX); Sh * s = &sh[rnd(3)];
    switch (op) {
    case 0: what = "new meter"; if (!ms[i].n) { uint32_t k = rnd(1000); switch (rnd(4)) {
        case 0: ms[i].v = meter_shared(k); ms[i].n = node(SHARED, k, 0, NULL); break;
        case 1: ms[i].v = meter_own(k); ms[i].n = node(OWN, k, 0, NULL); break;
        case 2: ms[i].v = cm_new(k, 0, false); ms[i].n = node(CSHARED, k, 0, NULL); break;
        default: ms[i].v = cm_new(k, 0, true); ms[i].n = node(COWN, k, 0, NULL); } CHECK(ms[i].v.ptr); } break;
    case 1: what = "meter"; if (ms[i].n) use_meter(&ms[i].v, ms[i].n); break;
    case 2: what = "clone of a meter"; if (ms[i].n && !ms[j].n) {
        if (rnd(2)) ms[j].v = meter_clone(&ms[i].v); else { ms[j].v = ms[i].v; ms[j].v.ptr = ms[i].v.vtable.retain_vptr(ms[i].v.ptr); }
        CHECK(memcmp(&ms[j].v.vtable, &ms[i].v.vtable, sizeof ms[i].v.vtable) == 0); CHECK((ms[j].v.ptr == ms[i].v.ptr) == (ms[i].n->kind != OWN && ms[i].n->kind != COWN && ms[i].n->kind != WBOX)); ms[j].n = node_clone(ms[i].n); use_meter(&ms[j].v, ms[j].n); } break;
    case 3: what = "drop of a meter"; if (ms[i].n) { if (rnd(2)) meter_free(ms[i].v); else ms[i].v.vtable.release_vptr(ms[i].v.ptr); node_drop(ms[i].n); ms[i].n = NULL; } else { Meter m; memset(&m, rnd(2) ? 0 : 0xEE, sizeof m); m.ptr = NULL; meter_free(m); } break;
    case 4: what = "meter around a meter"; if (ms[i].n) { int d = 0; for (Node * n = ms[i].n; n; n = n->in) d++; if (d > 4) break; bool a = rnd(2); ms[i].v = meter_wrap(ms[i].v, a); ms[i].n = node(a ? WARC : WBOX, 0, 0, ms[i].n); use_meter(&ms[i].v, ms[i].n); } break;
    case 5: what = "meter in threads"; if (ms[i].n && rnd(12) == 0) { Node * l = leaf(ms[i].n); uint32_t n = 1 + rnd(4), k = rnd(12); uint64_t w = l->sum; if (clones_share(ms[i].n)) for (uint32_t t = 0; t < n; t++) for (uint32_t q = 0; q < k; q++) w += t * 1000 + q + (uint64_t) l->k;
        CHECK(meter_threads(&ms[i].v, n, k) == w); l->sum = w; } break;
    case 6: what = "shelf"; if (!s->s) { s->s = shelf_new(); s->len = 0; } else if (rnd(8) == 0) { shelf_free(s->s); for (size_t k = 0; k < s->len; k++) node_drop(s->n[k]); s->s = NULL; s->len = 0; } break;
    case 7: what = "shelf_add"; if (s->s && s->len < 16) { if (ms[i].n) { s->n[s->len++] = ms[i].n; CHECK(shelf_add(s->s, ms[i].v) == s->len); ms[i].n = NULL; } else { Meter m; memset(&m, 0xEE, sizeof m); m.ptr = NULL; CHECK(shelf_add(s->s, m) == s->len); } } break;
    case 8: what = "shelf_take"; if (s->s && !ms[i].n) { size_t k = rnd((uint32_t) s->len + 2); Meter m = shelf_take(s->s, k); CHECK((m.ptr != NULL) == (k < s->len)); if (m.ptr) { ms[i].v = m; ms[i].n = s->n[k]; memmove(s->n + k, s->n + k + 1, (s->len - k - 1) * sizeof *s->n); s->len--; use_meter(&ms[i].v, ms[i].n); } } break;
    case 9: what = "shelf_get"; if (s->s) { size_t k = rnd((uint32_t) s->len + 2); Meter const * m = shelf_get(s->s, k); CHECK((m != NULL) == (k < s->len)); if (m) use_meter(m, s->n[k]);
        slice_ref_VirtualPtr__Erased_ptr_MeterVTable_t a = shelf_all(s->s); CHECK(a.len == s->len); uint64_t w = 0; for (size_t q = 0; q < a.len; q++) { use_meter(&a.ptr[q], s->n[q]); } for (size_t q = 0; q < a.len; q++) w += leaf(s->n[q])->sum; CHECK(shelf_total(s->s) == w); } break;
    }
    CHECK(live_objects() == n_objects + (op < 100 ? 0 : 0));
    LOCK; int c = cms; UNLOCK;
    CHECK(c == n_cms);
}

// ---- machines: by exclusive reference
typedef struct { uint32_t magic; int64_t n; Reading_t r; } CX;
static int cxs;
static CX * cx(Erased_t const * p) { CX * m = (CX *) p; ALIVE(m, 0x4d414348); return m; }
static void cx_release(Erased_t * p) { CX * m = cx(p); m->magic = 0; cxs--; free(m); }
static int32_t cx_step(Erased_t * p, int32_t x) { cx(p)->n += x; return (int32_t) ((uint32_t) x * 2u); }
static int64_t cx_peek(Erased_t const * p) { return cx(p)->n; }
static bool cx_swap(Erased_t * p, Reading_t * o) { CX * m = cx(p); Reading_t t = m->r; m->r = *o; *o = t; return same(m->r, *o); }
static Machine cx_new(int64_t n, Reading_t r) { CX * m = (CX *) malloc(sizeof *m); m->magic = 0x4d414348; m->n = n; m->r = r; cxs++; Machine v; v.ptr = (Erased_t *) m; v.vtable.release_vptr = cx_release; v.vtable.step = cx_step; v.vtable.peek = cx_peek; v.vtable.swap = cx_swap; return v; }
typedef struct { uint32_t magic; uint16_t n; uint16_t gone; } CS;
static void cs_release(Erased_t * p) { CS * m = (CS *) p; ALIVE(m, 0x53544159); m->magic = 0; cxs--; free(m); }
static uint16_t cs_go(Erased_t * p, uint8_t x) { CS * m = (CS *) p; ALIVE(m, 0x53544159); return m->n = (uint16_t) (m->n + x); }
static size_t cs_at(Erased_t const * p) { CS * m = (CS *) p; ALIVE(m, 0x53544159); return (size_t) p; }
static void machines(void) {
    what = "machine"; int before = cxs; long long ob = live_objects();
    int64_t n = (int64_t) rnd(2000) - 1000; Reading_t r = rnd_reading(); bool c = rnd(2);
    Machine m = c ? cx_new(n, r) : machine_new(n, r);
    for (uint32_t k = rnd(12); k--;) switch (rnd(3)) {
    case 0: { int32_t x = (int32_t) rnd(1u << 31) * (rnd(2) ? 1 : -1); int32_t g = rnd(2) ? machine_step(&m, x) : m.vtable.step(m.ptr, x); CHECK(g == (int32_t) ((uint32_t) x * 2u)); n += x; break; }
    case 1: CHECK((rnd(2) ? machine_peek(&m) : m.vtable.peek(m.ptr)) == n); break;
    case 2: { Reading_t o = rnd_reading(), o0 = o; bool e = rnd(2) ? machine_swap(&m, &o) : m.vtable.swap(m.ptr, &o); CHECK(same(o, r)); CHECK(e == same(o0, r)); r = o0; break; }
    }
    CHECK(live_objects() == ob + !c && cxs == before + c);
    switch (rnd(3)) {
    case 0: machine_free(m); break;
    case 1: m.vtable.release_vptr(m.ptr); break;
    default: { int32_t xs[6]; slice_ref_int32_t s; s.ptr = xs; s.len = rnd(6); for (size_t i = 0; i < s.len; i++) { xs[i] = (int32_t) rnd(1000) - 500; n += xs[i]; } CHECK(machine_run(m, s) == n); }
    }
    CHECK(live_objects() == ob && cxs == before);
    what = "pinned object";
    c = rnd(2); uint16_t q = (uint16_t) rnd(65536); Stays st;
    if (c) { CS * o = (CS *) malloc(sizeof *o); o->magic = 0x53544159; o->n = q; cxs++; st.ptr = (Erased_t *) o; st.vtable.release_vptr = cs_release; st.vtable.go = cs_go; st.vtable.at = cs_at; } else st = stays_new(q);
    for (uint32_t k = 1 + rnd(6); k--;) { uint8_t x = (uint8_t) rnd(256); q = (uint16_t) (q + x); CHECK((rnd(2) ? stays_go(&st, x) : st.vtable.go(st.ptr, x)) == q); size_t a = rnd(2) ? stays_at(&st) : st.vtable.at(st.ptr); CHECK(a == (size_t) st.ptr); }
    if (rnd(2)) stays_free(st); else st.vtable.release_vptr(st.ptr);
    CHECK(live_objects() == ob && cxs == before);
}

// ---- futures of the C side
typedef struct { uint32_t magic, left, how, polls; bool done; int * released; bool join; int flag; bool has; ArcDynFn0_void_t w; int refs; } CF;
static int cfs;
static void * wake_later(void * a) { ArcDynFn0_void_t * w = (ArcDynFn0_void_t *) a; if (w->env_ptr == NULL) FAIL("no waker"); sched_yield(); w->call(w->env_ptr); w->release(w->env_ptr); free(w); gone(); return NULL; }
static void later(ArcDynFn0_void_t w) { ArcDynFn0_void_t * p = (ArcDynFn0_void_t *) malloc(sizeof w); *p = w; go(wake_later, p); }
static PollFuture_t cf_poll(Erased_t * p, Opaque_Context_t * cx_) {
    CF * f = (CF *) p; ALIVE(f, 0xF07);
    if (f->done) FAIL("a future was polled after it completed");
    f->polls++;
    if (!f->left) { f->done = true; return POLL_FUTURE_COMPLETED; }
    f->left--;
    switch (f->how) {
    case 0: rust_future_task_context_wake(cx_); break;
    case 1: { ArcDynFn0_void_t w = rust_future_task_context_get_waker(cx_); w.call(w.env_ptr); w.release(w.env_ptr); break; }
    case 2: later(rust_future_task_context_get_waker(cx_)); break;
    case 3: { ArcDynFn0_void_t w = rust_future_task_context_get_waker(cx_); w.retain(w.env_ptr); later(w); later(w); break; }
    case 4: { ArcDynFn0_void_t w = rust_future_task_context_get_waker(cx_); w.retain(w.env_ptr); w.call(w.env_ptr); w.release(w.env_ptr); later(w); break; }
    default: break;   // says nothing
    }
    return POLL_FUTURE_PENDING;
}
static void cf_release(Erased_t * p) { CF * f = (CF *) p; LOCK; ALIVE(f, 0xF07); f->magic = 0; cfs--; UNLOCK; if (f->released) __atomic_add_fetch(f->released, 1, __ATOMIC_SEQ_CST); free(f); }
static Fut cf_new(uint32_t left, uint32_t how, int * released) { CF * f = (CF *) calloc(1, sizeof *f); f->magic = 0xF07; f->left = left; f->how = how; f->released = released; LOCK; cfs++; UNLOCK; Fut v; v.ptr = (Erased_t *) f; v.vtable.release_vptr = cf_release; v.vtable.dyn_poll = cf_poll; return v; }

// a task of the C executor: the thread and the handle share it
static PollFuture_t cj_poll(Erased_t * p, Opaque_Context_t * cx_) {
    CF * f = (CF *) p; LOCK; ALIVE(f, 0x101A); if (f->done) FAIL("a task's handle was polled after it completed");
    if (f->flag) { f->done = true; UNLOCK; return POLL_FUTURE_COMPLETED; }
    UNLOCK;
    ArcDynFn0_void_t w = rust_future_task_context_get_waker(cx_), old; bool drop_old = false, now = false;
    LOCK; if (f->flag) now = true; else { if (f->has) { old = f->w; drop_old = true; } f->w = w; f->has = true; } UNLOCK;
    if (drop_old) old.release(old.env_ptr);
    if (now) { w.release(w.env_ptr); f->done = true; return POLL_FUTURE_COMPLETED; }
    return POLL_FUTURE_PENDING;
}
static void cj_unref(CF * f) { LOCK; ALIVE(f, 0x101A); int r = --f->refs; ArcDynFn0_void_t w = f->w; bool has = f->has; if (!r) { f->magic = 0; cfs--; } UNLOCK; if (!r) { if (has) w.release(w.env_ptr); free(f); } }
static void cj_release(Erased_t * p) { cj_unref((CF *) p); }
typedef struct { CF * j; Fut f; BoxDynFnMut0_void_t a; bool blocking; } Task;
static unsigned long long tasks_run;
static void * run_task(void * p) {
    Task * t = (Task *) p;
    if (t->blocking) { t->a.call(t->a.env_ptr); t->a.free(t->a.env_ptr); }
    else if (future_drive(t->f, 0) < 0) FAIL("a task was never woken");
    LOCK; t->j->flag = 1; bool has = t->j->has; ArcDynFn0_void_t w = t->j->w; t->j->has = false; tasks_run++; UNLOCK;
    if (has) { w.call(w.env_ptr); w.release(w.env_ptr); }
    cj_unref(t->j); free(t); gone(); return NULL;
}
static Fut start(Task t0) {
    CF * j = (CF *) calloc(1, sizeof *j); j->magic = 0x101A; j->refs = 2; LOCK; cfs++; UNLOCK;
    Task * t = (Task *) malloc(sizeof *t); *t = t0; t->j = j; go(run_task, t);
    Fut v; v.ptr = (Erased_t *) j; v.vtable.release_vptr = cj_release; v.vtable.dyn_poll = cj_poll; return v;
}
// executors of the C side: one of its own, one in front of Rust's
typedef struct { uint32_t magic; int refs; bool front; Exe in; unsigned long long spawned, blocking, blocked, entered; int within; } CE;
static int ces;
static CE * ce(Erased_t const * p) { CE * e = (CE *) p; LOCK; ALIVE(e, 0xE4EC); UNLOCK; return e; }
static void ce_release(Erased_t * p) { CE * e = ce(p); LOCK; int r = --e->refs; if (!r) { e->magic = 0; ces--; } UNLOCK; if (!r) { if (e->front) exe_free(e->in); free(e); } }
static Erased_t * ce_retain(Erased_t const * p) { CE * e = ce(p); LOCK; e->refs++; UNLOCK; return (Erased_t *) e; }
static Fut ce_spawn(Erased_t const * p, Fut f) { CE * e = ce(p); LOCK; e->spawned++; UNLOCK; if (e->front) return e->in.vtable.dyn_spawn(e->in.ptr, f); Task t; memset(&t, 0, sizeof t); t.f = f; return start(t); }
static Fut ce_blocking(Erased_t const * p, BoxDynFnMut0_void_t a) { CE * e = ce(p); LOCK; e->blocking++; UNLOCK; if (e->front) return e->in.vtable.dyn_spawn_blocking(e->in.ptr, a); Task t; memset(&t, 0, sizeof t); t.a = a; t.blocking = true; return start(t); }
static void ce_block_on(Erased_t const * p, Fut f) { CE * e = ce(p); LOCK; e->blocked++; UNLOCK; if (e->front) e->in.vtable.dyn_block_on(e->in.ptr, f); else if (future_drive(f, 0) < 0) FAIL("block_on was never woken"); }
static void glue_release(Erased_t * p) { CE * e = ce(p); LOCK; e->within--; UNLOCK; }
static Glue ce_enter(Erased_t const * p) { CE * e = ce(p); LOCK; e->entered++; UNLOCK; if (e->front) return e->in.vtable.dyn_enter(e->in.ptr); LOCK; e->within++; UNLOCK; Glue g; g.ptr = (Erased_t *) e; g.vtable.release_vptr = glue_release; return g; }
static Exe ce_new(bool front) { CE * e = (CE *) calloc(1, sizeof *e); e->magic = 0xE4EC; e->refs = 1; e->front = front; if (front) e->in = exe_new(); LOCK; ces++; UNLOCK; Exe v; v.ptr = (Erased_t *) e; v.vtable.release_vptr = ce_release; v.vtable.retain_vptr = ce_retain; v.vtable.dyn_spawn = ce_spawn; v.vtable.dyn_spawn_blocking = ce_blocking; v.vtable.dyn_block_on = ce_block_on; v.vtable.dyn_enter = ce_enter; return v; }

/// waits until what other threads still hold is gone
static void settle(long long objects, int line) {
    for (int k = 0;; k++) {
        LOCK; int t = threads_running, f = cfs, e = ces; UNLOCK;
        if (!t && !f && !e && live_objects() == objects) return;
        if (k > 2000000) FAIL("%d futures, %d executors and %lld objects are left over (line %d)", f, e, (long long) live_objects() - objects, line);
        if (k > 100) usleep(50); else sched_yield();
    }
}
static Fut any_future(int * released, AtomicHits_t * h, uint32_t * left, bool * wakes, int * hits) {
    uint32_t n = rnd(5), how = rnd(5); *left = n; *wakes = true; *hits = 0;
    Fut f;
    if (rnd(3)) f = cf_new(n, how, released); else { f = future_rust(n, how, h); *hits = 1; (*released)++; }
    while (rnd(4) == 0) f = future_wrap(f);
    return f;
}
static void step_fut(uint32_t op) {
    long long ob = live_objects(); int released = 0, hits = 0; uint32_t left; bool wakes; AtomicHits_t * h = hits_new();
    switch (op) {
    case 0: { what = "driving a future"; Fut f = any_future(&released, h, &left, &wakes, &hits); uint32_t how = rnd(5); int64_t r = future_drive(f, how); if (how == 0 || how == 2) CHECK(r >= 1 && r <= 1 + 3 * (int64_t) left); CHECK(__atomic_load_n(&released, __ATOMIC_SEQ_CST) == 1); CHECK(hits_get(h) == hits); break; }
    case 1: { what = "giving a future up"; uint32_t n = rnd(7), l = rnd(6), how = rnd(6); Fut f = cf_new(l, how, &released); while (rnd(4) == 0) f = future_wrap(f); uint64_t w = 99; int64_t r = future_poll(f, n, &w); CHECK(r == (n > l ? (int64_t) l : -1)); CHECK(__atomic_load_n(&released, __ATOMIC_SEQ_CST) == 1);
        uint64_t pend = n < l ? n : l; if (how < 2) CHECK(w == pend); if (how == 5) CHECK(w == 0); if (how == 4) CHECK(w >= pend && w <= 2 * pend); if (how == 2) CHECK(w <= pend); break; }
    case 2: { what = "dropping a future"; Fut f = any_future(&released, h, &left, &wakes, &hits); if (rnd(2)) future_free(f); else f.vtable.release_vptr(f.ptr); CHECK(__atomic_load_n(&released, __ATOMIC_SEQ_CST) == 1); CHECK(hits_get(h) == 0); break; }
    case 3: case 4: { what = "an executor"; uint32_t k = rnd(3); Exe e = k == 0 ? exe_new() : ce_new(k == 1); CE * c = k ? (CE *) e.ptr : NULL; uint32_t n = rnd(5);
        Exe d = exe_clone(&e); CHECK(d.ptr == e.ptr && memcmp(&d.vtable, &e.vtable, sizeof e.vtable) == 0);
        if (op == 3) { CHECK(exe_sum(&e, n) == 2ull * n * (n ? n - 1 : 0)); if (c) { LOCK; CHECK(c->spawned == 2 * n && c->blocking == n && c->blocked == 1 && c->entered == 1 && c->within == 0); UNLOCK; } }
        else { Fut f = any_future(&released, h, &left, &wakes, &hits); if (rnd(3)) { CHECK(exe_run(&d, f) == 42); CHECK(__atomic_load_n(&released, __ATOMIC_SEQ_CST) == 1); CHECK(hits_get(h) == hits); if (c) { LOCK; CHECK(c->spawned == 1 && c->blocked == 1); UNLOCK; } }
            else { exe_forget(&e, f); for (int q = 0; __atomic_load_n(&released, __ATOMIC_SEQ_CST) != 1 || hits_get(h) != hits; q++) { if (q > 3000000) FAIL("a task nobody waits for was not run to its end and released"); usleep(20); } } }
        exe_free(d); if (rnd(2)) exe_free(e); else e.vtable.release_vptr(e.ptr); break; }
    }
    settle(ob, __LINE__);
    hits_free(h);
}

int main(int argc, char ** argv) {
    rs = strtoull(argv[1], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    unsigned long long n = strtoull(argv[2], NULL, 10);
    bool fut = argc > 3 && argv[3][0] == 'f';
    // warm up what Rust's runtime keeps
    { Meter m = meter_shared(1); meter_threads(&m, 2, 2); meter_free(m); if (fut) for (uint32_t k = 0; k < 5; k++) future_drive(cf_new(2, 2, NULL), k); settle(0, __LINE__); }
    usleep(20000);
    int64_t a0 = live_allocations(), b0 = live_bytes();
    for (unsigned long long k = 0; k < n; k++) {
        uint32_t op = fut ? rnd(5) : rnd(12);
        steps++; kinds[fut ? 11 + op : op > 10 ? 10 : op]++;
        if (fut) step_fut(op); else if (op < 10) step_dyn(op); else machines();
    }
    what = "the end";
    for (int i = 0; i < MAX; i++) if (ms[i].n) { meter_free(ms[i].v); node_drop(ms[i].n); }
    for (int i = 0; i < 3; i++) if (sh[i].s) { shelf_free(sh[i].s); for (size_t k = 0; k < sh[i].len; k++) node_drop(sh[i].n[k]); }
    settle(0, __LINE__);
    CHECK(cms == 0 && cxs == 0 && n_objects == 0 && n_cms == 0);
    for (int k = 0; live_allocations() != a0 || live_bytes() != b0; k++) { if (k > 2000) FAIL("%lld allocations (%lld bytes) of the library are left over", (long long) (live_allocations() - a0), (long long) (live_bytes() - b0)); usleep(1000); }
    printf("STATS %llu %llu", steps, checks);
    for (int k = 0; k < 16; k++) printf(" %llu", kinds[k]);
    printf("\n");
    return 0;
}
