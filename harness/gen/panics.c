// Calls what panics.rs exports in forked processes and says how each ended: one line per case
//   CASE name panics status returned unwound caught value-ok   (and the stderr of the child in DIR/name)
#include PANICS_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#ifdef __cplusplus
#define TRY try {
#define CATCH } catch (...) { fl[2] = 1; }
#else
#define TRY {
#define CATCH }
#endif
static volatile int * fl;   // 0 returned, 1 unwound, 2 caught, 3 the value was the expected one, 4 about to call
static void unwound(int * p) { (void) p; fl[1] = 1; }
#define CASE(name, expr, ok) static void c_##name(void) { int g __attribute__((cleanup(unwound))) = 0; (void) g; fl[4] = 1; TRY expr; fl[0] = 1; fl[3] = (ok); CATCH }
static Big_t big(void) { Big_t b; memset(&b, 0, sizeof b); b.a = 7; b.b = 2.5; b.c.idx[19] = 9; return b; }
static int big_ok(Big_t b) { return b.a == 7 && b.b == 2.5 && b.c.idx[19] == 9; }
static uint32_t cb_plain(uint32_t n) { return n * 2; }
static uint32_t cb_panics(uint32_t n) { int g __attribute__((cleanup(unwound))) = 0; (void) g; uint32_t r = p_string(n); fl[5] = 1; return r; }
static uint32_t cb_env(void * e, uint32_t n) { return n + *(uint32_t *) e; }
static void cb_free(void * e) { (void) e; }
static uint32_t env_k = 5;
static BoxDynFnMut1_uint32_uint32_t clo(void) { BoxDynFnMut1_uint32_uint32_t f; f.env_ptr = &env_k; f.call = cb_env; f.free = cb_free; return f; }
static slice_ref_uint8_t sl(void) { static uint8_t b[3] = {1, 2, 3}; slice_ref_uint8_t s = { b, 3 }; return s; }
static Vec_Owning_t no_owning(void) { return p_drop_vec_new(); }
static Vec_uint8_t vec0(void) { Vec_uint8_t v; v.ptr = (uint8_t *) 1; v.len = 0; v.cap = 0; return v; }
static uint32_t u;
#define P(X) \
 X(p_str, p_str()) X(p_string, u = p_string(3)) X(p_any, u = (uint32_t) p_any(4)) X(p_resume, u = p_resume()) X(p_unwrap, u = (uint32_t) p_unwrap(1)) X(p_result, u = (uint32_t) p_result()) \
 X(p_index, u = p_index(2)) X(p_div, u = (uint32_t) p_div(9)) X(p_slice, u = p_slice(sl())) X(p_utf8, u = (uint32_t) p_utf8("\xc3\xa9")) X(p_refcell, u = p_refcell()) X(p_assert, u = p_assert(1, 2)) \
 X(p_unreachable, u = p_unreachable()) X(p_todo, u = p_todo() != 0) X(p_late, u = p_late(&u)) X(p_big, u = (uint32_t) p_big(big()).a) X(p_many, u = (uint32_t) p_many(1, 2, 3, 4, 5, big(), true, 7, 8, 9).a) \
 X(p_vec, u = (uint32_t) p_vec(vec0()).len) X(p_alloc, u = (uint32_t) p_alloc(1).len) X(p_no_ret, p_no_ret(&u)) X(p_never, u = p_never(3)) X(p_renamed, p_renamed()) X(p_unsafe, u = p_unsafe(sl().ptr)) X(p_extern, u = p_extern(3)) \
 X(p_generic_lt, u = *p_generic_lt(&u, &env_k)) X(p_drop_local, u = p_drop_local()) X(p_drop_arg, u = p_drop_arg(bomb())) X(p_drop_underscore, u = p_drop_underscore(bomb())) X(p_drop_underscore_first, u = (uint32_t) p_drop_underscore_first(bomb(), 3).a) \
 X(p_drop_option, p_drop_option(bomb())) X(p_drop_field, u = p_drop_field(owning())) X(p_drop_vec, u = p_drop_vec(no_owning())) X(p_drop_pattern, u = p_drop_pattern(owning())) X(p_drop_temporary, u = (uint32_t) p_drop_temporary()) \
 X(p_callback, u = p_callback(cb_plain, 3)) X(p_nested, u = p_nested(cb_panics, 3)) X(p_nested_caught, u = p_nested_caught(cb_panics, 3)) X(p_thread_join, u = p_thread_join()) X(p_export_from_rust, u = p_export_from_rust()) \
 X(p_tls, u = p_tls()) X(p_poison, u = p_poison()) X(p_hook_custom, u = p_hook_custom()) X(p_hook_taken, u = p_hook_taken()) X(p_caught_then_again, u = p_caught_then_again()) X(p_recursive, u = p_recursive(9)) \
 X(p_closure, u = p_closure(clo(), 3)) X(p_iter, u = p_iter(3)) X(p_sort, u = p_sort()) OVERFLOW_CASE(X)
#ifdef WITH_OVERFLOW
#define OVERFLOW_CASE(X) X(p_overflow, u = p_overflow(3)) INVALID_CASES(X)
static Panel_t panel(int on, int lamp) { Panel_t p; memset(&p, 0, sizeof p); unsigned char b = (unsigned char) on, l = (unsigned char) lamp; memcpy(&p.on, &b, 1); memcpy(&p.lamp, &l, 1); return p; }
static slice_ref_uint8_t no_slice(void) { slice_ref_uint8_t s; memset(&s, 0, sizeof s); return s; }
static BoxDynFnMut1_uint32_uint32_t no_clo(void) { BoxDynFnMut1_uint32_uint32_t f = clo(); f.env_ptr = NULL; return f; }
static uint32_t any_bool(uint8_t b) { uint32_t (*volatile f)(uint8_t) = (uint32_t (*)(uint8_t)) (void (*)(void)) i_bool; return f(b); }
#define INVALID_CASES(X) X(i_enum, u = i_enum((Lamp_t) 4)) X(i_bool, u = any_bool(2)) X(i_ref, u = i_ref(NULL)) X(i_mut, i_mut(NULL)) X(i_slice, u = i_slice(no_slice())) X(i_struct, u = i_struct(panel(2, 3))) \
 X(i_struct_lamp, u = (uint32_t) i_struct_lamp(panel(1, 8)).n) X(i_last, u = i_last(1, i_new(), 2.5, (Lamp_t) 0)) X(i_pattern, u = i_pattern(panel(255, 9), 1)) X(i_first, u = i_first((Lamp_t) 10, i_new())) X(i_closure, u = i_closure(no_clo()))
#else
#define OVERFLOW_CASE(X)
#endif
static uint32_t * ob;
#define OK(X) \
 X(ok_nothing, ok_nothing(), 1) X(ok_value, u = ok_value(4), u == 5) X(ok_big, u = (uint32_t) big_ok(ok_big(big())), u == 1) X(ok_caught, u = ok_caught(9), u == 9) X(ok_caught_drop, u = ok_caught_drop(9), u == 9) \
 X(ok_thread, u = ok_thread(9), u == 9) X(ok_nested, u = ok_nested(cb_plain, 9), u == 18) X(ok_option_none, ob = ok_option(0), ob == 0) X(ok_option, ob = ok_option(5), ob && *ob == 5) X(ok_option_free, u = ok_option_free(ok_option(6)), u == 6) \
 X(ok_forget_bomb, u = ok_forget_bomb(bomb()), u == 1) X(ok_panicking, u = ok_panicking(), u == 0) X(ok_drop_during_unwind, u = ok_drop_during_unwind(3), u == 3) X(ok_vec, u = (uint32_t) p_drop_vec_new().len, u == 2)
#define X1(n, e) CASE(n, e, 0)
#define X2(n, e, k) CASE(n, e, k)
P(X1) OK(X2)
static struct { char const * name; void (*f)(void); int panics; } const cases[] = {
#define X3(n, e) { #n, c_##n, 1 },
#define X4(n, e, k) { #n, c_##n, 0 },
P(X3) OK(X4)
};
static void * on_thread(void * f) { (*(void (**)(void)) f)(); return NULL; }
int main(int argc, char ** argv) {
    (void) argc;
    int threads = atoi(argv[1]);
    char const * dir = argv[2];
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    fl = (volatile int *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < sizeof cases / sizeof *cases; i++) {
        memset((void *) fl, 0, 64);
        char path[512]; snprintf(path, sizeof path, "%s/%s", dir, cases[i].name);
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); alarm(20);
            void (*f)(void) = cases[i].f;
            if (threads) { pthread_t t; pthread_create(&t, NULL, on_thread, &f); pthread_join(t, NULL); } else f();
            _exit(77);
        }
        int st = 0; waitpid(pid, &st, 0);
        printf("CASE %s %d %d %d %d %d %d %d %d\n", cases[i].name, cases[i].panics, st, fl[0], fl[1], fl[2], fl[3], fl[4], fl[5]);
    }
    return 0;
}
