"""C code that calls the exported functions of a generated program."""
import gentypes as G


def body(f, cty, ret, marks=False):
    L, at = [], 0
    for i, (_, _, t) in enumerate(f.args):
        L.append(f"    {cty(t, f'a{i}')}; __builtin_memcpy(&a{i}, in + {at}, {t.size});")
        at += t.size + (-t.size % 16)
    if marks:
        L += ["    int vf_g __attribute__((cleanup(vf_unwound))) = 0; (void) vf_g;", "    VF_TRY"]
    call = f"{f.name}({', '.join(f'a{i}' for i in range(len(f.args)))})"
    if f.ret is G.VOID:
        L.append(f"    {call}; (void) out;")
    else:
        L.append(f"    {cty(f.ret, 'r')}; __typeof__(r) const got = {call}; __builtin_memcpy(out, &got, sizeof got); (void) sizeof r;")
    if marks:
        L += ["    vf_flags[0] = 1;", "    VF_CATCH"]
    return "\n".join(L)


MARKS = """
#ifdef __cplusplus
#define VF_TRY try {
#define VF_CATCH } catch (...) { vf_flags[2] = 1; }
extern "C" {
#else
#define VF_TRY {
#define VF_CATCH }
#endif
static volatile unsigned *vf_flags;
void vf_set_flags(void *p);
void vf_set_flags(void *p) { vf_flags = (volatile unsigned *) p; }
static void vf_unwound(int *p) { (void) p; vf_flags[1] = 1; }
#ifdef __cplusplus
}
#endif
"""


def with_header(prog, header, marks=False):
    """Through the generated header, with its own type names."""
    L = [f'#include "{header}"', "#include <stddef.h>", "#include <stdint.h>", "#include <sys/types.h>", "#ifdef __cplusplus", 'extern "C" {', "#endif"]
    if marks:
        L.insert(-3, MARKS)
    for f in prog.fns:
        L.append(f"void vf_call_{f.k}(unsigned char const *in, unsigned char *out);\nvoid vf_call_{f.k}(unsigned char const *in, unsigned char *out) {{\n    (void) in;\n{body(f, lambda t, v: t.c(v), f.ret, marks)}\n}}")
    L += ["#ifdef __cplusplus", "}", "#endif"]
    return "\n".join(L) + "\n"


def c_of(t, defs, seen, boolean="_Bool"):
    """C type (from the model, not from a header) with the fields of `t`; adds the definitions it needs."""
    if t.kind in ("uint", "int", "char"):
        return {1: "uint8_t", 2: "uint16_t", 4: "uint32_t", 8: "uint64_t"}[t.size]
    if t.kind == "float":
        return {4: "float", 8: "double"}[t.size]
    if t.kind == "bool":
        return boolean
    if t.kind == "enum":
        return c_of(t.int, defs, seen, boolean)
    if t.kind in ("ptr", "fn") or (t.kind == "option" and not t.fields):
        return "fnptr_t" if (t.inner if t.kind == "option" else t).kind == "fn" else "void *"
    if t.kind == "array":
        e = c_of(t.elem, defs, seen, boolean)
        n = f"S{len(seen)}"
        if ("arr", e, t.n) not in seen:
            seen[("arr", e, t.n)] = n
            defs.append(f"typedef struct {{ {e} idx[{t.n}]; }} {n};")
        return seen[("arr", e, t.n)]
    key = ("st",) + tuple((n, c_of(f, defs, seen, boolean)) for n, _, f in t.fields)
    if key not in seen:
        n = f"S{len(seen)}"
        seen[key] = n
        defs.append("typedef struct { " + " ".join(f"{c} {f};" for f, c in key[1:]) + f" }} {n};")
    return seen[key]


HEAD = "#include <stdint.h>\n#include <stddef.h>\ntypedef void (*fnptr_t)(void);\n"


def raw(prog):
    """Without the header: only integers, floats and structs of them, so that no compiler cares what is a legal value."""
    defs, seen, fs = [], {}, []
    c = lambda t: "void" if t is G.VOID else c_of(t, defs, seen, "uint8_t")
    for f in prog.fns:
        proto = f"extern {c(f.ret)} {f.name}({', '.join(c(t) for _, _, t in f.args) or 'void'});"
        fs.append(proto + f"\nvoid vf_call_{f.k}(unsigned char const *in, unsigned char *out) {{\n{body(f, lambda t, v: c(t) + ' ' + v, f.ret)}\n}}")
    return HEAD + "\n".join(defs + fs) + "\n"
