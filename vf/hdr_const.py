"""Holds the constants of the generated headers against the exported ones.   hdr_const.py SPEC (as hdr_c.py)"""
import json, os, re, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cs, engines, gen, genprog
from hdr_c import H

SIGNED = {"int": "signed", "uint": "unsigned"}


def same(c, bits):
    """bits of a float against the constant's; any NaN is NaN"""
    if len(bits) != len(c.value):
        return False
    f = {4: "<f", 8: "<d"}[len(bits)]
    a, b = struct.unpack(f, bits)[0], struct.unpack(f, c.value)[0]
    return bits == c.value or (a != a and b != b)


def bits_of(c):
    if isinstance(c.value, bool):
        return bytes([c.value])
    if isinstance(c.value, int):
        return (c.value % (1 << 8 * c.ty.size)).to_bytes(c.ty.size, "little")
    return c.value


def c_side(h, text, label):
    p = h.prog
    hp = h.file(f"const.{label}.h", text)
    for c in p.consts:
        n = len(re.findall(rf"(?m)^[ \t]*#[ \t]*define[ \t]+{c.name}\b", text))
        if n != 1:
            h.violate(f"{c.name} is defined {n} times in the C header")
            return
    for which in ("gcc", "clang", "g++", "clang++"):
        cpp = "+" in which
        L = [f'#include "{hp}"', "#include <stdio.h>", "#include <string.h>", "#include <stdint.h>", "#include <stddef.h>", "#include <stdbool.h>", "#include <sys/types.h>"]
        if cpp:
            L += ["#include <type_traits>"]
        body = []
        for c in p.consts:
            n = c.name
            if c.kind == "str":
                L.append(f"static const char vf_{n}[] = {n};")
                body.append(f'    printf("{n} "); for (size_t i = 0; i + 1 < sizeof({n}); i++) printf("%02x", (unsigned char) vf_{n}[i]); printf(".\\n");')
                continue
            ct = c.ty.c("")
            if not c.untyped:
                L.append(f"static_assert(std::is_same<decltype({n}), {ct}>::value, \"type of {n}\");" if cpp else f'_Static_assert(__builtin_types_compatible_p(__typeof__({n}), {ct}), "type of {n}");')
                h.count("constant_types")
            if c.kind != "float" and not (c.untyped and c.kind == "float"):
                # usable in constant expressions
                L.append(f"enum {{ vf_e_{n} = ({n}) == ({n}) }};")
            if c.kind in ("int", "char", "bool"):
                # as it stands, with no target type to help: its mathematical value
                v = int(c.value)
                if c.kind == "char":
                    v = v - 256 if v > 127 and not c.untyped else v
                lit = "(-9223372036854775807LL - 1)" if v == -2**63 else f"{v}LL" if v < 2**63 else f"{v}ULL"
                L.append(f'{"static_assert" if cpp else "_Static_assert"}(({n}) == {lit} && (({n}) < 0) == {int(v < 0)}, "value of {n}");')
            # in an expression, unparenthesised
            L.append(f"static const {ct} vf_{n} = {n};")
            if c.kind in ("int", "float"):
                body.append(f"    if (!(1 * {n} == {n} || {n} != {n})) printf(\"precedence of {n}\\n\");")
            body.append(f'    {{ unsigned char b[sizeof vf_{n}]; memcpy(b, &vf_{n}, sizeof b); printf("{n} "); for (size_t i = 0; i < sizeof b; i++) printf("%02x", b[i]); printf(".\\n"); }}')
        L += ["int main(void) {"] + body + ["    return 0;", "}"]
        src = h.file(f"const.{label}.{'cpp' if cpp else 'c'}", "\n".join(L) + "\n")
        exe = f"{h.dir}/{h.name}.const.{label}.{which}"
        rc, out = gen.cc(which, ["-w", "-Werror=overflow", src, "-o", exe])
        h.count("constant_programs")
        if rc != 0:
            h.violate(f"{which} refuses the constants of the header: {out[:700]}")
            continue
        r = subprocess.run([exe], capture_output=True, text=True, env=engines.BASE_ENV)
        os.unlink(exe)
        got = dict(re.findall(r"(?m)^(\w+) ([0-9a-f]*)\.$", r.stdout))
        for m in re.findall(r"precedence of \w+", r.stdout):
            h.violate(f"{which}: {m}")
        for c in p.consts:
            if c.name not in got:
                h.violate(f"{which}: no value for {c.name} (status {r.returncode})")
                continue
            b = bytes.fromhex(got[c.name])
            ok = b == c.value.encode() if c.kind == "str" else same(c, b) if c.kind == "float" else b == bits_of(c)
            h.count("constant_values")
            h.distinct.add(f"{c.kind}:{c.ty.rust}:{c.untyped}:{cls(c)}")
            if not ok:
                h.violate(f"{which}: `{c.src.splitlines()[-1][:200]}` has the bytes {b.hex()} through {[l for l in text.splitlines() if re.match(rf'#define {c.name}', l)]}")


def cls(c):
    v = c.value
    if c.kind == "int":
        return f"{'-' if v < 0 else ''}{abs(v).bit_length()}"
    if c.kind == "float":
        x = struct.unpack("<f" if len(v) == 4 else "<d", v)[0]
        return "nan" if x != x else str(x) if x in (float("inf"), float("-inf"), 0.0) else ("-" if x < 0 else "") + str(len(str(int(abs(x))))) if abs(x) >= 1 else "small"
    if c.kind == "str":
        return "".join(sorted({"a" if ch.isalnum() else "u" if ord(ch) > 127 else ch if ch.isprintable() else f"{ord(ch):x}" for ch in v}))
    return str(v)


def cs_side(h, text):
    p = h.prog
    try:
        f = cs.File(text)
    except cs.Bad as e:
        return h.violate(f"the C# file is not well formed: {e}")
    for c in p.consts:
        if c.untyped:
            continue   # (left out of C#, as the library's source says)
        d = f.consts.get(c.name)
        if not d:
            h.violate(f"{c.name} is missing in C#")
            continue
        want = {"uint": "u", "int": "i", "float": "f", "bool": "b", "char": "u"}[c.ty.kind]
        if cs.PRIM.get(d["type"]) != (c.ty.size, want) or "public" not in d["mods"]:
            h.violate(f"the C# constant {c.name} has type {d['type']} where it is {c.ty.rust}")
            continue
        h.count("cs_constants")
        try:
            v = cs.const_value(d["type"], d["expr"], d["mods"])
        except cs.Bad as e:
            h.violate(f"C#: `{' '.join(x for _, x in d['expr'])}` is no value for {c.name} ({c.ty.rust}): {e}")
            continue
        ok = same(c, v) if c.kind == "float" else int(v) == int(c.value) and isinstance(v, bool) == isinstance(c.value, bool)
        if not ok:
            h.violate(f"C#: `{c.src.splitlines()[-1][:200]}` is {' '.join(x for _, x in d['expr'])}")
    for n in f.dups:
        h.violate(f"declared twice in C#: {n}")
    for n in f.consts:
        if n not in {c.name for c in p.consts}:
            h.violate(f"C# has a constant {n} that is not exported")


def py_side(h, text):
    defs = re.findall(r"(?m)^#define (\w+) (.*)$", text)
    want = sorted(c.name for c in h.prog.consts)
    h.count("python_constants", len(defs))
    if sorted(n for n, _ in defs) != want:
        h.violate(f"the Python declarations have the constants {sorted(n for n, _ in defs)} where {want} are exported")
    for n, v in defs:
        if v.strip() != "...":
            h.violate(f"cffi cannot take `#define {n} {v}`") if not re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", v.strip()) else None


def main():
    h = H(json.loads(sys.argv[1]))
    for lang, label in ((0, "plain"), (256, "unstable"), (1, "cs"), (2, "py")):
        text, err = gen.headers(h.spec["so"], lang, h.name)
        if err:
            h.violate(f"{label}: {err}")
        elif lang == 1:
            cs_side(h, text)
        elif lang == 2:
            py_side(h, text)
        elif label == "plain" or not h.viol:
            c_side(h, text, label)
    h.samples += [c.src.splitlines()[-1][:160] for c in h.prog.consts[:3]]
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
