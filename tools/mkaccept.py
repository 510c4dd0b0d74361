#!/usr/bin/env python3
"""Regenerates sim/ops/accept.hh: which binary operations the library accepts at compile time for
which classes of operand types (class = bit/logic x up to 64/over 64 bits x unsigned/signed, and how
the widths compare).  Run by hand on the unchanged tree when the catalogue grows; not part of a check."""
import collections, concurrent.futures as cf, os, subprocess
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim/ops/accept.hh")
V = {}
for k in "bl":
    for w in (1, 20, 64, 100, 129):
        for s in (0, 1):
            V[f"{k}{w}{'us'[s]}"] = (k, w, s, f"logic::{'bit' if k == 'b' else 'logic'}<{w - 1},0,{'true' if s else 'false'}>")
OPS = {"and": "a&b", "or": "a|b", "xor": "a^b", "add": "a+b", "sub": "a-b", "mul": "a*b", "div": "a/b", "mod": "a%b",
       "eq": "a==b", "ne": "a!=b", "match": "a.match(b)", "nmatch": "a.nmatch(b)", "gt": "a>b", "lt": "a<b",
       "ge": "a>=b", "le": "a<=b", "iand": "a&=b", "ior": "a|=b", "ixor": "a^=b", "ishl": "a<<=b", "ishr": "a>>=b",
       "assign": "a=b", "shl": "a<<b", "shr": "a>>b", "ashr": "a.ashr(b)", "ashl": "a.ashl(b)", "andand": "bool(a&&b)",
       "oror": "bool(a||b)", "conv": "A(b)", "get": "a.get(b)", "index": "a[b]", "update": "a.update(B::size-1,0,b)",
       "slice_ref": "a.slice_ref(B::size-1,0)=b", "update_t": "a.template update<B::size-1,0>(b)", "slice_by": "a.template slice<1,true>(b)",
       "pow": "a.pow(b)", "iadd": "a+=b", "isub": "a-=b", "imul": "a*=b", "fconcat": "logic::concat(a,b)", "unpack": "a.unpack(b)"}


def probe(j):
    a, b, o = j
    c = (f"#include <cstdint>\n#include \"logic/logic.hh\"\n#include \"logic/array.hh\"\nusing A={V[a][3]};using B={V[b][3]};"
         f"void f(A a,B b){{ (void)({OPS[o]});}}")
    p = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I" + REPO + "/include", "-x", "c++", "-"],
                       input=c, text=True, stderr=subprocess.PIPE)
    return j, p.returncode == 0


with cf.ThreadPoolExecutor(8) as e:
    R = list(e.map(probe, [(a, b, o) for a in V for b in V for o in OPS]))
d = collections.defaultdict(list)
for (a, b, o), ok in R:
    A, B = V[a], V[b]
    rel = 0 if A[1] == B[1] else 1 if A[1] < B[1] else 2
    f = lambda T: (4 if T[0] == "l" else 0) + (2 if T[1] > 64 else 0) + T[2]
    d[((f(A) * 8 + f(B)) * 3 + rel, o)].append((a, b, ok))
mask = [0] * 192
for (k, o), v in d.items():
    if all(x[2] for x in v):
        mask[k] |= 1 << list(OPS).index(o)
    elif any(x[2] for x in v):
        print("mixed", o, [x[:2] for x in v if x[2]], "not", [x[:2] for x in v if not x[2]])
for o in OPS:
    print(o, sum(mask[k] >> list(OPS).index(o) & 1 for k in range(192)))
with open(OUT, "w") as f:
    f.write("// Generated by tools/mkaccept.py: the operand classes each binary operation accepts at compile time.\n#pragma once\n"
            "#include <cstdint>\nnamespace cat {\nenum BinOp {\n    " + ", ".join("B_" + o for o in OPS) + "\n};\n"
            "inline constexpr uint64_t kAccept[192] = {\n")
    for i in range(0, 192, 4):
        f.write("    " + " ".join(f"{m:#x}ull," for m in mask[i:i + 4]) + "\n")
    f.write("};\ntemplate <typename T>\nconstexpr int op_class() {\n"
            "    return (T::is_4state ? 4 : 0) + (T::size > 64 ? 2 : 0) + (T::is_signed ? 1 : 0);\n}\n"
            "template <typename A, typename B>\nconstexpr bool accepts(BinOp o) {\n"
            "    constexpr int rel = A::size == B::size ? 0 : A::size < B::size ? 1 : 2;\n"
            "    return (kAccept[(op_class<A>() * 8 + op_class<B>()) * 3 + rel] >> o) & 1;\n}\n}  // namespace cat\n")
