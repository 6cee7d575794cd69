#!/usr/bin/env python3
"""CMAKE_CXX_LINKER_LAUNCHER of the IFEM build without GoTools.

The sources that need GoTools are left out (scope.cmake), but other parts of the library refer to
them, so no program would link even if it never calls them. This runs the link command as it is and,
only when it fails for undefined symbols that ALL belong to the sources left out, links again with
placeholders for exactly those: functions that abort, data that cannot be read (SIGSEGV), and
base-less type_info objects (a dynamic_cast to one of these classes gives null: none can exist).
Any other undefined symbol is a link error, as usual.
"""
import os
import re
import subprocess
import sys

CLASSES = (
    r"ASMmxBase|ASMstruct|ASMs1D(?:C1|Lag|Spec)?|ASMs2D(?:C1|IB|Lag|mx|Spec|Tri)?|ASMs3D(?:Lag|mx|Spec)?"
    r"|SplineField(?:2D|3D)?|SplineFields(?:1D|2D|2Dmx|3D|3Dmx)|SplineInterpolator|SplineUtils"
    r"|(?:Default|MultiPatch)\w*ModelGenerator\w*|SIMMultiPatchModelGen"
)
ALLOWED = re.compile(
    r"^(?:vtable for |typeinfo for |typeinfo name for |VTT for |construction vtable for "
    r"|guard variable for |(?:non-)?virtual thunk to )?(?:%s)(?:$|::)" % CLASSES
)


def main():
    cmd = sys.argv[1:]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode == 0:
        sys.stdout.write(r.stdout + r.stderr)
        return 0
    probe = subprocess.run(
        cmd + ["-Wl,--no-demangle"], capture_output=True, text=True,
        env={**os.environ, "LC_ALL": "C"},
    )
    syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", probe.stderr)))
    names = subprocess.run(
        ["c++filt"], input="\n".join(syms) + "\n", capture_output=True, text=True
    ).stdout.splitlines()
    more = set()
    if os.environ.get("LINK_ALLOW"):
        with open(os.environ["LINK_ALLOW"]) as f:
            more = set(f.read().split())
    bad = [n for s, n in zip(syms, names) if not (ALLOWED.match(n) or s in more)]
    if not syms or bad:
        for line in r.stderr.splitlines():
            if not any(f"`{n}'" in line for n in names if n not in bad):
                sys.stderr.write(line + "\n")
        for n in bad:
            sys.stderr.write(f"undefined and not part of what is left out: {n}\n")
        return 1

    out = cmd[cmd.index("-o") + 1]
    stub = out + ".leftout"
    text, data, info = [], [], []
    for s, n in zip(syms, names):
        if s.startswith("_ZTI"):
            info.append(
                f'.globl {s}\n.balign 8\n{s}:\n.quad _ZTVN10__cxxabiv117__class_type_infoE+16\n'
                f'.quad 1f\n.section .rodata\n1: .asciz "{s[4:]}"\n.section .data.rel.leftout,"aw"\n'
            )
        elif n.endswith(")") or "(" in n:
            text.append(f".globl {s}\n.type {s},@function\n.set {s}, ifem_left_out\n")
        else:
            data.append(f".globl {s}\n.balign 16\n{s}: .zero 4096\n")
    with open(stub + ".s", "w") as f:
        f.write('.text\n.globl ifem_left_out\n.type ifem_left_out,@function\nifem_left_out:\n')
        f.write("subq $8,%rsp\ncall ifem_left_out_called\n" + "".join(text))
        f.write('.section .data.rel.leftout,"aw"\n' + "".join(info))
        f.write('.section .leftout,"aw"\n.balign 4096\n.globl ifem_left_out_data\nifem_left_out_data:\n')
        f.write("".join(data) + ".balign 4096\n.globl ifem_left_out_end\nifem_left_out_end:\n")
        f.write('.section .note.GNU-stack,"",@progbits\n')
    with open(stub + ".c", "w") as f:
        f.write(
            "#include <stdio.h>\n#include <stdlib.h>\n#include <sys/mman.h>\n"
            "extern char ifem_left_out_data[], ifem_left_out_end[];\n"
            "void ifem_left_out_called(void)\n{\n"
            '  fputs("*** called code that is left out of this build (needs GoTools, or not used by this check)\\n", stderr);\n'
            "  abort();\n}\n"
            "__attribute__((constructor(101))) static void protect(void)\n{\n"
            "  if (ifem_left_out_end > ifem_left_out_data)\n"
            "    mprotect(ifem_left_out_data, ifem_left_out_end-ifem_left_out_data, PROT_NONE);\n}\n"
        )
    objs = []
    for ext in ("s", "c"):
        obj = f"{stub}.{ext}.o"
        if subprocess.run(["gcc", "-fPIC", "-O1", "-c", f"{stub}.{ext}", "-o", obj]).returncode:
            return 1
        objs.append(obj)
    print(f"{out}: {len(syms)} symbols of the left-out sources have placeholders")
    return subprocess.run(cmd + objs).returncode


sys.exit(main())
