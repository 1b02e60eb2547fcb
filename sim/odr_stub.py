#!/usr/bin/env python3
"""Prints assembler definitions for static constexpr members of the library that
an object file odr-uses.  Before C++17 such members need an out-of-class
definition, which the library does not have (programs link only if the
optimiser removes the use).  Symbols are weak: a definition of the library's
own, should it get one, wins."""
import re, subprocess, sys
und = subprocess.run(["nm", "-u", "-j"] + sys.argv[1:], capture_output=True, text=True).stdout.split()
print(".section .rodata\n.balign 8")
for s in sorted(set(und)):
    m = re.match(r"_ZN4intp\d+\w*?I.*?(?:Lm(\d+)E)(?:Lm(\d+)E)?.*E(5order|3dim)E$", s)
    if not m:
        continue
    v = m.group(1) if m.group(3) == "3dim" else m.group(2)
    if v is None:
        continue
    print(f".weak {s}\n{s}: .quad {v}")
print('.section .note.GNU-stack,"",@progbits')
