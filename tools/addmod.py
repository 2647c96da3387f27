#!/usr/bin/env python3
# tools/addmod.py NAME: register a harness module in harness/src/main.rs
import sys
f='/verif/harness/src/main.rs'; s=open(f).read()
for n in sys.argv[1:]:
    if f"mod {n};" in s: continue
    s=s.replace("mod common;",f"mod {n};\nmod common;")
    s=s.replace("::ENTRIES];","::ENTRIES, crate::%s::ENTRIES];"%n)
open(f,'w').write(s)
