#!/usr/bin/env python3
"""builds the engine, the IR (std included) and the native replayer once"""
from symlib import *
import specs
l = lock()
build_engine()
for f in ((), ("comment",)):
    try:
        build_ir(f)
        build_native(f)
    except BuildError as e:
        print(e)
print("setup done")
