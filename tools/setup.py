#!/usr/bin/env python3
"""Nothing is kept between runs (every check builds what it needs): this only makes sure that the tools are there."""
import shutil, sys
missing=[t for t in ("gcc","g++","objcopy","nm") if not shutil.which(t)]
if missing: sys.exit("missing: "+" ".join(missing))
print("ok")
