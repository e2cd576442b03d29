#!/usr/bin/env python3
import sys
from vlib import check
if sys.argv[1] == "check":
    sys.exit(check.main(sys.argv[2:]))
if sys.argv[1] == "setup":
    from vlib import common
    import os
    os.makedirs(common.WORK, exist_ok=True)
    from vlib import families
    for f in [common.FULL, families.DEFAULT, *families.PARTS]:
        common.build(f)
