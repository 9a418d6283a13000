#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vstatic import registry  # noqa: E402
from vstatic.report import main  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--selftest":
        from vstatic.harness import engine
        e = engine()
        print(f"{len(registry.CHECKS)} checks, {len(e.p.modules)} modules parsed")
        sys.exit(0 if registry.CHECKS else 2)
    if pid == "all":
        import subprocess
        bad = 0
        for p in sorted(registry.CHECKS):
            r = subprocess.run([sys.executable, __file__, p] + sys.argv[2:], capture_output=True, text=True)
            lines = [ln for ln in (r.stdout + r.stderr).splitlines() if ln.startswith(("OK", "VIOLATION", "ANALYSIS", "KNOWN", "  src", "  key"))]
            print("\n".join(lines) if r.returncode else lines[-1] if lines else p, flush=True)
            bad |= r.returncode
        sys.exit(1 if bad else 0)
    c = registry.CHECKS[pid]
    sys.exit(main(pid, c["title"], c["fn"], c["level"], c["technique"]))
