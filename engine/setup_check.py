"""setup: the tools the checks need are there (nothing is built or fetched)"""
import shutil, sys
miss = [t for t in ("clang++", "llvm-link", "c++filt") if not shutil.which(t)]
try:
    import z3
except ImportError:
    miss.append("z3 python module")
if miss:
    print("missing:", ", ".join(miss))
    sys.exit(1)
print("ok: z3", z3.get_version_string())
