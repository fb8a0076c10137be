"""Checks that the tools the framework needs are there."""
import shutil, sys
missing = [t for t in ("clang-18", "opt-18", "llvm-cxxfilt-18", "moc", "g++") if not shutil.which(t)]
import z3
print("z3", z3.get_version_string(), "missing:", missing)
sys.exit(1 if missing else 0)
