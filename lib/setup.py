"""checks that the tools the framework needs are there; nothing is installed or built in advance"""
import shutil, sys
missing = [t for t in ("gcc", "make", "tlc", "java", "flex", "bison") if not shutil.which(t)]
if missing: print("missing: " + " ".join(missing))
sys.exit(1 if missing else 0)
