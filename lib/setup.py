"""setup_cmd: nothing is built ahead (checks rebuild from /repo themselves);
only verifies that the tools the checks need are there."""
import shutil, subprocess, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print(subprocess.run(["g++", "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
