"""setup_cmd: nothing to build; check that the tools the checks use are there."""
import subprocess, sys
for cmd in (["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, cvc5; print('z3', z3.get_version_string())"],
            ["/opt/venv/bin/python", "-c", "import more_itertools"]):
    if subprocess.run(cmd).returncode:
        sys.exit(1)
