"""The tools are there, the specification parses, the library builds."""
import os
import subprocess
import sys
import tempfile
import shutil

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf


def main():
    work = tempfile.mkdtemp(prefix="vf-setup-")
    try:
        for m in sorted(os.listdir(os.path.join(vf.VERIF, "spec"))):
            if m.endswith(".tla"):
                p = subprocess.run(["java", "-cp", vf.CP, "tla2sany.SANY", m], cwd=os.path.join(vf.VERIF, "spec"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode or b"rror" in p.stdout:
                    print(p.stdout.decode()[-3000:])
                    return 1
        vf.build(work)
        vf.build(work, race=True)
        vf.build(work, cli=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("ready")
    return 0


if __name__ == "__main__":
    sys.exit(main())
