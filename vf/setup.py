"""Builds the framework from the committed files: the TLC operator overrides, and a check that they work."""
import subprocess, sys
from . import base


def main():
    cls = base.java_classes()
    r = subprocess.run(["java", "-cp", cls + ":" + base.JARS, "SelfTest"], capture_output=True, text=True)
    sys.stdout.write(r.stdout[-2000:])
    if r.returncode:
        sys.exit(r.stderr[-2000:] or "SelfTest failed")
    print("ready")


if __name__ == "__main__":
    main()
