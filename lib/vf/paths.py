import os
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
DATA = os.path.join(SPEC, "data")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla"
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check could not be carried out (not a violation)."""
