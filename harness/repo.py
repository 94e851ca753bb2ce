"""Making the code under test importable from this tree, without side effects."""
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SERVER = os.path.join(REPO, "dask-gateway-server")
CLIENT = os.path.join(REPO, "dask-gateway")
for p in (SERVER, CLIENT):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sys.dont_write_bytecode = True
sys.modules.setdefault  # keep linters quiet
logging.disable(logging.CRITICAL)


def in_repo(tb):
    """True if the innermost frame of a traceback is code under test."""
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last is not None and last.tb_frame.f_code.co_filename.startswith(REPO + os.sep)
