"""Import the code under test from /repo's working tree, with the second Python's z3 made visible."""
import os
import sys

REPO = os.environ.get('FSV_REPO', '/repo')
os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')
os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3_SITE not in sys.path:
    sys.path.append(Z3_SITE)


class _Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def quiet_imports():
    import contextlib
    with contextlib.redirect_stdout(_Quiet()):
        import factorio_sat.network  # prints when graphviz is absent
