"""setup_cmd: check that the tools the checks need are there (nothing has to be built)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3  # noqa
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d), exist_ok=True)
print('z3', z3.get_version_string())
