"""Entry point of every check: check.py C01 [quick|thorough], check.py --replay FILE."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from nv import engine, env
    if '--worker' not in sys.argv and os.environ.get('NV_SCRATCH') is None:
        # re-execute in a controlled environment (hash seed, thread counts, no byte code in /repo)
        import shutil
        import subprocess
        import tempfile
        scratch = tempfile.mkdtemp(prefix='nv-main-')
        try:
            rc = subprocess.call([env.PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env=env.child_env(scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)
    sys.exit(engine.main(sys.argv[1:]))
