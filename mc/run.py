"""python -m mc.run C10 [quick|thorough]   |   python -m mc.run --replay FILE [INDEX]"""
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from mc import engine
    if sys.argv[1] == '--replay':
        sys.exit(engine.replay(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0))
    code = engine.run_check(sys.argv[1], engine.tier_of(sys.argv[2] if len(sys.argv) > 2 else None))
    sys.stdout.flush()
    sys.exit(code)
