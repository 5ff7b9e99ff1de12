import sys, pathlib
ROOT = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(ROOT))
from vlib import boot
boot.prepare_path()
from vlib import runner
if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
