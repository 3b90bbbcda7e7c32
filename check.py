"""python3 check.py <property> [--thorough]: decides one property on /repo's current source (static analysis only)"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)

from vflow.spec import main  # noqa: E402
import rules.table  # noqa: E402


if __name__ == "__main__":
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(main(pid, rules.table.RULES[pid], tier)))
    t.start()
    t.join()
    sys.exit(box[0] if box else 3)
