#!/usr/bin/env python3
"""run.py ID quick|thorough          run the check of one property
run.py ID --replay FILE          reproduce a recorded violation
run.py --setup                   what setup_cmd runs"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from finsim import boot   # noqa: E402


def main():
    if os.environ.get("FINSIM_CHILD") != "1":
        env = boot.env(FINSIM_CHILD="1")
        env["PYTHONPATH"] = boot.REPO
        os.execve(boot.PYTHON, [boot.PYTHON, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    from finsim import driver
    sys.exit(driver.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
