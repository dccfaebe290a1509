import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
# hypothesis lives in the tooling environment; appended last so that it shadows nothing
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/tmp/.hypothesis-unused")
if "VERIF_REPO" in os.environ:
    sys.path.insert(0, os.environ["VERIF_REPO"])
import vh
if __name__ == "__main__":
    sys.exit(vh.main(sys.argv[1:]))
