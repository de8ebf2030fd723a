"""python3-vt -m pvc.run --list | --show ID... | ID OUT.json LIMIT"""
import sys
from . import spec

if __name__ == '__main__':
    sys.exit(spec.main(sys.argv[1:]))
