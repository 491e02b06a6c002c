import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
import core  # noqa

if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
