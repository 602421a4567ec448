import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    from vp import check
    if sys.argv[1] == '--replay':
        sys.exit(check.replay(sys.argv[2]))
    if sys.argv[1] == '--setup':
        sys.exit(check.setup())
    sys.exit(check.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
