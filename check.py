#!/usr/bin/env python3
"""check.py <property id>: decide one property.  Exit 0 / 1 + VIOLATION; 2 on an error of the check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'drivers'))
import vf


def main():
    prop = sys.argv[1]
    mod = None
    import registry
    fn = registry.CHECKS[prop]
    c = vf.Check(prop)
    try:
        fn(c)
    except vf.CheckError as e:
        if not c.violations:
            print('ERROR property=%s: %s' % (prop, e))
            return 2
    except Exception:
        if not c.violations:
            traceback.print_exc()
            return 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
