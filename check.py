#!/opt/venv/bin/python
"""check.py <property>: decides one property on /repo's working tree."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    from harness import report
    ck = report.Check(prop)
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        mod.run(ck)
    except Exception as e:
        text = traceback.format_exc()
        sys.stderr.write(text)
        from harness import par
        if par.in_library(e):
            # the library broke down where nothing can go wrong
            ck.violation('crash', {'traceback': text, 'error': str(e)})
        else:
            ck.errors.append(str(e).strip()[-1500:] or repr(e))
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
