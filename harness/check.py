"""check.py PROPERTY: decides one property of the code in /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == '__main__':
    import framework
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = framework.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        # an import error of the code under test is a violation of everything
        mod = importlib.import_module('checks.' + pid.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        if any('pdfme' in f.filename and 'verif' not in f.filename for f in traceback.extract_tb(e.__traceback__)):
            ctx.violations.append((['ImplementationImports'], {'import': str(e)}, {}, []))
            sys.exit(ctx.finish())
        sys.exit(2)
    try:
        mod.run(ctx)
    except Exception:
        import traceback
        if not ctx.violations:
            raise
        traceback.print_exc()
    sys.exit(ctx.finish())
