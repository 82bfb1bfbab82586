"""Evaluate the contracts of one property on the real code: run.py C01 SEED TIER"""
import json
import os
import sys
import traceback
import warnings
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
repo = os.environ.get('VERIF_REPO', '/repo')
if repo != '/repo':
    sys.path.insert(0, os.path.join(repo, 'src'))
os.environ['VERIF_REPO'] = repo
sys.dont_write_bytecode = True


def main():
    pid, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    import numpy as np
    np.seterr(all='ignore')
    import lib
    rec = lib.Rec(pid, seed, tier)
    rec.cur = {}
    err = ''
    try:
        import kcorrect
        import kcorrect.fitter
        import kcorrect.kcorrect
        import kcorrect.response
        import kcorrect.template
        import kcorrect.utils
    except Exception as ex:
        rec.fail('import', '%s: %s' % (type(ex).__name__, ex))
        out(rec, err)
        return
    import props
    rng = np.random.RandomState(seed)
    try:
        props.PROPS[pid](rec, rng, kcorrect, repo)
    except lib.LibError:
        pass
    except Exception as ex:
        # only public calls are made with valid arguments: an exception raised inside kcorrect, or a result that
        # cannot be taken apart as documented, is a failed contract; anything else is a problem of the harness
        src = os.path.realpath(os.path.dirname(kcorrect.__file__))
        at = [f.filename for f in traceback.extract_tb(ex.__traceback__) if os.path.realpath(f.filename).startswith((src + os.sep, HERE + os.sep))][-1]
        if os.path.realpath(at).startswith(src + os.sep) or isinstance(ex, (ValueError, TypeError, KeyError, IndexError)) or (
                isinstance(ex, AttributeError) and type(getattr(ex, 'obj', None)).__module__.startswith('kcorrect') and not str(ex.name).startswith('_')):
            rec.fail('completes on valid arguments', traceback.format_exc()[-600:])
        else:
            err = 'harness: ' + traceback.format_exc()[-1500:]
    out(rec, err)


def out(rec, err):
    print('RESULT ' + json.dumps(dict(evaluations=rec.n, distinct=len(rec.labels), failures=rec.failures, known=rec.known, samples=rec.samples, rule='; '.join(rec.rules), error=err)))


if __name__ == '__main__':
    main()
