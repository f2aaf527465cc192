"""Worker process: runs a slice of the cases of a check, one journal line before
and one after each."""
import gc
import json
import os
import resource
import shutil
import signal
import sys
import time
import traceback

from . import core


def main():
    check, tier, seed, lo, hi, step, log, scratch = sys.argv[1:9]
    seed, lo, hi, step = int(seed), int(lo), int(hi), int(step)
    mod = core.module(check)
    builds = json.loads(os.environ['BPAK_CHECK_BUILDS'])
    mult = float(os.environ.get('BPAK_CPU_MULT', '1'))
    lim = getattr(mod, 'CPU_LIMIT', 60) * mult * (1 if tier == 'quick' else 5)
    my = os.path.join(scratch, 'p%d' % os.getpid())
    os.makedirs(my)
    cx = core.Cx(check, tier, seed, builds, my)
    out = open(log, 'ab', 0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    gc.disable()
    for i in range(lo, hi, step):
        out.write(json.dumps({'s': i}).encode() + b'\n')
        cx.reset()
        rec = {'i': i}
        x = None
        signal.setitimer(signal.ITIMER_PROF, lim)
        c0 = time.process_time()
        try:
            mod.run_case(cx, i, core.rng_for(seed, check, i))
        except core.Violation as v:
            cx.violation(v.key, v.detail)
        except core.Inconclusive as e:
            x = 'inconclusive: %s' % e
        except (OSError, MemoryError) as e:
            x = 'environment: %r %s' % (e, traceback.format_exc()[-800:])
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = tb[-1]
            cx.violation('uninterpretable:%s:%s' % (type(e).__name__,
                                                    os.path.basename(where.filename)),
                         'the oracle could not interpret what the code produced\n' +
                         traceback.format_exc()[-3000:])
        signal.setitimer(signal.ITIMER_PROF, 0)
        if 'BPAK_SHOW_CPU' in os.environ:
            cx.counts['max:cpu seconds of a case'] = round(time.process_time() - c0, 2)
        rec.update(n=cx.evals, m=sorted(cx.marks), c=cx.counts, p=cx.samples, v=cx.viol, x=x)
        out.write(json.dumps(rec).encode('utf-8', 'surrogateescape') + b'\n')
        for e in os.listdir(my):
            if not e.startswith('keep'):
                q = os.path.join(my, e)
                if os.path.isdir(q) and not os.path.islink(q):
                    shutil.rmtree(q, ignore_errors=True)
                else:
                    os.unlink(q)
        if i % 16 == 0:
            gc.collect()
    out.close()
    shutil.rmtree(my, ignore_errors=True)
    sys.stdout.flush()
    if os.environ.get('BPAK_COV'):
        import ctypes
        ctypes.CDLL(None).exit(0)   # writes the coverage counters
    os._exit(0)


main()
