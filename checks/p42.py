"""P42: tag timer."""
import io, itertools, contextlib, time
from mc import *
from pwtools import timer

chk = Check('P42', level='model_checking',
    rule='All sequences of start/stop, print and message calls up to length 6 (thorough 8) over two tags with a controlled clock on the real timer, printed text and stored times compared with a model after every call. Non-trivial: a time is printed.',
    assumptions=['the clock never goes backwards'])

ACT = [('t', 'a'), ('t', 'b'), ('pt', 'a'), ('pt', 'b'), ('p', 'a')]
@chk.group(lambda tier: [[list(s), q] for s in itertools.product(range(5), repeat=2) for q in (0, 1)])
def histories(case, ctx):
    first, quiet = case
    depth = 6 if TIER == 'quick' else 8
    for rest in itertools.product(range(len(ACT)), repeat=depth - 2):
        seq = list(first) + list(rest)
        clock = [1.0]
        def tick():
            clock[0] += 1.0 + clock[0] / 8        # all differences are different
        fake = lambda: clock[0]
        real = [time.time, time.perf_counter, time.monotonic]
        old = [(m, k, v) for m in (time, timer) for k, v in list(vars(m).items()) if any(v is r for r in real)]
        for m, k, v in old:
            setattr(m, k, fake)
        model = {}
        try:
            tt, other = timer.TagTimer(silence=bool(quiet)), timer.TagTimer()
            other.t('a'); tick(); other.t('a')
            so = clock[0] - 1.0
            for k, i in enumerate(seq):
                what, tag = ACT[i]
                out = io.StringIO()
                exc = None
                tick()
                with contextlib.redirect_stdout(out):
                    try:
                        if what == 't': tt.t(tag)
                        elif what == 'pt': tt.pt(tag, *(['m%i' % k] if k % 2 else []))
                        else: tt.p('hello')
                    except ValueError as e:
                        exc = e
                want = ''
                if what == 't':
                    m = model.get(tag, [])
                    model[tag] = [clock[0]] if len(m) in (0, 2) else m + [clock[0]]
                elif what == 'pt':
                    if tag not in model:
                        check(exc is not None, 'unknown tag accepted')
                        exc = None
                    else:
                        if len(model[tag]) == 1: model[tag].append(clock[0])
                        want = ('%s: %s time: %s' % (tag, 'm%i' % k if k % 2 else '', model[tag][1] - model[tag][0]))
                else:
                    want = 'hello'
                check(exc is None, lambda: 'failed: %r' % exc)
                got = out.getvalue()
                if quiet or not want:
                    check(got == '', lambda: 'printed %r' % got)
                else:
                    check(got.endswith(want + '\n') and got.count('\n') == 1, lambda: 'printed %r, expected %r after %r' % (got, want, seq[:k + 1]))
                ctx.count('transitions', 1)
            ctx.count('states', 1); ctx.count('traces_validated_against_impl', 1); ctx.eval(1)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                other.pt('a')
                err = raises(lambda: other.pt('b'))
            check('a:' in out.getvalue() and out.getvalue().endswith('time: %s\n' % so) and err is not None, 'other timer changed')
        finally:
            for m, k, v in old:
                setattr(m, k, v)
