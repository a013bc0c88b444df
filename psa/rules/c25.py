"""C25: logging and progress modes are restored by their counterparts."""
import itertools

EXPLANATION = ("State analysis of the logging module by abstract interpretation: console and file levels start as arbitrary symbols; after every sequence (up to the "
               "bound, and for an unbounded loop of arbitrary silencing calls) of the two silencing entry points, level changes and loud mode, re-activation must "
               "leave exactly the symbols that were in force before the first silencing. Modes must set levels and the progress flag; the warning filter must drop "
               "exactly warnings and be removed by its counterpart; the temporary console silence is entered with normal, exceptional, returning, nested and "
               "looping bodies and both levels must be the entry symbols afterwards.")
ASSUMPTIONS = ("logging handlers are modelled as a level and a list of filters (addFilter ignores duplicates, removeFilter ignores missing ones)",)

HEAD = '''
import logging
import popsynth
import popsynth.utils.logging as L
from popsynth.utils.configuration import popsynth_config as config
C, U = L.popsynth_console_log_handler, L.popsynth_usr_log_handler
c0, u0 = integer("console"), integer("file")
C.setLevel(c0)
U.setLevel(u0)
config.show_progress = flag("progress")
p0 = config.show_progress
def levels(c, u, what):
    EQ(C.level, c, "console level " + what)
    EQ(U.level, u, "file level " + what)
'''
SILENCE = {"silence": "popsynth.silence_logs()", "quiet": "popsynth.quiet_mode()"}


def restored(ctx, depth):
    src = HEAD
    for n in range(1, depth + 1):
        for seq in itertools.product(SILENCE, repeat=n):
            what = "+".join(seq)
            for s in seq:
                src += SILENCE[s] + "\nlevels(logging.CRITICAL, logging.CRITICAL, 'after %s of %s')\n" % (s, what)
            src += "popsynth.activate_logs()\nlevels(c0, u0, 'restored after %s')\n" % what
    sc = ctx.scene("silenced and re-activated", src)
    ctx.check_all(sc, "restore")


def between(ctx):
    """things that happen while silent, or between cycles, do not spoil the restoration"""
    cases = {
        "level update while silent": "popsynth.silence_logs()\npopsynth.update_logging_level('INFO')\npopsynth.activate_logs()\n",
        "silenced again after level update": "popsynth.silence_logs()\npopsynth.update_logging_level('INFO')\npopsynth.quiet_mode()\npopsynth.activate_logs()\n",
        "loud while silent": "popsynth.quiet_mode()\npopsynth.loud_mode()\npopsynth.activate_logs()\n",
        "silent, loud, silent": "popsynth.quiet_mode()\npopsynth.loud_mode()\npopsynth.silence_logs()\npopsynth.activate_logs()\n",
        "debug while silent": "popsynth.silence_logs()\npopsynth.debug_mode()\npopsynth.silence_logs()\npopsynth.activate_logs()\n",
        "warnings while silent": "popsynth.silence_logs()\npopsynth.silence_warnings()\npopsynth.activate_warnings()\npopsynth.activate_logs()\n",
        "temporary silence while silent": "popsynth.silence_logs()\nwith L.silence_console_log():\n    pass\nlevels(logging.CRITICAL, logging.CRITICAL, 'after temporary')\npopsynth.activate_logs()\n",
        "silenced inside temporary silence": "with L.silence_console_log():\n    popsynth.silence_logs()\n    popsynth.activate_logs()\n",
        "two cycles": "popsynth.silence_logs()\npopsynth.activate_logs()\npopsynth.quiet_mode()\npopsynth.activate_logs()\n",
    }
    src = HEAD
    for k, e in cases.items():
        src += e + "levels(c0, u0, 'restored after %s')\nC.setLevel(c0)\nU.setLevel(u0)\n" % k
    src += '''
popsynth.silence_logs()
popsynth.activate_logs()
c1, u1 = integer("console1"), integer("file1")
C.setLevel(c1)
U.setLevel(u1)
popsynth.quiet_mode()
popsynth.silence_logs()
popsynth.activate_logs()
levels(c1, u1, "of the second cycle")
popsynth.loud_mode()
popsynth.silence_logs()
popsynth.activate_logs()
levels(logging.INFO, logging.INFO, "loud before silence")
popsynth.update_logging_level(c0)
EQ(C.level, c0, "console level after update")
popsynth.silence_logs()
popsynth.activate_logs()
EQ(C.level, c0, "console level updated before silence")
popsynth.debug_mode()
EQ(C.level, logging.DEBUG, "debug mode")
popsynth.silence_logs()
popsynth.activate_logs()
EQ(C.level, logging.DEBUG, "console level after debug mode and silence")
'''
    sc = ctx.scene("events between silencing and re-activation", src)
    ctx.check_all(sc, "restore")


def anynumber(ctx):
    src = HEAD + '''
k = integer("k")
ASSUME(k >= 0)
popsynth.silence_logs()
for i in range(k):
    if flag("which"):
        popsynth.silence_logs()
    else:
        popsynth.quiet_mode()
popsynth.activate_logs()
levels(c0, u0, "restored after any number of silencings")
'''
    sc = ctx.scene("any number of silencings", src)
    ctx.check_all(sc, "restore")


def modes(ctx):
    src = HEAD + '''
popsynth.quiet_mode()
EQ(config.show_progress, False, "progress in quiet mode")
levels(logging.CRITICAL, logging.CRITICAL, "in quiet mode")
popsynth.loud_mode()
EQ(config.show_progress, True, "progress in loud mode")
levels(logging.INFO, logging.INFO, "in loud mode")
popsynth.silence_progress_bars()
EQ(config.show_progress, False, "progress silenced")
levels(logging.INFO, logging.INFO, "after silencing progress")
popsynth.show_progress_bars()
EQ(config.show_progress, True, "progress shown")
popsynth.silence_progress_bars()
popsynth.loud_mode()
EQ(config.show_progress, True, "progress in loud mode again")
C.setLevel(c0)
U.setLevel(u0)
config.show_progress = p0
popsynth.loud_mode()
EQ(config.show_progress, True, "progress in loud mode from anywhere")
levels(logging.INFO, logging.INFO, "in loud mode from anywhere")
config.show_progress = p0
popsynth.silence_logs()
popsynth.activate_logs()
EQ(config.show_progress, p0, "progress after silencing logs only")
SAME(config, popsynth.popsynth_config, "one configuration")
'''
    sc = ctx.scene("modes", src)
    ctx.check_all(sc, "modes")


def warnings(ctx):
    src = HEAD + '''
class Rec(object):
    def __init__(self, n):
        self.levelno = n
def passes(h, n):
    out = True
    for f in h.filters:
        r = f.filter(Rec(n)) if hasattr(f, "filter") else f(Rec(n))
        out = out and r
    return bool(out)
fc, fu = freeze(C.filters), freeze(U.filters)
def check(silent, what):
    for n in (10, 20, 25, 29, 30, 31, 40, 50):
        EQ(passes(C, n), n != logging.WARNING if silent else True, "records passing the console " + what)
        EQ(passes(U, n), n != logging.WARNING if silent else True, "records passing the file " + what)
check(False, "at first")
popsynth.silence_warnings()
check(True, "with warnings silenced")
popsynth.activate_warnings()
check(False, "with warnings back")
EQ(freeze(C.filters), fc, "console filters")
EQ(freeze(U.filters), fu, "file filters")
popsynth.silence_warnings()
popsynth.silence_warnings()
popsynth.activate_warnings()
check(False, "after silencing twice")
EQ(freeze(C.filters), fc, "console filters after silencing twice")
popsynth.activate_warnings()
check(False, "after activating twice")
popsynth.silence_warnings()
popsynth.silence_logs()
popsynth.activate_logs()
check(True, "still silenced after a log cycle")
levels(c0, u0, "around warnings")
'''
    sc = ctx.scene("warnings", src)
    ctx.check_all(sc, "warnings")


def temporary(ctx):
    src = HEAD + '''
with L.silence_console_log():
    levels(logging.ERROR, logging.ERROR, "inside")
levels(c0, u0, "after a normal exit")
ok, v = attempt(lambda: body(True))
def body(b):
    with L.silence_console_log():
        if b:
            raise ValueError("x")
def early():
    with L.silence_console_log():
        return 3
def loop():
    for i in range(3):
        with L.silence_console_log():
            if flag("go"):
                continue
            break
def nested():
    with L.silence_console_log():
        with L.silence_console_log():
            raise KeyError("y")
def changed():
    with L.silence_console_log():
        C.setLevel(7)
        U.setLevel(8)
for b in (True, False):
    ok, v = attempt(lambda: body(b))
    HOLDS(ok != b, "the exception is passed on")
    levels(c0, u0, "after an exit by exception")
try:
    body(flag("boom"))
except ValueError:
    pass
levels(c0, u0, "after a possible exception")
EQ(early(), 3, "value")
levels(c0, u0, "after a return")
loop()
levels(c0, u0, "after a loop")
ok, v = attempt(nested)
HOLDS(not ok, "the inner exception is passed on")
levels(c0, u0, "after nesting")
changed()
levels(c0, u0, "after a body that changes them")
'''
    src = src.replace("ok, v = attempt(lambda: body(True))\n", "", 1)
    sc = ctx.scene("temporary silence", src)
    ctx.check_all(sc, "temporary")


def check(ctx):
    ctx.run(restored, ctx, 4 if ctx.thorough else 3)
    ctx.run(between, ctx)
    ctx.run(anynumber, ctx)
    ctx.run(modes, ctx)
    ctx.run(warnings, ctx)
    ctx.run(temporary, ctx)
