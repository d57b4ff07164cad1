"""A program which uses the Python binding; what it is handed goes to the simulation."""
import contextlib
import gc
import json
import os
import pathlib
import sys
import threading
import simpy


class _Lock:
    """The locks of the threading module, as the simulation has them."""

    def __init__(self, again):
        self._again, self._owner, self._n = again, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me, ns, waited = threading.get_ident(), 1000, 0
        while self._owner is not None and not (self._again and self._owner == me):
            if not blocking or 0 <= timeout * 1e9 < waited:
                return False
            simpy.wait(ns)
            waited += ns
            ns = min(2 * ns, 100_000_000)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None or self._again and self._owner != threading.get_ident():
            raise RuntimeError("not held")
        self._n -= 1
        if not self._n:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


threading.Lock = lambda: _Lock(False)
threading.RLock = lambda: _Lock(True)
import watcher

gc.disable()  # it happens when the simulation says so
_FILE = watcher.__file__
_lines = 0
_gc_at = -1


class Thrown(Exception):
    pass


def _unraisable(u):
    if isinstance(u.exc_value, Thrown):
        return
    simpy.fail("bind.exception", f"{u.err_msg or 'ignored in'} {u.object!r}: {u.exc_value!r}")


sys.unraisablehook = _unraisable


def _line(code, _):
    global _lines
    if code.co_filename != _FILE:
        return sys.monitoring.DISABLE
    _lines += 1
    if _lines == _gc_at:
        simpy.probe("garbage-collected-between-lines")
        gc.collect()
    simpy.point()


sys.monitoring.use_tool_id(3, "sim")
sys.monitoring.register_callback(3, sys.monitoring.events.LINE, _line)
sys.monitoring.set_events(3, sys.monitoring.events.LINE)

watches = {}


def _text(x):
    return os.fsencode(x) if isinstance(x, str) else None


def _check_json(ev):
    try:
        text = ev.to_json()
        got = json.loads(text)
    except Exception as e:  # whatever it is, the text is not there
        simpy.fail("json.form", f"to_json of {ev!r}: {e!r}")
        return
    want = {
        "effect_time": ev.effect_time,
        "path_name": ev.path_name,
        "associated_path_name": ev.associated_path_name,
        "effect_type": ev.effect_type.name.lower(),
        "path_type": ev.path_type.name.lower(),
    }
    if got != want:
        simpy.fail("json.value", f"to_json of {ev!r} says {text}")
    try:
        (ev.path_name + (ev.associated_path_name or "")).encode()
    except UnicodeEncodeError:
        pass
    else:
        simpy.json(text)


def _user(w, throw, self_ref):
    n = 0

    def callback(ev):
        nonlocal n
        _ = self_ref
        n += 1
        ok = (
            isinstance(ev, watcher.Event)
            and isinstance(ev.path_name, str)
            and (ev.associated_path_name is None or isinstance(ev.associated_path_name, str))
            and isinstance(ev.effect_type, watcher.EffectType)
            and isinstance(ev.path_type, watcher.PathType)
            and isinstance(ev.effect_time, int)
        )
        if ok:
            simpy.deliver(w, _text(ev.path_name), _text(ev.associated_path_name), ev.effect_type.name, ev.path_type.name, ev.effect_time)
            _check_json(ev)
        else:
            simpy.fail("bind.fields", f"not the documented form: {ev!r}")
        if throw and n % throw == 0:
            simpy.probe("callback-raises")
            raise Thrown()

    return callback


def open_(w, path, how, throw, cycle, gc_at):
    global _gc_at
    if gc_at > 0:
        _gc_at = gc_at
    p = os.fsdecode(path)
    if how & 4:
        p = pathlib.Path(p) if path and b"//" not in path and b"/." not in path else p
    ref = []
    x = watcher.Watch(p, _user(w, throw, ref if cycle else None))
    ref.append(x)
    if how & 3 == 1:
        stack = contextlib.ExitStack()
        if stack.enter_context(x) is not x:
            simpy.fail("bind.open", "the context is not the watch itself")
        watches[w] = (x, stack)
    else:
        watches[w] = (x, None)


def close(w, how):
    x, stack = watches[w]
    if stack is not None:
        watches[w] = (x, None)
        if how & 8:
            try:  # leave the context by an exception, which is not its business
                with stack:
                    raise Thrown()
            except Thrown:
                pass
            else:
                simpy.fail("bind.exception", "leaving the context hides the exception it is left by")
        else:
            stack.close()
    else:
        x.close()


def odd(kind, path, n):
    p = path
    if kind == "type":
        p = (5, None, object(), 1.5, [])[n % 5]
    elif n & 2:
        p = os.fsdecode(path)
    try:
        x = watcher.Watch(p, print)
    except Exception as e:
        simpy.told(type(e).__name__)
        del e
    else:
        simpy.told("")
        if n & 1:
            x.close()
        else:
            with x:
                pass
        del x


def again(w):
    if w in watches:
        watches[w][0].close()


def drop(w):
    cyclic = watches.pop(w)
    del cyclic


def forget(w, soon):
    global _gc_at
    del watches[w]
    _gc_at = _lines + soon


def collect():
    gc.collect()
