"""Fault injection and controlled scheduling at the statements of the package under test, by means of the interpreter's trace hook."""
import ast, os, sys, threading
from . import env

HOME = os.path.realpath(os.path.join(env.SRC, "PythonicDISORT")) + os.sep
_CLEANUP = {}


def cleanup_lines(path):
    """Lines where an interruption cannot be expected to be harmless: clean-up code itself and the entering of a protected region."""
    if path not in _CLEANUP:
        lines = set()
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                lines.add(node.lineno)
                for part in node.finalbody + node.handlers:
                    lines.update(range(part.lineno, part.end_lineno + 1))
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                lines.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in ("__exit__", "__del__", "__enter__"):
                lines.update(range(node.lineno, node.end_lineno + 1))
        _CLEANUP[path] = lines
    return _CLEANUP[path]


_GUARDED = {}


def guarded_lines(path):
    """Statements protected by an exception handler (where an interruption may get lost)."""
    if path not in _GUARDED:
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        _GUARDED[path] = {x.lineno for node in ast.walk(tree) if isinstance(node, (ast.Try, ast.With)) for part in node.body
                          for x in ast.walk(part) if isinstance(x, ast.stmt)}
    return _GUARDED[path]


class Tracer:
    """Calls at(frame) before every statement of the package that this thread executes."""

    def __init__(self, at):
        self.at = at

    def globally(self, frame, event, arg):
        name = frame.f_code.co_filename
        return self.locally if name.startswith(HOME) or os.path.realpath(name).startswith(HOME) else None

    def locally(self, frame, event, arg):
        if event == "line":
            self.at(frame)
        return self.locally

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.globally)
        try:
            return f()
        finally:
            sys.settrace(old)


class Interrupt:
    """Raises an exception before the k-th statement (from zero); counts statements."""

    def __init__(self, k=None, exc=None):
        self.k, self.exc, self.n, self.where, self.seen = k, exc, 0, None, []

    def at(self, frame):
        if frame.f_lineno in cleanup_lines(frame.f_code.co_filename):
            return
        n, self.n = self.n, self.n + 1
        if self.k is None:
            self.seen.append((frame.f_code.co_filename, frame.f_lineno))
        if n == self.k:
            self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            raise self.exc

    def run(self, f):
        return Tracer(self.at).run(f)


class Scheduler:
    """Runs functions in threads of which exactly one is executing; at chosen statement counts the baton goes to another one.

    switches: {total statement count: thread to continue with}. The interleaving is a function of these alone."""

    def __init__(self, fs, switches, timeout=5.0):
        self.fs, self.switches, self.timeout = fs, switches, timeout
        self.cond = threading.Condition()
        self.turn, self.count, self.trail = 0, 0, []
        self.alive = set(range(len(fs)))
        self.results, self.errors = [None] * len(fs), [None] * len(fs)
        self.stuck = False

    def wait(self, i):
        with self.cond:
            if not self.cond.wait_for(lambda: self.turn == i or self.stuck, self.timeout):
                self.stuck = True              # (the running thread waits for something another one holds): let everything go
                self.cond.notify_all()

    def at(self, i, frame):
        if self.stuck:
            return
        self.count += 1
        j = self.switches.get(self.count)
        if j is not None and j != i and j in self.alive:
            self.trail.append((i, j, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            with self.cond:
                self.turn = j
                self.cond.notify_all()
            self.wait(i)

    def work(self, i):
        self.wait(i)
        try:
            self.results[i] = Tracer(lambda frame: self.at(i, frame)).run(self.fs[i])
        except BaseException as e:
            self.errors[i] = e
        with self.cond:
            self.alive.discard(i)
            if self.alive:
                self.turn = min(self.alive)
            self.cond.notify_all()

    def run(self):
        ths = [threading.Thread(target=self.work, args=(i,), daemon=True) for i in range(len(self.fs))]
        [t.start() for t in ths]
        [t.join(40 * self.timeout) for t in ths]
        return not any(t.is_alive() for t in ths)
