"""Environment of a concrete replay: nothing of the repository is patched; only the random draws, clocks and files
that the scenario controls are supplied from the counterexample."""
import contextlib


@contextlib.contextmanager
def session(h):
    stack = contextlib.ExitStack()
    with stack:
        for cm in h.spec.opts.get("contexts", ()):
            stack.enter_context(cm(h))
        yield
