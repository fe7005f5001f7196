"""What a work unit covered and what it found."""
import contextlib, traceback


class Rec:
    def __init__(self, mark=None):
        self.states = self.transitions = self.traces = 0
        self.samples, self.fails, self.extra = [], [], {}
        self.mark = mark

    def result(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces, samples=self.samples,
                    fails=self.fails, extra=self.extra)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maxi(self, name, v):
        name = "max_" + name
        self.extra[name] = max(self.extra.get(name, 0.0), float(v))

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def now(self, case):
        """Record what is about to run, so that a crash of the process can be attributed."""
        if self.mark:
            with open(self.mark, "w") as f:
                f.write(str(case))

    def fail(self, key, msg, case=None):
        if len(self.fails) < 6:
            self.fails.append({"key": key, "msg": str(msg)[:4000], "case": case if isinstance(case, (dict, list, str, int, float, type(None))) else str(case)})

    @property
    def full(self):
        return len(self.fails) >= 6

    @contextlib.contextmanager
    def guard(self, key, case=None):
        """The real code must not raise (or exit) in here."""
        try:
            yield
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            self.fail(key + ":raised", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:], case)

    def close(self, key, got, ref, tol, case=None):
        """|got-ref| <= tol elementwise, same shape, finite where ref is."""
        import numpy as np

        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            self.fail(key + ":shape", f"shape {got.shape}, expected {ref.shape}", case)
            return False
        err = np.abs(got - ref)
        bad = ~(err <= tol)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            t = np.broadcast_to(tol, ref.shape)[i]
            self.fail(key, f"entry {i}: got {got[i]!r}, expected {ref[i]!r} (tolerance {t:.3g}); {int(bad.sum())} of {bad.size} entries differ", case)
            return False
        return True
