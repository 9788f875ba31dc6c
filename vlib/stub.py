"""A stand-in kernel for driving Reader and Tag objects directly."""


class NullLogger:
    level = 0

    def __getattr__(self, name):
        return lambda *a, **kw: None


class StubKernel:
    def __init__(self, context=None):
        self.time = 0.0
        self.logger = NullLogger()
        self.context = context
        self.stopped = False

    def schedule(self, *a, **kw):
        return 1

    call = schedule

    def cancel(self, *a):
        return 0

    def stop(self, *a):
        self.stopped = True
