"""A reader and tags of a configured model, driven by hand: any exchange the
protocol admits can be put on the air directly, whatever its probability in a
run."""
from vlib import rfidrec as X
from vlib.core import quiet
from vlib.stub import StubKernel

std, obj = X.std, X.obj
RState = obj.Reader.State
STATES = ('Query', 'QueryRep', 'QueryAdjust', 'Ack', 'ReqRN', 'Read')


class Bench:
    def __init__(self, rng, n_tags=0, **force):
        self.rng = rng
        self.case = X.Case(rng, **force)
        self.model = m = self.case.build()
        self.kernel = StubKernel(m)
        self.reader = r = m.reader
        r.kernel = self.kernel
        self.tags = []
        for _ in range(n_tags):
            t = m.generators[0].create_tag(m)
            t.kernel, t.last_pos_update = self.kernel, 0.0
            self.tags.append(t)
            m.tags.append(t)
            m.statistics.create_tag_record(t)
        with quiet():
            self.first = r.turn_on()
            for t in self.tags:
                t.set_power(0.0, t.sensitivity + 10)
                t.receive(self.first)       # link parameters of the round

    def preamble(self):
        p = self.case.p
        return std.create_tag_preamble(X.MS[p['m']], p['trext'])

    def reply(self, kind, n=12, rn=0x1234):
        """A reply frame with n bytes of payload."""
        data = self.rng.randbytes(n).hex()
        r = {'rn16': lambda: std.QueryReply(rn),
             'epc': lambda: std.AckReply(data),
             'handle': lambda: std.ReqRNReply(rn),
             'data': lambda: std.ReadReply(data, rn=rn)}[kind]()
        return std.TagFrame(self.preamble(), r)

    def reach(self, what, rn=0x1234, handle=0x4321):
        """The command frame of a reader that has come to this state."""
        r = self.reader
        with quiet():
            if what == 'Query':
                return r.set_state(RState.QUERY) if r.state is not \
                    RState.QUERY else self.first
            if what == 'QueryRep':
                return r.set_state(RState.QREP)
            if what == 'QueryAdjust':
                r.updn = self.rng.choice([-1, 1])
                return r.set_state(RState.QAdjust)
            r.set_state(RState.QREP)
            f = r.receive(self.reply('rn16', rn=rn))
            if what == 'Ack':
                return f
            f = r.receive(self.reply('epc'))
            if what == 'ReqRN':
                return f
            return r.receive(self.reply('handle', rn=handle))

    def exchange(self, frame, replies, time=0.0):
        with quiet():
            return obj.Transaction(self.model.medium, self.reader, frame,
                                   list(replies), time)
