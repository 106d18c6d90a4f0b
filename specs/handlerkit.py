"""Kernel stand-in for the RFID event handlers, for C14-C19: records what is scheduled, cancelled and stopped."""
from pyvc.models import Log
from pyvc.sym import Unsupported
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as hd


class HKernel:
    def __init__(self, b, now=None):
        self.b = b; self.logger = Log(); self.time = b.real('now', 0, 1000) if now is None else now
        self.context = None; self.scheduled = []; self.cancelled = []; self.stopped = []; self._id = 100

    def schedule(self, delay, handler, args=(), msg=None):
        if self.b.symbolic and getattr(self.b.p, 'generic', 0): raise Unsupported('scheduling for each element of a sequence of unknown length')
        if delay is None: return None
        self._id += 1
        self.scheduled.append((self._id, delay, handler, tuple(args)))
        return self._id

    def call(self, handler, args=(), msg=None): return self.schedule(0, handler, args)
    def cancel(self, i): self.cancelled.append(i); return 1
    def stop(self, msg=None): self.stopped.append(msg)
    for f in (schedule, call, cancel, stop): f.pyvc_model = True

    def pending(self, handler): return [s for s in self.scheduled if s[2] is handler and s[0] not in self.cancelled]


class FakeTx:
    """the transaction that has just finished, as far as its outcome goes"""
    def __init__(self, b, command, replies=(), received=(None, None, None, None)):
        self.command = command; self.replies = tuple(replies); self._received = received
        self.duration = b.real('old duration', 0, 1); self.reply_start_time = None if not replies else b.real('old reply start', 0, 1)
        self.start_time = self.command_end_time = self.command_duration = self.finish_time = self.reply_end_time = self.reply_duration = self.reader = None
        self.timeout_event_id = 1; self.response_start_event_id = None

    @property
    def tags(self): return [t for t, _ in self.replies]
    @property
    def reader_rx_power_map(self): return self
    def get(self, tag): return -60
    def received_tag_frame(self, medium, time): return self._received
    get.pyvc_model = received_tag_frame.pyvc_model = True
