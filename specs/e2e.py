"""Whole RFID runs of the real code under run-time contracts (bounded), for C16-C19 and C21."""
import functools
import numpy as np
import pysim.models.rfid.objects as ob
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as hd
import pysim.models.rfid.configurator as cf
import pysim.sim.simulator as sm


def settings(b, **kw):
    """small random configuration; everything random is drawn from b"""
    c = dict(speed=b.choice('speed', [5.0, 15.0, 40.0]), initial_distance_to_reader=b.choice('distance', [1.0, 3.0]), travel_distance=b.choice('travel', [0.4, 2.0, 6.0]),
             reader_antenna_x=3.0, tag_antenna_x=2.0, reader_antenna_z=b.choice('altitude', [3.0, 5.0, 9.0]), update_interval=b.choice('update interval', [0.001, 0.01, 0.037]),
             tari=b.choice('tari', [6.25e-6, 12.5e-6]), encoding=b.choice('encoding', [std.TagEncoding.FM0, std.TagEncoding.M4]),
             reader_power=b.choice('power', [20.0, 29.0, 33.0]), reader_switch_power=b.choice('periodic', [True, False]), reader_power_on_duration=b.choice('on', [0.02, 0.1, 0.3]),
             reader_power_off_duration=b.choice('off', [0.005, 0.05]), session=b.choice('session', list(std.Session)), target_strategy=b.choice('strategy', ['switch', 'const']),
             rounds_per_target=b.choice('per target', [1, 2]), q=b.choice('Q', [0, 1, 2, 4]), use_query_adjust=b.choice('adjust', [True, False]), tid_word_size=b.choice('TID words', [0, 4, 16]),
             read_tid_bank=b.choice('read TID', [True, True, False]), num_tags=b.choice('tags', [1, 3, 6, 12]), collect_power_statistics=b.choice('power statistics', [False, False, True]),
             use_doppler=b.choice('doppler', [True, False]), ber_distribution=b.choice('distribution', ['rayleigh', 'awgn']))
    c['q_fp'] = float(c['q'])
    c.update(kw)
    gap = b.choice('generation interval', [0.01, 0.05, 0.2])
    return cf.Settings(generation_interval=(lambda: gap,), **c), gap


class Run:
    """one run; hooks see every event before and after it"""
    def __init__(self, model, before=None, after=None, scheduled=None):
        self.model, self.before, self.after, self.on_sched = model, before, after, scheduled
        self.trace = []; self.error = None; self.kernel = None

    def go(self, max_sim_time, max_num_events=None):
        S = sm.Simulator; orig = {n: S.__dict__[n] for n in ('schedule', 'call')}
        run = self

        def wrap(h, args):
            name = getattr(h, '__name__', str(h))

            @functools.wraps(h)
            def w(kernel, *a):
                if run.before: run.before(kernel, name, a)
                r = h(kernel, *a)
                run.trace.append((kernel.time, name, a))
                if run.after: run.after(kernel, name, a)
                return r
            return w

        def schedule(s, delay, handler, args=(), msg=''):
            if run.on_sched: run.on_sched(s, delay, handler, args)
            return orig['schedule'](s, delay, wrap(handler, args) if callable(handler) else handler, args, msg)

        def call(s, handler, args=(), msg=''):
            if run.on_sched: run.on_sched(s, 0, handler, args)
            return orig['call'](s, wrap(handler, args) if callable(handler) else handler, args, msg)
        S.schedule, S.call = schedule, call
        try:
            cfg = sm.ModelLoggerConfig()
            self.stats, _, self.result = sm.run_simulation(sm.build_simulation('RFID', init=hd.start_simulation, context=self.model, max_sim_time=max_sim_time, max_num_events=max_num_events, logger_config=cfg))
        except Exception as e:
            import traceback
            self.error = ''.join(traceback.format_exception(e)[-3:])
        finally:
            for n, f in orig.items(): setattr(S, n, f)
        return self


def near(x, y): return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
