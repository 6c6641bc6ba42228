"""C39: scheduled jobs run at the configured times until they are stopped, whatever the clock does between two checks."""
import asyncio
import datetime as dtm
import os
import time
import types
import numpy as np
import pandas as pd

PROPERTY = 'C39'
BOUNDS = dict(clock='every start and every advance between two checks and during every job (reals, no bound)', jobs='1 to 3, intervals of 1 to 3 seconds, minutes or mixed units',
              cycles='3 to 5 checks', schedule='all argument lists of interval, unit, day, time of day, to, tags; time zones as whole-hour offsets',
              stops='a job that cancels itself, raises, or is past its deadline at any of its runs; a stop of the background task at any check')
ASSUMPTIONS = ['the clock and sleep are stand-ins that advance by symbolic amounts', 'the schedule package itself is executed, its date arithmetic on the stand-in clock',
               'one event loop, no thread']
VALIDATE_S = dict(quick=10)
DAY = 86400
UNIT = dict(seconds=1, minutes=60, hours=3600, days=DAY, weeks=7 * DAY)
WEEKDAYS = ('monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday')


class Clock:
    """time in seconds since a Monday 00:00"""
    t = 0


class TD:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.s = seconds + 60 * minutes + 3600 * hours + DAY * days + 7 * DAY * weeks

    def total_seconds(self):
        return self.s

    def __mul__(self, k):
        return TD(seconds=self.s * k)
    __rmul__ = __mul__


def sec(x):
    return x.total_seconds()


class DT:
    """stand-in of datetime.datetime: naive, reads the clock"""

    def __init__(self, s):
        self.s = s

    @classmethod
    def now(cls, tz=None):
        return DT(Clock.t)
    today = utcnow = now

    def __add__(self, o):
        return DT(self.s + sec(o))
    __radd__ = __add__

    def __sub__(self, o):
        return TD(seconds=self.s - o.s) if isinstance(o, DT) else DT(self.s - sec(o))

    def __lt__(self, o):
        return bool(self.s < o.s)

    def __le__(self, o):
        return bool(self.s <= o.s)

    def __gt__(self, o):
        return bool(self.s > o.s)

    def __ge__(self, o):
        return bool(self.s >= o.s)

    def __eq__(self, o):
        return isinstance(o, DT) and bool(self.s == o.s)
    __hash__ = None

    def strftime(self, f):
        return '-'
    isoformat = __str__ = __repr__ = lambda self, *a: '-'

    def split(self, unit):
        """number of whole units before, by cases"""
        k = 0
        while self.s >= (k + 1) * unit:
            k += 1
        return k

    def weekday(self):
        return self.split(DAY) % 7

    def replace(self, hour=None, minute=None, second=None, microsecond=None, tzinfo=None):
        u = DAY if hour is not None else (3600 if minute is not None else 60)
        k = self.split(u)
        return DT(k * u + (hour or 0) * 3600 + (minute or 0) * 60 + second)


class Stop(Exception):
    pass


class World:
    """stand-ins for the clock and for sleeping while a schedule runs"""

    def __init__(self, h, on_sleep):
        self.h, self.on_sleep = h, on_sleep

    def __enter__(self):
        import schedule
        from vectorbt.utils import schedule_ as sm
        self.saved = []
        rs, ra = time.sleep, asyncio.sleep

        def put(o, k, v):
            self.saved.append((o, k, getattr(o, k)))
            setattr(o, k, v)

        def sleep(s):
            self.on_sleep(s)

        async def asleep(s, result=None):
            self.on_sleep(s)
            await ra(0)
        fake = types.SimpleNamespace(datetime=DT, timedelta=TD, time=dtm.time, date=dtm.date)
        put(schedule, 'datetime', fake)
        put(time, 'sleep', sleep)
        put(asyncio, 'sleep', asleep)
        for m in (sm, schedule):
            for k, v in list(vars(m).items()):
                if v is rs:
                    put(m, k, sleep)
                elif v is ra:
                    put(m, k, asleep)
                elif v is dtm.datetime:
                    put(m, k, DT)
                elif v is dtm:
                    put(m, k, types.SimpleNamespace(datetime=DT, timedelta=dtm.timedelta, time=dtm.time, date=dtm.date, timezone=dtm.timezone))
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)


def drive(h, jobs, cycles, bg=False, stop_at=None, job_effect=None, sleep_arg=1):
    """run the real manager: jobs = [(args, kwargs of every, action(run number, job number))]; returns the runs [(job, time)],
    the checks' times and how it ended"""
    from vectorbt.utils import schedule_ as sm
    runs, checks, ended, slept = [], [], [None], []
    Clock.t = h.real('t0', lo=0) if h.sym or 't0' in h.inputs else 0.0
    t0 = Clock.t
    n = [0]
    man = [None]

    def on_sleep(s):
        slept.append(s)
        n[0] += 1
        if n[0] > cycles + 2:
            raise Stop      # it goes on after having been stopped
        if n[0] > cycles:
            if bg:
                man[0].stop()
                return
            raise KeyboardInterrupt
        d = h.real('d%d' % n[0], lo=0)
        Clock.t = Clock.t + d
        checks.append(Clock.t)
        if bg and stop_at is not None and n[0] == stop_at:
            man[0].stop()

    made = []
    with World(h, on_sleep):
        m = sm.ScheduleManager()
        man[0] = m
        for j, (args, kw, act) in enumerate(jobs):
            def f(a, j=j, act=act, *, b):
                k = len([r for r in runs if r[0] == j])
                runs.append((j, Clock.t, len(checks)))
                h.check(a == 'a%d' % j and b == j, 'arguments of the job')
                if job_effect is not None:
                    Clock.t = Clock.t + h.real('e%d' % len(runs), lo=0)
                return act(k) if act is not None else None
            job = m.every(*args)
            if kw:
                job = kw(job)
            made.append(job.do(f, 'a%d' % j, b=j))
        checks.append(Clock.t)
        try:
            if bg:
                async def main():
                    m.start_in_background(sleep=sleep_arg)
                    h.check(m.async_task_running, 'the background task runs')
                    try:
                        await m.async_task
                    except asyncio.CancelledError:
                        pass
                    h.check(not m.async_task_running, 'the background task is over')
                asyncio.run(main())
            else:
                m.start(sleep=sleep_arg)
            ended[0] = 'stopped'
        except (Exception, KeyboardInterrupt, asyncio.CancelledError) as e:
            ended[0] = type(e).__name__
    h.check(all(s == sleep_arg for s in slept), 'sleeps as asked')
    left = [made.index(j) for j in m.scheduler.jobs]
    return t0, runs, checks, ended[0], left, made


def timing(h, units, cycles=4, bg=False, effect=False, seq=None):
    """every job runs at the first check at or after it is due, and is due again its interval after it ran"""
    ks = [h.int('k%d' % j, 1, 2) for j in range(len(units))] if seq is None else seq
    jobs = [((k, u), None, None) for k, u in zip(ks, units)]
    t0, runs, checks, ended, left, made = drive(h, jobs, cycles, bg, job_effect=effect or None)
    h.eq(ended, 'stopped', 'ended')
    h.eq(left, list(range(len(units))), 'jobs left')
    due = [t0 + k * UNIT[u] for k, u in zip(ks, units)]
    e = 0
    want = []
    t = t0
    # replay: a check at the start, then one after every sleep; a job takes its own time
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0)
        ready = [j for j in range(len(units)) if bool(t >= due[j])] if not effect else None
        if effect:
            # a job is examined after the jobs before it have run: with one job only
            ready = [0] if bool(t >= due[0]) else []
        order = list(ready)
        if not bg:
            # stable order by due time
            for a in range(len(order)):
                for b in range(len(order) - 1 - a):
                    if bool(due[order[b + 1]] < due[order[b]]):
                        order[b], order[b + 1] = order[b + 1], order[b]
        for j in order:
            want.append((j, t, c))
            e += 1
            if effect:
                t = t + h.real('e%d' % e, lo=0)
            due[j] = t + ks[j] * UNIT[units[j]]
    if bg:
        key = lambda r: (r[2], r[0])
        runs = sorted(runs, key=key)
        want = sorted(want, key=key)
    h.eq([r[0] for r in runs], [r[0] for r in want], 'jobs run')
    if len(runs) == len(want):
        h.eq([r[1] for r in runs], [r[1] for r in want], 'times')
        h.eq([r[2] + (0 if bg else 0) for r in runs], [r[2] + 1 for r in want], 'check')
    for j, job in enumerate(made):
        h.eq(job.next_run.s, due[j], 'next run')
        mine = [r for r in want if r[0] == j]
        h.check((job.last_run is None) == (not mine), 'last run')
        if mine and not effect and isinstance(job.last_run, DT):
            h.eq(job.last_run.s, mine[-1][1], 'last run')


def leaving(h, how, bg=False, cycles=4):
    """a job that cancels itself is not run again and the others are; a cancellation or an interrupt stops all of them"""
    from vectorbt.utils import schedule_ as sm
    import schedule
    at = h.int('at', 0, 2)

    def act(k):
        if k == at:
            if how == 'class':
                return schedule.CancelJob
            if how == 'instance':
                return schedule.CancelJob()
            if how == 'cancelled':
                raise sm.CancelledError
            if how == 'aio':
                raise asyncio.CancelledError
            if how == 'interrupt':
                raise KeyboardInterrupt
            raise Stop
        return ('x', None, 0, False)[k % 4]
    jobs = [((1, 'seconds'), None, None), ((1, 'seconds'), None, act), ((2, 'seconds'), None, None)]
    for c in range(1, cycles + 1):
        h.assume(h.real('d%d' % c, lo=0) >= 1)
    t0, runs, checks, ended, left, made = drive(h, jobs, cycles, bg)
    mine = [r for r in runs if r[0] == 1]
    other = [r for r in runs if r[0] == 0]
    if how in ('class', 'instance'):
        h.eq(ended, 'stopped', 'ended')
        h.eq(len(mine), at + 1, 'runs of the job that cancels itself')
        h.eq(left, [0, 2], 'the others stay')
        h.eq(len(other), cycles, 'the others keep running')
    else:
        h.eq(ended, 'Stop' if how == 'error' else 'stopped', 'ended')
        h.eq(len(mine), at + 1, 'no run after it')
        h.check(max(r[2] for r in runs) <= at + 2, 'no job runs at a later check')
        h.eq(left, [0, 1, 2], 'jobs stay scheduled')


def stopping(h, cycles=4):
    """after a stop of the background task no job runs"""
    s = h.int('s', 1, cycles)
    jobs = [((1, 'seconds'), None, None), ((1, 'minutes'), None, None)]
    for c in range(1, cycles + 1):
        h.assume(h.real('d%d' % c, lo=0) >= 1)
    t0, runs, checks, ended, left, made = drive(h, jobs, cycles, True, stop_at=s)
    h.eq(ended, 'stopped', 'ended')
    h.eq(len([r for r in runs if r[0] == 0]), s - 1, 'runs until the stop')
    h.eq(left, [0, 1], 'jobs stay scheduled')


def deadline(h, bg=False, cycles=3):
    """no run after the deadline, and the job is dropped once no run can come before it"""
    lim = h.real('lim', lo=0)
    jobs = [((2, 'seconds'), lambda job: job.until(DT(Clock.t + lim)), None), ((1, 'seconds'), None, None)]
    t0, runs, checks, ended, left, made = drive(h, jobs, cycles, bg)
    h.eq(ended, 'stopped', 'ended')
    due, alive, want, t = t0 + 2, True, [], t0
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0)
        if alive and bool(t >= due):
            if bool(t > t0 + lim):
                alive = False
            else:
                want.append(t)
                due = t + 2
                if bool(due > t0 + lim):
                    alive = False
    got = [r[1] for r in runs if r[0] == 0]
    h.eq(len(got), len(want), 'runs before the deadline')
    if len(got) == len(want):
        h.eq(got, want, 'times')
    h.eq(left, [0, 1] if alive else [1], 'dropped once it is over')


def run_all(h, n=3):
    """run_all runs every job once, due or not, and sleeps in between"""
    from vectorbt.utils import schedule_ as sm
    import schedule
    c = [h.bool('c%d' % j) for j in range(n)]
    Clock.t = h.real('t0', lo=0)
    t0 = Clock.t
    runs, slept = [], []

    def on_sleep(s):
        slept.append(s)
        Clock.t = Clock.t + h.real('d%d' % len(slept), lo=0)
    with World(h, on_sleep):
        m = sm.ScheduleManager()
        for j in range(n):
            def f(j=j):
                runs.append((j, Clock.t))
                return schedule.CancelJob if c[j] else None
            m.every(j + 1).do(f)
        jobs = list(m.scheduler.jobs)
        asyncio.run(m.scheduler.async_run_all(delay_seconds=7))
    t, want = t0, []
    for j in range(n):
        want.append(t)
        h.eq(jobs[j].next_run.s, t + j + 1, 'next run')
        t = t + h.real('d%d' % (j + 1), lo=0)
    h.eq([r[0] for r in runs], list(range(n)), 'every job once')
    h.eq([r[1] for r in runs], want, 'times')
    h.eq(slept, [7] * n, 'delays')
    h.eq([jobs.index(x) for x in m.scheduler.jobs], [j for j in range(n) if not c[j]], 'jobs left')


def awaited(h, cycles=3):
    """a coroutine as a job is awaited: it is due again its interval after it finished"""
    from vectorbt.utils import schedule_ as sm
    import schedule
    Clock.t = h.real('t0', lo=0)
    last = h.int('last', 0, 2)
    runs, n, man = [], [0], [None]
    t = Clock.t

    def on_sleep(s):
        if s == 'job':
            Clock.t = Clock.t + h.real('e%d' % len(runs), lo=0)
            return
        n[0] += 1
        if n[0] > cycles:
            man[0].stop()
            return
        Clock.t = Clock.t + h.real('d%d' % n[0], lo=0)
    with World(h, on_sleep):
        m = man[0] = sm.ScheduleManager()

        async def f():
            runs.append(Clock.t)
            k = len(runs)
            await asyncio.sleep('job')
            return schedule.CancelJob if k == last + 1 else None
        m.every(2).do(f)

        async def main():
            m.start_in_background()
            try:
                await m.async_task
            except asyncio.CancelledError:
                pass
        asyncio.run(main())
    due, want, alive = t + 2, [], True
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0)
        if alive and bool(t >= due):
            want.append(t)
            t = t + h.real('e%d' % len(want), lo=0)
            due = t + 2
            alive = len(want) != last + 1
    h.eq(len(runs), len(want), 'runs')
    if len(runs) == len(want):
        h.eq(runs, want, 'times')
    h.eq(len(m.scheduler.jobs), int(alive), 'cancelled by the awaited result')


def parse(h):
    """the arguments, in their order, give the documented schedule"""
    from vectorbt.utils import schedule_ as sm
    m = sm.ScheduleManager()
    args, want = [], dict(interval=1, unit=None, day=None, at=None)
    iv = h.choice('iv', (None, 1, 2, 'delta'))
    un = h.choice('un', (None, 'second', 'seconds', 'minute', 'minutes', 'hour', 'hours', 'day', 'days', 'week', 'weeks'))
    day = h.choice('day', (None,) + WEEKDAYS)
    h.assume(day is None or un is None)
    at = h.choice('at', (None, 'str', 'time'))
    sing = un is not None and not un.endswith('s')
    if iv == 'delta':
        k = h.int('dk', 1, 3)
        h.assume(un is None and day is None and at is None)
        args.append(dtm.timedelta(seconds=k * 30))
        want.update(interval=k * 30, unit='seconds')
    elif iv is not None:
        args.append(iv)
        want['interval'] = iv
    if un is not None:
        args.append(un)
    if day is not None:
        args.append(day)
    unit = (un + 's' if sing else un) if un is not None else ('weeks' if day else ('days' if at else 'seconds'))
    hh, mm, ss = (10, 30, 17) if at is None or h.bool('z') else (9, 0, 0)
    full = dtm.time(hh, mm, ss)
    if at is not None:
        h.assume(unit != 'seconds' and unit != 'weeks' or day is not None)
        s = {'days': '%02d:%02d:%02d', 'weeks': '%02d:%02d:%02d'}.get(unit)
        if s:
            s, exp = s % (hh, mm, ss), full
        elif unit == 'hours':
            s, exp = '%02d:%02d' % (mm, ss), dtm.time(0, mm, ss)
        else:
            s, exp = ':%02d' % ss, dtm.time(0, 0, ss)
        args.append(s if at == 'str' else full)
    bad = (sing or day is not None) and iv == 2
    to, tags = h.choice('to', ((None, None), (5, 'x'), (None, ('x', 'y'))))
    job, exc = h.call(lambda: m.every(*args, to=to, tags=tags))
    if bad:
        h.eq(exc, 'IntervalError', 'a single unit or a day goes with an interval of one')
        return
    h.check(exc is None, '%s raises %s' % (args, exc))
    if exc:
        return
    h.eq([float(job.interval), job.unit, job.start_day], [float(want['interval']), unit, day], 'interval, unit and day')
    h.check((job.at_time is None) if at is None else job.at_time == exp, 'time of day %s' % job.at_time)
    h.eq(job.latest, to, 'latest')
    h.eq(sorted(job.tags), sorted(() if tags is None else ((tags,) if isinstance(tags, str) else tags)), 'tags')
    h.check(job.scheduler is m.scheduler, 'the scheduler of the manager')


def refused(h):
    """arguments out of order, repeated or unknown are refused"""
    from vectorbt.utils import schedule_ as sm
    kinds = ('interval', 'unit', 'day', 'at', 'bad')
    val = dict(interval=1, unit='days', day='monday', at='10:30', bad='x')
    n = h.int('n', 1, 3)
    seq = [h.choice('a%d' % i, kinds) for i in range(n)]
    h.assume(not ('unit' in seq and 'day' in seq))
    ok = 'bad' not in seq and all(kinds.index(a) < kinds.index(b) for a, b in zip(seq, seq[1:]))
    job, exc = h.call(lambda: sm.ScheduleManager().every(*[val[s] for s in seq]))
    h.eq(exc, None if ok else 'ValueError', 'refused: %s' % seq)


def zones(h, unit='day'):
    """an aware time of day is the same instant in local time; a naive one is local time"""
    from vectorbt.utils import schedule_ as sm
    loc = h.int('loc', -2, 2) * 3
    off = h.choice('off', (None, 0, 5, -4))
    hh, mm = h.choice('hh', (0, 9, 23)), h.choice('mm', (0, 45))
    old = os.environ.get('TZ')
    os.environ['TZ'] = '<LOC>%d' % -loc
    time.tzset()
    try:
        at = dtm.time(hh, mm, tzinfo=None if off is None else dtm.timezone(dtm.timedelta(hours=off)))
        job, exc = h.call(lambda: sm.ScheduleManager().every(unit, at))
    finally:
        if old is None:
            os.environ.pop('TZ')
        else:
            os.environ['TZ'] = old
        time.tzset()
    h.check(exc is None, 'raises %s' % exc)
    if not exc:
        want = (hh * 60 + mm + (0 if off is None else (loc - off) * 60)) % 1440
        h.eq([job.at_time.hour * 60 + job.at_time.minute, job.at_time.second], [want, 0], 'local time of day')


def daily(h, args, cycles=2):
    """a job with a time of day runs at the first check at or after the next such time, once"""
    period, off = {'day': (DAY, 0), 'hour': (3600, 0), 'minute': (60, 0), 'day0': (7 * DAY, None)}[args[0] if args[0] not in WEEKDAYS else 'day0']
    at = args[1]
    if off is None:
        off = WEEKDAYS.index(args[0]) * DAY
    p = [int(x) if x else 0 for x in at.split(':')]
    off += p[0] * 3600 + p[1] * 60 if args[0] not in ('hour', 'minute') else (p[0] * 60 + p[1] if args[0] == 'hour' and p[0] + p[1] and len(p) == 2 and at[0] != ':' else (p[1] * 60 if args[0] == 'hour' else p[1]))
    lim = (2 if args[0] not in WEEKDAYS else 1) * period
    t0 = h.real('t0', lo=0, hi=lim)
    for c in range(1, cycles + 1):
        h.real('d%d' % c, lo=0, hi=lim)
    jobs = [(tuple(args), None, None)]
    t0, runs, checks, ended, left, made = drive(h, jobs, cycles)

    def nxt(t):
        k = 0
        while bool(off + k * period <= t):
            k += 1
        return off + k * period
    due, t, want = nxt(t0), t0, []
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0, hi=lim)
        if bool(t >= due):
            want.append(t)
            due = nxt(t)
    h.eq(len(runs), len(want), 'runs')
    if len(runs) == len(want):
        h.eq([r[1] for r in runs], want, 'times')
    h.eq(made[0].next_run.s, due, 'next run')


def ranged(h, bg=False, cycles=3):
    """with `to`, every wait is a draw between the interval and it"""
    import schedule
    draws = []

    def draw(a, b):
        draws.append((a, b))
        return h.mode('r%d' % len(draws), a, b)
    old = schedule.random
    schedule.random = types.SimpleNamespace(randint=draw)
    from vectorbt.utils import schedule_ as sm
    every = sm.ScheduleManager.every
    sm.ScheduleManager.every = lambda self, *a: every(self, *a, to=5)
    try:
        t0, runs, checks, ended, left, made = drive(h, [((2, 'seconds'), None, None)], cycles, bg)
    finally:
        schedule.random = old
        sm.ScheduleManager.every = every
    h.check(all(d == (2, 5) for d in draws), 'range of the waits')
    due, want, t = t0 + h.mode('r1', 2, 5), [], t0
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0)
        if bool(t >= due):
            want.append(t)
            due = t + h.mode('r%d' % (len(want) + 1), 2, 5)
    h.eq(len(runs), len(want), 'runs')
    if len(runs) == len(want):
        h.eq([r[1] for r in runs], want, 'times')
    h.eq(len(draws), len(want) + 1, 'one draw per wait')


def updating(h, ncol=1, cycles=3, bg=False):
    """the updater replaces its data by the updated data at every run, with the keywords it was given"""
    from vectorbt.data.updater import DataUpdater
    from vectorbt.utils import schedule_ as sm
    n = 2
    first = h.floats('v', n, nan=True)
    new = [h.floats('n%d' % k, 2, nan=True) for k in range(cycles + 1)]
    seen = []

    class D(h.vbt.Data):
        @classmethod
        def download_symbol(cls, symbol, **kw):
            return h.sr(first, index=pd.Index([0, 1]))

        def update_symbol(self, symbol, mark=None, **kw):
            k = len(seen)
            seen.append((Clock.t, mark))
            return h.sr(new[k], index=pd.Index([k + 1, k + 2]))
    data = D.download('S')
    Clock.t = h.real('t0', lo=0)
    t, sl = Clock.t, [0]
    box = [None]

    class U(DataUpdater):
        def update(self, **kw):
            super().update(**kw)
            if len(seen) == stop:
                raise sm.CancelledError
    stop = h.int('stop', 1, cycles)

    def on_sleep(s):
        sl[0] += 1
        if sl[0] > cycles:
            if bg:
                box[0].schedule_manager.stop()
                return
            raise KeyboardInterrupt
        Clock.t = Clock.t + h.real('d%d' % sl[0], lo=0)
    with World(h, on_sleep):
        u = box[0] = U(data)

        def go():
            if not bg:
                return u.update_every(1, 'minutes', mark='m', start_kwargs=dict(sleep=3))

            async def main():
                u.update_every(1, 'minutes', mark='m', in_background=True, start_kwargs=dict(sleep=3))
                try:
                    await u.schedule_manager.async_task
                except asyncio.CancelledError:
                    pass
            return asyncio.run(main())
        _, exc = h.call(go)
    h.check(exc is None, 'raises %s' % exc)
    due, want = t + 60, []
    for c in range(cycles + 1):
        if c:
            t = t + h.real('d%d' % c, lo=0)
        if len(want) < stop and bool(t >= due):
            want.append(t)
            due = t + 60
    h.eq(len(seen), len(want), 'updates')
    if len(seen) != len(want):
        return
    h.eq([s[0] for s in seen], want, 'times')
    h.check(all(s[1] == 'm' for s in seen), 'keywords')
    vals = {0: first[0], 1: first[1]}
    for k in range(len(want)):
        vals[k + 1], vals[k + 2] = new[k][0], new[k][1]
    got = u.data.data['S']
    h.eq([int(i) for i in got.index], sorted(vals), 'rows')
    h.eq(list(got.values), [vals[i] for i in sorted(vals)], 'values')
    h.check(u.config['data'] is u.data, 'the configuration holds the updated data')
    h.eq(len(data.data['S']), n, 'the first data is untouched')


def tasks(tier):
    q = tier == 'quick'
    out = []
    for bg in (False, True):
        out += [dict(fn='timing', cfg=dict(units=['seconds'], cycles=5, bg=bg)),
                dict(fn='timing', cfg=dict(units=['minutes'], cycles=3, bg=bg)),
                dict(fn='timing', cfg=dict(units=['hours', 'days'], cycles=2, bg=bg, seq=[1, 1])),
                dict(fn='timing', cfg=dict(units=['weeks'], cycles=3, bg=bg)),
                dict(fn='timing', cfg=dict(units=['seconds'], cycles=4, bg=bg, effect=True)),
                dict(fn='timing', cfg=dict(units=['seconds', 'seconds'], cycles=4 if q else 5, bg=bg), weight=3),
                dict(fn='timing', cfg=dict(units=['seconds'] * 3, cycles=3 if q else 4, bg=bg, seq=[3, 1, 2]), weight=3),
                dict(fn='timing', cfg=dict(units=['minutes', 'seconds'], cycles=2, bg=bg))]
        out += [dict(fn='leaving', cfg=dict(how=how, bg=bg)) for how in ('class', 'instance', 'cancelled', 'aio')]
        out += [dict(fn='deadline', cfg=dict(bg=bg), weight=2), dict(fn='updating', cfg=dict(bg=bg), weight=2)]
    out += [dict(fn='leaving', cfg=dict(how=how)) for how in ('interrupt', 'error')]
    out += [dict(fn='leaving', cfg=dict(how='error', bg=True))]
    out += [dict(fn='stopping', cfg={}), dict(fn='run_all', cfg={}), dict(fn='awaited', cfg={}), dict(fn='parse', cfg={}, weight=3), dict(fn='refused', cfg={})]
    out += [dict(fn='zones', cfg=dict(unit=u)) for u in ('day', 'days', 'monday')]
    out += [dict(fn='daily', cfg=dict(args=a, cycles=2 if q else 3)) for a in (['day', '10:30'], ['hour', '15:30'], ['minute', ':17'])]
    out += [dict(fn='daily', cfg=dict(args=['wednesday', '13:15'], cycles=1 if q else 2), weight=2)]
    out += [dict(fn='ranged', cfg=dict(bg=bg)) for bg in (False, True)]
    return out


def used_functions():
    return ['vectorbt.utils.schedule_.' + f for f in ('AsyncJob.async_run', 'AsyncScheduler.async_run_pending', 'AsyncScheduler.async_run_all',
            'AsyncScheduler._async_run_job', 'AsyncScheduler.every', 'ScheduleManager.every', 'ScheduleManager.start', 'ScheduleManager.async_start',
            'ScheduleManager.start_in_background', 'ScheduleManager.async_task_running', 'ScheduleManager.stop')] + \
        ['vectorbt.utils.datetime_.tzaware_to_naive_time', 'vectorbt.data.updater.DataUpdater.update', 'vectorbt.data.updater.DataUpdater.update_every']
