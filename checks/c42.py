"""C42: the bot's messages reach every subscribed chat exactly once, under its current id."""
import datetime as dtm
import types

PROPERTY = 'C42'
BOUNDS = dict(chats='0 to 4 subscribed chats with arbitrary different ids', history='1 to 3 events (start, migration message, broadcast) with arbitrary ids',
              replies='every delivery succeeds, is refused, or reports a migration to an arbitrary other id (at most 2 migrations per call)')
ASSUMPTIONS = ['the bot of python-telegram-bot is a stand-in that records what it is asked to send and answers with a symbolic outcome',
               'chat ids are not zero; a chat does not migrate to the id of another subscribed chat within one broadcast',
               'callbacks are called directly: the thread and the event loop that normally call them are outside']
VALIDATE_S = dict(quick=10)


class Bot:
    """records deliveries; every attempt's outcome is symbolic"""

    def __init__(self, h, migrations=2, fixed=None):
        self.h, self.mig, self.tried, self.sent, self.fixed = h, migrations, [], [], fixed
        self.log = []                   # ('ok' | 'no' | 'mig', id, new id)

    def __getattr__(self, k):
        if not k.startswith('send_'):
            raise AttributeError(k)
        return lambda chat_id, *a, **kw: self.deliver(k[5:], chat_id, a, kw)

    def deliver(self, kind, chat_id, a, kw):
        from telegram.error import ChatMigrated, Forbidden
        h = self.h
        k = len(self.log)
        o = self.fixed or h.choice('o%d' % k, ('ok', 'no', 'mig') if self.mig else ('ok', 'no'))
        if o == 'ok':
            self.log.append((o, chat_id, None))
            self.sent.append((kind, chat_id, a, kw))
            return None
        if o == 'no':
            self.log.append((o, chat_id, None))
            raise Forbidden('no')
        self.mig -= 1
        new = h.mode('m%d' % k, 1, 99)
        self.log.append((o, chat_id, new))
        e = ChatMigrated(12345)
        e.new_chat_id = new
        raise e


def mk(h, n, **kw):
    from vectorbt.messaging.telegram import TelegramBot
    bot = Bot(h, **kw)
    ids = [h.mode('c%d' % k, 1, 99) for k in range(n)]
    for a in range(n):
        for b in range(a):
            h.assume(ids[a] != ids[b])
    app = types.SimpleNamespace(bot=bot, bot_data=dict(chat_ids=list(ids)), updater=types.SimpleNamespace(start_polling=None), running=False,
                                add_handler=lambda *a: None, add_error_handler=lambda *a: None)

    class B(TelegramBot):
        application = property(lambda self: app)
    t = B(token='123:abc')
    if n:
        h.check(len(t.chat_ids) == n, 'the subscribed chats are kept')
    return t, bot, ids


def eqs(h, got, want, label):
    h.eq(len(got), len(want), label + ': number')
    if len(got) == len(want):
        for k, (a, b) in enumerate(zip(got, want)):
            h.eq(a, b, '%s[%d]' % (label, k))


def unique(h, t):
    ids = list(t.chat_ids)
    for a in range(len(ids)):
        for b in range(a):
            h.check(ids[a] != ids[b], 'a chat is subscribed once')


def subscribe(subs, new):
    if not any(bool(new == s) for s in subs):
        subs.append(new)


def migrate(subs, old, new):
    for k, s in enumerate(subs):
        if bool(s == old):
            del subs[k]
            break
    subscribe(subs, new)


def broadcast(h, n, kind='message', fixed=None):
    """every chat gets the message once; one that refuses it does not keep it from the others; a moved chat gets it under its new id"""
    from vectorbt.messaging import telegram as tm
    t, bot, ids = mk(h, n, fixed=fixed)
    if kind == 'message':
        _, exc = h.call(lambda: t.send_message_to_all('hi', parse_mode='x'))
        args, kw, k = ('hi',), dict(parse_mode='x'), 'message'
    elif kind == 'giphy':
        asked = []
        old, tm.text_to_giphy_url = tm.text_to_giphy_url, lambda text, **kw: asked.append((text, kw)) or 'url'
        try:
            t.giphy_kwargs = dict(api_key='k', weirdness=3)
            _, exc = h.call(lambda: t.send_giphy_to_all('hi', caption='c'))
        finally:
            tm.text_to_giphy_url = old
        h.eq([asked == [('hi', dict(api_key='k', weirdness=3))]], [True], 'the picture is looked up once')
        args, kw, k = ('url',), dict(caption='c'), 'animation'
    elif kind == 'started':
        _, exc = h.call(t.started_callback)
        args, kw, k = ("I'm back online!",), {}, 'message'
    else:
        _, exc = h.call(lambda: t.send_to_all('photo', 'p', 'q', caption='c'))
        args, kw, k = ('p', 'q'), dict(caption='c'), 'photo'
    new = [l[2] for l in bot.log if l[0] == 'mig']
    for a, x in enumerate(new):
        for y in ids + new[:a]:
            h.assume(x != y)
    h.check(exc is None, 'raises %s' % exc)
    h.check(all(s[0] == k and s[2] == args and s[3] == kw for s in bot.sent), 'what is sent')
    # replay the log: every chat, in order, until it is delivered or refused
    want, subs, i = [], list(ids), 0
    for c in ids:
        while True:
            if i >= len(bot.log):
                h.check(False, 'a chat is left out')
                return
            o, at, nw = bot.log[i]
            i += 1
            want.append(c)
            if o != 'mig':
                break
            migrate(subs, c, nw)
            c = nw
    eqs(h, [l[1] for l in bot.log], want, 'deliveries')
    eqs(h, list(t.chat_ids), subs, 'subscribed chats')
    unique(h, t)


def direct(h, kind):
    """a direct message goes to its chat only; a migration moves the subscription"""
    from vectorbt.messaging import telegram as tm
    t, bot, ids = mk(h, 2)
    to = h.mode('to', 1, 99)
    if kind == 'message':
        _, exc = h.call(lambda: t.send_message(to, 'hi', parse_mode='x'))
        item = ('message', ('hi',), dict(parse_mode='x'))
    elif kind == 'giphy':
        old, tm.text_to_giphy_url = tm.text_to_giphy_url, lambda text, **kw: (text, tuple(kw.items()))
        try:
            _, exc = h.call(lambda: t.send_giphy(to, 'hi', giphy_kwargs=dict(weirdness=1), caption='c'))
        finally:
            tm.text_to_giphy_url = old
        item = ('animation', (('hi', (('weirdness', 1),)),), dict(caption='c'))
    else:
        _, exc = h.call(lambda: t.send('photo', to, 'p', caption='c', log_msg='m'))
        item = ('photo', ('p',), dict(caption='c'))
    h.check(exc is None, 'raises %s' % exc)
    subs, cur = list(ids), to
    for k, (o, at, nw) in enumerate(bot.log):
        h.eq(at, cur, 'delivery %d' % k)
        h.check(o == 'mig' or k == len(bot.log) - 1, 'no delivery after the last')
        if o == 'mig':
            migrate(subs, cur, nw)
            cur = nw
    h.check(len(bot.log) > 0 and bot.log[-1][0] != 'mig', 'delivered or refused')
    h.check(all((s[0], s[2], s[3]) == item for s in bot.sent), 'what is sent')
    eqs(h, list(t.chat_ids), subs, 'subscribed chats')
    unique(h, t)


def upd(h, chat, text='x', **kw):
    from telegram import Chat, Message, Update
    m = Message(1, dtm.datetime(2020, 1, 1), Chat(chat, 'group'), text=text, **kw)
    return Update(1, message=m)


def history(h, steps, n=0):
    """whatever happens, every subscribed chat is listed once, under its current id, and gets every broadcast once"""
    t, bot, subs = mk(h, n, migrations=0, fixed='ok')
    subs = list(subs)
    ctx = types.SimpleNamespace(error=None)
    for k in range(steps):
        ev = h.choice('e%d' % k, ('start', 'to', 'from', 'both', 'all', 'help'))
        x = h.mode('x%d' % k, 1, 99)
        before = len(bot.sent)
        if ev == 'start':
            t.start_callback(upd(h, x, '/start'), ctx)
            subscribe(subs, x)
            eqs(h, [s[1] for s in bot.sent[before:]], [x], 'answer to start')
        elif ev == 'help':
            t.help_callback(upd(h, x), ctx)
            eqs(h, [s[1] for s in bot.sent[before:]], [x], 'answer to help')
        elif ev == 'all':
            t.send_message_to_all('m')
            eqs(h, [s[1] for s in bot.sent[before:]], list(subs), 'broadcast')
        else:
            y = h.mode('y%d' % k, 1, 99)
            h.assume(x != y)
            if ev == 'to':
                t.chat_migration_callback(upd(h, x, migrate_to_chat_id=y), ctx)
            if ev in ('from', 'both'):
                if ev == 'both':
                    t.chat_migration_callback(upd(h, x, migrate_to_chat_id=y), ctx)
                t.chat_migration_callback(upd(h, y, migrate_from_chat_id=x), ctx)
            migrate(subs, x, y)
        eqs(h, list(t.chat_ids), subs, 'subscribed chats')
        unique(h, t)


def answers(h, what):
    """an unknown command and an error are answered to the chat they came from"""
    t, bot, ids = mk(h, 2, migrations=0)
    x = h.mode('x', 1, 99)
    ctx = types.SimpleNamespace(error=None)
    if what == 'unknown':
        t.unknown_callback(upd(h, x), ctx)
    elif what == 'error':
        t.error_callback(upd(h, x), ctx)
    else:
        for f in (t.start_callback, t.help_callback, t.chat_migration_callback, t.unknown_callback, t.error_callback):
            f('no update', ctx)
        h.eq(len(bot.log), 0, 'nothing is sent')
        eqs(h, list(t.chat_ids), ids, 'subscribed chats')
        return
    eqs(h, [l[1] for l in bot.log], [x], 'answer')
    eqs(h, list(t.chat_ids), ids, 'subscribed chats')


def tasks(tier):
    q = tier == 'quick'
    out = [dict(fn='broadcast', cfg=dict(n=n, kind='message'), weight=n) for n in range(0, 4 if q else 5)]
    out += [dict(fn='broadcast', cfg=dict(n=2, kind=k)) for k in ('giphy', 'other', 'started')]
    out += [dict(fn='direct', cfg=dict(kind=k)) for k in ('message', 'giphy', 'other')]
    out += [dict(fn='history', cfg=dict(steps=1, n=n)) for n in (0, 1, 2)]
    out += [dict(fn='history', cfg=dict(steps=2, n=n), weight=3) for n in (0, 1, 2)]
    out += [dict(fn='answers', cfg=dict(what=w)) for w in ('unknown', 'error', 'foreign')]
    if not q:
        out += [dict(fn='history', cfg=dict(steps=3, n=n), weight=9) for n in (0, 1)]
    return out


def used_functions():
    return ['vectorbt.messaging.telegram.TelegramBot.' + f for f in ('__init__', 'chat_ids', 'send', 'send_to_all', 'send_message', 'send_message_to_all',
            'send_giphy', 'send_giphy_to_all', 'start_callback', 'help_callback', 'chat_migration_callback', 'unknown_callback', 'error_callback', 'started_callback', '_run_async')]
