"""The handler thread of a server: a message queued at the moment the thread is about to sleep is still handled (called from C06 and C08)."""
import threading
from net import *      # noqa
from katcp import Message
from katcp.server import MessageHandlerThread


class Conn(object):
    def inform(self, msg):
        pass
    reply = reply_inform = inform


def case_wake(h, p):
    n, at = p
    handled, sent = [], []
    seen = threading.Event()

    class D(object):
        name = 'd'

        def handler(self, conn, msg):
            handled.append(msg)
            seen.set()
    with World() as w:
        th = MessageHandlerThread(D().handler, lambda *a: Message.inform('log', *a[:2]))
        th.set_ioloop(w.loop)
        wake = getattr(th, '_wake', None)
        left = [n]

        def send():
            m = Message.request('do-it', str(len(sent)))
            sent.append(m)
            th.on_message(Conn(), m)
        if wake is not None and hasattr(wake, 'clear'):
            clear = wake.clear

            def cl():
                if left[0] and at == 'before':
                    left[0] -= 1
                    send()
                clear()
                if left[0] and at == 'after':
                    left[0] -= 1
                    send()
            wake.clear = cl
        else:
            left[0] = 0
        th.start(1)
        try:
            send()
            t = REAL_TIME() + 3
            while REAL_TIME() < t and (left[0] or len(handled) < len(sent)):
                seen.wait(.01)
                seen.clear()
            h.check('a message that arrives while the thread looks for the next one is handled', handled == sent and not left[0], '%r: %d handled of %d' % (p, len(handled), len(sent)))
            h.nontrivial(p)
        finally:
            left[0] = 0
            th.stop()
            th.join(2)


WAKES = [(n, at) for n in (1, 3) for at in ('before', 'after')]
