"""A process in which the library is imported but nothing has been called yet.

``Fresh`` forks it off before the first case.  Every request is answered in a further fork of it, so each answer is that
of a library without any history: the reference against which results obtained after a history are compared.
"""
import os
import pickle
import signal
import struct
import warnings

from harness.core import TARGET, limit_memory

LIMIT_S = 15                                # an answer that takes longer, or 2 GB, is not waited for


def _read(fd, n):
    buf = b''
    while len(buf) < n:
        part = os.read(fd, n - len(buf))
        if not part:
            return None
        buf += part
    return buf


def _receive(fd):
    head = _read(fd, 8)
    return None if head is None else pickle.loads(_read(fd, struct.unpack('<q', head)[0]))


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def outcome(name, args, kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'returned', TARGET.fn(name)(*args, **kw)
    except Exception as exc:
        return 'raised', type(exc).__name__


class Fresh:
    def __init__(self):
        ask_r, self.ask = os.pipe()
        self.answer, answer_w = os.pipe()
        if os.fork() == 0:
            try:
                os.close(self.ask)
                os.close(self.answer)
                while True:
                    job = _receive(ask_r)
                    if job is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        status = 1
                        try:
                            signal.signal(signal.SIGALRM, signal.SIG_DFL)
                            signal.alarm(LIMIT_S)
                            limit_memory(2 << 30)
                            res = outcome(*job)
                            if res[0] != 'raised' or res[1] != 'MemoryError':
                                _send(answer_w, res)
                                status = 0
                        finally:
                            os._exit(status)
                    if os.waitpid(pid, 0)[1] != 0:
                        _send(answer_w, ('no answer', None))
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(answer_w)

    def __call__(self, name, args, kw):
        _send(self.ask, (name, args, kw))
        return _receive(self.answer)
