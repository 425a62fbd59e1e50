import os
import threading
from contextlib import ExitStack, nullcontext, closing
from multiprocessing import Pool
import tables as tb
from matplotlib.backends.backend_pdf import PdfPages


def in_with(fn, plot, data):
    with (PdfPages(fn) if plot else nullcontext()) as out, tb.open_file(fn) as f:
        data.plot(out, f)


def conditional(fn, plot, data):
    out = PdfPages(fn) if plot else None
    try:
        data.plot(out)
        if data.empty():
            return 0
    finally:
        if out is not None:
            out.close()


def by_helper(fn, data):
    out = opener(fn)
    try:
        data.plot(out)
    finally:
        closer(out)


def opener(fn):
    f = tb.open_file(fn)
    return f


def closer(h):
    if h is not None:
        h.close()


def stacked(fns):
    with ExitStack() as stack:
        files = [stack.enter_context(tb.open_file(fn)) for fn in fns]
        return len(files)


def closed(fn, work):
    p = Pool()
    try:
        work(p)
    except ValueError:
        p.terminate()
        raise
    finally:
        p.close()


def closing_block(fn):
    with closing(tb.open_file(fn)) as f:
        return f.root.x[0]


def temp(fn, step):
    f = None
    if fn:
        f = os.path.splitext(fn)[0] + '_tmp.h5'
        step(input_file=fn, output_file=f)
    if f is not None:
        os.remove(f)


def worker(work):
    t = threading.Thread(target=work)
    t.start()
    work()
    t.join()


class Keeper(object):
    def begin(self, fn):
        self.handle = tb.open_file(fn)

    def work(self, fn):
        try:
            self.begin(fn)
            self.use()
        finally:
            self.end()

    def end(self):
        self.handle.close()
