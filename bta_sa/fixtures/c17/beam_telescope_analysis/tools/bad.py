import os
import threading
from multiprocessing import Pool
import tables as tb
from matplotlib.backends.backend_pdf import PdfPages


def end_only(fn, data):
    out = PdfPages(fn)
    data.plot(out)
    out.close()


def early_return(fn, flag):
    f = tb.open_file(fn)
    if flag:
        return 1
    f.close()


def in_list(fns):
    files = []
    for fn in fns:
        files.append(tb.open_file(fn))
    return len(files)


def except_only(fn, work):
    p = Pool()
    try:
        work(p)
    except ValueError:
        p.terminate()
    p.close()


def temp(fn, step):
    f = os.path.splitext(fn)[0] + '_tmp.h5'
    step(input_file=fn, output_file=f)
    if fn:
        return
    os.remove(f)


def worker(work):
    t = threading.Thread(target=work)
    t.start()
    if work():
        t.join()


def dropped(fn):
    return tb.open_file(fn).root.x[0]


class Keeper(object):
    def begin(self, fn):
        self.handle = tb.open_file(fn)

    def work(self, fn):
        self.begin(fn)
        self.use()
        self.handle.close()
