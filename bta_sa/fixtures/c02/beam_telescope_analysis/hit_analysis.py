import os
import tables as tb
from matplotlib.backends.backend_pdf import PdfPages
from beam_telescope_analysis.tools.storage_utils import save_arguments


def default_name(name, suffix):
    root, _ = os.path.splitext(name)
    return '{}{}.h5'.format(root, suffix)


@save_arguments
def good_step(input_file, output_file=None, plot=True):
    if not output_file:
        output_file = default_name(input_file, '_good')
    with tb.open_file(input_file) as i, tb.open_file(output_file, 'w') as o:
        o.root.copy(i)
    if plot:
        with PdfPages(output_file[:-3] + '.pdf') as p:
            p.savefig()
    return output_file


def good_guarded(input_files, output_file=None):
    if output_file is None:
        output_file = os.path.commonprefix(input_files) + '_all.h5'
    if output_file in input_files:
        raise ValueError('same')
    with tb.open_file(output_file, mode='w') as o:
        o.flush()
    return output_file


def good_temp(input_file, output_file):
    tmp = f'{os.path.splitext(input_file)[0]}_tmp.h5'
    with tb.open_file(tmp, 'w') as t:
        t.flush()
    with tb.open_file(output_file, 'w') as o:
        o.flush()
    os.remove(tmp)
    return output_file


def bad_mode(input_file, output_file=None):
    with tb.open_file(input_file, 'a') as i:
        i.flush()


def bad_default(mode):
    return mode


def bad_replace(input_hit_file, output_file=None):
    if output_file is None:
        output_file = input_hit_file.replace('_hits', '_out')
    with tb.open_file(output_file, 'w') as o:
        o.flush()


def bad_prefix(input_files, output_file=None):
    if output_file is None:
        output_file = os.path.commonprefix(input_files) + '_all.h5'
    with tb.open_file(output_file, mode='w') as o:
        o.flush()
    return output_file


def bad_remove(input_file, keep=True):
    if not keep:
        os.remove(os.path.abspath(input_file))


def bad_extension(input_file, output_file=None):
    output_file = output_file or os.path.splitext(input_file)[0] + '.h5'
    with tb.open_file(output_file, 'w') as o:
        o.flush()


@save_arguments
def bad_return(input_file, output_file=None):
    if output_file is None:
        return input_file
    with tb.open_file(output_file, 'w') as o:
        o.flush()
    return output_file


def bad_helper(input_file, output_file=None):
    names = [input_file]
    for n in names:
        with _open(n) as f:
            f.flush()


def _open(n):
    return tb.open_file(n, mode='r+')
