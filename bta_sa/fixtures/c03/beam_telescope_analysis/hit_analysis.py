import os
import tables as tb


def good(input_file, output_file=None):
    if output_file is None:
        output_file = os.path.splitext(input_file)[0] + '_x.h5'
    _write(output_file)
    return output_file


def _write(name):
    with tb.open_file(name, 'w') as o:
        o.flush()


def good_list(input_files, output_files=None):
    names = []
    for k in range(len(input_files)):
        if output_files is None:
            names.append(good(input_files[k]))
        else:
            names.append(good(input_files[k], output_files[k]))
    return names


def good_comp(input_files, output_files=None):
    return [good(f, o) for f, o in zip(input_files, output_files or [None] * len(input_files))]


def bad_ignored(input_file, output_file=None):
    name = os.path.splitext(input_file)[0] + '_x.h5'
    _write(name)
    return name


def bad_return(input_file, output_file=None):
    if output_file is None:
        output_file = os.path.splitext(input_file)[0] + '_x.h5'
    with tb.open_file(output_file, 'w') as o:
        if not o.root:
            return input_file
    return output_file


def bad_other(input_file, output_file=None):
    out = output_file
    if output_file is None:
        out = os.path.splitext(input_file)[0] + '_x.h5'
    _write(out)
    return output_file


def bad_skip(input_files, output_files=None):
    names = []
    for k in range(len(input_files)):
        if os.path.isfile(input_files[k]):
            names.append(good(input_files[k], None if output_files is None else output_files[k]))
    return names


def bad_index(input_files, output_files=None):
    names = []
    for k, _ in enumerate(input_files):
        names.append(good(input_files[k], None if output_files is None else output_files[0]))
    return names
