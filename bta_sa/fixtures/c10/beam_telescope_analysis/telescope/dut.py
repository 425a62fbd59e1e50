import numpy as np


class Dut(object):
    dut_attributes = ["name", "size", "limit", "gain"]

    def __init__(self, name, size, limit=None, gain=1.0, offset=0.0):
        self.name = name
        self.size = limit
        self.limit = (0, 1) if limit is None else limit
        self.gain = gain
        self.offset = offset

    def __setattr__(self, name, value):
        if name.lstrip('_') in self.dut_attributes:
            super(Dut, self).__setattr__(name, value)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, name):
        self._name = name

    @property
    def size(self):
        return self._size

    @size.setter
    def size(self, size):
        self._size = (float(size[1]), float(size[0]))

    @property
    def limit(self):
        return self._limit

    @limit.setter
    def limit(self, limit):
        if limit is None:
            self._limit = None
        else:
            self._limit = (float(min(limit)), float(max(limit)))

    @property
    def gain(self):
        return self._gain

    @gain.setter
    def gain(self, gain):
        self._gain = float(gain) * 2.0


class Good(Dut):
    dut_attributes = Dut.dut_attributes + ["n"]

    def __init__(self, n, **kwargs):
        super(Good, self).__init__(**kwargs)
        self.n = n

    @property
    def n(self):
        return self._n

    @n.setter
    def n(self, n):
        self._n = int(n)
