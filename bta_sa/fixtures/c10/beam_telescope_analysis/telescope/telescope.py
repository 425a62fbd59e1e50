import importlib
from yaml import safe_load, safe_dump


class Telescope(object):
    telescope_attributes = ["shift"]

    def __init__(self, configuration_file=None, shift=0.0):
        self.dut = {}
        self.shift = shift

    def __iter__(self):
        for k in sorted(self.dut):
            yield self.dut[k]

    @property
    def shift(self):
        return self._shift

    @shift.setter
    def shift(self, shift):
        self._shift = float(shift)

    def load_configuration(self, configuration_file):
        with open(configuration_file, 'r') as f:
            configuration = safe_load(f)
        for dut_id, settings in configuration["TELESCOPE"]["DUT"].items():
            if settings["gain"] < 0:
                continue
            m = importlib.import_module("beam_telescope_analysis.telescope.dut")
            self.dut[dut_id] = getattr(m, settings["dut_type"])(**settings)
        for key, value in configuration["TELESCOPE"].items():
            if value and key in self.telescope_attributes:
                setattr(self, key, value)

    def save_configuration(self, configuration_file):
        duts = {}
        for i, dut in enumerate(self):
            duts[i] = {name: getattr(dut, name) for name in dut.dut_attributes}
        tel = {name: getattr(self, name) for name in self.telescope_attributes}
        tel["DUT"] = duts
        with open(configuration_file, 'a') as f:
            safe_dump({"TELESCOPE": tel}, f)
