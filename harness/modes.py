"""The ways to run a case."""

import clock
import history
import observe
import relate


def read_mode(prop):
    want = observe.WANT[prop]
    full = prop == "C04"

    def run(case):
        return observe.observe(case, want, full)

    def hang(case, why):
        return dict(case, out=why)

    return run, hang


MODES = {"read": read_mode, "truncate": relate.truncate_mode, "layout": relate.layout_mode, "dict": relate.dict_mode, "units": relate.units_mode,
         "pair": relate.pair_mode, "station": relate.station_mode, "clock": clock.clock_mode, "helper": relate.helper_mode,
         "lists": history.lists_mode, "history": history.history_mode, "threads": history.threads_mode}
