"""Runs in a child process under a given TZ: evaluates the time conversions on stdin's timestamps."""
import json
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from resippy.utils import time_utils as tu
q = json.load(sys.stdin)
json.dump({"utc2gps": [tu.utc_timestamp_to_gps_timestamp(t) for t in q["utc"]],
           "gps2utc": [tu.gps_timestamp_to_utc_timestamp(t) for t in q["gps"]],
           "week": [list(tu.utc_timestamp_to_gps_week_and_seconds(t)) for t in q["utc"]]}, sys.stdout)
