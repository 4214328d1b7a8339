#!/bin/bash
# the analyser's own test: expected to report exactly the bad_* entries of selftest/threads.cpp (9, same text reported once: 7)
cd "$(dirname "$0")/.." && cp selftest/threads.cpp drivers/T0_threads.cpp
python3 -c 'import engine.runner as R; R.run_property("T0", "quick", dict(drivers=[("T0_threads.cpp", {"bound":24})]))' | grep -o 'drv_[a-z_0-9]*,' | sort -u
rm -f drivers/T0_threads.cpp replays/T0* evidence/T0.json
