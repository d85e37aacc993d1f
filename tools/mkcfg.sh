#!/bin/bash
# writes the standard configuration of a trace specification
cd "$(dirname "$0")/../spec"
for m in "$@"; do printf 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' > $m.cfg; done
