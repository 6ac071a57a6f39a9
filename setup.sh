#!/bin/bash
# Nothing to build: the checks import the code from /repo/src and run TLC on spec/.
# Verifies that the tools are there and that all specifications parse.
set -e
cd "$(dirname "$0")/spec"
for m in MC_*.tla Trace*.tla; do
  tla-sany "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
. /opt/vp/env.sh
PYTHONPATH=/repo/src /opt/venv/bin/python -c "import rkopenmdao.runge_kutta_integrator" > /dev/null
echo setup ok
