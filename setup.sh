#!/bin/bash
# nothing is compiled: check that the engine loads and the solver answers
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "from vsx.z3load import z3; s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 4, x > 0); assert str(s.check()) == 'sat'; print('z3', z3.get_version_string())"
