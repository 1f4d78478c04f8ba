#!/bin/bash
# builds the IR normaliser (engine/irdump.cpp) into /verif/build
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'engine'); sys.dont_write_bytecode=True
import ir; print(ir.irdump_path())"
