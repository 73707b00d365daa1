#!/usr/bin/env python3
"""check.py <property> quick|thorough"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
WHERE = dict(C01="cb", C02="cb", C03="cb", C04="conn", C05="conn", C06="cb", C07="scope", C08="clone", C09="span", C10="bytes_", C11="utf", C12="flags", C13="rect", C14="vec", C15="mat", C16="linear", C17="quat", C18="transform", C19="scalar", C20="approx", C21="types_", C22="names")
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
os.execv(sys.executable, [sys.executable, os.path.join(here, "checks", WHERE[pid] + ".py"), pid, tier])
