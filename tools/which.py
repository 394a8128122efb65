#!/usr/bin/env python3
"""Prints the monitor binary that decides a property."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
print(json.load(open(os.path.join(here, "bins.json")))[sys.argv[1]])
