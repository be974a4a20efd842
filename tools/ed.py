#!/usr/bin/env python3
"""ed.py FILE (old and new text on stdin, separated by a line '====')"""
import sys
f="/repo/"+sys.argv[1]; a,b=sys.stdin.read().split("====\n"); s=open(f).read(); a=a.rstrip("\n"); b=b.rstrip("\n")
assert s.count(a)==1,(s.count(a),a)
open(f,"w").write(s.replace(a,b))
