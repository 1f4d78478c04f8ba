#!/usr/bin/env python3
"""show.py FUNCTION [units...]: print the normalised IR of a function"""
import sys; sys.path.insert(0, __file__.rsplit("/",1)[0])
import ir
def main():
    name=sys.argv[1]; units=sys.argv[2:] or ["db","json"]
    m=ir.load(tuple(units))
    f=m.fn(name)
    print(f.name,f.args)
    for b,blk in enumerate(f.blocks):
        print("B%d: succ %s"%(b,f.succ[b]))
        for i in blk:
            x={k:v for k,v in i.d.items() if k not in("i","o","t","a","l","st","at","dims","inb")}
            print("   %%%d = %s %s %s %s   ; %s"%(i.id,i.op,i.callee() or i.d.get("f",""),i.args,x if x else "",i.line()))
main()
