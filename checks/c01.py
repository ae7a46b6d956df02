#!/usr/bin/env python3
from lib import *
import intmatrix, gen, cprog

BIN = [["bin", o] for o in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=")]
OTHER = [["log", "&&"], ["log", "||"], ["un", "-"], ["un", "+"], ["un", "~"], ["un", "!"], ["cast", ""], ["cond", "0"], ["cond", "1"]]

def body(ck):
    intmatrix.matrix(ck, BIN + OTHER, list(range(9)), quick(1, 5), "core")
    intmatrix.matrix(ck, OTHER + BIN[:4] + BIN[8:10] + BIN[12:13], [9, 5, 6, 10, 11, 12], quick(0, 3), "alias")
    rng = ck.rng_for("expr")
    progs = [gen.intexpr_prog(rng, 8, 5) for _ in range(quick(400, 6000))]
    cprog.model_and_replay(ck, "expr", progs)

if __name__ == "__main__":
    main("C01", body)
