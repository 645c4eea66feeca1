#!/usr/bin/env python3
"""Warms Go's build cache, so that the first check does not pay for it. Nothing is kept but the cache."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

MAIN = """package main

import (
	"example.com/genapp/fill"
	"example.com/genapp/rt"
	"github.com/gin-gonic/gin"
	_ "github.com/google/uuid"
)

func Ping(c *gin.Context) { c.JSON(200, gin.H{"a": 1}) }

func main() {
	_ = fill.Value
	rt.Handle("ping", "GET", "/ping", Ping)
	rt.Main()
}
"""

if __name__ == "__main__":
    for race in (False, True):
        try:
            d, b = build_app({"main.go": MAIN}, "setup%d" % race, race=race)
            ev = run_app(d, b, [dict(op="gen", id="g", routers=[dict(routes=["ping"])], outputs=[["openapi", "o.json"]], read=["o.json"])], "setup%d" % race)
            print("setup: race=%s complete=%s contained=%s" % (race, ev.complete, bool(contained())))
        except Inconclusive as x:
            print(x)
    sys.exit(0)
