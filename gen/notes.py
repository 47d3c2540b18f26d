NA={}
NOTE["default"]="Holds for every execution within the bounds listed per scenario in the evidence file (small scope); beyond them it is not decided. Trusted: the Go toolchain, the explorer, and the reference model in mc/ref and the harness."
