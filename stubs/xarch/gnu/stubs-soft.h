// empty: cross-target parsing only
