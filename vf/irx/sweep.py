def reduce_pairs(ex, st, pairs):
    return pairs
