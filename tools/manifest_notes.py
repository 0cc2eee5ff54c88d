# NA[...] / NOTE[...] entries
