"""A request on the border of Sampford's scheme: two items are certain to be included."""
import os, sys, json
import numpy as np
sys.path.insert(0, os.environ['VP_EXT'])
from inference.mc.population import Population
inp, outp = sys.argv[1:3]
np.random.seed(1)
p = Population(weights=np.array([2., 2., 1., 1.]))
v = p.subset_pps(3)
with open(outp, 'w') as f:
    f.write(json.dumps({'items': [int(x) for x in v]}) + '\n')
