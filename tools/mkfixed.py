"""Rewrites the "fixed" entries of known_findings.json: one per fix commit of /repo."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FX = """e2bf27d M01 the dimensions of the domain came in file order, not in the order of the states, so that grids and decision rules mixed states up
cdd3659 M01 set_calibration of a symbol without calibration entry raised an error
e55178d G01 a uniform grid without numbers of points could not be built
082e27b G01 the sum of two uniform grids kept the bounds of the first only
ee8ecf6 G01 the product (*) of two Cartesian grids raised an error
232a6a2 G01 non-uniform grids had no dimension attribute
c14844c G01 cartesian() truncated floats when the first list was of integers
d238b20 G01 a grid type given as an option of an untagged grid section was refused
93b1b33 P01 the mean of a normal shock was added twice to its Gauss-Hermite nodes
9086051 P01 discretizing a normal shock with degenerate dimensions changed its covariance
d1b2a8e P01 discretized vector autoregressions had the transposed factor, hence another covariance
8cf7f0f P01 dimensions with offsetting covariances were taken for degenerate ones
fd44052 P01 tauchen nodes had the wrong shape in multidimensional_discretization
c50dd76 P01 options were dropped when a distribution was discretized to a markov chain
78d410e P02 bernouilli draws used the probability of the complement
b481ce2 P01 UNormal.integrate failed with numpy 2
b6c5436 P01 default parameters of lognormal shocks
4cc8f11 P01 a mixture selected its components by position instead of by the value of the index
c7aeb10 P01 constant processes could not be drawn or discretized by default
bcb02f2 P01 product_mc of one process failed
026a47b P01 the grid of a markov chain seen as a generic discretized process was missing
d5a0062 P01 the AR1 class squared or rooted its standard deviation inconsistently and ignored its mean
4411b5f P02 deterministic simulation of autoregressive processes raised an error
9be5131 P02 simulations of autoregressive processes did not start at the requested state
d1d04dd P01 vector autoregressions with several autocorrelations were discretized as if they had one
f4cc64d P01 discretize(to="gdp") of autoregressive processes raised an error or ignored the mean
87b0817 P02 a simulated chain could jump to a state that does not exist because of roundoff in cumulated probabilities
59ac3b2 P02 MarkovChain.simulate returned values of the wrong shape
bd17fb2 P01 beta shocks could not be declared in a model file
8feafa9 P01 unknown discretizations of autoregressive processes were answered with another one
82e24fc P02 simulated chains ignored the seed of numpy
2bc8233 P02 normal shocks with a degenerate dimension could not be created
4ab410a P02 impulse responses of autoregressive processes were shifted or raised an error
3c0b1a1 S01 the default impulse was a variance instead of a standard deviation
10abb14 S01 the transition used the shock of the wrong date
65b6af9 S01 the seed was set after shocks were drawn
e9a864e S01 simulating along a given path of markov states failed without initial state
2a79369 S01 simulated shocks of models without definitions were not reported under their names
0025046 S01 markov states of identical values were confused in simulations
93f05e7 S01 tabulate at a given exogenous value raised an error
3c29239 S01 tabulate failed for rules without discretized process
156076d D01 multilinear rules over markov states could not be built
8000de0 D01 exogenous values which happened to be integers were taken for indices
b330082 D01 evaluating one exogenous value with several states failed
8c5f677 D01 custom rules with several controls returned the wrong shape
c85810c T01 time iteration mixed the grid of the model with the discretized process given by the user
be23b06 T02 inversion by gmres raised an error
7da2ed0 T02 improved time iteration failed for models without bounds
8dbf234 T02 improved time iteration accepted only its own decision rules as initial guess
fd154d9 V01 value iteration ignored the bounds of the controls
45fd240 V01 value iteration updated values with the non-improved controls
9dfcb22 V01 policies given by custom, constant or other rules could not be evaluated
"""
EXTRA = os.path.join(H, "tools", "fixed_more.txt")
if os.path.exists(EXTRA):
    FX += open(EXTRA).read()
out, seen = [], set()
for l in FX.splitlines():
    if l.strip():
        c, p, t = l.split(" ", 2)
        out.append("fixed: property=%s %s %s" % (p, c, t))
        seen.add(c)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "476cb18..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    if l.split(" ", 1)[1].startswith("fix:") and l.split()[0] not in seen:
        print("not recorded:", l)
k = json.load(open(H + "/known_findings.json"))
k["fixed"] = out
json.dump(k, open(H + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
print(len(out), "fixed;", len(k["findings"]), "findings")
