import json
F=[]
for a in ["discrete","miller_madow","ksg","kernel_box","ordinal","renyi"]:
    for m in ["permutation_test","bootstrap"]:
        F.append(dict(property="P10",scenario=f"cte_resampling[a={a},method={m}]",obligation="test values of CTE come from a resampled source",
          what=f"conditional transfer entropy ({a}, {m}): the test values are all computed from the unresampled source (input: the fixed 60-sample series of scenario cte_resampling), so the p-value and the effective value carry no information; the existing tests pin effective CTE == 0.0"))
for d in (2, 3):
    F.append(dict(property="P14",scenario=f"ties[dim={d}]",obligation="entropy of tied data is that of its patterns",
      what=f"ordinal entropy, embedding_dim={d}, step_size=1 counts equal neighbours as descending while every other path (symbolize_series, also with stable=True) counts them as ascending (input: the fixed series of scenario ties); the existing JSD/KLD tests pin the values"))
F.append(dict(property="P16",scenario="default_base",obligation="default base follows the configuration",
  what="Config.set('base', ...) / set_logarithmic_unit has no effect on calls that do not name a base: every signature binds base=Config.get('base') at import (input: set_logarithmic_unit('bits'); entropy([0,1,0,1], approach='discrete') returns 0.693 instead of 1)"))
for f in ("jsd", "hx", "kld"):
    F.append(dict(property="P18",scenario=f"rows_2d[f={f}]",obligation="rows are compared, not their codes",
      what=f"{f} of two-dimensional discrete data compares row codes assigned to each variable separately (input: p = [[0,0],[0,1],[0,0]], q = [[5,5],[7,7],[7,7]], no common row), so distributions without a common row count as sharing support"))
F.append(dict(property="P23",scenario="grassberger_of_counts",obligation="Grassberger entropy of a count table",
  what="GrassbergerEntropyEstimator.from_counts(...).global_val() fails with TypeError (it iterates over the missing data; input: labels [1,2,3], counts [2,1,4])"))
F.append(dict(property="P23",scenario="of_probabilities",obligation="entropy of a probability table",
  what="DiscreteHEstimator.from_probabilities calls DiscreteData.from_probabilities, which does not exist: AttributeError (input: labels [1,2], probabilities [0.5,0.5])"))
fixed=["P23 651cca3 count tables of narrow integer types: Zhang raised OverflowError, Chao-Wang-Jost lost precision","P21 fdc85b2 Gaussian kernel density of samples with a degenerate covariance failed (complex eigenvalues)","P22 185c747 KSG and Kozachenko-Leonenko estimators computed a number for k >= number of points (KSG also for k that is not a positive integer)","P22 511a95b KSG, Kozachenko-Leonenko, Grassberger, ... returned NaN for a negative base","P14 bce6362 estimator() dropped step_size for ordinal entropy, MI and CMI","P05 8817d77 discrete MI/CMI returned 0 although two of three or more variables vary","P05 4d99fcd products of marginal counts overflowed 64-bit integers for large samples",
"P20 aa8aaaf Kozachenko-Leonenko cross-entropy failed for k=1","P20 8228b2e Kozachenko-Leonenko cross-entropy averaged over the wrong distribution's sample count",
"P04 60c04a4 ordinal local values of joint data / embedding dimension 1","P21 184e8ca kernel CMI with multi-column variables used the first columns only",
"P19 e2dd46a KSG CMI added noise to the condition once per variable","P10 e8eacc0 ordinal MI/CMI significance tests evaluated unsymbolised resampled data",
"P05 20c9e34 discrete MI rejected a mix of one- and two-dimensional variables","P05 4bf296b offset=None was rejected although documented"]
json.dump(dict(findings=F,fixed=[f"fixed: property={l.split()[0]} {' '.join(l.split()[1:])}" for l in fixed]),open("/verif/known_findings.json","w"),indent=1)
