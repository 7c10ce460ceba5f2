E = "obp/ope/estimators.py"
SEEDS = [
 dict(id="P04_boot_size", prop="P04",
      edits=[("obp/utils.py", "        boot_samples.append(np.mean(random_.choice(samples, size=samples.shape[0])))",
              "        boot_samples.append(\n            np.mean(random_.choice(samples, size=min(samples.shape[0], 2000)))\n        )")],
      needs="more than 2000 samples", breaks="bootstrap resamples are no longer full size: intervals are too wide for large data",
      demo="""
from obp.utils import estimate_confidence_interval_by_bootstrap as f
x = np.random.RandomState(0).normal(size=3000)
r = f(x, n_bootstrap_samples=3, random_state=5)
q = np.random.RandomState(5)
m = np.mean([np.mean(q.choice(x, size=3000)) for _ in range(3)])
assert abs(r["mean"] - m) < 1e-9, (r, m)
"""),
 dict(id="P03_dist_first_pos", prop="P03",
      edits=[("obp/utils.py", "    if not np.allclose(action_dist.sum(axis=1), 1):\n        raise ValueError(\"`action_dist` must be a probability distribution\")\n\n    # position",
              "    if not np.allclose(action_dist[:, :, 0].sum(axis=1), 1):\n        raise ValueError(\"`action_dist` must be a probability distribution\")\n\n    # position")],
      needs="several positions, only a later position's distribution is malformed",
      breaks="an action distribution that does not sum to one at position >= 1 is accepted",
      demo="""
from obp.utils import check_ope_inputs
ad = np.full((4, 2, 2), .5)
ad[2, :, 1] = .9
try:
    check_ope_inputs(action_dist=ad, position=np.array([0, 1, 1, 0]), action=np.array([0, 1, 0, 1]), reward=np.ones(4), pscore=np.full(4, .5))
except ValueError:
    sys.exit(0)
sys.exit("malformed distribution accepted")
"""),
 dict(id="P02_switch_pos", prop="P02", nth=2,
      edits=[(E, "        q_hat_factual = estimated_rewards_by_reg_model[np.arange(n), action, position]",
              "        q_hat_factual = estimated_rewards_by_reg_model[np.arange(n), action, 0]")],
      needs="a reward model that differs between positions, and a logged position other than the first",
      breaks="Switch-DR/DRos takes the residual against the reward model at the first position instead of the logged one",
      demo="""
from obp.ope import DoublyRobust, SwitchDoublyRobust, DoublyRobustWithShrinkage, SelfNormalizedDoublyRobust
r = np.random.RandomState(0)
n, A, L = 20, 3, 2
pi = r.dirichlet(np.ones(A), size=(n, L)).transpose(0, 2, 1)
q = r.uniform(size=(n, A, L)); a = r.randint(A, size=n); p = r.randint(L, size=n); y = r.uniform(size=n); ps = np.full(n, 1 / 3)
kw = dict(reward=y, action=a, position=p, pscore=ps, action_dist=pi, estimated_rewards_by_reg_model=q)
v = DoublyRobust().estimate_policy_value(**kw)
for c in (SwitchDoublyRobust(), DoublyRobustWithShrinkage(lambda_=np.inf)):
    assert abs(c.estimate_policy_value(**kw) - v) < 1e-9
w = pi[np.arange(n), a, p] / ps
dm = (pi * q)[np.arange(n), :, p].sum(1)
e = (dm + w / w.mean() * (y - q[np.arange(n), a, p])).mean()
assert abs(SelfNormalizedDoublyRobust().estimate_policy_value(**kw) - e) < 1e-9
"""),
]
