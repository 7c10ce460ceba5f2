SEEDS = [
 dict(id="P13_bts_alias", prop="P13", nth=1,
      edits=[("obp/policy/contextfree.py", "            self.reward_counts = np.copy(self.reward_counts_temp)", "            self.reward_counts = self.reward_counts_temp")],
      needs="batch_size > 1 and updates after the first completed batch",
      breaks="after the first batch, Thompson sampling sees rewards of the unfinished batch at once",
      demo="""
from obp.policy import BernoulliTS
p = BernoulliTS(n_actions=2, batch_size=2, random_state=1)
for a, r in ((0, 1), (1, 0)):
    p.update_params(a, r)
before = p.reward_counts.copy()
p.update_params(1, 1)
assert np.array_equal(before, p.reward_counts), (before, p.reward_counts)
"""),
 dict(id="P14_lin_alias", prop="P14",
      edits=[("obp/policy/linear.py", "                np.copy(self.A_inv_temp),", "                self.A_inv_temp,")],
      needs="batch_size > 1 and updates after the first completed batch",
      breaks="the inverse design matrix of the linear policies changes inside a batch",
      demo="""
from obp.policy import LinUCB
p = LinUCB(dim=2, n_actions=2, batch_size=2, random_state=1)
for a, r in ((0, 1.), (1, 0.)):
    p.update_params(a, r, np.array([[1., 2.]]))
before = p.A_inv.copy()
p.update_params(1, 1., np.array([[3., 1.]]))
assert np.array_equal(before, p.A_inv)
"""),
 dict(id="P15_late_context", prop="P15",
      edits=[("obp/simulator/simulator.py", "            available_context = self._contexts[available_round_idx]", "            available_context = self._contexts[min(available_round_idx + 1, len(self._contexts) - 1)]")],
      needs="a contextual policy and a reward that arrives at least one round late",
      breaks="a delayed reward is credited to the context of the following round",
      demo="""
from obp.simulator.simulator import BanditPolicySimulator, BanditRounds
class P:
    policy_type = __import__("obp.policy.policy_type", fromlist=["PolicyType"]).PolicyType.CONTEXTUAL
    policy_name = "p"
    def __init__(self): self.got = []
    def select_action(self, context): return np.array([0])
    def update_params(self, action, reward, context): self.got.append(float(np.ravel(context)[0]))
p = P()
n = 4
rounds = BanditRounds(n_rounds=n, n_actions=2, context=np.arange(n * 1.).reshape(n, 1), action_context=np.eye(2), rewards=np.ones((n, 2)), expected_rewards=np.ones((n, 2)), round_delays=np.full((n, 2), 2))
s = BanditPolicySimulator(policy=p)
s.steps(batch_bandit_rounds=rounds)
s.clear_delayed_queue()
assert p.got == [0., 1., 2., 3.], p.got
"""),
 dict(id="P20_iw_first_pos", prop="P20",
      edits=[("obp/ope/regression_model.py", "action_dist_at_pos = action_dist[np.arange(n), action, pos_][idx]", "action_dist_at_pos = action_dist[np.arange(n), action, 0][idx]")],
      needs="fitting_method 'iw' or 'mrdr', several positions and an evaluation policy that differs between them",
      breaks="the weighted reward models of later positions are fitted with the weights of the first position",
      demo="""
from obp.ope import RegressionModel
from sklearn.linear_model import LinearRegression
seen = []
class M(LinearRegression):
    def fit(self, X, y, sample_weight=None):
        seen.append(np.array(sample_weight)); return super().fit(X, y, sample_weight)
r = np.random.RandomState(0)
n, A, L = 12, 3, 2
pi = r.dirichlet(np.ones(A), size=(n, L)).transpose(0, 2, 1)
a = r.randint(A, size=n); pos = np.arange(n) % 2; ps = np.full(n, .5)
m = RegressionModel(n_actions=A, len_list=L, base_model=M(), fitting_method="iw")
import obp.ope.regression_model as rm
m.base_model_list = [M(), M()]
m.fit(context=r.normal(size=(n, 2)), action=a, reward=r.uniform(size=n), pscore=ps, position=pos, action_dist=pi)
for p in (0, 1):
    i = pos == p
    assert np.allclose(seen[p], pi[np.arange(n), a, p][i] / .5), p
"""),
 dict(id="P21_sample_first_pos", prop="P21",
      edits=[("obp/ope/classification_model.py", "                    action_dist=action_dist[idx][:, :, pos_],\n                    random_state=random_state,", "                    action_dist=action_dist[idx][:, :, 0],\n                    random_state=random_state,")],
      needs="fitting_method 'sample' and evaluation policies that differ between positions",
      breaks="evaluation-policy samples of later positions are drawn from the policy of the first position",
      demo="""
from obp.ope import ImportanceWeightEstimator
from sklearn.linear_model import LogisticRegression
class M(LogisticRegression):
    def fit(self, X, y, sample_weight=None):
        self.seen = (np.array(X), np.array(y)); return super().fit(X, y)
n, A, L = 40, 2, 2
pi = np.zeros((n, A, L)); pi[:, 0, 0] = 1; pi[:, 1, 1] = 1
pos = np.arange(n) % 2
m = ImportanceWeightEstimator(n_actions=A, len_list=L, base_model=M(), fitting_method="sample")
m.base_model_list = [M(), M()]
r = np.random.RandomState(0)
m.fit(context=r.normal(size=(n, 1)), action=r.randint(A, size=n), action_dist=pi, position=pos, random_state=3)
for p in (0, 1):
    X, y = m.base_model_list[p].seen
    assert (X[y == 1][:, 1 + p] == 1).all(), p
"""),
 dict(id="P09_var_unclipped", prop="P09",
      edits=[("obp/ope/estimators_multi.py", "            var_k[k] = np.var(reward[idx_] * iw[idx_])\n        weight_k = n / (var_k * np.sum(n_data_strata / var_k))\n\n        return reward * iw * weight_k[stratum_idx]",
              "            var_k[k] = np.var(reward[idx_] * iw[idx_], ddof=1)\n        weight_k = n / (var_k * np.sum(n_data_strata / var_k))\n\n        return reward * iw * weight_k[stratum_idx]")],
      needs="loggers with different numbers of rounds", breaks="the weights of the loggers use another variance than the documented one (visible when loggers have different sizes)",
      demo="""
from obp.ope import MultiLoggersWeightedInverseProbabilityWeighting as E
r = np.random.RandomState(0)
n, A = 12, 2
s = np.array([0] * 3 + [1] * 9); a = r.randint(A, size=n); y = r.uniform(size=n); ps = r.uniform(.2, .9, size=n)
pi = r.dirichlet(np.ones(A), size=n)[:, :, None]
v = E().estimate_policy_value(reward=y, action=a, pscore=ps, stratum_idx=s, action_dist=pi)
z = y * pi[np.arange(n), a, 0] / ps
var = np.array([z[s == k].var() for k in (0, 1)]); cnt = np.array([3, 9])
w = n / (var * (cnt / var).sum())
assert abs(v - (z * w[s]).mean()) < 1e-12
"""),
 dict(id="P17_norm_all", prop="P17",
      edits=[("obp/dataset/multiclass.py", "            pi_b /= pi_b.sum(1)[\n                :, np.newaxis\n            ]  # re-normalize the probability distribution", "            pi_b /= pi_b.sum(1).mean()  # re-normalize the probability distribution")],
      needs="n_deficient_actions > 0 and rounds in which the predicted class is deficient in some and supported in others",
      breaks="the behaviour policy with deficient actions is not a probability distribution",
      demo="""
from obp.dataset import MultiClassToBanditReduction
from sklearn.linear_model import LogisticRegression
r = np.random.RandomState(0)
X = r.normal(size=(60, 3)); y = r.randint(4, size=60)
d = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=LogisticRegression(), alpha_b=.7, n_deficient_actions=2)
d.split_train_eval(eval_size=.5, random_state=1)
f = d.obtain_batch_bandit_feedback(random_state=2)
assert np.allclose(f["pi_b"][:, :, 0].sum(1), 1), f["pi_b"][:, :, 0].sum(1)
"""),
 dict(id="P18_embed_noise", prop="P18",
      edits=[("obp/dataset/synthetic_embed.py", "                * q_x_e[np.arange(n_rounds), action_embed[:, d], d]", "                * q_x_e[0, action_embed[:, d], d]")],
      needs="a reward function that depends on the context",
      breaks="the sampled rewards use the expected rewards of the first round's context",
      demo="""
from obp.dataset import SyntheticBanditDatasetWithActionEmbeds
def rf(context, action_context, random_state=None, **kw):
    return np.tile((context[:, :1] > 0) * 1., (1, action_context.shape[0]))
d = SyntheticBanditDatasetWithActionEmbeds(n_actions=3, dim_context=1, reward_type="binary", n_cat_per_dim=3, n_cat_dim=2, latent_param_mat_dim=2, reward_function=rf, random_state=3)
f = d.obtain_batch_bandit_feedback(n_rounds=50)
assert np.array_equal(f["reward"], (f["context"][:, 0] > 0) * 1)
"""),
 dict(id="P08_prefix_prob", prop="P08",
      edits=[("obp/dataset/synthetic_slate.py", "                pscore_i *= score_[sampled_action_index]\n                pscore_cascade[i * self.len_list + pos_] = pscore_i\n", "                pscore_cascade[i * self.len_list + pos_] = pscore_i * (\n                    score_[sampled_action_index] if pos_ else score_.max()\n                )\n                pscore_i *= score_[sampled_action_index]\n")],
      needs="a behaviour policy that is not uniform, and a first slot that does not hold the most probable action",
      breaks="the cascade propensity of the first slot is that of the most probable action, not of the logged one",
      demo="""
from obp.dataset import SyntheticSlateBanditDataset, linear_behavior_policy_logit
d = SyntheticSlateBanditDataset(n_unique_action=4, len_list=2, dim_context=2, behavior_policy_function=linear_behavior_policy_logit, random_state=1)
f = d.obtain_batch_bandit_feedback(n_rounds=20)
c, i = f["pscore_cascade"].reshape(20, 2), f["pscore_item_position"].reshape(20, 2)
assert np.allclose(c[:, 0], i[:, 0])
"""),
 dict(id="P07_prev_weight", prop="P07",
      edits=[("obp/ope/estimators_slate.py", "        iw_prev = np.roll(iw, 1)\n        iw_prev[np.array([i * self.len_list for i in range(self.n_rounds_)])] = 1", "        iw_prev = np.roll(iw, 1)\n        iw_prev[: self.len_list][0] = 1")],
      needs="more than one slate",
      breaks="Cascade-DR weights the first slot of every later slate by the last weight of the slate before it",
      demo="""
from obp.ope import SlateCascadeDoublyRobust
r = np.random.RandomState(0)
n, L, A = 3, 2, 2
sid = np.repeat(np.arange(n), L); pos = np.tile(np.arange(L), n); a = r.randint(A, size=n * L); y = r.uniform(size=n * L)
def casc():
    p = r.uniform(.3, .9, size=(n, L)); return p.cumprod(1).ravel()
pb, pe = casc(), casc(); q = r.uniform(size=(n * L * A)); d = r.dirichlet(np.ones(A), size=n * L)
v = SlateCascadeDoublyRobust(len_list=L, n_unique_action=A).estimate_policy_value(slate_id=sid, action=a, reward=y, position=pos, pscore_cascade=pb, evaluation_policy_pscore_cascade=pe, q_hat=q, evaluation_policy_action_dist=d.ravel())
Q = q.reshape(n * L, A); w = pe / pb; prev = np.where(pos == 0, 1, np.roll(w, 1))
e = (w * (y - Q[np.arange(n * L), a]) + prev * (d * Q).sum(1)).sum() / n
assert abs(v - e) < 1e-12, (v, e)
"""),
 dict(id="P10_snipw_bw", prop="P10",
      edits=[("obp/ope/estimators_continuous.py", "        estimated_rewards /= (kernel_func(u) / pscore).mean()", "        estimated_rewards /= kernel_func(u).mean() / pscore.mean()")],
      needs="propensities that differ between rounds",
      breaks="the self-normalisation of kernelized SNIPW is not the mean weight (constant rewards are no longer reproduced)",
      demo="""
from obp.ope import KernelizedSelfNormalizedInverseProbabilityWeighting as E
r = np.random.RandomState(0)
v = E(kernel="gaussian", bandwidth=.5).estimate_policy_value(reward=np.full(9, 2.), action_by_behavior_policy=r.normal(size=9), action_by_evaluation_policy=r.normal(size=9), pscore=r.uniform(.2, 3, size=9))
assert abs(v - 2) < 1e-9, v
"""),
 dict(id="P22_ipw_weight", prop="P22",
      edits=[("obp/policy/offline.py", "                pscore=pscore[position == p],\n            )\n            self.base_classifier_list[p]", "                pscore=np.sort(pscore[position == p]),\n            )\n            self.base_classifier_list[p]")],
      needs="propensities that differ between rounds", breaks="rewards are divided by the propensities of other rounds",
      demo="""
from obp.policy import IPWLearner
from sklearn.linear_model import LogisticRegression
class M(LogisticRegression):
    def fit(self, X, y, sample_weight=None):
        self.seen = np.array(sample_weight); return super().fit(X, y, sample_weight)
r = np.random.RandomState(0)
n = 20
m = IPWLearner(n_actions=2, base_classifier=M())
ps = r.uniform(.2, .9, size=n); y = r.uniform(size=n)
m.base_classifier_list = [M()]
m.fit(context=r.normal(size=(n, 2)), action=np.arange(n) % 2, reward=y, pscore=ps)
assert np.allclose(m.base_classifier_list[0].seen, y / ps)
"""),
 dict(id="P16_dist_last_context", prop="P16", edits=[], needs="", breaks="", demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
