From 35d8fb24c59706e7582c1c008c3455793eaaf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:44 +0000
Subject: [PATCH 01/28] fix: forward estimated_pscore in SG-IPW/SG-DR
 hyperparameter tuning

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..e9add54 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1355,6 +1355,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1435,6 +1436,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1564,6 +1566,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1655,6 +1658,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From 361d9335826610e64507d6c34096999b907bfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:22 +0000
Subject: [PATCH 02/28] fix: check the given p_e_a array in OffPolicyEvaluation
 inputs (was an unbound name)

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From 296a5b0c786a1f6c96194d3cd3eb6020043797be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:38 +0000
Subject: [PATCH 03/28] fix: pass pscore_avg to _estimate_round_rewards in the
 balanced multi-logger estimators' estimate_interval

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From dfa4714eac3d46ecf49696a184667fefeebe0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:29 +0000
Subject: [PATCH 04/28] fix: MIPS embedding selection returns the last accepted
 candidate (theta_j was stale or unbound)

---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..e869af3 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -385,7 +385,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -473,7 +473,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From d3684b222a5b646cc7ed1ac5c595a8ae44374ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 05/28] fix: standardise (x - mean) / std in synthetic base
 reward function z_score

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..c784374 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -824,8 +824,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From 27a8c5a07dc720928d4e9142e06edd339d1f6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:42 +0000
Subject: [PATCH 06/28] fix: draw continuous synthetic rewards around the
 location parameter, not the already truncation-corrected mean

---
 obp/dataset/synthetic.py       | 4 +++-
 obp/dataset/synthetic_multi.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index c784374..248c740 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -327,6 +327,8 @@ class SyntheticBanditDataset(BaseBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        # location of the reward distribution, before the correction for truncation
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -365,7 +367,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..5ed9c8c 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -270,6 +270,8 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        # location of the reward distribution, before the correction for truncation
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -305,7 +307,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From e82f3811d67bedffb360334181445086159ac8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:42 +0000
Subject: [PATCH 07/28] fix: honour per-logger beta and pi_b support in
 multi-logger synthetic data with deficient actions

---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 5ed9c8c..971eb69 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -295,7 +295,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -304,7 +304,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
-- 
2.43.0


From 6e0124a1c416c7d40da0f7e0583e16aac2c58799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:53 +0000
Subject: [PATCH 08/28] fix: initialize() of the linear and logistic policies
 resets their learned parameters

---
 obp/policy/linear.py   | 9 +++++++++
 obp/policy/logistic.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..6f667c3 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,15 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Set the parameters of the linear models to their prior values."""
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..bd7f56e 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -60,6 +60,15 @@ class BaseLogisticPolicy(BaseContextualPolicy):
 
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
+        self._initialize_models()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        self._initialize_models()
+
+    def _initialize_models(self) -> None:
+        """Set the logistic regression models to their priors."""
         self.model_list = [
             MiniBatchLogisticRegression(
                 lambda_=self.lambda_list[i],
-- 
2.43.0


From 81d1a7084b615d44742a5fba97725e12cb6242f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:53 +0000
Subject: [PATCH 09/28] fix: logistic policies learn from zero rewards (the
 loss expects labels in {-1, 1})

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index bd7f56e..344e3c6 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -350,7 +350,7 @@ class MiniBatchLogisticRegression:
         self._m = minimize(
             self.loss,
             self._m,
-            args=(X, y),
+            args=(X, 2 * y - 1),  # the loss is defined for labels in {-1, 1}
             jac=self.grad,
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
-- 
2.43.0


From 9d19cdb42ac97f61a665c4ea5e3f663330f37b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:53 +0000
Subject: [PATCH 10/28] fix: Laplace update of the logistic policies uses the
 predicted probability

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 344e3c6..c771aec 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -355,7 +355,7 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = (1 + np.exp(-X.dot(self._m))) ** (-1)
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
-- 
2.43.0


From 9f019b02bbd101e7f0800eb0145a27f572abfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 11/28] fix: import tqdm correctly in run_bandit_replay (module
 object is not callable)

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..584d142 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
-- 
2.43.0


From b8863245ff0a45e52b88e884ccc8fdfa6dec8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 12/28] fix: run_bandit_replay covers actions the policy
 selects but the log does not contain

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 584d142..66ae6f6 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -76,7 +76,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=policy_.n_actions,
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From c61cf4f1893eb330ab9a0aa16dff0c02e3f8f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 13/28] fix: calc_ground_truth_policy_value accepts logged data
 without positions

---
 obp/simulator/simulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..5a5f2f3 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -477,11 +477,14 @@ def calc_ground_truth_policy_value(
 
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
-- 
2.43.0


From a716bea8a6f31cd5fbca0ec509403c5ea211fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 14/28] fix: next_bandit_round returns a single context row and
 all action contexts, as the rounds of a batch do

---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 5a5f2f3..6327821 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -238,8 +238,8 @@ class BanditEnvironmentSimulator:
 
         return BanditRound(
             n_actions=self.n_actions,
-            context=context,
-            action_context=self.action_context[0],
+            context=context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
-- 
2.43.0


From b6a06fef66b985609914cefa2eeceac4606e8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:46 +0000
Subject: [PATCH 15/28] fix: CoefficientDrifter keeps the transition at the end
 of the interval when an interval is split over calls

---
 obp/simulator/coefficient_drifter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..2106a75 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -193,7 +193,7 @@ class CoefficientDrifter:
 
         shift_remainder = self.available_rounds - rounds
         if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+            transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From d17e6ae0c180bc3883b10ebd74477d3373b764a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 16/28] fix: importance-weight and propensity models predict
 without positions (single position) and skip positions absent from the new
 data

---
 obp/ope/classification_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..7e2a2b1 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,9 +203,13 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if context[idx].shape[0] == 0:
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -333,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if context[test_idx][idx].shape[0] == 0:
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
@@ -521,6 +527,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From a01cbb988cd8554c53b7d85fd6a39a3954c71763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 17/28] fix: QLearner passes a normalised uniform action_dist
 so that the iw and mrdr fitting methods work

---
 obp/policy/offline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..b0d0ed0 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -441,6 +441,7 @@ class QLearner(BaseOfflinePolicyLearner):
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
         unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist /= self.n_actions
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From 358835fb70bf1b1c5868d03cfc752a9f18ba8488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 18/28] fix: one-hot labels of MultiClassToBanditReduction use
 the re-indexed classes

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From ed9d6b336c09eaac08a7028d7fa8a475784518c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 19/28] fix: the rounds of the loggers never exceed n_rounds
 (rounding could leave a negative number for the last one)

---
 obp/dataset/synthetic_multi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 971eb69..9c112f8 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -259,8 +259,11 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
-        n_rounds_strata = [int(np.round(n_rounds * rho)) for rho in self.rhos]
-        n_rounds_strata[-1] += n_rounds - np.sum(n_rounds_strata)
+        n_rounds_strata = []
+        for rho in self.rhos:
+            n_rounds_left = n_rounds - sum(n_rounds_strata)
+            n_rounds_strata.append(min(int(np.round(n_rounds * rho)), n_rounds_left))
+        n_rounds_strata[-1] += n_rounds - sum(n_rounds_strata)
         stratum_idx = np.concatenate(
             [np.ones(n_k, dtype=int) * k for k, n_k in enumerate(n_rounds_strata)]
         )
-- 
2.43.0


From 80942f94d78ef985a7f255309ec94410c90c881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 20/28] fix: embedding-dimension weights stay finite when the
 dirichlet draw underflows

---
 obp/dataset/synthetic_embed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..422b0c9 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -268,6 +268,10 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
             size=1,
         )
+        if np.isnan(cat_dim_importance).any():
+            # the dirichlet weights underflow when all concentration parameters are tiny
+            n_relevant_cat_dim = self.n_cat_dim - self.n_irrelevant_cat_dim
+            cat_dim_importance[self.n_irrelevant_cat_dim :] = 1.0 / n_relevant_cat_dim
         cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
         # calc expected rewards given context and action (n_data, n_actions)
-- 
2.43.0


From d8bda4edea720c82552e30708e442ceddecdb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 21/28] fix: one-round synthetic data with truncated-normal
 draws has one-dimensional rewards and actions

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 248c740..0ddab04 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_state,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..0979ec8 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=n_rounds,
                 random_state=self.random_state,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From 798fc3d40ccedf024c377c83bdd70554bc67c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 22/28] fix: expected rewards of slates use the context of
 their own round (the number of slates per round was multiplied by len_list)

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..820b964 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1427,7 +1427,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int8")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From 0ae94b4ed48dd71be8cb23b305b2fcfcfc024771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 23/28] fix: slate actions above 127 and expected rewards above
 65504 overflowed int8 and float16

---
 obp/dataset/synthetic_slate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 820b964..e232e14 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions)
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1426,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list)).astype(int)
     n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
@@ -1434,7 +1434,7 @@ def action_interaction_reward_function(
     )
     if reward_type == "binary":
         expected_reward = logit(expected_reward)
-    expected_reward_factual = np.zeros_like(action_2d, dtype="float16")
+    expected_reward_factual = np.zeros(action_2d.shape)
     for pos_ in np.arange(len_list):
         tmp_fixed_reward = expected_reward[
             np.arange(len(action_2d)) // n_enumerated_slate_actions,
-- 
2.43.0


From a6b1e4d86973c0c01058a3d9cc728ec374e7fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 24/28] fix: cascade_decay rewards are affected by the previous
 slots (W(i, j) is the effect of slot i on slot j)

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index e232e14..5b051e2 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1368,7 +1368,7 @@ def action_interaction_reward_function(
     expected_reward_factual: array-like, shape (n_rounds, len_list)
         When reward_structure='standard_additive', :math:`q_k(x, a) = g(g^{-1}(f(x, a(k))) + \\sum_{j \\neq k} W(a(k), a(j)))`.
         When reward_structure='cascade_additive', :math:`q_k(x, a) = g(g^{-1}(f(x, a(k))) + \\sum_{j < k} W(a(k), a(j)))`.
-        Otherwise, :math:`q_k(x, a) = g(g^{-1}(f(x, a(k))) + \\sum_{j \\neq k} g^{-1}(f(x, a(j))) * W(k, j)`
+        Otherwise, :math:`q_k(x, a) = g(g^{-1}(f(x, a(k))) + \\sum_{j \\neq k} g^{-1}(f(x, a(j))) * W(j, k)`
 
     """
     check_array(array=context, name="context", expected_dim=2)
@@ -1463,7 +1463,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 1a32969038850e42579ef38662c2079511283efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 25/28] fix: the optimal slate policy takes the actions with
 the highest base rewards and the anti-optimal one those with the lowest

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 5b051e2..95a9faa 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = (-base_expected_reward).argsort(axis=1)[
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From 5fc79fdb05475681d0f473e0e961ed5fc0cd9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 26/28] fix: ground-truth slate values under the cascade click
 model (the discount of a slot depends on the sampled clicks, not on their
 expectations)

---
 obp/dataset/synthetic_slate.py | 48 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 95a9faa..38af6b9 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -996,21 +996,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 )
 
                 # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._apply_click_model(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
@@ -1019,6 +1007,36 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return policy_value
 
+    def _apply_click_model(self, expected_slate_rewards: np.ndarray) -> np.ndarray:
+        """Calculate the expected slot rewards under the click model.
+
+        Parameters
+        -----------
+        expected_slate_rewards: array-like, shape (n_slates, len_list)
+            Expected slot rewards of slates given examination and no clicks at the previous slots.
+
+        Returns
+        ----------
+        expected_slate_rewards: array-like, shape (n_slates, len_list)
+            Expected slot rewards of slates, marginalized over the clicks at the previous slots.
+
+        """
+        expected_slate_rewards = expected_slate_rewards * self.exam_weight
+        if self.reward_type == "binary":
+            conditional_rewards = expected_slate_rewards.copy()
+            # moments[m] is the expectation of the (m+1)-th power of the discount factor
+            moments = [np.ones(len(conditional_rewards))] * self.len_list
+            for pos_ in np.arange(1, self.len_list):
+                moments = [
+                    moments[m]
+                    - (1 - self.attractiveness[pos_] ** (m + 1))
+                    * conditional_rewards[:, pos_ - 1]
+                    * moments[m + 1]
+                    for m in range(self.len_list - pos_)
+                ]
+                expected_slate_rewards[:, pos_] *= moments[0]
+        return expected_slate_rewards
+
     def generate_evaluation_policy_pscore(
         self,
         evaluation_policy_type: str,
-- 
2.43.0


From 99f686247826c16975a330ce3081e91bc9c4f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 27/28] fix: ground-truth slate values of context-free rewards
 are averaged over the rounds and follow the click model

---
 obp/dataset/synthetic_slate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 38af6b9..b30f708 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -961,7 +961,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._apply_click_model(expected_slate_rewards)
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
-- 
2.43.0


From 23ce49103c5b5c35fbf827cc0b3104031e0619b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:20 +0000
Subject: [PATCH 28/28] fix: expected rewards and ground-truth values of
 continuous slate rewards are the means of the truncated normal distribution
 they are drawn from

---
 obp/dataset/synthetic_slate.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index b30f708..95187f6 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -823,6 +823,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        if self.reward_type == "continuous":
+            # correct expected_reward_factual, as we use the truncated normal distribution here
+            expected_reward_factual = self._calc_truncated_mean(expected_reward_factual)
 
         return dict(
             n_rounds=n_rounds,
@@ -1037,8 +1040,20 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for m in range(self.len_list - pos_)
                 ]
                 expected_slate_rewards[:, pos_] *= moments[0]
+        else:
+            expected_slate_rewards = self._calc_truncated_mean(expected_slate_rewards)
         return expected_slate_rewards
 
+    def _calc_truncated_mean(self, expected_reward: np.ndarray) -> np.ndarray:
+        """Calculate the means of continuous rewards, which follow the truncated normal distribution."""
+        return truncnorm.stats(
+            a=(self.reward_min - expected_reward) / self.reward_std,
+            b=(self.reward_max - expected_reward) / self.reward_std,
+            loc=expected_reward,
+            scale=self.reward_std,
+            moments="m",
+        )
+
     def generate_evaluation_policy_pscore(
         self,
         evaluation_policy_type: str,
-- 
2.43.0

