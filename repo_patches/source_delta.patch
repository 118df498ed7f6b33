From 6c18dd727eadcbb5829e47977d52de7856745b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 01/22] fix: reward scheme 3 (CIP-7) could not be used in a
 simulation

Simulation instantiates every scheme with (k, a0) only; give the CIP-7 curve
parameters the defaults of the proposal.
---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From 62a571ce1a355e070be4027a8f3ad5c14154316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 02/22] fix: inactive stake was handed to the last agent

normalize_agent_stake treated the whole inactive fraction as a floating point
error and added it to the stake of the last agent.
---
 logic/sim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..8c49667 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -122,7 +122,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -175,18 +175,19 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, inactive_stake_fraction=0):
         """
-        Normalize agent stakes so that the total stake of the system is equal to 1.
+        Normalize agent stakes so that the total stake of the system (agent stake and inactive stake) is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param inactive_stake_fraction: the fraction of the total stake that does not belong to any agent
         """
-        norm_total_stake = 0
+        norm_total_stake = inactive_stake_fraction
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
         if norm_total_stake != 1:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
+            # sure that the sum of all agent stakes and the inactive stake is equal to 1
             flt_error = 1 - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-- 
2.43.0


From b811e0a738233bb852c1588e5af5a01a897c1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 03/22] fix: increasing k in a later phase crashed the
 simulation

The rankings were only padded for the initial k, so looking up the k-th position
raised IndexError once k grew.
---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 8c49667..9fdd4a6 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -423,6 +423,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        for rankings in (self.pool_rankings, self.pool_rankings_myopic):
+            # agents look up the first k + 1 positions of the rankings, so there must be enough of them for the new k
+            missing = self.reward_scheme.k + 1 - len(rankings)
+            rankings.update([None] * missing)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From c8f7adb60a1318a96ec7b0d1f9a75bd7acbb56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 04/22] fix: updating a pool lost concurrent delegation changes

Under (semi)simultaneous activation an operator's update replaced the live pool
by a copy taken when the strategy was decided, dropping delegations that other
agents had made or withdrawn in the meantime (and later raising KeyError), and
pending delegations to a pool that turned private were still applied.
---
 logic/stakeholder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..8074ac6 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,7 +351,12 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        # the updated pool was drafted when the strategy was decided, so get any changes in delegation that other agents
+        # have made since then (in case of (semi)simultaneous activation)
+        live_pool = self.model.pools[pool_id]
+        updated_pool.delegators = dict(live_pool.delegators)
+        updated_pool.stake = live_pool.stake - (live_pool.pledge - updated_pool.pledge)
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
-- 
2.43.0


From 8c6f2f7bcc2f7732cdf4a34a68641d3bb3955923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 05/22] fix: runs with an automatically chosen seed were not
 reproducible

The generator that assigns profiles and shuffles activations was only seeded
when the seed was passed as a keyword argument, and it was shared by all
simulations of a process.
---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index 9fdd4a6..e3e1ad1 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,7 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        self.random = random.Random(seed)  # own generator, so that the run can be reproduced from the recorded seed
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From be3755177e0b727783278fca34341098b8b8850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 06/22] fix: the command line accepted nan and infinite values

---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..1e18c0c 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -4,7 +4,7 @@ import numpy as np
 from scipy import stats
 import csv
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, inf
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -510,21 +510,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if not 0 < float_value < inf:
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if not 0 <= float_value < inf:
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From 46fa20731fbf9133eb73d02050fd0aa2fecc0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 07/22] fix: for some k the (k+1)-th pool was expected to get
 saturated

For e.g. k = 49 the sum of k saturation thresholds falls short of the total
stake by a rounding error that exceeds MIN_STAKE_UNIT.
---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1e18c0c..ffeff11 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -21,6 +21,7 @@ sns.set_theme()
 
 # MAX_NUM_POOLS = 1000 # potentially needed for run_viz
 MIN_STAKE_UNIT = 2.2e-17
+STAKE_SUM_TOLERANCE = 1e-12  # absorbs the rounding error of sums of stake fractions
 
 
 def read_stake_distr_from_file(num_agents=10000, seed=42):
@@ -207,7 +208,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     better_pools_stake_at_saturation = fsum(
         [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
-    rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
+    rank_in_top_pools = better_pools_stake_at_saturation + STAKE_SUM_TOLERANCE < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
         pool_pledge=pool.pledge,
         pool_stake=pool.stake,
-- 
2.43.0


From 137171980640ee5bd4f95c66360957b56d6db427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 08/22] fix: batch results of runs without convergence were one
 round old

---
 custom_batchrunner.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..f867288 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -181,9 +181,11 @@ def _model_run_func(
 
     data = []
 
-    steps = list(range(0, model.schedule.steps, data_collection_period))
-    if not steps or steps[-1] != model.schedule.steps - 1:
-        steps.append(model.schedule.steps - 1)
+    # the data is collected at the start of each step, and also once more when the maximum number of iterations is reached
+    last_step = max([len(values) for values in model.datacollector.model_vars.values()], default=model.schedule.steps) - 1
+    steps = list(range(0, last_step + 1, data_collection_period))
+    if not steps or steps[-1] != last_step:
+        steps.append(last_step)
 
     for step in steps:
         model_data, all_agents_data = _collect_data(model, step)
@@ -198,7 +200,7 @@ def _model_run_func(
         else:
             stepdata = [{**{"Step": step}, **kwargs, **model_data}]
 
-            if step == model.schedule.steps - 1:
+            if step == last_step:
                 # write end-of-run results to file
                 header = [key for key in stepdata[0].keys() if key not in fixed_params]
                 row = [value for key, value in stepdata[0].items() if key not in fixed_params]
-- 
2.43.0


From 7a81a41942b7ff3042a1e8e41df2eb7ee74a676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 09/22] fix: known inactive stake was ignored for the k of
 later phases

---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index e3e1ad1..a9c97f2 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -95,6 +95,9 @@ class Simulation(Model):
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
             self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            if 'k' in multi_phase_params:
+                # same for the k values of later phases
+                multi_phase_params['k'] = [k / (1 - args['inactive_stake_fraction']) for k in multi_phase_params['k']]
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
-- 
2.43.0


From e0e171db83df0deee3524ef8bd75c38b623f1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 10/22] fix: later phases converged on idle rounds of the
 previous phase

The count of idle rounds was kept across a parameter change, so one idle round
sufficed for the new phase and its equilibrium was dated before the change.
---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index a9c97f2..b2aafaf 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -416,6 +416,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # convergence must be established anew for each phase
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From cc877eb6352b9792dc02300fe4616541a677df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 11/22] fix: delegating to a pool that became unprofitable
 crashed the simulation

Pools that make a loss even when saturated are ranked below the empty
positions of the ranking, which were not skipped when adding up the stake of
the better pools. Such pools exist after the reward scheme parameters change.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index ffeff11..d9fc3c5 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -206,7 +206,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + STAKE_SUM_TOLERANCE < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From 33d3a73820824e3cc53203792b0706db98d11529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 12/22] fix: the command line accepted non-positive numbers of
 idle iterations

Only natural numbers are documented; with 0 or less every run ended after its
first round and was reported to have converged.
---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index d9fc3c5..eb6538c 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -582,7 +582,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From 632a4f38dfc0b2f807f6611a229422a157669eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 13/22] fix: the disparity distribution failed for three or
 fewer agents

---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index eb6538c..c2da4e3 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -53,8 +53,9 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
 
 def generate_stake_distr_disparity(n, x=0.3, c=3):
     stk_dstr = []
+    c = min(c, n)
     high_end_stake = x / c
-    low_end_stake = (1 - x) / (n - c)
+    low_end_stake = (1 - x) / (n - c) if n > c else 0
     stk_dstr.extend([high_end_stake for _ in range(c)])
     stk_dstr.extend([low_end_stake for _ in range(n - c)])
 
-- 
2.43.0


From d3285e3840e531fa0ef8b9d58f95acb3b4303def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 14/22] fix: a known inactive stake fraction could lower k by
 one through rounding errors

---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index d1156be..a2b9fe8 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -21,7 +21,7 @@ class RSS:
     def k(self, k_value):
         if k_value == 0:
             raise ValueError('k parameter of reward scheme cannot be 0')
-        self._k = int(k_value)
+        self._k = int(round(k_value, 9))  # rounding first, so that floating point errors don't lower k by one
         # whenever k changes, the global saturation threshold also changes
         self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
 
-- 
2.43.0


From e181cfd6d2ec13d823ce3e14d2719d27832bac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 15/22] fix: the batch-run script refused reward scheme 4

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..ca3952e 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -44,7 +44,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(5),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From 6046af785b3eaf2cf7764a9e2816b3275a1ff284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 16/22] fix: the batch-run script ignored the given agent
 profile distribution

---
 batch-run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index ca3952e..9466c3d 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -1,4 +1,5 @@
 import argparse
+from functools import partial
 import random
 import pandas as pd
 
@@ -71,7 +72,8 @@ if __name__ == "__main__":
     if seed is None:
         seed = random.randint(0, 9999999)
 
-    args_dict.pop("agent_profile_distr") #todo deal with this instead of popping
+    # a list, but a single value: the same distribution is used in all executions of the batch run
+    model_cls = partial(sim.Simulation, agent_profile_distr=args_dict.pop("agent_profile_distr"))
 
     params = {}
     variable_params = {}
@@ -85,7 +87,7 @@ if __name__ == "__main__":
 
     start_time = time.time()
     results, batch_run_directory = custom_batch_run(
-        sim.Simulation,
+        model_cls,
         parameters=params,
         iterations=1, #todo maybe add as command-line option
         max_steps=params['max_iterations'],
-- 
2.43.0


From bd7e05ea1627f5b02355346e46b281b31ad364eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 17/22] fix: myopic agents crashed when pools were saturated at
 zero stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index c2da4e3..5b8698b 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -284,7 +284,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 0
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 69d28bbf9389ac7be5ab932979be3e875733206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 18/22] fix: stakes separated by commas in a distribution file
 were ignored but for the first

---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index 5b8698b..6e94941 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -32,13 +32,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend(float(value) for value in row if value)
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend(float(value) for value in row if value)
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From b4af892a5f80bee6569b76cb05d0a7f52a335bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 19/22] fix: batch runs with many parameters failed because of
 too long file names

---
 custom_batchrunner.py | 1 +
 logic/helper.py       | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index f867288..0b3d34f 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -73,6 +73,7 @@ def custom_batch_run(
     for i, params in enumerate(final_kwargs_list):
         seq_id = i + 1
         execution_id = '-'.join([str(key) + '-' + str(value) for key, value in params.items() if key not in fixed_params])
+        execution_id = execution_id[:hlp.MAX_EXECUTION_ID_CHARACTERS]
         params.update({'seq_id': seq_id, 'execution_id': execution_id})
     process_func = partial(
         _model_run_func,
diff --git a/logic/helper.py b/logic/helper.py
index 6e94941..c40ce8d 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -21,6 +21,7 @@ sns.set_theme()
 
 # MAX_NUM_POOLS = 1000 # potentially needed for run_viz
 MIN_STAKE_UNIT = 2.2e-17
+MAX_EXECUTION_ID_CHARACTERS = 100  # execution ids are part of file names, whose length is limited
 STAKE_SUM_TOLERANCE = 1e-12  # absorbs the rounding error of sums of stake fractions
 
 
@@ -245,11 +246,10 @@ def calculate_ranks(ranking_dict, *tie_breaking_dicts, rank_ids=True):
 
 def generate_execution_id(args_dict):
     num_args_to_use = 5
-    max_characters = 100
     return "-".join([str(key) + '-' + str(value)
                      if not isinstance(value, list)
                      else str(key) + '-' + "-".join([str(v) for v in value])
-                     for key, value in list(args_dict.items())[:num_args_to_use]])[:max_characters]
+                     for key, value in list(args_dict.items())[:num_args_to_use]])[:MAX_EXECUTION_ID_CHARACTERS]
 
 
 @lru_cache(maxsize=1024)
-- 
2.43.0


From 2eabaf6f41e78602ba5911a7d4dc036a8dac57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 20/22] fix: no run was possible after an interruption while
 the serial number was written

---
 logic/helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index c40ce8d..06b43ca 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -352,8 +352,11 @@ def read_seq_id(filename='sequence.dat'):
 
 
 def write_seq_id(seq, filename='sequence.dat'):
-    with open(filename, 'w') as f:
+    # written to a file of its own first, so that an interruption cannot leave an unreadable sequence file behind
+    temp_filename = filename + '.tmp'
+    with open(temp_filename, 'w') as f:
         f.write(str(seq))
+    pathlib.Path(temp_filename).replace(filename)
 
 
 def write_to_csv(filepath, header, row):
-- 
2.43.0


From 9912cedabdec7b3358d3d220bcad4087107a34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 21/22] fix: parallel executions of a batch run could write the
 header of a results file twice

---
 logic/helper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 06b43ca..1a2b972 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -12,6 +12,11 @@ from matplotlib import ticker
 import seaborn as sns
 import argparse
 
+try:
+    import fcntl
+except ImportError:  # not available on Windows
+    fcntl = None
+
 from logic.stakeholder_profiles import PROFILE_MAPPING
 from logic.reward_schemes import RSS_MAPPING
 from logic.model_reporters import REPORTER_IDS
@@ -361,6 +366,10 @@ def write_seq_id(seq, filename='sequence.dat'):
 
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
+        if fcntl is not None:
+            # executions of a batch run write to the same file in parallel
+            fcntl.flock(f, fcntl.LOCK_EX)
+            f.seek(0, 2)
         writer = csv.writer(f)
         if f.tell() == 0:
             writer.writerow(header)
-- 
2.43.0


From 9ecb629d84e16b1726b126e90207e0f9dd25951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 22/22] fix: saved simulation objects with pools could not be
 loaded

---
 logic/sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index b2aafaf..7c665dd 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -4,6 +4,7 @@ import pathlib
 import math
 import random
 import pickle as pkl
+from functools import partial
 import numpy as np
 from sortedcontainers import SortedList
 from mesa import Model
@@ -112,8 +113,9 @@ class Simulation(Model):
         # Initialize rankings of the system's pools
         self.pool_rankings = SortedList([None] * (self.reward_scheme.k + 1),
                                         key=hlp.pool_comparison_key)  # all pools ranked from best to worst non-myopically
+        # (the key must not depend on the simulation itself, otherwise a saved simulation object cannot be loaded)
         self.pool_rankings_myopic = SortedList([None] * (self.reward_scheme.k + 1),
-                                               key=self.pool_comparison_key_myopic)  # all pools ranked from best to worst myopically
+                                               key=partial(self.pool_comparison_key_myopic, self.reward_scheme))  # all pools ranked from best to worst myopically
 
         total_stake = self.initialize_agents(
             args['agent_profile_distr'], args['cost_min'], args['cost_max'], args['pareto_param'],
@@ -452,13 +454,14 @@ class Simulation(Model):
         if self.generate_graphs:
             self.export_graphs()
 
-    def pool_comparison_key_myopic(self, pool):
+    @staticmethod
+    def pool_comparison_key_myopic(reward_scheme, pool):
         if pool is None:
             return 0, 0, 0
         # sort pools based on their myopic desirability
         # break ties with pool id
         current_profit = hlp.calculate_current_profit(
-            pool.stake, pool.pledge, pool.cost, self.reward_scheme
+            pool.stake, pool.pledge, pool.cost, reward_scheme
         )
         myopic_desirability = hlp.calculate_myopic_pool_desirability(pool.margin, current_profit)
         return -myopic_desirability, pool.id
-- 
2.43.0

