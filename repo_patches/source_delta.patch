From 494f6718baf9f272d061d448b6ffbb0811477a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 01/76] fix: apply damage process tasks in numeric order

Task names start with a number that defines their order. Sorting them as
text put task 10 before task 2.
---
 pelicun/model/damage_model.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..d03a534 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,11 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number at the
+            # beginning of their name
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=_task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
@@ -2021,6 +2024,29 @@ class DamageModel_DS(DamageModel_Base):
         return res
 
 
+def _task_order(task_name: str) -> tuple[float, str]:
+    """
+    Determine the position of a damage process task.
+
+    Tasks are ordered by the number at the beginning of their name,
+    e.g., `2_CMP.A` comes before `10_CMP.B`. Tasks without a number
+    come last, in alphabetical order.
+
+    Parameters
+    ----------
+    task_name: str
+        Name of the task in the damage process.
+
+    Returns
+    -------
+    tuple
+        Sort key.
+
+    """
+    number = task_name.split('_')[0]
+    return (int(number) if number.isdigit() else np.inf, task_name)
+
+
 def _is_for_ds_model(data: pd.DataFrame) -> bool:
     """
     Check if data are for `ds_model`.
-- 
2.43.0


From e6088677637d615c3403fdd83f74d772b08e75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 02/76] fix: process limit states in numeric order

Limit states were processed in the order of their columns when damage
states were numbered and in text order when they were evaluated. With
LS10 or with columns in another order, a lower limit state could override
a higher one.
---
 pelicun/model/damage_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index d03a534..7b186bb 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1126,7 +1126,8 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # in the order of their number, so that higher ones govern
+        ls_list = sorted(dmg_eval.columns.get_level_values(5).unique(), key=int)
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1440,11 +1441,13 @@ class DamageModel_DS(DamageModel_Base):
                 frg_params = self.damage_params.loc[cmp_id, :]
 
                 # get the list of limit states
-                limit_states = []
-
-                for val in frg_params.index.get_level_values(0).unique():
-                    if 'LS' in val:
-                        limit_states.append(val[2:])  # noqa: PERF401
+                limit_states = [
+                    val[2:]
+                    for val in frg_params.index.get_level_values(0).unique()
+                    if 'LS' in val
+                ]
+                # limit states are processed in the order of their number
+                limit_states.sort(key=int)
 
                 ds_id = 0
 
-- 
2.43.0


From ce5dc2d95a00a69c4e19d69310347a8fc1fd088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 03/76] fix: anchor capacities to the first defined limit state

A component whose LS1 is not defined but a later limit state is made the
calculation fail with an IndexError.
---
 pelicun/model/damage_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 7b186bb..0a5be57 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1539,12 +1539,12 @@ class DamageModel_DS(DamageModel_Base):
                         # SimCenter Message Board if you are interested in
                         # such a feature.
                         # Anchor all other limit state random variables to
-                        # the first one to consider the perfect correlation
-                        # between capacities in each LS
-                        if ls_id == limit_states[0]:
-                            anchor = None
-                        else:
+                        # the first defined one to consider the perfect
+                        # correlation between capacities in each LS
+                        if block_i < len(anchor_rvs):
                             anchor = anchor_rvs[block_i]
+                        else:
+                            anchor = None
 
                         # parse theta values for multilinear_CDF
                         if family == 'multilinear_CDF':
@@ -1573,7 +1573,7 @@ class DamageModel_DS(DamageModel_Base):
                         # add the RV to the set of correlated variables
                         frg_rv_set_tags[block_i].append(frg_rv_tag)
 
-                        if ls_id == limit_states[0]:
+                        if anchor is None:
                             anchor_rvs.append(rv)
 
                         # Now add the LS->DS assignments
-- 
2.43.0


From 4f5485b70c7acca94dc3a7619cc21694ec11d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 04/76] fix: multilinear CDF capacities for several blocks

The parsed function replaced the text it is parsed from, so the second
block of a performance group failed to parse it.
---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 0a5be57..ecdc843 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1517,6 +1517,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1546,21 +1561,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = None
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From 7f05262a3e72c7d33c355952cd18cee4d107ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 05/76] fix: list all damage states of models without damage
 state weights

The DamageStateWeights column is optional everywhere else.
---
 pelicun/model/damage_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index ecdc843..8419186 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1986,14 +1986,13 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    ds_weights = cmp_data.get((ls, 'DamageStateWeights'))
+                    if pd.isna(ds_weights):
                         ds_count += 1
 
                     else:
                         # or if there are more than one, how many
-                        ds_count += len(
-                            cmp_data[ls, 'DamageStateWeights'].split('|')
-                        )
+                        ds_count += len(ds_weights.split('|'))
 
             # get the list of valid cmp-loc-dir-uid sets
             if cmp_id not in damaged_components:
-- 
2.43.0


From 203994e03926632d757dc7f6add02477188c6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 06/76] fix: accept components without expression next to ones
 with

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..d7322c5 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1290,6 +1290,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        # the cell is empty for components without an expression
+        if pd.isna(expression):
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 7f52b37869e2dc079c38795713783d1c98d1ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 07/76] fix: normal random variables with parameters per
 realization

---
 pelicun/uq.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..248ae20 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1655,8 +1655,9 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # parameters are in the last axis; there can be one row of them
+        # for each realization
+        theta = np.asarray(theta)[..., :2]
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1688,15 +1689,18 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        # parameters are in the last axis; there can be one row of them
+        # for each realization
+        theta = np.asarray(theta)
+        mean, cov = theta[..., 0], theta[..., 1]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         std = mean * cov
-        theta = np.array([mean, std])
+        theta = np.stack([mean, std], axis=-1)
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
-- 
2.43.0


From 084ba4e78611bb1dda890cc9b3a2974d30102ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 08/76] fix: deterministic random variables with a value per
 realization

---
 pelicun/uq.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 248ae20..759c1ad 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2401,6 +2401,15 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
+        if self.theta.ndim == 2:
+            # one row of parameters for each realization
+            if len(self.theta) != sample_size:
+                msg = (
+                    'The sample size should match the number of rows '
+                    'of the parameter attribute `theta`.'
+                )
+                raise ValueError(msg)
+            return self.theta[:, 0].copy()
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From dacc69aa1b86cd4252cfea82e627f246bda493a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 09/76] fix: do not truncate adjusted capacities given as
 integers

---
 pelicun/model/damage_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 8419186..eef3521 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1482,6 +1482,8 @@ class DamageModel_DS(DamageModel_Base):
 
                     if capacity_adjustment_operation:
                         if family in {'normal', 'lognormal', 'deterministic'}:
+                            # integer parameters would truncate the result
+                            theta = theta.astype(float)
                             # Only scale the median value if ls_id is defined in capacity_adjustment_operation
                             # Otherwise, use the original value
                             new_theta_0 = None
-- 
2.43.0


From 5133866ca4d2990c80859c795098a7defb441ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 10/76] fix: economies of scale within floors and across damage
 states

---
 pelicun/model/loss_model.py | 62 ++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..05c2e77 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1928,25 +1928,21 @@ class RepairModel_DS(RepairModel_Base):
         # calculate the quantities for economies of scale
         self.log.msg('\nAggregating damage quantities...', prepend_timestamp=False)
 
-        if self._asmnt.options.eco_scale['AcrossFloors']:
-            if self._asmnt.options.eco_scale['AcrossDamageStates']:
-                eco_levels = [0]
-                eco_columns = ['cmp']
-
-            else:
-                eco_levels = [0, 4]
-                eco_columns = ['cmp', 'ds']
-
-        elif self._asmnt.options.eco_scale['AcrossDamageStates']:
-            eco_levels = [0, 1]
-            eco_columns = ['cmp', 'loc']
+        # (undamaged quantities are not repaired)
+        damaged = dmg_quantities.loc[
+            :, dmg_quantities.columns.get_level_values('ds') != '0'
+        ]
+        eco_columns = ['cmp', 'ds']
+        if not self._asmnt.options.eco_scale['AcrossFloors']:
+            eco_columns.append('loc')
+        eco_group = damaged.T.groupby(level=eco_columns)
+        eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
 
-        else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+        if self._asmnt.options.eco_scale['AcrossDamageStates']:
+            # every damage state uses the sum over all damage states
+            sum_columns = [x for x in eco_columns if x != 'ds']
+            eco_qnt = eco_qnt.T.groupby(level=sum_columns).transform('sum').T
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
-        eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
         self.log.msg(
@@ -2441,25 +2437,18 @@ class RepairModel_DS(RepairModel_Base):
 
                     # get the corresponding aggregate damage quantities
                     # to consider economies of scale
-                    if 'ds' in eco_qnt.columns.names:
-                        avail_ds = eco_qnt.loc[
-                            :,  # type: ignore
-                            loss_cmp_id,
-                        ].columns.unique(level=0)
+                    avail_ds = eco_qnt.loc[
+                        :,  # type: ignore
+                        loss_cmp_id,
+                    ].columns.unique(level=0)
 
-                        if ds_id not in avail_ds:
-                            continue
+                    if ds_id not in avail_ds:
+                        continue
 
-                        eco_qnt_i = eco_qnt.loc[
-                            :,  # type: ignore
-                            (loss_cmp_id, ds_id),
-                        ].copy()
-
-                    else:
-                        eco_qnt_i = eco_qnt.loc[
-                            :,  # type: ignore
-                            loss_cmp_id,
-                        ].copy()
+                    eco_qnt_i = eco_qnt.loc[
+                        :,  # type: ignore
+                        (loss_cmp_id, ds_id),
+                    ].copy()
 
                     if isinstance(eco_qnt_i, pd.Series):
                         eco_qnt_i = eco_qnt_i.to_frame()
@@ -2486,10 +2475,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
-                    result.columns.names = ['cmp', 'ds', 'loc']
-                else:
-                    result.columns.names = ['cmp', 'ds']
+                result.columns.names = eco_qnt.columns.names
 
                 # save the results to the returned dictionary
                 medians.update({decision_variable: result})
-- 
2.43.0


From 3609767a7e3aae4a08e69775d45e0b5f83f0bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 11/76] fix: damage states with and without random consequences
 in one component

---
 pelicun/model/loss_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 05c2e77..b54a45b 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2013,7 +2013,10 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                # component and damage state pairs with random variables
+                prob_cmp_list = (
+                    std_sample[decision_variable].columns.droplevel([2, 3, 4])
+                ).unique()
             else:
                 prob_cmp_list = []
 
@@ -2055,7 +2058,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2076,7 +2079,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From e6c0f7859d21bb13f006b79af54aa01c7056282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 12/76] fix: consequences split between damage states and loss
 functions

---
 pelicun/model/loss_model.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index b54a45b..ab2966d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1916,9 +1916,19 @@ class RepairModel_DS(RepairModel_Base):
 
         sample_size = len(dmg_quantities)
 
+        # discard the results of a previous calculation
+        self.sample = None
+
+        # If there are no consequences, there are no losses
+        if self.loss_params is None:
+            self.log.msg(
+                'No damage state consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         # If everything is undamaged there are no losses
         if set(dmg_quantities.columns.get_level_values('ds')) == {'0'}:
-            self.sample = None
             self.log.msg(
                 'There is no damage---DV sample is set to None.',
                 prepend_timestamp=False,
@@ -2125,6 +2135,13 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        if not res_list:
+            self.log.msg(
+                'The damage has no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
@@ -2380,10 +2397,17 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # The parameters can be in the other loss model.
+                assert self.loss_params is not None
+                if (
+                    loss_cmp_name,
+                    decision_variable,
+                ) not in self.loss_params.index:
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From a0609ea6fa58fe27215ffbf9356510cf46cfad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 13/76] fix: loss functions for components with a different
 name in the loss map

---
 pelicun/model/loss_model.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ab2966d..ff35d4f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2546,6 +2546,9 @@ class RepairModel_LF(RepairModel_Base):
 
 
         """
+        # discard the results of a previous calculation
+        self.sample = None
+
         if self.loss_params is None:
             return
 
@@ -2564,13 +2567,17 @@ class RepairModel_LF(RepairModel_Base):
         # If `Blocks` information is unspecified add one block per
         # component.
         if 'Blocks' not in cmp_marginal_params.columns:
-            cmp_marginal_params['Blocks'] = 1
+            cmp_marginal_params = cmp_marginal_params.assign(Blocks=1)
         blocks = cmp_marginal_params.loc[index, 'Blocks'].to_dict()
 
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                # The parameters can be missing or in the other model.
+                if (
+                    loss_map[component],
+                    decision_variable,
+                ) not in self.loss_params.index:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2590,9 +2597,16 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # loss parameters of each `cmp`-`decision_variable`
+        component_dvs = performance_group.index.unique(level='cmp')
+        component_params = self.loss_params.loc[
+            [(loss_map[component], dv) for component, dv in component_dvs]
+        ]
+        component_params.index = pd.MultiIndex.from_tuples(component_dvs)
+
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                component_params, performance_group, demand_offset
             )
         )
 
@@ -2764,12 +2778,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From dbebfa6464de5fa11029e11f7eafee8b2971041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 14/76] fix: pair cost and time by the decision variable only

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ff35d4f..8ea16eb 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2325,7 +2325,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2904,7 +2904,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From db314792ab142ca0327e443c87551515cdec5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 15/76] fix: apply the exclusivity of replacement to aggregate
 losses

---
 pelicun/model/loss_model.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8ea16eb..4c78953 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -141,9 +141,9 @@ class LossModel(PelicunModel):
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
+        lf_sample = self.lf_model.sample.set_axis(new_multiindex, axis=1)
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat((self.ds_model.sample, lf_sample), axis=1)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
@@ -918,10 +918,14 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
-        sample = (
-            combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
-        )
+        sample = pd.concat(
+            [
+                model_sample.T.groupby(level=column_levels).sum().T
+                for model_sample in (ds_sample, lf_sample)
+                if model_sample is not None
+            ],
+            axis=1,
+        ).sort_index(axis=1)
 
         #
         # perform loss combinations (special non-additive
-- 
2.43.0


From d2ae5f74d967ca34445e0abb67449cdd007dacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 16/76] fix: allow decision variables without replacement
 threshold or losses

---
 pelicun/model/loss_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4c78953..1274f53 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1411,6 +1411,13 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            # Only consider decision variables with a threshold that
+            # have losses
+            if (
+                sample_dv not in replacement_ratios
+                or sample_dv not in sample.columns.get_level_values('dv')
+            ):
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From bd109f9f59c3375cf6044a51640fcc230ffea485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 17/76] fix: keep the component order when the loss map is
 filled

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1274f53..ce82912 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -241,7 +241,7 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        cmp_list = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -272,7 +272,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_list:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From 3fa77600bfec2f5402d59e4ac27825f20e825852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 18/76] fix: combine losses of exactly the listed components in
 the listed order

---
 pelicun/model/loss_model.py | 43 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index ce82912..8970263 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1160,22 +1160,27 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
-                # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                # determine which of the available groups contain the
+                # components to combine
+                target_locations = [
+                    loc_dir_uid
+                    for available_group, loc_dir_uids in potential_groups[
+                        decision_variable
+                    ].items()
+                    if frozenset(components_to_combine) <= available_group
+                    for loc_dir_uid in loc_dir_uids
+                ]
+                # construct relevant loss sample columns, in the order
+                # of the dimensions of the combination array
+                for loc_dir_uid in target_locations:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
+                    # skip losses that are already part of another
+                    # combination
+                    if any(col not in dsample for col in cols):
+                        continue
                     values = np.column_stack([dsample[col] for col in cols])
                     # define/get interpolation function
                     if (
@@ -1302,9 +1307,15 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                # values along each axis of the array
+                combination_index = tuple(
+                    combination_array[
+                        tuple(
+                            slice(None) if other_axis == axis else 0
+                            for other_axis in range(combination_array.ndim)
+                        )
+                    ]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 05e661c3c8855e061af1ed8fd0a5901548f6c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 19/76] fix: save losses when a component lacks losses of one
 decision variable

---
 pelicun/model/loss_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8970263..a1a66dc 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -741,11 +741,8 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1821,11 +1818,8 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From 6f26d6eb46840eb2f286a087e8a34754ca9d8203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 20/76] fix: allow scaling and converting whole number losses
 to fractions

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a1a66dc..049eb04 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2161,7 +2161,7 @@ class RepairModel_DS(RepairModel_Base):
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-        dv_sample = dv_sample.fillna(0).convert_dtypes()
+        dv_sample = dv_sample.fillna(0).astype(float)
 
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
-- 
2.43.0


From 40bba072fc5f220d55940365ba97552f56a91fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 21/76] fix: keep the precision of multilinear parameters in
 unit conversion

---
 pelicun/model/pelicun_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..0563a7e 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -242,7 +242,7 @@ class PelicunModel:
                     if len(arg) > 0:
                         theta[a_i] = '|'.join(
                             [
-                                ','.join([f'{val:g}' for val in vals])
+                                ','.join([f'{val:.15g}' for val in vals])
                                 for vals in (theta[a_i], arg)
                             ]
                         )
-- 
2.43.0


From a6eb8c63b3735a99b1d8ae47313229d7b23b34c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 22/76] fix: consider the quantity unit of loss functions

---
 pelicun/model/loss_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 049eb04..287930f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2719,12 +2719,20 @@ class RepairModel_LF(RepairModel_Base):
         column = 'LossFunction'
         params = self.loss_params[column].copy()
         assert isinstance(params, pd.DataFrame)
-        self.loss_params.loc[:, column] = self._convert_marginal_params(
+        params = self._convert_marginal_params(
             params,
             units,
             arg_units,
             divide_units=False,
-        ).to_numpy()
+        )
+        # the losses correspond to the reference quantity
+        if ('Quantity', 'Unit') in self.loss_params.columns:
+            params = self._convert_marginal_params(
+                params,
+                self.loss_params['Quantity', 'Unit'],
+                inverse_conversion=True,
+            )
+        self.loss_params.loc[:, column] = params.to_numpy()
         return
 
     def _calc_median_consequence(
-- 
2.43.0


From 2626d5f2a3785bf0805df153e4bb98bce489b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 23/76] fix: report unknown units of loaded data

---
 pelicun/file_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..11ebeab 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -495,11 +495,14 @@ def load_data(  # noqa: C901
             if log:
                 log.msg('Converting units...', prepend_timestamp=False)
 
+            unknown_units = set(units.dropna()) - set(unit_conversion_factors)
+            if unknown_units:
+                msg = f'Specified units not recognized: {sorted(map(str, unknown_units))}'
+                raise ValueError(msg)
+
             conversion_factors = units.map(
                 lambda unit: (
-                    1.00
-                    if pd.isna(unit)
-                    else unit_conversion_factors.get(unit, 1.00)
+                    1.00 if pd.isna(unit) else unit_conversion_factors[unit]
                 )
             )
 
-- 
2.43.0


From fd715dc5072fdebbecd3e4985003b7ad53dede84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 24/76] fix: use the unit of each row of a component assignment

---
 pelicun/model/asset_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..c8c80f6 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -333,7 +333,9 @@ class AssetModel(PelicunModel):
         # group units by cmp id to avoid redundant entries
         self.cmp_units = units.copy().groupby(level=0).first()
 
-        marginal_params = pd.concat([marginal_params, units], axis=1)
+        marginal_params = pd.concat(
+            [marginal_params, units.rename('Units')], axis=1
+        )
 
         cmp_marginal_param_dct: dict[str, list[Any]] = {
             'Family': [],
@@ -362,7 +364,8 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    # rows of a component may use different units
+                    cmp_marginal_param.extend([row.Units] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From 889bedb2742728ba81df9ea314e055a4d65f88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 25/76] fix: report empty ranges and expand mixed lists of
 locations

---
 pelicun/model/pelicun_model.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 0563a7e..ec0d1fd 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -325,15 +325,20 @@ class PelicunModel:
         except ValueError as exc:
             stories = self._asmnt.stories
 
+            if ',' in loc_str:
+                return np.concatenate(
+                    [self._get_locations(part.strip()) for part in loc_str.split(',')]
+                )
+
             if '--' in loc_str:
                 s_low, s_high = loc_str.split('--')
                 s_low = self._get_locations(s_low)[0]
                 s_high = self._get_locations(s_high)[0]
+                if int(s_low) > int(s_high):
+                    msg = f'Empty range of locations: {loc_str}'
+                    raise ValueError(msg) from exc
                 return np.arange(int(s_low), int(s_high) + 1).astype(str)
 
-            if ',' in loc_str:
-                return np.array(loc_str.split(','), dtype=int).astype(str)
-
             if loc_str == 'all':
                 assert stories is not None
                 return np.arange(1, stories + 1).astype(str)
@@ -412,15 +417,20 @@ class PelicunModel:
 
         except ValueError as exc:
             if ',' in dir_str:  # type: ignore
-                return np.array(
-                    dir_str.split(','),  # type: ignore
-                    dtype=int,
-                ).astype(str)  # type: ignore
+                return np.concatenate(
+                    [
+                        self._get_directions(part.strip())
+                        for part in dir_str.split(',')  # type: ignore
+                    ]
+                )
 
             if '--' in dir_str:  # type: ignore
                 d_low, d_high = dir_str.split('--')  # type: ignore
                 d_low = self._get_directions(d_low)[0]
                 d_high = self._get_directions(d_high)[0]
+                if int(d_low) > int(d_high):
+                    msg = f'Empty range of directions: {dir_str}'
+                    raise ValueError(msg) from exc
                 return np.arange(int(d_low), int(d_high) + 1).astype(str)
 
             # else:
-- 
2.43.0


From 6ff73ecda88a4b1d2cca0d433028689fbf57d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 26/76] fix: creating an assessment changed the user's options
 dictionary

---
 pelicun/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..9f1953c 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -43,6 +43,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import pprint
 import sys
@@ -194,7 +195,10 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        # (merging fills in the defaults in place, hence the copy)
+        merged_config_options = merge_default_config(
+            copy.deepcopy(user_config_options)
+        )
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From e9fc8cac444f1615dea685c3c9c0211e4bb93f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 27/76] fix: loading a component sample reset the blocks of the
 loaded component model to one

---
 pelicun/model/asset_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index c8c80f6..dc176be 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -252,6 +252,18 @@ class AssetModel(PelicunModel):
         cmp_marginal_params = cmp_marginal_params.set_index(
             ['cmp', 'loc', 'dir', 'uid']
         )
+        # Keep the number of blocks of a component model that has
+        # already been loaded for the same performance groups.
+        if (
+            self.cmp_marginal_params is not None
+            and 'Blocks' in self.cmp_marginal_params.columns
+        ):
+            known = cmp_marginal_params.index.intersection(
+                self.cmp_marginal_params.index
+            )
+            cmp_marginal_params.loc[known, 'Blocks'] = self.cmp_marginal_params.loc[
+                known, 'Blocks'
+            ].astype('int64')
         self.cmp_marginal_params = cmp_marginal_params
 
         self.log.msg(
-- 
2.43.0


From 6bac9c9bed0df7fdac9c359567a87b37b6ff3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 28/76] fix: recalibration without empirical demands kept the
 empirical data of the previous model

---
 pelicun/model/demand_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index d7322c5..817aade 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -734,6 +734,8 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
-- 
2.43.0


From c6fff763552b306fe1c3ec6ae0d6d51f6120c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 29/76] fix: redefinitions of a consequence filled the gaps of
 its first definition

---
 pelicun/model/loss_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 287930f..698f971 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1673,8 +1673,12 @@ class RepairModel_Base(PelicunModel):
             data = pd.concat((self.loss_params, data), axis=0)
 
         # drop redefinitions of components
+        # (the first definition is used as a whole, it is not completed
+        # with parameters of later ones)
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From 05e3695efb4cdb17113c3f432240bf624d0801c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 30/76] fix: loading loss parameters again converted the units
 of those already loaded

---
 pelicun/model/loss_model.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 698f971..8f1b822 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1628,6 +1628,7 @@ class RepairModel_Base(PelicunModel):
 
     __slots__ = [
         'consequence',
+        'converted',
         'decision_variables',
         'loss_map',
         'loss_params',
@@ -1648,6 +1649,7 @@ class RepairModel_Base(PelicunModel):
         super().__init__(assessment)
 
         self.loss_params: pd.DataFrame | None = None
+        self.converted: set = set()
         self.sample: pd.DataFrame | None = None
         self.consequence = 'Repair'
         self.decision_variables: tuple[str, ...] = ()
@@ -1765,6 +1767,24 @@ class RepairModel_Base(PelicunModel):
             return set(cmp_list)
         return set()
 
+    def _unconverted_units(self) -> pd.Series:
+        """
+        Get the units of the loss parameters still to be converted.
+
+        The units of parameters that are already in base units (those
+        of earlier calls of `load_model_parameters`) are undefined.
+
+        Returns
+        -------
+        Series
+            Units of the loss parameters.
+        """
+        assert self.loss_params is not None
+        units = self.loss_params['DV', 'Unit'].astype(object)
+        units = units.mask(units.index.isin(list(self.converted)))
+        self.converted = set(units.index)
+        return units
+
     @abstractmethod
     def convert_loss_parameter_units(self) -> None:
         """Convert previously loaded loss parameters to base units."""
@@ -2174,7 +2194,7 @@ class RepairModel_DS(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._unconverted_units()
         arg_units = self.loss_params['Quantity', 'Unit']
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
@@ -2718,7 +2738,7 @@ class RepairModel_LF(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._unconverted_units()
         arg_units = self.loss_params['Demand', 'Unit']
         column = 'LossFunction'
         params = self.loss_params[column].copy()
@@ -2733,7 +2753,7 @@ class RepairModel_LF(RepairModel_Base):
         if ('Quantity', 'Unit') in self.loss_params.columns:
             params = self._convert_marginal_params(
                 params,
-                self.loss_params['Quantity', 'Unit'],
+                self.loss_params['Quantity', 'Unit'].where(units.notna()),
                 inverse_conversion=True,
             )
         self.loss_params.loc[:, column] = params.to_numpy()
-- 
2.43.0


From d94194abd418bdeea4636feb25f0481bbf2ef4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 31/76] fix: a demand model without correlation or empirical
 data could not be saved and loaded

---
 pelicun/model/demand_model.py | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 817aade..acf25b2 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -827,11 +827,21 @@ class DemandModel(PelicunModel):
         self.log.msg('Saving demand model...')
 
         # save the correlation and empirical data
-        file_io.save_to_csv(self.correlation, Path(file_prefix + '_correlation.csv'))
-        if self.empirical_data is not None:
+        # (files of another model saved under the same prefix would be
+        # mistaken for parts of this one)
+        correlation_path = Path(file_prefix + '_correlation.csv')
+        if self.correlation is not None and not self.correlation.empty:
+            file_io.save_to_csv(self.correlation, correlation_path)
+        else:
+            correlation_path.unlink(missing_ok=True)
+
+        empirical_path = Path(file_prefix + '_empirical.csv')
+        if self.empirical_data is None:
+            empirical_path.unlink(missing_ok=True)
+        else:
             file_io.save_to_csv(
                 self.empirical_data,
-                Path(file_prefix + '_empirical.csv'),
+                empirical_path,
                 units=self.user_units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
@@ -887,25 +897,26 @@ class DemandModel(PelicunModel):
             correlation_data_source = data_source.get('correlation', None)
         elif isinstance(data_source, str):
             marginal_data_source = data_source + '_marginals.csv'
+            # the empirical data and the correlation are optional
             empirical_data_source = data_source + '_empirical.csv'
+            if not Path(empirical_data_source).exists():
+                empirical_data_source = None
             correlation_data_source = data_source + '_correlation.csv'
+            if not Path(correlation_data_source).exists():
+                correlation_data_source = None
         else:
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
 
         if empirical_data_source is not None:
-            if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
-            ):
-                empirical_data = file_io.load_data(
-                    empirical_data_source,
-                    self._asmnt.unit_conversion_factors,
-                    log=self._asmnt.log,
-                )
-                assert isinstance(empirical_data, pd.DataFrame)
-                self.empirical_data = empirical_data
-                self.empirical_data.columns.names = ['type', 'loc', 'dir']
+            empirical_data = file_io.load_data(
+                empirical_data_source,
+                self._asmnt.unit_conversion_factors,
+                log=self._asmnt.log,
+            )
+            assert isinstance(empirical_data, pd.DataFrame)
+            self.empirical_data = empirical_data
+            self.empirical_data.columns.names = ['type', 'loc', 'dir']
         else:
             self.empirical_data = None
 
-- 
2.43.0


From 88fb01b8557b27b297c1a63657b42146769d2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 32/76] fix: the units of the loaded demand sample were mixed
 up with those of the demand model

---
 pelicun/model/demand_model.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index acf25b2..8f00527 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -99,6 +99,7 @@ class DemandModel(PelicunModel):
         'correlation',
         'empirical_data',
         'marginal_params',
+        'model_units',
         'sample',
         'user_units',
     ]
@@ -118,7 +119,9 @@ class DemandModel(PelicunModel):
         self.marginal_params: pd.DataFrame | None = None
         self.correlation: pd.DataFrame | None = None
         self.empirical_data: pd.DataFrame | None = None
+        # units of the sample, and those of the parameters of the model
         self.user_units: pd.Series | None = None
+        self.model_units: pd.Series | None = None
         self.calibrated = False
 
         self._RVs: uq.RandomVariableRegistry | None = None
@@ -801,6 +804,7 @@ class DemandModel(PelicunModel):
         ]
 
         self.marginal_params = model_params
+        self.model_units = self.user_units
 
         self.log.msg(
             '\nCalibrated demand model marginal distributions:\n'
@@ -842,7 +846,7 @@ class DemandModel(PelicunModel):
             file_io.save_to_csv(
                 self.empirical_data,
                 empirical_path,
-                units=self.user_units,
+                units=self.model_units,
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
             )
@@ -851,11 +855,12 @@ class DemandModel(PelicunModel):
         # treatment, so we can't rely on file_io's universal unit
         # conversion functionality. We do it manually here instead.
         assert isinstance(self.marginal_params, pd.DataFrame)
-        assert isinstance(self.user_units, pd.Series)
+        assert isinstance(self.model_units, pd.Series)
+        model_units = self.model_units.loc[self.marginal_params.index]
         marginal_params_user_units = self._convert_marginal_params(
-            self.marginal_params.copy(), self.user_units, inverse_conversion=True
+            self.marginal_params.copy(), model_units, inverse_conversion=True
         )
-        marginal_params_user_units['Units'] = self.user_units
+        marginal_params_user_units['Units'] = model_units
 
         file_io.save_to_csv(
             marginal_params_user_units,
@@ -959,7 +964,9 @@ class DemandModel(PelicunModel):
         )
 
         self.marginal_params = marginal_params
-        self.user_units = units
+        self.model_units = units
+        if self.sample is None:
+            self.user_units = units
 
         self.log.msg('Demand model successfully loaded.', prepend_timestamp=False)
 
@@ -1227,6 +1234,15 @@ class DemandModel(PelicunModel):
         sample.columns.names = ['type', 'loc', 'dir']
         self.sample = sample
 
+        # the generated demands are in the units of the model
+        if self.model_units is not None:
+            units = self.model_units.copy()
+            units.index = pd.MultiIndex.from_tuples(
+                [tuple(str(label) for label in edp) for edp in units.index],
+                names=sample.columns.names,
+            )
+            self.user_units = units.reindex(sample.columns)
+
         if config.get('DemandCloning', False):
             self.clone_demands(config['DemandCloning'])
 
-- 
2.43.0


From c000b57d2e150df1c98cd122efae15727bb5fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 33/76] fix: demand cloning lost the level names of the sample
 and mixed up units

---
 pelicun/model/demand_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 8f00527..e158a80 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1137,13 +1137,17 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # (the units are not necessarily in the order of the columns)
+        assert self.user_units is not None
+        units = self.user_units.reindex(self.sample.columns)
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=self.sample.columns.names
+        )
         # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
-        assert self.user_units is not None
+        self.user_units = units.iloc[column_index]
         self.user_units.index = self.sample.columns
 
     def generate_sample(self, config: dict) -> None:
-- 
2.43.0


From e96e1c23f47de28d74b7f6ad5c42e948b63f7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 34/76] fix: a reloaded loss sample could not be aggregated or
 saved

---
 pelicun/model/loss_model.py | 68 +++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8f1b822..2cfae60 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -734,16 +734,9 @@ class LossModel(PelicunModel):
             self.log.msg('Saving loss sample...')
 
         assert self.sample is not None
-        assert self.loss_params is not None
-
-        cmp_units = self.loss_params['DV', 'Unit'].sort_index()
-        dv_units = pd.Series(
-            index=self.sample.columns, name='Units', dtype='object'
-        ).sort_index()
-
-        for cmp_id, dv_type in cmp_units.index:
-            if (dv_type, cmp_id) in dv_units.index:
-                dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
+        dv_units = _get_sample_units(
+            self.sample, self.loss_params, self.ds_model.sample_units
+        )
 
         res = file_io.save_to_csv(
             self.sample,
@@ -1367,8 +1360,8 @@ class LossModel(PelicunModel):
             .replace('-parallel', '')
             for x in df_agg.columns.get_level_values(0)
         ]
-        assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        all_units = {**self.ds_model.sample_units, **(self.dv_units or {})}
+        column_units = [all_units[x.title()] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
@@ -1634,6 +1627,7 @@ class RepairModel_Base(PelicunModel):
         'loss_params',
         'missing',
         'sample',
+        'sample_units',
     ]
 
     def __init__(self, assessment: AssessmentBase) -> None:
@@ -1651,6 +1645,8 @@ class RepairModel_Base(PelicunModel):
         self.loss_params: pd.DataFrame | None = None
         self.converted: set = set()
         self.sample: pd.DataFrame | None = None
+        # units of a sample that was loaded rather than calculated
+        self.sample_units: dict[str, str] = {}
         self.consequence = 'Repair'
         self.decision_variables: tuple[str, ...] = ()
         self.loss_map: pd.DataFrame | None = None
@@ -1836,15 +1832,9 @@ class RepairModel_DS(RepairModel_Base):
             self.log.msg('Saving loss sample...')
 
         assert self.sample is not None
-        assert self.loss_params is not None
-        cmp_units = self.loss_params['DV', 'Unit'].sort_index()
-        dv_units = pd.Series(
-            index=self.sample.columns, name='Units', dtype='object'
-        ).sort_index()
-
-        for cmp_id, dv_type in cmp_units.index:
-            if (dv_type, cmp_id) in dv_units.index:
-                dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
+        dv_units = _get_sample_units(
+            self.sample, self.loss_params, self.sample_units
+        )
 
         res = file_io.save_to_csv(
             self.sample,
@@ -1934,6 +1924,7 @@ class RepairModel_DS(RepairModel_Base):
             raise ValueError(msg)
 
         self.sample = sample
+        self.sample_units = dv_units
 
         self.log.msg('Loss sample successfully loaded.', prepend_timestamp=False)
 
@@ -3060,6 +3051,41 @@ def _is_for_lf_model(data: pd.DataFrame) -> bool:
     return 'LossFunction' in data.columns.get_level_values(0)
 
 
+def _get_sample_units(
+    sample: pd.DataFrame,
+    loss_params: pd.DataFrame | None,
+    sample_units: dict[str, str],
+) -> pd.Series:
+    """
+    Get the unit of each column of a loss sample.
+
+    Parameters
+    ----------
+    sample: pd.DataFrame
+        The loss sample.
+    loss_params: pd.DataFrame or None
+        Loss parameters, with the units of the calculated losses.
+    sample_units: dict
+        Units of the decision variables of a loaded sample.
+
+    Returns
+    -------
+    pd.Series
+        Units of the columns of the sample.
+
+    """
+    param_units = {} if loss_params is None else loss_params['DV', 'Unit'].to_dict()
+    return pd.Series(
+        [
+            param_units.get((column[1], column[0]), sample_units.get(column[0]))
+            for column in sample.columns
+        ],
+        index=sample.columns,
+        name='Units',
+        dtype='object',
+    ).sort_index()
+
+
 def _is_for_ds_model(data: pd.DataFrame) -> bool:
     """
     Determine if the data are for the ds_model.
-- 
2.43.0


From 141d7dfaae5ea29206764060f5e794283f76e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 35/76] fix: loss samples without uid level could not be loaded

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2cfae60..d12e776 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1895,7 +1895,7 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
+        units.index.names = names[: units.index.nlevels]
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
-- 
2.43.0


From 20448e3e6d13e64ae7a7641b17945985679465fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 36/76] fix: Normal random variables with a negative mean have
 a positive deviation

---
 pelicun/uq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 759c1ad..1681808 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1699,7 +1699,8 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        # (the dispersion of a negative quantity is positive, too)
+        std = np.abs(mean) * cov
         theta = np.stack([mean, std], axis=-1)
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From 7b50f53493ac6bcebd7878fa7589036baf598c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 37/76] fix: CDF of lognormal variables with a nonpositive
 lower truncation limit

---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 1681808..dfbb8aa 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1755,6 +1755,7 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
 
             p_a, p_b = (
-- 
2.43.0


From aa097d4861cc7989840197defb840982a69b8990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 38/76] fix: Truncation limits of uniform variables restrict
 their support

---
 pelicun/uq.py | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index dfbb8aa..94588c9 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1865,6 +1865,36 @@ class UniformRandomVariable(RandomVariable):
             )
             raise ValueError(msg)
 
+    def _get_bounds(self) -> tuple[float, float]:
+        """
+        Return the ends of the support within the truncation limits.
+
+        Returns
+        -------
+        tuple
+            Lower and upper bounds of the truncated distribution.
+
+        Raises
+        ------
+        ValueError
+          If the truncation limits exclude the support.
+        """
+        a, b = self.theta[:2]
+
+        if np.isnan(a):
+            a = -np.inf
+        if np.isnan(b):
+            b = np.inf
+
+        # limits outside of the support have no effect
+        t_a, t_b = self.truncation_limits
+        a, b = np.fmax(a, t_a), np.fmin(b, t_b)
+        if a > b:
+            msg = 'The truncation limits exclude the support of the distribution.'
+            raise ValueError(msg)
+
+        return a, b
+
     def cdf(self, values: np.ndarray) -> np.ndarray:
         """
         Return the CDF at the given values.
@@ -1880,15 +1910,7 @@ class UniformRandomVariable(RandomVariable):
           1D float ndarray containing CDF values
 
         """
-        a, b = self.theta[:2]
-
-        if np.isnan(a):
-            a = -np.inf
-        if np.isnan(b):
-            b = np.inf
-
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        a, b = self._get_bounds()
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1910,15 +1932,7 @@ class UniformRandomVariable(RandomVariable):
           Inverse CDF values
 
         """
-        a, b = self.theta[:2]
-
-        if np.isnan(a):
-            a = -np.inf
-        if np.isnan(b):
-            b = np.inf
-
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        a, b = self._get_bounds()
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From a4a534ff17c76bab5319521975e7d373811617b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 39/76] fix: Empirical variables map the upper end of the
 domain

---
 pelicun/uq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 94588c9..5c35d00 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2262,6 +2262,8 @@ class EmpiricalRandomVariable(RandomVariable):
 
         """
         s_ids = (values * len(self.theta)).astype(int)
+        # the upper end of the domain belongs to the last data point
+        s_ids = np.minimum(s_ids, len(self.theta) - 1)
         return self.theta[s_ids]
 
 
-- 
2.43.0


From 066e11c36785ce340f2204eaea0087c3265b5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 40/76] fix: Accept multinomial weights that add up to one
 within roundoff

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 5c35d00..5de9519 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2468,7 +2468,7 @@ class MultinomialRandomVariable(RandomVariable):
             msg = f'{self.distribution} RVs do not support truncation'
             raise NotImplementedError(msg)
         self.distribution = 'multinomial'
-        if np.sum(theta) > 1.00:
+        if np.sum(theta) > 1.00 + 1e-9:
             msg = (
                 f'The set of p values provided for a multinomial '
                 f'distribution shall sum up to less than or equal to 1.0. '
-- 
2.43.0


From b3888bf2d40e62b9786ea471a584d8f14b5236c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 41/76] fix: Multinomial variables leave the uniform sample
 unchanged

---
 pelicun/uq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 5de9519..99a9454 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2500,6 +2500,8 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # the values may belong to other variables, too
+        values = np.array(values, dtype=float)
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From 69aeb07d4be5bed2b6961cc89881d8a379e3c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 42/76] fix: Scale only the calibration limits given with the
 unit

---
 pelicun/model/demand_model.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index e158a80..0ce74fc 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -585,6 +585,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
+            # the settings are provided in the following unit
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             # load limits
             for lim in (
                 'CensorLower',
@@ -595,18 +598,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From 973d22d5aaf11dc805362a062bd862ffaa8c2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 43/76] fix: Calibration settings of a demand type inherit the
 family

---
 pelicun/model/demand_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 0ce74fc..61c8073 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -583,7 +583,8 @@ class DemandModel(PelicunModel):
                 cols = tuple(cols_lst)
 
             # load the distribution family
-            cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
+            if demand_type == 'ALL' or 'DistributionFamily' in settings:
+                cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
             # the settings are provided in the following unit
             scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-- 
2.43.0


From 77b9323830f69afb972dced6b5a0a40a735cf1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 44/76] fix: Calibration settings of a full demand type are not
 ignored

---
 pelicun/model/demand_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 61c8073..7d299d2 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -577,7 +577,7 @@ class DemandModel(PelicunModel):
                 cols_lst = []
 
                 for d_type in active_d_types:
-                    if d_type.split('_')[0] == demand_type:
+                    if demand_type in {d_type, d_type.split('_')[0]}:
                         cols_lst.append(d_type)  # noqa: PERF401
 
                 cols = tuple(cols_lst)
@@ -656,7 +656,8 @@ class DemandModel(PelicunModel):
         parse_settings(cal_df, config['ALL'], demand_type='ALL')
 
         # then parse the additional settings and make the necessary adjustments
-        for demand_type in config:  # noqa: PLC0206
+        # (those of a particular type, such as SA_1.0, go after those of SA)
+        for demand_type in sorted(config, key=lambda name: '_' in name):
             if demand_type != 'ALL':
                 parse_settings(cal_df, config[demand_type], demand_type=demand_type)
 
-- 
2.43.0


From e5b106ed42ec5efaf9a99db172cd6f76f9d7739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 45/76] fix: Additional uncertainty of normal demands respects
 its unit

---
 pelicun/model/demand_model.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 7d299d2..b0b39c8 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -607,11 +607,9 @@ class DemandModel(PelicunModel):
                     settings['AddUncertainty'], 'AddUncertainty'
                 )
 
-                # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
-                    sig_increase *= scale_factor
-
+                # the scale applies if the target distribution family is normal
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
+                cal_df.loc[list(cols), 'SigScale'] = scale_factor
 
         def get_filter_mask(
             demand_sample: pd.DataFrame,
@@ -643,6 +641,7 @@ class DemandModel(PelicunModel):
                 'TruncateLower',
                 'TruncateUpper',
                 'SigIncrease',
+                'SigScale',
                 'Theta_0',
                 'Theta_1',
             ],
@@ -784,12 +783,22 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # the increase is in the unit of the demand for normal distributions
+            family = model_params.loc[:, 'Family']
+            normal = family.isin(['normal', 'normal_cov', 'normal_std']).to_numpy()
+            sig_scale = model_params.loc[:, 'SigScale'].fillna(1.0).to_numpy()
+            sig_inc[normal] *= sig_scale[normal]
+
+            # and some of those have a coefficient of variation as Theta_1
+            has_cov = family.isin(['normal', 'normal_cov']).to_numpy()
+            sig_inc[has_cov] /= np.abs(model_params['Theta_0'].to_numpy()[has_cov])
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
                 sig_0**2.0 + sig_inc**2.0,  # type: ignore
             )
 
         # remove unneeded fields from model_params
-        for col in ('SigIncrease', 'CensorLower', 'CensorUpper'):
+        for col in ('SigIncrease', 'SigScale', 'CensorLower', 'CensorUpper'):
             model_params = model_params.drop(col, axis=1)
 
         # reorder the remaining fields for clarity
-- 
2.43.0


From 6463c54bdb3d10687f8f3546291663484e0d57fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 46/76] fix: reject clones named like a demand that stays in
 the sample

---
 pelicun/model/demand_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index b0b39c8..857ffa6 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1140,6 +1140,10 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # a copy cannot have the name of a column that stays in the sample
+        if len(set(column_values)) != len(column_values):
+            msg = 'Cloned demands are already in the demand sample.'
+            raise ValueError(msg)
         # (the units are not necessarily in the order of the columns)
         assert self.user_units is not None
         units = self.user_units.reindex(self.sample.columns)
-- 
2.43.0


From bd621ce7b1ac282f688399acb579c39b8b0a281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 47/76] fix: leave the caller's residual drift settings
 unchanged

---
 pelicun/assessment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..a1819b8 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,8 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            # (the configuration of the caller stays as it is)
+            residual_drift_inference = dict(residual_drift_inference)
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From 8cc9e42eec472612c6351263b81b43ea1729b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 48/76] fix: keep the blanks inside warnings written to the
 warning file

---
 pelicun/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 9f1953c..c4c5ede 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -464,7 +464,7 @@ class Logger:
                         f.write(
                             message.replace(Fore.RED, '')
                             .replace(Style.RESET_ALL, '')
-                            .replace(self.spaces, '')
+                            .replace('\n' + self.spaces, '\n')
                         )
 
         self.emitted = self.emitted.union(set(self.warning_stack))
-- 
2.43.0


From 8e14ec126538228f79d3d9d05c9da28ed4397051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 49/76] fix: accept lists where unspecified values are looked
 for

---
 pelicun/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index c4c5ede..304590c 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -1850,7 +1850,8 @@ def is_unspecified(d: dict[str, Any], path: str) -> bool:
     value = get(d, path, default=None)
     if value is None:
         return True
-    if pd.isna(value):
+    # (pd.isna works element-wise on lists)
+    if pd.api.types.is_scalar(value) and pd.isna(value):
         return True
     if value == {}:
         return True
-- 
2.43.0


From 382aae402ec03a885d10d09da0b36b551a46330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 50/76] fix: download all files if the list of changed files is
 incomplete

---
 pelicun/tools/dlml.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..dbff7dd 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -206,7 +206,19 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        # If the histories have diverged, only the changes since their
+        # common ancestor are listed, and only on one side.
+        elif compare_data.get('status') == 'diverged':
+            logger.info('The commits have diverged. Downloading all files.')
+            return None
+
+        files = compare_data.get('files', [])
+        # GitHub lists at most 300 files
+        if len(files) >= 300:  # noqa: PLR2004
+            logger.info('Too many files have changed. Downloading all files.')
+            return None
+
+        return {file_info['filename'] for file_info in files}
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 436008845b906842a589c8de59128c3c3e306413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 51/76] fix: forget what the library cache says when an update
 starts

---
 pelicun/tools/dlml.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index dbff7dd..6f678bd 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -651,18 +651,22 @@ def download_data_files(  # noqa: C901
 
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
-    # Initialize cache for this commit if using caching
-    if use_cache:
-        # Keep track of files that should exist
-        new_cache = {
-            'commit_sha': commit_sha,
-            'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
-            'files': {},
-        }
+    # Until all files are in place, the folder holds a mix of versions:
+    # an interrupted update should not leave a cache that claims otherwise.
+    cache_file.unlink(missing_ok=True)
+
+    # Initialize cache for this commit. It is needed even if the old
+    # cache is not used, because the files change.
+    # Keep track of files that should exist
+    new_cache: Dict[str, Any] = {  # noqa: UP006
+        'commit_sha': commit_sha,
+        'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
+        'files': {},
+    }
 
-        # Add version metadata for tracking
-        new_cache['version'] = cache_meta['version']
-        new_cache['download_type'] = cache_meta['download_type']
+    # Add version metadata for tracking
+    new_cache['version'] = cache_meta['version']
+    new_cache['download_type'] = cache_meta['download_type']
 
     # Count total files for progress reporting
     total_files = len(files_to_download)
@@ -704,13 +708,12 @@ def download_data_files(  # noqa: C901
             remote_url = f'{file_download_base_url}/{file_path}'
             _download_file(remote_url, str(local_path))
 
-            if use_cache:
-                new_cache['files'][file_path] = get_file_hash(str(local_path))
+            new_cache['files'][file_path] = get_file_hash(str(local_path))
 
             pbar.update(1)
 
     # Save the new cache
-    if use_cache:
+    if use_cache or new_cache['files']:
         save_cache(str(cache_file), new_cache)
 
     logger.info(
-- 
2.43.0


From bb3bcfa0a300eed368b73bf99c3da1420a11f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 52/76] fix: update the version of the library when its commit
 is known under another

---
 pelicun/tools/dlml.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 6f678bd..03baeab 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -609,8 +609,17 @@ def download_data_files(  # noqa: C901
         old_commit_sha = cache_data.get('commit_sha')
 
         # Check if we already have the latest data
-        if old_commit_sha == commit_sha:
+        # (without a manifest, nothing can be assumed about the other files)
+        if (
+            old_commit_sha == commit_sha
+            and (target_data_abs_dir / 'model_files.txt').exists()
+        ):
             logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
+            # the same commit can be known under another version
+            if cache_data.get('version') != cache_meta['version']:
+                cache_data.update(cache_meta)
+                cache_data.pop('last_version_check', None)
+                save_cache(str(cache_file), cache_data)
             return
 
         # Determine which files have changed if we are updating
-- 
2.43.0


From 5c71f33f56d594d52b688f4b00a1c4fe2ea7d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 53/76] fix: accept the target after the options of dlml update

---
 pelicun/cli.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pelicun/cli.py b/pelicun/cli.py
index 8323520..215d752 100644
--- a/pelicun/cli.py
+++ b/pelicun/cli.py
@@ -163,7 +163,6 @@ Examples:
     parser_dlml.add_argument(
         'target',
         nargs='?',
-        default='latest',
         help='Version tag (e.g., v1.2.0) or "latest" for the latest release. '
         'Use "commit <sha>" to specify a commit SHA.',
     )
@@ -184,7 +183,18 @@ Examples:
     parser_dlml.set_defaults(func=dlml_update)
 
     # Parse the arguments from the command line
-    args = parser.parse_args()
+    args, remaining = parser.parse_known_args()
+
+    if args.subcommand == 'dlml' and args.target is None:
+        # argparse considers the optional target missing when an option
+        # separates it from the action (e.g., `update --no-cache v1.2.0`)
+        if remaining and not remaining[0].startswith('-'):
+            args.target = remaining.pop(0)
+        else:
+            args.target = 'latest'
+
+    if remaining:
+        parser.error(f'unrecognized arguments: {" ".join(remaining)}')
 
     # Call the function associated with the chosen subcommand
     if args.subcommand == 'regional_sim':
-- 
2.43.0


From 659ab0b77e563f3c728280a37d639b03a56ab380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 54/76] fix: read the model library where it is downloaded

---
 pelicun/file_io.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 11ebeab..37c9db3 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -50,6 +50,7 @@ import numpy as np
 import pandas as pd
 
 from pelicun import base
+from pelicun.tools.dlml import get_dlml_data_dir
 
 convert_dv_name = {
     'DV_rec_cost': 'Reconstruction Cost',
@@ -383,13 +384,8 @@ def substitute_default_path(
             method_folder = resource_paths[method_name]
 
             # Substitute the default path with a full path to the file
-            updated_path = str(
-                Path(base.pelicun_path)
-                / 'resources'
-                / 'DamageAndLossModelLibrary'
-                / method_folder
-                / file_name
-            )
+            # (in the folder where the library is downloaded to)
+            updated_path = str(get_dlml_data_dir() / method_folder / file_name)
             updated_paths.append(updated_path)
         else:
             updated_paths.append(data_path_str)
-- 
2.43.0


From 598b8c77cd55d161cf6f58bbe6f76c5815248247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 55/76] fix: label intensity measures in the order of the
 demands

---
 pelicun/tools/regional_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..d0771f2 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -481,7 +481,8 @@ def process_buildings_chunk(
     # 3 Event-to-Building Mapping
     # Map event IMs to building centroids using the nearest neighbor method
 
-    im_list = list(im_types.keys())
+    # (in the order in which they are sorted in the grid data below)
+    im_list = sorted(im_types.keys())
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-- 
2.43.0


From 6ec1e1627afad6d3e8199f8a56a36f1a6cb11166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:35 +0000
Subject: [PATCH 56/76] fix: keep undamaged buildings in regional results

---
 pelicun/tools/regional_sim.py | 55 +++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index d0771f2..7aba4d5 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -305,6 +305,10 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        # there are no losses if none of these buildings are damaged
+        if assessment.loss.sample is None:
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -337,10 +341,14 @@ def _calculate_losses_hazus_eq(
             grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
 
             # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            loss_results[DV_type].append(grp_repair_dv)
 
-    repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
-    repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
+    # (the empty table is for the case of no losses at all)
+    empty = pd.DataFrame(index=full_dmg_sample.index, dtype=float)
+    repair_costs = pd.concat([empty, *loss_results['Cost']], axis=1)
+    repair_costs = repair_costs.sort_index(axis=1).T
+    repair_times = pd.concat([empty, *loss_results['Time']], axis=1)
+    repair_times = repair_times.sort_index(axis=1).T
 
     # finish by putting the full damage sample back to the assessment object
     assessment.damage.load_sample(full_dmg_sample)
@@ -383,6 +391,13 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    # there are no losses if none of the buildings are damaged
+    if assessment.loss.sample is None:
+        empty = pd.DataFrame(
+            columns=assessment.damage.save_sample().index, dtype=float
+        )
+        return empty, empty.copy() if 'Time' in decision_variables else None
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -426,6 +441,35 @@ def _calculate_losses_general(
     return repair_costs, repair_times
 
 
+def _add_undamaged_buildings(
+    repair_sample: pd.DataFrame, damage_df: pd.DataFrame
+) -> pd.DataFrame:
+    """
+    Add the missing zero losses of buildings without damage.
+
+    Parameters
+    ----------
+    repair_sample : pd.DataFrame
+        Losses with buildings in the rows and realizations in the columns
+    damage_df : pd.DataFrame
+        Damage states in the same format
+
+    Returns
+    -------
+    pd.DataFrame
+        Losses that include all buildings without damage
+
+    """
+    undamaged = damage_df.index[(damage_df == 0).all(axis=1)]
+
+    missing = undamaged.difference(repair_sample.index)
+
+    repair_sample = repair_sample.reindex([*repair_sample.index, *missing])
+    repair_sample.loc[missing] = 0.0
+
+    return repair_sample.sort_index()
+
+
 def process_buildings_chunk(
     bldg_df_chunk: pd.DataFrame,
     grid_points: pd.DataFrame,
@@ -705,6 +749,11 @@ def process_buildings_chunk(
             assessment, dl_method, decision_variables
         )
 
+    # Buildings without damage do not appear in the loss samples
+    repair_costs = _add_undamaged_buildings(repair_costs, damage_df)
+    if repair_times is not None:
+        repair_times = _add_undamaged_buildings(repair_times, damage_df)
+
     return demand_sample, damage_df, repair_costs, repair_times
 
 
-- 
2.43.0


From 696e7ed134b09dfcb05a21c99ce15d5ece48282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 57/76] fix: leave added damage state columns of cleared
 components empty

---
 pelicun/model/damage_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index eef3521..1e5b08c 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1945,7 +1945,9 @@ class DamageModel_DS(DamageModel_Base):
             ensuring that all possible damage states are
             represented. The new columns are filled with zeros,
             indicating no occurrence of those damage states in the
-            sample.
+            sample. They are undefined wherever there are no results
+            at all for the component (e.g., its damage was cleared by
+            a damage process).
 
         Notes
         -----
@@ -2022,6 +2024,13 @@ class DamageModel_DS(DamageModel_Base):
             index=dmg_sample.index,
         )
 
+        # the damage states are undefined where there are no results for a
+        # component
+        no_results = (dmg_sample.T.groupby(level=[0, 1, 2, 3]).count() == 0).T
+        res = res.mask(
+            no_results.reindex(columns=res.columns.droplevel(4)).to_numpy()
+        )
+
         # replace zeros wherever the dmg_sample has results
         res.loc[:, dmg_sample.columns.to_list()] = dmg_sample
 
-- 
2.43.0


From b4535aa5355739cc06d90449398737986e796df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 58/76] fix: keep the default output settings apart from the
 configurations

---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..5316584 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -45,6 +45,7 @@ import argparse
 import json
 import os
 import sys
+from copy import deepcopy
 from pathlib import Path
 from time import gmtime, strftime
 from typing import Hashable
@@ -791,9 +792,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +834,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +854,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From 04df58b1a2ccb6d1127dbf76c6c9293418c1600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:21 +0000
Subject: [PATCH 59/76] fix: remove the JSON results of earlier calculations

---
 pelicun/tools/DL_calculation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 5316584..790ab35 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -122,6 +122,11 @@ known_output_files = [
     'DL_summary_stats.csv',
 ]
 
+# every result can also be saved as a JSON file
+known_output_files += [
+    f'{Path(filename).stem}.json' for filename in known_output_files
+]
+
 full_out_config = {
     'Demand': {'Sample': True, 'Statistics': True},
     'Asset': {'Sample': True, 'Statistics': True},
-- 
2.43.0


From 11373ce0016a7bc3309df72b1fb757ae4cf526a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 60/76] fix: respect collapse and irreparable entries of
 user-defined loss maps

---
 pelicun/assessment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index a1819b8..2649bf8 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1418,8 +1418,10 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            # keep the entries that the user specified
+            for driver in ('collapse', 'irreparable'):
+                if driver not in loss_map.index:
+                    loss_map.loc[driver, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From 2ab26d6f32dddf07bdba994de7651ec7656b085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 61/76] fix: accept integer collapse limits

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 2649bf8..06e3422 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, int, float))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 40ec21c09067e4c80f68ff7e6207a03b6eb43d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 62/76] fix: look at the right floor for acceleration-based
 collapse

---
 pelicun/assessment.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 06e3422..fe6c9e1 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1033,7 +1033,6 @@ class DLCalculationAssessment(AssessmentBase):
                 coll_cmp_name = 'collapse'
 
             adf.loc[coll_cmp_name, ('Demand', 'Directional')] = 1
-            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = 0
 
             coll_dem = collapse_fragility['DemandType']
 
@@ -1068,6 +1067,12 @@ class DLCalculationAssessment(AssessmentBase):
                     f'{coll_dem_name}|{coll_dem_spec}'
                 )
 
+            # the component is located where the demand is, regardless of
+            # the default offset of that demand type
+            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = (
+                -self.options.demand_offset.get(coll_dem, 0)
+            )
+
             if length_unit is None:
                 msg = 'A length unit is required.'
                 raise ValueError(msg)
-- 
2.43.0


From a0bc60b65ae156334ed92d8c8b58a99b9c65de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:19 +0000
Subject: [PATCH 63/76] fix: let user consequences override the library

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index fe6c9e1..a8add20 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1351,8 +1351,8 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df; later databases take precedence
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From 89c59e1635e6064c040a5b284d39c119a94e078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 64/76] fix: infer units of effective drift and link rotation
 demands

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index a8add20..5212b6d 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1659,7 +1659,7 @@ def _add_units(raw_demands: pd.DataFrame, length_unit: str) -> pd.DataFrame:
         demands.iloc[0, edp_mask] = length_unit  # type: ignore
 
     # drift ratio
-    rot_edps = ['PID', 'PRD', 'DWD', 'RDR', 'PMD', 'RID']
+    rot_edps = ['PID', 'PRD', 'DWD', 'RDR', 'PMD', 'RID', 'EDR', 'LR', 'LBR']
     edp_mask = np.isin(demand_cols, rot_edps)
 
     if np.any(edp_mask):
-- 
2.43.0


From 84671f94192a30b22dc9eac39032eb43f35e4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:29 +0000
Subject: [PATCH 65/76] fix: accept a component sample file as the inventory

---
 pelicun/settings/input_schema.json | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..819c605 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -169,8 +169,17 @@
               "type": "string"
             }
           },
-          "required": [
-            "ComponentAssignmentFile"
+          "anyOf": [
+            {
+              "required": [
+                "ComponentAssignmentFile"
+              ]
+            },
+            {
+              "required": [
+                "ComponentSampleFile"
+              ]
+            }
           ]
         },
         "Damage": {
-- 
2.43.0


From 559f5f7dd0bcadea32b3f442cf2c8372584d662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:36 +0000
Subject: [PATCH 66/76] fix: save an empty summary as JSON

---
 pelicun/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/base.py b/pelicun/base.py
index 304590c..6cc3f35 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -848,6 +848,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    # there is nothing to convert if there are no labels
+    if not index_labels:
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
-- 
2.43.0


From 4aad46292509c870f397030e35e571481ae73750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 67/76] fix: pair wind and flood losses by their models, not by
 name

---
 pelicun/assessment.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 5212b6d..cebc9c2 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1455,8 +1455,21 @@ class DLCalculationAssessment(AssessmentBase):
 
             # get the component names
             # assume that the first and second component in the loss map
-            # are the wind and flood components, respectively
-            wind_comp, flood_comp = loss_map.index.to_numpy()[[0, 1]]
+            # are the wind and flood components, respectively, unless
+            # the demand types of their loss functions tell otherwise
+            # (an automatic loss map lists components alphabetically)
+            flood_models: set = set()
+            if self.loss.lf_model.loss_params is not None:
+                demand_type = self.loss.lf_model.loss_params['Demand', 'Type']
+                flood_models.update(
+                    demand_type.index.get_level_values(0)[
+                        demand_type == 'Peak Inundation Height'
+                    ]
+                )
+            wind_comp, flood_comp = sorted(
+                loss_map.index.to_numpy()[[0, 1]],
+                key=lambda cmp: loss_map.loc[cmp, 'Repair'] in flood_models,
+            )
 
             loss_combination = {
                 'Cost': {
-- 
2.43.0


From a94317a6fa940a1413ca05d916c15b41bf2b800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 68/76] fix: allow a demand to appear twice in an expression

---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 857ffa6..2a9db98 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1479,7 +1479,7 @@ def _assemble_required_demand_data(
     demand_dict = {}
 
     for edps, expression in required_edps:
-        edp_values = {}
+        edp_values = []
 
         for edp in edps:
             edp_type, location, direction = edp.split('-')
@@ -1515,13 +1515,13 @@ def _assemble_required_demand_data(
                 # directional
                 demand = demand_sample[edp_type, location, direction].to_numpy()
 
-            edp_values[edp] = demand
+            edp_values.append(demand)
 
         # evaluate expression
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
+            for i, edp_value in enumerate(edp_values):
                 value_dict[f'X{i + 1}'] = edp_value
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
-- 
2.43.0


From 76833d16a4bcc7d47a4a10b6617ad4a3308941ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:51 +0000
Subject: [PATCH 69/76] fix: convert the units of tables with one item per row

---
 pelicun/file_io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 37c9db3..2c83260 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -188,8 +188,8 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
-            cols_to_scale = data.columns[cols_to_scale_bool]
+            cols_to_scale = data.select_dtypes(include=[np.number]).columns
+            data = data.astype(dict.fromkeys(cols_to_scale, float))
 
         labels_to_keep = []
 
@@ -214,9 +214,7 @@ def save_to_csv(  # noqa: C901
                         active_labels.append(label)  # noqa: PERF401
 
                 if len(active_labels) > 0:
-                    data.loc[np.array(active_labels), np.array(cols_to_scale)] *= (
-                        unit_factor
-                    )
+                    data.loc[active_labels, cols_to_scale] *= unit_factor
 
             labels_to_keep += active_labels
 
-- 
2.43.0


From 31a87eaa6af077b0a4fdfed0aff9e626157f8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:50 +0000
Subject: [PATCH 70/76] fix: load consequence databases named by their legacy
 files

---
 pelicun/assessment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index cebc9c2..2738d0d 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1535,6 +1535,10 @@ class DLCalculationAssessment(AssessmentBase):
                     consequence_db_path = file_io.substitute_default_path(
                         [f'PelicunDefault/{method_name}'], log=self.log
                     )[0]
+                    # from here on, refer to the method by its current name
+                    method_name = file_io.legacy_names[  # noqa: PLW2901
+                        method_name.split('.')[0]
+                    ]
                 else:
                     consequence_db_path = file_io.substitute_default_path(
                         [f'PelicunDefault/{method_name}/consequence_repair.csv'],
-- 
2.43.0


From afbecf57b8f371b3cc7c2f7d6ffd3cf23b5d6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 71/76] fix: report zero losses when nothing in the inventory
 has consequences

---
 pelicun/model/loss_model.py     | 13 ++++++++++++-
 pelicun/tools/DL_calculation.py | 18 ++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index d12e776..ffe4ef1 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -891,7 +891,18 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            damage_sample = self._asmnt.damage.ds_model.sample
+            no_losses = pd.DataFrame(
+                0.00,
+                index=[0] if damage_sample is None else damage_sample.index,
+                columns=_construct_columns(),
+            )
+            if not future:
+                return no_losses
+            return (
+                base.convert_to_MultiIndex(no_losses, axis=1),
+                pd.DataFrame(index=no_losses.index),
+            )
 
         #
         #  handle `replacement`, regardless of whether
diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 790ab35..edbe845 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1441,10 +1441,20 @@ def _loss_save(  # noqa: C901
         Whether to aggregate colocated components. Default is False.
 
     """
-    out = assessment.loss.save_sample(save_units=True)
-    assert isinstance(out, tuple)
-    repair_sample, repair_units_series = out
-    repair_units = repair_units_series.to_frame().T
+    if assessment.loss.sample is None:
+        # no component has losses: there are only aggregate results
+        repair_sample = repair_units = pd.DataFrame()
+        aggregate_colocated = False
+        output_config = {
+            key: val
+            for key, val in output_config.items()
+            if key in {'AggregateSample', 'AggregateStatistics'}
+        }
+    else:
+        out = assessment.loss.save_sample(save_units=True)
+        assert isinstance(out, tuple)
+        repair_sample, repair_units_series = out
+        repair_units = repair_units_series.to_frame().T
 
     if aggregate_colocated:
         if 'ds' in repair_units.columns.names:
-- 
2.43.0


From f8bd0ec2edd430edb5c0b31cee1a6e2a838b124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:25 +0000
Subject: [PATCH 72/76] fix: fit demands the same way in any unit, from the
 better starting point

---
 pelicun/uq.py | 72 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 99a9454..021ee8f 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -854,6 +854,22 @@ def fit_distribution_to_sample(  # noqa: C901
     # Otherwise, we run the optimization that aims to find the parameters that
     # maximize the likelihood of observing the samples
     else:
+        # The optimization is done on standardized data, so that its outcome
+        # does not depend on the unit of the samples. All distributions are
+        # normal here, and the normal_cov parameterization keeps their standard
+        # deviation positive.
+        loc, scale = inits.T.copy()
+        samples_raw, tr_limits_raw = samples, tr_limits
+        samples = (samples - loc[:, np.newaxis]) / scale[:, np.newaxis]
+        tr_limits, det_limits = (
+            (np.array(limits, dtype=float) - loc[:, np.newaxis])
+            / scale[:, np.newaxis]
+            for limits in (tr_limits, det_limits)
+        )
+        std_dist_list = np.full(n_dims, 'normal_cov')
+        moments = np.transpose([np.zeros(n_dims), np.ones(n_dims)])
+        inits = moments.copy()
+
         # First, optimize for each marginal independently
         for dim in range(n_dims):
             inits_i = inits[dim : dim + 1]
@@ -888,7 +904,7 @@ def fit_distribution_to_sample(  # noqa: C901
                     bnd_upper[dim],
                     samples[dim : dim + 1],
                     [
-                        dist_list[dim],
+                        std_dist_list[dim],
                     ],
                     [
                         tr_limits_i,
@@ -905,7 +921,7 @@ def fit_distribution_to_sample(  # noqa: C901
             theta = _get_theta(
                 out,
                 inits_i,
-                np.array([dist_list[dim]]),
+                np.array([std_dist_list[dim]]),
             )
             inits[dim] = theta[0]
 
@@ -913,33 +929,41 @@ def fit_distribution_to_sample(  # noqa: C901
         # we attempt the multivariate fitting using the marginal results as
         # initial parameters.
         if multi_fit or (censored_count > 0):
-            bnd_lower = bnd_lower.flatten()
-            bnd_upper = bnd_upper.flatten()
-
-            out_m = minimize(
-                _neg_log_likelihood,
-                np.zeros(inits.size),
-                args=(
-                    inits,
-                    bnd_lower,
-                    bnd_upper,
-                    samples,
-                    dist_list,
-                    tr_limits,
-                    det_limits,
-                    censored_count,
-                    True,
-                ),
-                method='BFGS',
-                options={'maxiter': 50},
-            )
+            # The moments are the better starting point when the samples tell
+            # little about the tails of a truncated distribution.
+            neg_log_likelihood = np.inf
+            for start in (inits, moments):
+                out_m = minimize(
+                    _neg_log_likelihood,
+                    np.zeros(start.size),
+                    args=(
+                        start,
+                        bnd_lower,
+                        bnd_upper,
+                        samples,
+                        std_dist_list,
+                        tr_limits,
+                        det_limits,
+                        censored_count,
+                        True,
+                    ),
+                    method='BFGS',
+                    options={'maxiter': 50},
+                )
 
-            out = out_m.x.reshape(inits.shape)
-            theta = _get_theta(out, inits, dist_list)
+                if out_m.fun < neg_log_likelihood:
+                    neg_log_likelihood = out_m.fun
+                    out = out_m.x.reshape(start.shape)
+                    theta = _get_theta(out, start, std_dist_list)
 
         else:
             theta = inits
 
+        # return to the original scale
+        theta[:, 0] = loc + scale * theta[:, 0]
+        theta[:, 1] *= scale
+        samples, tr_limits = samples_raw, tr_limits_raw
+
     # Calculate rho in the standard normal space because we will generate new
     # samples using that type of correlation (i.e., Gaussian copula)
     std_samples = _get_std_samples(samples, theta, tr_limits, dist_list)
-- 
2.43.0


From f33f66fd3ebd6f2367f57eb93e317b1880382be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:50 +0000
Subject: [PATCH 73/76] fix: ignore detection limits that no sample has
 exceeded

---
 pelicun/uq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 021ee8f..6c9a3c5 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -789,6 +789,10 @@ def fit_distribution_to_sample(  # noqa: C901
     if (dist_list.shape[0] == 1) and (n_dims != 1):
         dist_list = np.tile(dist_list[0], n_dims)
 
+    # Detection limits that no sample has exceeded do not influence the fit
+    if censored_count == 0:
+        det_limits = np.full(det_limits.shape, np.nan)
+
     # Convert samples and limits to log space if the distribution is lognormal
     for d_i, distr in enumerate(dist_list):
         if distr == 'lognormal':
-- 
2.43.0


From 163657dd867d4b1867912008575e662f38b6ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 74/76] fix: keep away from degenerate parameters when fitting
 demands

---
 pelicun/uq.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 6c9a3c5..bf8b454 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -622,6 +622,11 @@ def _neg_log_likelihood(  # noqa: C901
     # transform every sample into standard normal space
     std_samples = _get_std_samples(samples, theta, tr_limits, dist_list)
 
+    # parameters that leave some of the samples without a place in that space,
+    # or make them degenerate, are not acceptable
+    if not np.all(np.isfinite(std_samples)):
+        return 1e10
+
     # if the problem is more than one dimensional, get the correlation matrix
     if n_dims > 1:
         rho_hat = _get_std_corr_matrix(std_samples)
@@ -671,7 +676,10 @@ def _neg_log_likelihood(  # noqa: C901
         cen_likelihood = 1.0
 
     # take the product of likelihoods calculated in each dimension
-    scale = _mvn_scale(std_samples.T, rho_hat)
+    try:
+        scale = _mvn_scale(std_samples.T, rho_hat)
+    except np.linalg.LinAlgError:
+        return 1e10
     # TODO(AZ): We can almost surely replace the product of likelihoods
     # with a call to mvn()
     likelihoods = np.prod(likelihoods, axis=0) * scale
-- 
2.43.0


From 1f69761df4bba2e0005810dc0539e7af9150e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:07 +0000
Subject: [PATCH 75/76] fix: accept residual drift configurations as documented
 in the single-call assessment

---
 pelicun/assessment.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 2738d0d..e3da6c5 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -451,9 +451,15 @@ class Assessment(AssessmentBase):
         self.demand.generate_sample(demand_config)
 
         if residual_drift_configuration:
+            # (`parameters` is what earlier versions used for `params`)
+            params_key = (
+                'params'
+                if 'params' in residual_drift_configuration
+                else 'parameters'
+            )
             self.demand.estimate_RID_and_adjust_sample(
-                residual_drift_configuration['parameters'],
-                residual_drift_configuration['method'],
+                residual_drift_configuration[params_key],
+                residual_drift_configuration.get('method', 'FEMA P58'),
             )
 
         if collapse_fragility_configuration:
-- 
2.43.0


From 30cb25f2b5085762d80d4cc13f82b331e8d203f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:07 +0000
Subject: [PATCH 76/76] fix: put the collapse demand at the configured location
 and direction

---
 pelicun/assessment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index e3da6c5..9d97cf5 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -467,6 +467,8 @@ class Assessment(AssessmentBase):
                 collapse_fragility_configuration['label'],
                 collapse_fragility_configuration['value'],
                 collapse_fragility_configuration['unit'],
+                str(collapse_fragility_configuration.get('location', '0')),
+                str(collapse_fragility_configuration.get('direction', '1')),
             )
 
         self.stories = num_stories
-- 
2.43.0

